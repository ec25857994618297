"""Programs over the user-facing tensor type, analysed at every party with real protocols over the 64-bit ring.

Operands carry the plaintext values at which the resulting value graphs are interpreted; shares are random."""
from .common import *


def fr(x):
    if isinstance(x, (list, tuple)):
        return [fr(y) for y in x]
    return Fr(x)


def fa(v):
    v = fr(v)
    a = np.array(v, dtype=object) if isinstance(v, list) else arr(v)
    return a


def X(name, vals, precision=16, kind="priv", dtype="float"):
    """operand with given plaintext values; vals: one array or several (one per interpretation point)"""
    pts = [fa(v) for v in (vals if isinstance(vals, tuple) else (vals,))]
    o = Op(kind, name, pts[0].shape, precision, dtype)
    o.pts = pts
    return o


def env_for(ops, n, point):
    env = {}

    def one(o):
        if o.kind == "list":
            for x in o.value:
                one(x)
        pts = getattr(o, "pts", None)
        if pts is None:
            return
        v = pts[point % len(pts)]
        dims = ",".join(map(str, o.shape))
        if o.kind == "pub":
            env["%s<%s>%s" % (o.name, dims, o.dtype[0])] = v
            return
        sc = 2 ** (16 if o.precision is None else o.precision) if o.kind == "priv" else 1
        shs = [np.empty(o.shape, dtype=object) for _ in range(n)]
        for i in range(v.size):
            e = v.reshape(-1)[i] * sc
            if e.denominator != 1:
                raise Undecided("operand value not representable")
            e = int(e)
            rest = [h64("sh", o.name, i, point, q) - 2 ** 63 for q in range(1, n)]
            f = e
            for z in rest:
                f = f ^ z if o.kind == "bin" else f - z
            for q, z in enumerate([f] + rest):
                shs[q].reshape(-1)[i] = wrap64(Fr(z))
        for q in range(n):
            env["%s<%s>l@%d" % (o.name, dims, q)] = shs[q]
    for o in ops:
        one(o)
    return env


class Prog(Case):
    """ops: operands; do(it, *tensors); spec(*plaintext arrays)"""

    def __init__(self, label, ops, do, spec, ns=(1, 2), points=None, **kw):
        if points is None:
            points = max([len(o.pts) for o in flat(ops) if hasattr(o, "pts")] or [1])
        self.judge = kw.pop("judge", None)
        self.may_raise = kw.pop("may_raise", None)
        super().__init__(label, ops, do, spec, ns=ns, wraps0=kw.pop("wraps0", False), layer="mpc", points=points, **kw)


def flat(ops):
    out = []
    for o in ops:
        out += flat(o.value) if o.kind == "list" else [o]
    return out


def plains(case, c, n, p):
    def pv(o):
        if o.kind == "list":
            return [pv(x) for x in o.value]
        if hasattr(o, "pts"):
            return o.pts[p % len(o.pts)]
        return plain(c, o, n)
    return [pv(o) for o in case.ops]


def check_prog(case, n, runs, extra=None):
    if case.may_raise and all(rr.died and rr.raises and all(r[1] == case.may_raise for r in rr.raises) for rr in runs):
        return
    live(runs, case.label)
    for p in range(case.points):
        c = ctx_for(runs, p, {**env_for(case.ops, n, p), **(extra or {})}, ring=True)
        recs = [r.value["value"] for r in runs]
        ins = plains(case, c, n, p)
        for k in range(n if getattr(case, "agree", False) else 1):      # plain results: of every party
            got = value_of(c, runs, recs[k:] + recs[:k])
            if case.judge:
                d = case.judge(got, *ins)
            else:
                want = case.spec(*ins)
                d = cmp_nested(got, list(want) if isinstance(want, tuple) else want, case.tol)
            if d:
                raise Violation("%s with %d parties: %s%s" % (case.label, n, d, " (party %d)" % k if k else ""))


def prog_obligations(chk, rule, progs, ns=None):
    for case in progs:
        for n in (case.ns if ns is None else ns):
            def f(case=case, n=n):
                runs = run_case(case, n)
                chk.saw(runs)
                check_prog(case, n, runs)
            chk.ob(rule, "%s n=%d" % (case.label, n), f)


def op2(sym):
    """binary operator of the language"""
    def f(it, x, y):
        return it.binop(sym, x, y)
    return f


def untouched_obligations(chk, rule, progs, ns=(1,)):
    """after a program every operand has its old contents and scale"""
    for case in progs:
        for n in ns:
            def f(case=case, n=n):
                runs = run_case(case, n)
                chk.saw(runs)
                if case.may_raise and all(rr.died for rr in runs):
                    return
                live(runs, case.label)
                c = ctx_for(runs, 0, env_for(case.ops, n, 0), ring=True)
                ins = plains(case, c, n, 0)
                for i, o in enumerate(case.ops):
                    if o.kind not in ("priv", "bin", "pub"):
                        continue
                    recs = [r.value["after"][i] for r in runs]
                    d = cmp_nested(value_of(c, runs, recs), ins[i])
                    if d:
                        raise Violation("%s with %d parties modifies its operand %d: %s" % (case.label, n, i, d))
                    if o.kind == "priv":
                        for rec in recs:
                            if num(c.scalar(rec[2])) != 2 ** (16 if o.precision is None else o.precision):
                                raise Violation("%s changes the scale of its operand %d" % (case.label, i))
            chk.ob(rule, "%s n=%d" % (case.label, n), f)
