"""Share-level cases: operations on ArithmeticSharedTensor / BinarySharedTensor analysed at every party.

A Case builds operands (private sharings, public tensors, constants), calls one operation of the source at every
party, and states the plaintext meaning of the call.  Several properties use the same cases with different oracles."""
import numpy as np
from ..evalq import h64
from .base import *


class Op:
    """operand descriptors"""

    def __init__(self, kind, name=None, shape=None, precision=None, dtype="float", value=None, enc=None):
        self.kind, self.name, self.shape, self.precision, self.dtype, self.value, self.enc = \
            kind, name, shape, precision, dtype, value, enc


def P(name, shape, precision=16):
    return Op("priv", name, shape, precision)


def B(name, shape, bits=None):
    return Op("bin", name, shape, 0)


def U(name, shape, dtype="float"):
    return Op("pub", name, shape, dtype=dtype)


def K(value):
    return Op("const", value=value)


def L(*ops):
    return Op("list", value=list(ops))


def I(values):
    """public index tensor with known entries"""
    return Op("index", value=values)


MPCT = "crypten.mpc.mpc.MPCTensor"


def build(it, o, layer="prim"):
    if layer == "mpc" and o.kind in ("priv", "bin"):
        c = cls(it, MPCT)
        pt = it.mod_get(it.import_module("crypten.mpc.ptype"), "ptype")
        return call(it, it.getattr(c, "from_shares"), new_sym_tensor(it, o.name, o.shape, "long", it.rank), precision=o.precision,
                    ptype=it.getattr(pt, "arithmetic" if o.kind == "priv" else "binary"))
    if o.kind == "list":
        return it.new_list([build(it, x, layer) for x in o.value])
    if o.kind == "priv":
        return arith(it, o.name, o.shape, o.precision)
    if o.kind == "bin":
        c = cls(it, BST)
        return call(it, it.getattr(c, "from_shares"), new_sym_tensor(it, o.name, o.shape, "long", it.rank), precision=0)
    if o.kind == "pub":
        return new_sym_tensor(it, o.name, o.shape, o.dtype)
    if o.kind == "index":
        return tm.EXT["torch.tensor"](it, [pylist(it, o.value)], {"dtype": ExtV("torch.long")})
    return o.value


def pylist(it, v):
    if isinstance(v, (list, tuple)):
        return it.new_list([pylist(it, x) for x in v])
    return v


def xor_all(vs):
    r = vs[0]
    for v in vs[1:]:
        r = emap(xor1, r, v)
    return arr(r)


PAT = [0, -1, 1, 2 ** 63 - 1, -2 ** 63, 2 ** 32, -2 ** 32, 2 ** 31 - 1, 0x5555555555555555, -0x5555555555555556, 2 ** 62, -2, 255, 2 ** 16]


def pattern(name, i, point):
    h = h64("pat", name, i, point)
    if h % 3 == 0:
        return PAT[(h >> 8) % len(PAT)]
    if h % 3 == 1:
        return (1 << ((h >> 8) % 63)) - ((h >> 20) & 1)
    return h64("v", name, i, point) - 2 ** 63


def ring_env(ops, n, point, bound=1000, bits=None):
    """shares uniform over the ring for chosen plaintexts: arithmetic operands are moderate fixed-point numbers,
    binary and integer operands arbitrary 64-bit patterns"""
    env = {}

    def one(o):
        if o.kind == "list":
            for x in o.value:
                one(x)
        if o.kind not in ("priv", "bin"):
            return
        b = "%s<%s>%s" % (o.name, ",".join(map(str, o.shape)), "l")
        shs = [np.empty(o.shape, dtype=object) for _ in range(n)]
        cnt = int(np.prod(o.shape)) if o.shape else 1
        for i in range(cnt):
            v = o.values[(i + 3 * point) % len(o.values)] if getattr(o, "values", None) else None
            if v is None:
                if o.kind == "bin":
                    v = pattern(o.name, i, point) if not (o.name.startswith("y") and h64(i, point) % 4 == 0) else pattern("x", i, point)
                else:
                    sc = 2 ** (16 if o.precision is None else o.precision)
                    v = h64("av", o.name, i, point) % (2 * bound * sc) - bound * sc
            rest = [h64("sh", o.name, i, point, q) - 2 ** 63 for q in range(1, n)]
            if o.kind == "bin":
                f = v
                for z in rest:
                    f ^= z
            else:
                f = v - sum(rest)
            for q, z in enumerate([f] + rest):
                shs[q].reshape(-1)[i] = wrap64(Fr(z))
        for q in range(n):
            env["%s@%d" % (b, q)] = shs[q]
    for o in ops:
        one(o)
    return env


def plain(c, o, n):
    """plaintext meaning of an operand at an interpretation point"""
    if o.kind == "priv":
        tot = arr(sum(arr(c.eval(tsym(o.name, o.shape, "long", q))) for q in range(n)))
        if c.ring:
            tot = emap(wrap64, tot)
        return arr(tot / Fr(2 ** (16 if o.precision is None else o.precision)))
    if o.kind == "bin":
        return xor_all([arr(c.eval(tsym(o.name, o.shape, "long", q))) for q in range(n)])
    if o.kind == "pub":
        return arr(c.eval(tsym(o.name, o.shape, o.dtype)))
    if o.kind == "list":
        return [plain(c, x, n) for x in o.value]
    if o.kind == "index":
        return np.array(o.value)
    return o.value


class Case:
    def __init__(self, label, ops, do, spec, ns=(1, 2, 3), cfg=None, mutates=None, kind="arith", out="tensor", wraps0=True,
                 props=(), result_scale=None, point=0, inplace=False, points=1, view=False, tol=None, bound=1000, layer="prim"):
        self.label, self.ops, self.do, self.spec, self.ns = label, ops, do, spec, ns
        self.cfg, self.kind, self.out, self.wraps0 = cfg or {}, kind, out, wraps0
        self.props = props
        self.inplace = inplace
        self.points = points
        self.view = view
        self.result_scale = result_scale
        self.tol = tol
        self.bound = bound
        self.layer = layer
        self.poke = False


ZERO_WRAPS = BuiltinV("count_wraps", lambda it, a, k: it.new_tensor(tm.bc(0, tm.shape_of(it.as_term(it.try_iter(a[0])[0]))), "long"))


def run_case(case, n, extra_overrides=None):
    w = World.get(n)

    def fn(it, r):
        xs = [build(it, o, case.layer) for o in case.ops]
        it.inputs = xs
        res = case.do(it, *xs)
        it.result = res
        out = {"value": collect(it, res), "after": [collect(it, x) if o.kind in ("priv", "bin", "pub", "list") else None
                                                    for o, x in zip(case.ops, xs)]}
        out["same"] = res is xs[0] if xs else False
        if case.poke:
            poke(it, res)
            out["poked"] = [collect(it, x) if o.kind in ("priv", "bin", "pub") else None for o, x in zip(case.ops, xs)]
        return out
    ov = dict(extra_overrides or {})
    if case.wraps0:
        ov["crypten.common.util.count_wraps"] = ZERO_WRAPS
    runs = w.run(fn, cfg=case.cfg, overrides=ov)
    return runs


def poke(it, v):
    """overwrite the storage of a result"""
    v = it.resolve(v)
    if isinstance(v, Ref):
        h = it.st.get(v)
        if isinstance(h, HInst) and h.cls and "SharedTensor" in h.cls.name:
            v = it.resolve(it.getattr(v, "share"))
            it.tensor_method(v, "add_", [12345], {})
        elif isinstance(h, HInst) and h.cls and h.cls.name == "MPCTensor":
            poke(it, it.getattr(v, "_tensor"))


def collect(it, v):
    """(kind, term, scale) of an abstract value"""
    v = it.resolve(v)
    if isinstance(v, Phi):
        return ("phi", v)
    if isinstance(v, (tuple, list)):
        return ("seq", [collect(it, x) for x in v])
    if isinstance(v, Ref):
        h = it.st.get(v)
        if isinstance(h, HInst):
            cn = [c.name for c in h.cls.mro if isinstance(c, ClassV)] if h.cls else []
            if "ArithmeticSharedTensor" in cn:
                return ("arith", share_term(it, v), scale_of(it, v))
            if "BinarySharedTensor" in cn:
                e = it.getattr(v, "encoder", None)
                s = scale_of(it, v) if e is not None else None
                return ("bin", share_term(it, v), s)
            if "MPCTensor" in cn:
                k = collect(it, it.getattr(v, "_tensor"))
                return k
            return ("inst", h.cls.name if h.cls else "?")
        if isinstance(h, HTensor):
            return ("plain", it.as_term(v))
        if isinstance(h, HList) and h.items is not None:
            return ("seq", [collect(it, x) for x in h.items])
    return ("plain", it.as_term(v))


def value_of(c, runs, recs, ring=False):
    """plaintext denoted by the per-party records"""
    k = recs[0][0]
    if any(r[0] != k for r in recs):
        raise SpecError("parties return different kinds of values: %s" % [r[0] for r in recs])
    if k == "seq":
        if len({len(r[1]) for r in recs}) != 1:
            raise SpecError("parties return different numbers of values")
        return [value_of(c, runs, [r[1][i] for r in recs], ring) for i in range(len(recs[0][1]))]
    if k == "arith":
        vs = [arr(c.eval(r[1])) for r in recs]
        if len({v.shape for v in vs}) != 1:
            raise SpecError("parties hold shares of different shapes %s" % [v.shape for v in vs])
        ss = [num(c.scalar(r[2])) for r in recs]
        if len(set(ss)) != 1:
            raise SpecError("parties record different scales %s" % ss)
        tot = vs[0]
        for v in vs[1:]:
            tot = arr(tot + v)
        if c.ring:
            tot = emap(wrap64, tot)
        return arr(arr(tot) / ss[0])
    if k == "bin":
        vs = [arr(c.eval(r[1])) for r in recs]
        if len({v.shape for v in vs}) != 1:
            raise SpecError("parties hold shares of different shapes")
        return xor_all(vs)
    if k == "plain":
        return [c.eval(r[1]) for r in recs] if False else c.eval(recs[0][1])
    if k == "phi":
        raise Undecided("result depends on a condition")
    raise Undecided("result kind %s" % k)


def cmp_nested(a, b, tol=None):
    if isinstance(b, (list, tuple)) and not isinstance(b, np.ndarray):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            return "%s values instead of %d" % (len(a) if isinstance(a, (list, tuple)) else "1", len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = cmp_nested(x, y, tol)
            if d:
                return "value %d: %s" % (i, d)
        return None
    return same(a, b, tol) if tol else same(a, b)


def check_value(case, n, runs, ring=False):
    live(runs, case.label)
    for p in range(case.points):
        c = ctx_for(runs, p, ring_env(case.ops, n, p, case.bound), ring=True) if ring else ctx_for(runs, point=p, exact=True)
        ins = [plain(c, o, n) for o in case.ops]
        got = value_of(c, runs, [r.value["value"] for r in runs])
        want = case.spec(*ins)
        if isinstance(want, tuple) and not isinstance(want, np.ndarray):
            want = list(want)
        d = cmp_nested(got, want, case.tol)
        if d:
            raise Violation("%s with %d parties: %s" % (case.label, n, d))


def check_unchanged(case, n, runs, ring=False):
    """operands other than an in-place receiver keep their value (and scale)"""
    live(runs, case.label)
    c = ctx_for(runs, 0, ring_env(case.ops, n, 0, case.bound), ring=True) if ring else ctx_for(runs, exact=True)
    for i, o in enumerate(case.ops):
        if o.kind not in ("priv", "bin", "pub", "list"):
            continue
        if i == 0 and case.inplace:
            continue
        recs = [r.value["after"][i] for r in runs]
        if o.kind == "list":
            for r in recs:
                if r[0] != "seq" or len(r[1]) != len(o.value):
                    raise Violation("%s changes the list given by the caller" % case.label)
                for x, oo in zip(r[1], o.value):
                    if x[0] != {"priv": "arith", "bin": "bin", "pub": "plain"}[oo.kind]:
                        raise Violation("%s replaces an element of the caller's list" % case.label)
        got = value_of(c, runs, recs)
        want = plain(c, o, n)
        d = cmp_nested(got, want)
        if d:
            raise Violation("%s with %d parties modifies its operand %d: %s" % (case.label, n, i, d))
        if o.kind == "priv":
            for rec in recs:
                if num(c.scalar(rec[2])) != 2 ** (16 if o.precision is None else o.precision):
                    raise Violation("%s changes the scale of its operand %d" % (case.label, i))
    if case.poke:
        for i, o in enumerate(case.ops):
            recs = [r.value["poked"][i] for r in runs]
            if recs[0] is None or o.kind == "list":
                continue
            d = cmp_nested(value_of(c, runs, recs), plain(c, o, n))
            if d:
                raise Violation("%s: modifying the result in place changes operand %d (shared storage)" % (case.label, i))
    if case.inplace:
        if not all(r.value["same"] for r in runs):
            raise Violation("%s does not return its receiver" % case.label)
        recs = [r.value["after"][0] for r in runs]
        got = value_of(c, runs, recs)
        want = case.spec(*[plain(c, o, n) for o in case.ops])
        d = cmp_nested(got, want)
        if d:
            raise Violation("%s: receiver does not hold the result: %s" % (case.label, d))


def M(name, *extra, **kw):
    """call method `name` of the first operand with the rest"""
    def f(it, x, *ys):
        return method(it, x, name, *(list(ys) + list(extra)), **kw)
    return f


def frac(a):
    return np.vectorize(lambda x: num(x) if isinstance(x, (Fr, bool)) else Fr(x), otypes=[object])(a)


def conv_spec(n, tr=False, **o):
    from ..evalq import conv_nd, convt_nd, tup
    def f(x, y):
        st, pd, dl, g, op = tup(o.get("stride", 1), n), tup(o.get("padding", 0), n), tup(o.get("dilation", 1), n), o.get("groups", 1), tup(o.get("output_padding", 0), n)
        return convt_nd(x, y, st, pd, dl, g, op, n) if tr else conv_nd(x, y, st, pd, dl, g, n)
    return f


def at_mpc(cases, ns=None, skip=()):
    """the same cases through the user-facing tensor type"""
    out = []
    for k in cases:
        name = k.label.split(".", 1)[1]
        if any(name.startswith(x) for x in skip):
            continue
        k.layer = "mpc"
        k.label = "mpc." + name + ("" if k.label.startswith("arith") else " [%s]" % k.label.split(".")[0])
        if ns:
            k.ns = tuple(n for n in k.ns if n in ns) or k.ns[:1]
        out.append(k)
    return out
