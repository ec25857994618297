"""Sharing then reconstructing returns the source's value and nothing else."""
from .common import *

MINIMUM = 60
SH = (2, 3)


def party_env(name, dtype, n, point, shape=SH):
    """integers (arbitrary 64-bit patterns) per party"""
    env = {}
    for q in range(n):
        a = np.empty(shape, dtype=object)
        for i in range(a.size):
            v = pattern("%s%d" % (name, q), i, point)
            a.reshape(-1)[i] = Fr(v)
        env["%s<%s>%s@%d" % (name, ",".join(map(str, shape)), dtype[0], q)] = a
    return env


def ptype(it, name):
    return it.getattr(it.mod_get(it.import_module("crypten.mpc.ptype"), "ptype"), name)


def size_hook(shape):
    """the size object travels from the source; the payload itself is checked against the source's tensor"""
    def h(it, comm, obj, src, k):
        return (shape,)
    return h


def build_tensor(it, how, src, dtype, form, prec, r, n, shape=SH):
    """form: all parties give a tensor of their own | only the source (others give the size) | only the source, size broadcast"""
    t = new_sym_tensor(it, "in", shape, dtype, r)
    kw = {"src": src}
    if prec is not None:
        kw["precision"] = prec
    arg = t
    if form == "size" and r != src:
        arg = None
        kw["size"] = shape
    if form == "broadcast":
        kw["broadcast_size"] = True
        if r != src:
            arg = None
    if how == "arith":
        o = call(it, cls(it, AST), **({"tensor": arg, **kw}))
    elif how == "bin":
        o = call(it, cls(it, BST), **({"tensor": arg, **kw}))
    elif how in ("mpc.arith", "mpc.bin"):
        o = call(it, cls(it, MPCT), arg, ptype=ptype(it, "arithmetic" if how.endswith("arith") else "binary"), **kw)
    else:
        if how.endswith("bin"):
            kw["ptype"] = ptype(it, "binary")
        o = call(it, it.mod_get(it.import_module("crypten"), "cryptensor"), arg, **kw)
    return o


def roundtrip(chk, rule, how, n, src, dtype, form, prec, cfg=None, opener="plain", dst=None, shape=SH):
    lab = "%s src=%d n=%d %s %s precision=%s%s %s%s" % (how, src, n, dtype, form, prec, " cfg=%s" % cfg if cfg else "", opener,
                                                        "" if dst is None else " dst=%d" % dst)

    def f():
        def fn(it, r):
            o = build_tensor(it, how, src, dtype, form, prec, r, n, shape)
            if opener == "plain":
                v = method(it, o, "get_plain_text", **({} if dst is None else {"dst": dst}))
            elif opener == "reveal":
                v = method(it, o, "reveal", **({} if dst is None else {"dst": dst}))
            elif opener == "batch":
                c = cls(it, AST if how == "arith" else BST)
                l = it.new_list([o, method(it, o, "clone")])
                v = call(it, it.getattr(c, "reveal_batch"), l, **({} if dst is None else {"dst": dst}))
            return collect(it, v) if dst is None or dst == r else None
        runs = World.get(n).run(fn, cfg=cfg, params={"broadcast_obj_hook": size_hook(shape)} if form == "broadcast" else None)
        live(runs, lab)
        chk.saw(runs)
        b = "bin" in how
        for p in range(2):
            exact = not b and dtype == "float"
            c = ctx_for(runs, p, exact=True) if exact else ctx_for(runs, p, party_env("in", dtype, n, p, shape), ring=True)
            if form == "broadcast":
                for e in runs[src].events:
                    if e["kind"] == "comm" and e["op"] == "broadcast_obj":
                        if e["root"] != src:
                            raise Violation("%s: size is broadcast from party %s" % (lab, e["root"]))
            want = arr(c.eval(tsym("in", shape, dtype, src)))
            sc = 2 ** (prec if prec is not None else (cfg or {}).get("encoder.precision_bits", 16)) if not b else 1
            if not exact and not b and sc > 1:
                # scaled integers must fit the ring
                want = emap(lambda x: Fr(int(x) % 2 ** 30 - 2 ** 29), want)
                c = ctx_for(runs, p, {k: emap(lambda x: Fr(int(x) % 2 ** 30 - 2 ** 29), v) for k, v in party_env("in", dtype, n, p, shape).items()}, ring=True)
            if opener in ("reveal", "batch"):
                want = arr(want * sc)
            for r, rr in enumerate(runs):
                if dst is not None and r != dst:
                    continue
                rec = rr.value
                recs = rec[1] if rec[0] == "seq" else [rec]
                if opener == "batch" and len(recs) != 2:
                    raise Violation("%s: %d values opened instead of 2" % (lab, len(recs)))
                for rc in recs:
                    d = cmp_nested(c.eval(rc[1]), want)
                    if d:
                        raise Violation("%s: party %d obtains another value than the source's: %s" % (lab, r, d))
            if dst is not None:
                for rr in runs:
                    for e in rr.events:
                        if e["kind"] == "comm" and e["op"] in ("all_reduce", "broadcast", "all_gather") and e["payload"]:
                            raise Violation("%s: opening towards one party communicates with %s (%s)" % (lab, e["op"], e["where"]))
                        if e["kind"] == "comm" and e["op"] in ("reduce", "gather") and e["root"] != dst:
                            raise Violation("%s: value is opened to party %s (%s)" % (lab, e["root"], e["where"]))
    chk.ob(rule, lab, f)


def przs(chk, rule, which, n, size):
    lab = "%s.PRZS%s n=%d" % (which, size, n)

    def f():
        def fn(it, r):
            c = cls(it, AST if which == "arithmetic" else BST)
            o = call(it, it.getattr(c, "PRZS"), *size)
            return share_term(it, o)
        runs = World.get(n).run(fn)
        live(runs, lab)
        chk.saw(runs)
        for p in range(2):
            c = ctx_for(runs, p, ring=True)
            vs = [arr(c.eval(r.value)) for r in runs]
            if which == "arithmetic":
                tot = emap(wrap64, arr(sum(vs)))
            else:
                tot = xor_all(vs)
            if any(num(x) != 0 for x in np.asarray(tot).reshape(-1)):
                raise Violation("%s: the parties' zero-shares do not cancel" % lab)
            if n > 1 and any(all(num(x) == 0 for x in v.reshape(-1)) for v in vs):
                raise Violation("%s: a party's zero-share is constantly zero" % lab)
            want = tuple(size[0]) if isinstance(size[0], tuple) else tuple(size)
            if any(v.shape != want for v in vs):
                raise Violation("%s: shape %s" % (lab, vs[0].shape))
    chk.ob(rule, lab, f)


def run(chk):
    chk.rule("R1", "open(share(x)) = x of the source party, at every party, for every source, number of parties, sharing type, "
                   "input form (own tensors, size only, broadcast size), precision and dtype; other parties' inputs are free symbols "
                   "and must not occur in the value")
    chk.rule("R2", "opening towards one party delivers the value there and is communicated by a reduction to that party only")
    chk.rule("R3", "zero-sharings cancel: sum (exclusive-or) over the parties of the PRZS shares is zero in the 64-bit ring")
    ns = (1, 2, 3, 4) if chk.thorough else (1, 2, 3)
    for n in ns:
        for src in range(n):
            for how in ("arith", "bin", "mpc.arith", "mpc.bin", "cryptensor", "cryptensor.bin"):
                b = how.endswith("bin")
                dts = ("long",) if b else ("float", "long")
                for dt in dts:
                    roundtrip(chk, "R1", how, n, src, dt, "own", None)
            for how in ("arith", "bin"):
                dt = "long" if how == "bin" else "float"
                roundtrip(chk, "R1", how, n, src, dt, "size", None)
                roundtrip(chk, "R1", how, n, src, dt, "broadcast", None)
                roundtrip(chk, "R1", how, n, src, dt, "own", None, opener="reveal")
                roundtrip(chk, "R1", how, n, src, dt, "own", None, opener="batch")
            roundtrip(chk, "R1", "arith", n, src, "long", "own", 0)
            roundtrip(chk, "R1", "mpc.arith", n, src, "long", "own", 0)
            roundtrip(chk, "R1", "arith", n, src, "float", "own", 8)
            roundtrip(chk, "R1", "cryptensor", n, src, "float", "own", 20)
            roundtrip(chk, "R1", "mpc.arith", n, src, "float", "own", None, cfg={"encoder.precision_bits": 12})
            roundtrip(chk, "R1", "arith", n, src, "float", "own", None, shape=())
            if n > 1:
                for dst in range(n):
                    for how in ("arith", "bin", "mpc.arith", "mpc.bin"):
                        dt = "long" if how.endswith("bin") else "float"
                        roundtrip(chk, "R2", how, n, src, dt, "own", None, dst=dst)
                        if "." not in how:
                            roundtrip(chk, "R2", how, n, src, dt, "own", None, dst=dst, opener="reveal")
                            roundtrip(chk, "R2", how, n, src, dt, "own", None, dst=dst, opener="batch")
        for w in ("arithmetic", "binary"):
            for size in (((2, 3),), ((4,),), ((),)):
                przs(chk, "R3", w, n, size)
