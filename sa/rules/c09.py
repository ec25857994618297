"""Fixed-point scale is tracked exactly through every operation."""
from .common import *

MINIMUM = 100


def encoder(it, bits=None):
    c = cls(it, "crypten.encoder.FixedPointEncoder")
    return call(it, c) if bits is None else call(it, c, precision_bits=bits)


def enc_dec(chk):
    """decode(encode(x)) = x and encode/decode formulas, over 64-bit patterns including negative values"""
    for bits in (0, 1, 8, 16, 20, 30):
        def f(bits=bits):
            def fn(it, r):
                e = encoder(it, bits)
                t = new_sym_tensor(it, "q", (24,), "long")
                d = method(it, e, "decode", t)
                return (it.as_term(d), it.as_term(it.getattr(e, "scale")))
            runs = World.get(1).run(fn)
            live(runs, "decode")
            chk.saw(runs)
            for p in range(3):
                a = np.empty((24,), dtype=object)
                for i in range(24):
                    v = pattern("dec", i, p)
                    if abs(v) > 2 ** 53:
                        v = v % 2 ** 40 - 2 ** 39
                    a[i] = Fr(v)
                c = ctx_for(runs, p, {"q<24>l": a}, ring=True)
                got = c.eval(runs[0].value[0])
                if num(c.scalar(runs[0].value[1])) != 2 ** bits:
                    raise Violation("encoder with %d bits has scale %s" % (bits, c.scalar(runs[0].value[1])))
                d = cmp_nested(got, arr(a / Fr(2 ** bits)))
                if d:
                    raise Violation("decode with %d precision bits: %s" % (bits, d))
        chk.ob("R2", "encoder.decode precision=%d" % bits, f)
        for dt in ("float", "long"):
            def g(bits=bits, dt=dt):
                def fn(it, r):
                    e = encoder(it, bits)
                    t = new_sym_tensor(it, "w", (12,), dt)
                    return it.as_term(method(it, e, "encode", t))
                runs = World.get(1).run(fn)
                live(runs, "encode")
                chk.saw(runs)
                for p in range(2):
                    a = np.empty((12,), dtype=object)
                    for i in range(12):
                        v = Fr(h64("enc", i, p) % 2 ** 24 - 2 ** 23)
                        # values on the grid are encoded exactly
                        a[i] = v / (2 ** bits if dt == "float" else 1)
                    c = ctx_for(runs, p, {"w<12>%s" % dt[0]: a}, ring=True)
                    d = cmp_nested(c.eval(runs[0].value), arr(a * Fr(2 ** bits)))
                    if d:
                        raise Violation("encode(%s) with %d precision bits: %s" % (dt, bits, d))
            chk.ob("R2", "encoder.encode(%s) precision=%d" % (dt, bits), g)
        for v in (3, -7, 0.5, -2.25):
            def h(bits=bits, v=v):
                def fn(it, r):
                    return it.as_term(method(it, encoder(it, bits), "encode", v))
                runs = World.get(1).run(fn)
                live(runs, "encode")
                chk.saw(runs)
                c = ctx_for(runs, 0, ring=True)
                x = Fr(str(v)) * 2 ** bits
                x = Fr(int(x))
                d = cmp_nested(c.eval(runs[0].value), arr(x))
                if d:
                    raise Violation("encode(%s) with %d precision bits: %s" % (v, bits, d))
            if bits >= 8 or v == int(v):
                chk.ob("R2", "encoder.encode(%s) precision=%d" % (v, bits), h)

    def dflt():
        def fn(it, r):
            return it.as_term(it.getattr(encoder(it), "scale"))
        for b in (10, 16):
            runs = World.get(1).run(fn, cfg={"encoder.precision_bits": b})
            live(runs, "encoder")
            if num(ctx_for(runs, 0).scalar(runs[0].value)) != 2 ** b:
                raise Violation("the configured precision is not the default precision of encoders")
    chk.ob("R2", "encoder default precision", dflt)
    for q, k in [(a, b) for a in (-7, -6, -5, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 9, 1000003) for b in (1, 2, 3, 4, 10)]:
        def near(q=q, k=k):
            def fn(it, r):
                fnn = it.mod_get(it.import_module("crypten.encoder"), "nearest_integer_division")
                return it.as_term(call(it, fnn, new_sym_tensor(it, "q", (1,), "long"), k))
            runs = World.get(1).run(fn)
            live(runs, "nearest_integer_division")
            c = ctx_for(runs, 0, {"q<1>l": np.array([Fr(q)], dtype=object)}, ring=True)
            got = num(np.asarray(c.eval(runs[0].value)).reshape(-1)[0])
            if abs(got - Fr(q, k)) > Fr(1, 2):
                raise Violation("nearest_integer_division(%d, %d) = %s" % (q, k, got))
        chk.ob("R2", "nearest_integer_division(%d, %d)" % (q, k), near)


def run(chk):
    chk.rule("R1", "for operands of every combination of precisions, result shares / recorded scale = operation on (shares / scale) of the "
                   "operands, over the rationals: a missing, doubled or misapplied rescaling leaves a power-of-two factor")
    chk.rule("R2", "encoding and decoding are the multiplication and division by the scale, for values of both signs")
    chk.rule("R3", "share truncation over the 64-bit ring with uniformly random shares: result within one unit per party of the quotient")
    chk.rule("R4", "the same rules through the user-facing tensor type")
    enc_dec(chk)
    pc = ac.precision_cases()
    if chk.thorough:
        more_parties(pc, (1, 4))
    value_obligations(chk, "R1", pc)
    more = pick(ac.public_cases() + ac.structural_cases(), lambda c: any(w in c.label for w in ("div", "mean", "avg_pool", "mul", "prod", "dot", "square")))
    value_obligations(chk, "R1", more)
    m = pick(ac.precision_cases(), lambda c: "encode" not in c.label)
    value_obligations(chk, "R4", at_mpc(m, ns=(2, 3) if chk.thorough else (2,)))
    # ring
    out = []
    for k in (2, 3, 7, 1000, 65536):
        for prec in (16, 0):
            sc = 2 ** prec
            out.append(Case("arithmetic.div(%d) precision=%d ring" % (k, prec), [P("x", (2, 3), prec), K(k)], M("div"),
                            lambda x, k: x / k, ns=(1, 2, 3), wraps0=False, tol=Fr(4, sc), bound=1000, points=3 if chk.thorough else 1))
    out.append(Case("arithmetic.mul(float) ring", [P("x", (2, 3)), K(0.375)], M("mul"), lambda x, k: x * Fr("0.375"), ns=(1, 2, 3), wraps0=False, tol=Fr(4, 2 ** 16)))
    out.append(Case("arithmetic.mean ring", [P("x", (2, 3))], M("mean", 1), lambda x: x.sum(1) / 3, ns=(2, 3), wraps0=False, tol=Fr(4, 2 ** 16)))
    value_obligations(chk, "R3", out, ring=True)
