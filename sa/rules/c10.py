"""Encrypted comparison, sign and selection functions match their plaintext meaning."""
from .prog import *

MINIMUM = 60
U16 = Fr(1, 65536)
VALS = [Fr(-(2 ** 30)), Fr(-3, 2), Fr(-1), -U16, Fr(0), U16, Fr(1), Fr(29, 4), Fr(2 ** 30)]
INTS = [-(2 ** 40), -3, -1, 0, 1, 2, 2 ** 40]
COARSE = [Fr(-5), Fr(-1, 4), Fr(0), Fr(1, 4), Fr(5)]

PRED = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
        "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}
OPER = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}


def el(f):
    return lambda *xs: emap(lambda *ys: Fr(f(*ys)), *[arr(x) for x in xs])


def pairs(vs, ws=None):
    ws = vs if ws is None else ws
    return [a for a in vs for b in ws], [b for a in vs for b in ws]


def comparisons():
    out = []
    L, R = pairs(VALS)
    for nm, f in PRED.items():
        ns = (1, 2, 3)
        x, y = X("x", L), X("y", R)
        out.append(Prog("%s(encrypted)" % nm, [x, y], M(nm), el(f), ns=ns))
        out.append(Prog("%s(public)" % nm, [x, X("y", R, kind="pub")], M(nm), el(f), ns=(1, 2)))
        out.append(Prog("encrypted %s encrypted (operator)" % nm, [x, y], lambda it, a, b, nm=nm: it.compare(OPER[nm], a, b), el(f), ns=(2,)))
        for s in (0, 1, -1.5, 7.25):
            out.append(Prog("%s(%s)" % (nm, s), [X("x", VALS)], M(nm, s), el(lambda a, s=s, f=f: f(a, Fr(s))), ns=(1, 2)))
            out.append(Prog("%s %s encrypted (operator)" % (s, nm), [X("x", VALS)], lambda it, a, nm=nm, s=s: it.compare(OPER[nm], s, a),
                            el(lambda a, s=s, f=f: f(Fr(s), a)), ns=(2,)))
        # shapes: broadcasting
        out.append(Prog("%s(encrypted, broadcast)" % nm, [X("x", [[v] for v in VALS]), X("y", VALS)], M(nm), el(f), ns=(1, 2)))
        # unscaled integers, other precisions, mixed
        l, r = pairs([Fr(v) for v in INTS])
        out.append(Prog("%s(unscaled integers)" % nm, [X("x", l, 0), X("y", r, 0)], M(nm), el(f), ns=(1, 2, 3)))
        l, r = pairs(COARSE, VALS[1:-1])
        out.append(Prog("%s(precision 4 against 16)" % nm, [X("x", l, 4), X("y", r)], M(nm), el(f), ns=(2,)))
        out.append(Prog("%s(precision 16 against 4)" % nm, [X("x", r), X("y", l, 4)], M(nm), el(f), ns=(2,)))
        l, r = pairs(VALS[1:-1], [Fr(v) for v in (-1, 0, 1, 2)])
        out.append(Prog("%s(public integers)" % nm, [X("x", l), X("y", r, kind="pub", dtype="long")], M(nm), el(f), ns=(2,)))
    return out


def sgn(a):
    return Fr((a > 0) - (a < 0))


def unary():
    out = []
    for p, vs in ((16, VALS), (8, [Fr(v) for v in COARSE]), (0, [Fr(v) for v in INTS])):
        x = X("x", vs, p)
        ns = (1, 2, 3) if p == 16 else (2,)
        t = " precision %d" % p
        out.append(Prog("sign" + t, [x], M("sign"), el(lambda a: 1 if a >= 0 else -1), ns=ns))
        out.append(Prog("abs" + t, [x], M("abs"), el(abs), ns=ns))
        out.append(Prog("abs operator" + t, [x], lambda it, a: method(it, a, "__abs__"), el(abs), ns=(2,)))
        out.append(Prog("relu" + t, [x], M("relu"), el(lambda a: max(a, Fr(0))), ns=ns))
        for lo, hi in ((None, None), (-2, 2), (0, 6), (-1, 5), (1, 7.25)):
            kw = {} if lo is None else {"min_val": lo, "max_val": hi}
            l, h = Fr(-1 if lo is None else lo), Fr(1 if hi is None else hi)
            if p == 0 and h.denominator != 1:
                continue
            out.append(Prog("hardtanh(%s,%s)%s" % (lo, hi, t), [x], M("hardtanh", **kw), el(lambda a, l=l, h=h: min(max(a, l), h)), ns=ns[:2]))
        out.append(Prog("_ltz" + t, [x], M("_ltz"), el(lambda a: a < 0), ns=ns))
    return out


def selection():
    out = []
    xs, ys = [Fr(v) for v in (-3, 0, 2, 1000, -1.5, 7)], [Fr(v) for v in (5, -2, 0, -1000, 2.5, 7)]
    bits = [Fr(v) for v in (1, 0, 0, 1, 1, 0)]
    x, y = X("x", xs), X("y", ys)
    c0, cb, cl, cf = X("c", bits, 0), X("c", [bool(b) for b in bits], kind="pub", dtype="bool"), X("c", bits, kind="pub", dtype="long"), X("c", bits, kind="pub")
    tol = Fr(1, 2 ** 20)
    cb.pts = [np.array([bool(b) for b in bits], dtype=object)]
    w = el(lambda a, c, b: a if num(c) else b)
    for nm, c in (("encrypted condition", c0), ("scaled encrypted condition", X("c", bits)), ("boolean condition", cb), ("integer condition", cl), ("float condition", cf)):
        t = Fr(1, 2 ** 14)
        out.append(Prog("where(%s, encrypted)" % nm, [x, c, y], M("where"), w, ns=(1, 2, 3), tol=t))
        out.append(Prog("where(%s, public)" % nm, [x, c, X("y", ys, kind="pub")], M("where"), w, ns=(1, 2), tol=t))
        out.append(Prog("where(%s, scalar)" % nm, [x, c], M("where", 3), el(lambda a, c: a if num(c) else Fr(3)), ns=(2,), tol=t))
        out.append(Prog("crypten.where(%s)" % nm, [c, x, y], lambda it, c, a, b: call(it, it.mod_get(it.import_module("crypten"), "where"), c, a, b),
                        el(lambda c, a, b: a if num(c) else b), ns=(2,), tol=t))
    out.append(Prog("where(comparison)", [x, y], lambda it, a, b: method(it, a, "where", method(it, a, "gt", b), b), el(max), ns=(2, 3)))
    return out


def run(chk):
    chk.rule("R1", "comparison protocols, interpreted over the 64-bit ring with random shares at every pair of boundary values "
                   "(equal, adjacent, opposite sign, large): result is exactly the 0/1 predicate, for every operand kind, scale and number of parties")
    chk.rule("R2", "sign, absolute value, rectifier, clamping: exactly the plaintext function at the boundary values")
    chk.rule("R3", "conditional selection: the selected operand, for every kind of condition")
    prog_obligations(chk, "R1", comparisons())
    prog_obligations(chk, "R2", unary())
    prog_obligations(chk, "R3", selection())
