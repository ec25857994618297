"""Cases on binary (XOR) sharings, interpreted over 64-bit words."""
from .shares import *
from .arith_cases import structural_cases, join_cases


def w2(f):
    """elementwise function of two 64-bit words"""
    def g(x, y):
        return emap(lambda a, b: wrap64(Fr(f(int(num(a)), int(num(b))))), x, arr(Fr(y)) if not isinstance(y, np.ndarray) else y)
    return g


def w1(f):
    return lambda x: emap(lambda a: wrap64(Fr(f(int(num(a))))), x)


XOR, AND, OR = w2(lambda a, b: a ^ b), w2(lambda a, b: a & b), w2(lambda a, b: a | b)
ADD = w2(lambda a, b: a + b)
CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
       "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}
S = (2, 3)


def binary_cases(thorough=False):
    out = []

    def add(label, ops, do, spec, ns=(1, 2, 3), **k):
        out.append(Case("binary." + label, ops, do, spec, ns=ns, kind="bin", wraps0=False, **k))
    X, Y = B("x", S), B("y", S)
    pubs = [("private", Y), ("public", U("u", S, "long")), ("public row", U("u1", (3,), "long")), ("private row", B("y1", (3,))),
            ("private wider", B("y2", (2, 2, 3))), ("int", K(5)), ("int -1", K(-1)), ("int 0", K(0))]
    for nm, y in pubs:
        for op, sp in [("__xor__", XOR), ("__and__", AND), ("__or__", OR), ("__rxor__", XOR), ("__rand__", AND), ("__ror__", OR)]:
            if op.startswith("__r") and nm not in ("public", "int", "private"):
                continue
            add("%s(%s)" % (op, nm), [X, y], M(op), sp)
        if nm in ("private", "public", "int", "public row"):
            for op, sp in [("__ixor__", XOR), ("__iand__", AND), ("__ior__", OR)]:
                add("%s(%s)" % (op, nm), [X, y], M(op), sp, inplace=True)
    add("__invert__", [X], M("__invert__"), w1(lambda a: ~a))
    for k in (0, 1, 7, 32, 63):
        add("lshift(%d)" % k, [X], M("lshift", k), w1(lambda a, k=k: a << k), ns=(1, 2))
        add("rshift(%d)" % k, [X], M("rshift", k), w1(lambda a, k=k: a >> k), ns=(1, 2))
    add("__lshift__(3)", [X], M("__lshift__", 3), w1(lambda a: a << 3), ns=(2,))
    add("__rshift__(3)", [X], M("__rshift__", 3), w1(lambda a: a >> 3), ns=(2,))
    add("lshift_(3)", [X], M("lshift_", 3), w1(lambda a: a << 3), ns=(2,), inplace=True)
    add("rshift_(3)", [X], M("rshift_", 3), w1(lambda a: a >> 3), ns=(2,), inplace=True)
    cond = I([[1, 0, 1], [0, 0, 1]])
    sel = lambda x, c, y: np.where(np.array(c) == 1, x, y)
    add("where(public condition, private)", [X, cond, Y], lambda it, x, c, y: method(it, x, "where", c, y), sel)
    add("where(public condition, public)", [X, cond, U("u", S, "long")], lambda it, x, c, y: method(it, x, "where", c, y), sel)
    selp = lambda x, c, y: emap(lambda a, k, b: a if int(k) & 1 else b, x, c, y)
    add("where(private condition, private)", [X, B("c", S), Y], lambda it, x, c, y: method(it, x, "where", c, y), selp)
    add("where(private condition, public)", [X, B("c", S), U("u", S, "long")], lambda it, x, c, y: method(it, x, "where", c, y), selp)

    def setit(idx):
        def f(it, x, v):
            method(it, x, "__setitem__", idx, v)
            return x
        return f

    def sset(idx):
        def f(x, v):
            x = x.copy()
            x[idx] = v
            return x
        return f
    add("__setitem__(public)", [X, U("u1", (3,), "long")], setit(1), sset(1), inplace=True)
    add("__setitem__(private)", [X, B("y1", (3,))], setit(0), sset(0), inplace=True)

    def scat(x, i, u):
        x = x.copy()
        i = np.array(i)
        for p in np.ndindex(*i.shape):
            x[p[0], i[p]] = u[p]
        return x
    ix = I([[0, 2], [1, 0]])
    for nm, u in [("public", U("us", (2, 2), "long")), ("private", B("ys", (2, 2)))]:
        add("scatter(%s)" % nm, [X, ix, u], lambda it, x, i, u: method(it, x, "scatter", 1, i, u), scat)
        add("scatter_(%s)" % nm, [X, ix, u], lambda it, x, i, u: method(it, x, "scatter_", 1, i, u), scat, inplace=True)
    return out


def circuit_cases(thorough=False):
    out = []
    X, Y, Uu = B("x", (8,)), B("y", (8,)), U("u", (8,), "long")
    pts = 6 if thorough else 2

    def add(label, ops, do, spec, ns=(1, 2, 3), **k):
        out.append(Case("binary." + label, ops, do, spec, ns=ns, kind="bin", wraps0=False, points=pts, **k))
    for nm, y in [("private", Y), ("public", Uu)]:
        add("add(%s)" % nm, [X, y], M("add"), ADD, ns=(1, 2, 3) if nm == "private" else (2,))
        for op, f in CMP.items():
            add("%s(%s)" % (op, nm), [X, y], M(op), w2(f), ns=(1, 2, 3) if op in ("lt", "eq") and nm == "private" else (2,))
    add("add(int)", [X, K(7)], M("add"), ADD, ns=(2,))
    add("__add__(private)", [X, Y], M("__add__"), ADD, ns=(2,))
    add("__radd__(public)", [X, Uu], M("__radd__"), ADD, ns=(2,))
    for op, f in CMP.items():
        add("__%s__(private)" % op, [X, Y], M("__%s__" % op), w2(f), ns=(2,))

    def ssum(dim):
        def f(x):
            r = x.sum() if dim is None else x.sum(dim)
            return emap(wrap64, arr(r))
        return f
    for sh, dim in [((5,), None), ((2, 3), None), ((3, 2), 0), ((2, 4), 1), ((1, 2), 0), ((7,), 0)]:
        add("sum(%s, dim=%s)" % (sh, dim), [B("xs", sh)], M("sum", **({} if dim is None else {"dim": dim})), ssum(dim), ns=(2,))
    return out


def conversion_cases(thorough=False):
    out = []
    pts = 6 if thorough else 2

    def add(label, ops, do, spec, ns=(1, 2, 3), **k):
        k.setdefault("points", pts)
        out.append(Case("converters." + label, ops, do, spec, ns=ns, kind="conv", wraps0=False, **k))

    def conv(name, **kw):
        def f(it, x):
            m = it.import_module("crypten.mpc.primitives.converters")
            c = it.mod_get(m, "convert")
            pt = it.mod_get(it.import_module("crypten.mpc.ptype"), "ptype")
            return call(it, c, x, it.getattr(pt, name), **kw)
        return f
    xi = P("xi", (6,), 0)
    xi.values = PAT
    # the binary sharing of an arithmetic value holds its encoding
    add("A2B(integers)", [xi], conv("binary"), lambda x: x)
    add("A2B(fixed point)", [P("x", (6,))], conv("binary"), lambda x: x * 2 ** 16)
    add("A2B(rank 2)", [P("x2", (2, 3))], conv("binary"), lambda x: x * 2 ** 16, ns=(2, 3))
    add("A2B(scalar)", [P("x0", ())], conv("binary"), lambda x: x * 2 ** 16, ns=(2, 3))
    sc = Fr(2 ** 16)
    for bits in (1, 2, 8, 33, None):
        b = 64 if bits is None else bits
        low = (lambda b: lambda x: emap(lambda a: Fr(int(a) & (2 ** b - 1)) if b < 64 else a, x))(b)
        kw = {} if bits is None else {"bits": bits}
        add("B2A(bits=%s, precision=0)" % bits, [B("x", (4,))], conv("arithmetic", precision=0, **kw), low, ns=(1, 2, 3), points=pts if b < 30 else 1)
        if b < 40:
            add("B2A(bits=%s)" % bits, [B("x", (4,))], conv("arithmetic", **kw), low, ns=(2,), points=1)
    return out


def bst_structural():
    return structural_cases(B, "binary") + join_cases(B, "binary", BST)
