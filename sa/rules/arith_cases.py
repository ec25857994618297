"""Cases on arithmetic sharings."""
from .shares import *
from ..evalq import avg_pool, fpad, gather as gather_, tup

f1 = lambda a: a
S = (2, 3)


def public_cases():
    out = []
    add = lambda *a, **k: out.append(Case(*a, **k))
    pubs = [("tensor", U("u", S)), ("scalar tensor", U("u0", ())), ("row", U("u1", (3,))), ("wider", U("u2", (4, 2, 3))),
            ("int tensor", U("ui", S, "long")), ("int", K(3)), ("negative int", K(-2)), ("float", K(0.75)), ("neg float", K(-1.5))]
    for nm, u in pubs:
        val_ = (lambda u: (lambda y: frac(y)) if u.kind == "pub" else (lambda y: Fr(str(y))))(u)
        for op, sp in [("add", lambda x, y, v=val_: x + v(y)), ("sub", lambda x, y, v=val_: x - v(y)), ("mul", lambda x, y, v=val_: x * v(y)),
                       ("__radd__", lambda x, y, v=val_: x + v(y)), ("__rsub__", lambda x, y, v=val_: v(y) - x), ("__rmul__", lambda x, y, v=val_: x * v(y)),
                       ("div", lambda x, y, v=val_: x / v(y)), ("__truediv__", lambda x, y, v=val_: x / v(y))]:
            if op.startswith("__") and nm not in ("tensor", "int", "float"):
                continue
            add("arithmetic.%s(public %s)" % (op, nm), [P("x", S), u], M(op), sp, ns=(1, 2, 3))
        if nm in ("tensor", "int", "float", "int tensor", "row"):
            for op, sp in [("add_", lambda x, y, v=val_: x + v(y)), ("sub_", lambda x, y, v=val_: x - v(y)), ("mul_", lambda x, y, v=val_: x * v(y)),
                           ("div_", lambda x, y, v=val_: x / v(y)), ("__iadd__", lambda x, y, v=val_: x + v(y)), ("__isub__", lambda x, y, v=val_: x - v(y)),
                           ("__imul__", lambda x, y, v=val_: x * v(y)), ("__itruediv__", lambda x, y, v=val_: x / v(y))]:
                if op.startswith("__") and nm != "float":
                    continue
                add("arithmetic.%s(public %s)" % (op, nm), [P("x", S), u], M(op), sp, ns=(2, 3), inplace=True)
    # other shapes
    for sh in ((), (1,), (4,), (2, 1, 2)):
        u, f = U("us", sh), lambda x, y: frac(y)
        for op, sp in [("add", lambda x, y: x + frac(y)), ("sub", lambda x, y: x - frac(y)), ("mul", lambda x, y: x * frac(y)), ("div", lambda x, y: x / frac(y)),
                       ("__rsub__", lambda x, y: frac(y) - x)]:
            add("arithmetic.%s(public, shape %s)" % (op, sh), [P("x", sh), u], M(op), sp, ns=(2,))
        for op, sp in [("add", lambda x, y: x + y), ("sub", lambda x, y: x - y), ("mul", lambda x, y: x * y), ("div", lambda x, y: x / y),
                       ("add_", lambda x, y: x + y), ("sub_", lambda x, y: x - y), ("mul_", lambda x, y: x * y), ("div_", lambda x, y: x / y)]:
            add("arithmetic.%s(int, shape %s)" % (op, sh), [P("x", sh), K(5)], M(op), sp, ns=(2,), inplace=op.endswith("_"))
            add("arithmetic.%s(float, shape %s)" % (op, sh), [P("x", sh), K(2.5)], M(op), (lambda sp: lambda x, y: sp(x, Fr(str(y))))(sp), ns=(2,), inplace=op.endswith("_"))
        if sh:
            add("arithmetic.add(scalar sharing, public shape %s)" % (sh,), [P("x", ()), u], M("add"), lambda x, y: x + frac(y), ns=(2, 3))
            add("arithmetic.mul(scalar sharing, public shape %s)" % (sh,), [P("x", ()), u], M("mul"), lambda x, y: x * frac(y), ns=(2, 3))
            add("arithmetic.sub(row sharing, public shape %s)" % (sh,), [P("x", (1, 1)), u], M("sub"), lambda x, y: x - frac(y), ns=(2, 3))
            add("arithmetic.div(row sharing, public shape %s)" % (sh,), [P("x", (1, 1)), u], M("div"), lambda x, y: x / frac(y), ns=(2, 3))
    # unscaled (integer) sharings with public values
    for nm, u in [("int", K(3)), ("int tensor", U("ui", S, "long"))]:
        v = (lambda y: frac(y)) if u.kind == "pub" else (lambda y: Fr(y))
        for op, sp in [("add", lambda x, y, v=v: x + v(y)), ("sub", lambda x, y, v=v: x - v(y)), ("mul", lambda x, y, v=v: x * v(y)), ("__rsub__", lambda x, y, v=v: v(y) - x)]:
            add("arithmetic.%s(unscaled, public %s)" % (op, nm), [P("x", S, 0), u], M(op), sp, ns=(2, 3))
    mm = lambda x, y: np.matmul(x, frac(y))
    add("arithmetic.matmul(public)", [P("x", (2, 3)), U("u", (3, 2))], M("matmul"), mm)
    add("arithmetic.conv1d(public)", [P("x", (1, 2, 6)), U("u", (4, 1, 3))], M("conv1d", stride=2, padding=1, groups=2),
        conv_spec(1, stride=2, padding=1, groups=2), ns=(2,))
    add("arithmetic.conv2d(public)", [P("x", (1, 2, 5, 4)), U("u", (2, 2, 2, 3))], M("conv2d", stride=(2, 1), padding=(1, 0)),
        conv_spec(2, stride=(2, 1), padding=(1, 0)), ns=(2, 3))
    add("arithmetic.conv_transpose1d(public)", [P("x", (1, 2, 3)), U("u", (2, 1, 3))], M("conv_transpose1d", stride=2, output_padding=1),
        conv_spec(1, True, stride=2, output_padding=1), ns=(2,))
    add("arithmetic.conv_transpose2d(public)", [P("x", (1, 2, 2, 3)), U("u", (2, 1, 2, 2))], M("conv_transpose2d", stride=2, padding=1),
        conv_spec(2, True, stride=2, padding=1), ns=(2,))
    # padding
    for nm, v in [("default", None), ("int", 2), ("float", 1.5)]:
        kw = {} if v is None else {"value": v}
        add("arithmetic.pad(%s)" % nm, [P("x", S)], (lambda kw: lambda it, x: method(it, x, "pad", (1, 2, 0, 1), **kw))(kw),
            (lambda v: lambda x: fpad(x, (1, 2, 0, 1), Fr(str(v or 0))))(v))
    add("arithmetic.pad(private)", [P("x", S), P("p", ())], lambda it, x, p: method(it, x, "pad", (1, 2), value=p),
        lambda x, p: fpad(x, (1, 2), p.reshape(-1)[0]))

    # item assignment
    def setit(idx):
        def f(it, x, v):
            method(it, x, "__setitem__", idx, v)
            return x
        return f

    def sset(idx):
        def f(x, v):
            x = x.copy()
            x[idx] = frac(v) if isinstance(v, np.ndarray) else Fr(str(v))
            return x
        return f
    add("arithmetic.__setitem__(public tensor)", [P("x", S), U("u", (3,))], setit(1), sset(1), inplace=True)
    add("arithmetic.__setitem__(private)", [P("x", S), P("y", (3,))], setit(0), sset(0), inplace=True)
    # indexed updates
    ix1 = [2, 0]

    def iadd_spec(x, u):
        x = x.copy()
        for k, i in enumerate(ix1):
            x[:, i] = x[:, i] + frac(u)[:, k]
        return x
    ixdup = [1, 1]

    def iaddd_spec(x, u):
        x = x.copy()
        for k, i in enumerate(ixdup):
            x[i] = x[i] + frac(u)[k]
        return x
    for nm, u in [("public", U("u", (2, 2))), ("private", P("y", (2, 2)))]:
        add("arithmetic.index_add(%s)" % nm, [P("x", S), I(ix1), u], lambda it, x, i, u: method(it, x, "index_add", 1, i, u),
            lambda x, i, u: iadd_spec(x, u))
        add("arithmetic.index_add_(%s)" % nm, [P("x", S), I(ix1), u], lambda it, x, i, u: method(it, x, "index_add_", 1, i, u),
            lambda x, i, u: iadd_spec(x, u), inplace=True)
    for nm, u in [("public", U("u", (2, 3))), ("private", P("y", (2, 3)))]:
        add("arithmetic.index_add(duplicate rows, %s)" % nm, [P("x", S), I(ixdup), u], lambda it, x, i, u: method(it, x, "index_add", 0, i, u),
            lambda x, i, u: iaddd_spec(x, u), ns=(2,))
    si = [[0, 2], [1, 1]]

    def sc_spec(addm):
        def f(x, i, u):
            x = x.copy()
            u = frac(u)
            for p in np.ndindex(2, 2):
                q = (p[0], si[p[0]][p[1]])
                x[q] = x[q] + u[p] if addm else u[p]
            return x
        return f
    for nm, u in [("public", U("u", (2, 2))), ("private", P("y", (2, 2)))]:
        for inp in ("", "_"):
            add("arithmetic.scatter_add%s(%s)" % (inp, nm), [P("x", S), I(si), u],
                (lambda inp: lambda it, x, i, u: method(it, x, "scatter_add" + inp, 1, i, u))(inp), sc_spec(True), inplace=bool(inp))
            add("arithmetic.scatter%s(%s)" % (inp, nm), [P("x", S), I([[0, 2], [1, 0]]), u],
                (lambda inp: lambda it, x, i, u: method(it, x, "scatter" + inp, 1, i, u))(inp),
                lambda x, i, u: _scatter(x, i, frac(u)), inplace=bool(inp))
    # selection by a public condition
    cond = I([[1, 0, 1], [0, 0, 1]])
    add("arithmetic.where(public condition, private)", [P("x", S), cond, P("y", S)],
        lambda it, x, c, y: method(it, x, "where", c, y), lambda x, c, y: np.where(c == 1, x, y))
    add("arithmetic.where(public condition, public)", [P("x", S), cond, U("u", S)],
        lambda it, x, c, y: method(it, x, "where", c, y), lambda x, c, y: np.where(c == 1, x, frac(y)))
    # local
    add("arithmetic.neg", [P("x", S)], M("neg"), lambda x: -x)
    add("arithmetic.__neg__", [P("x", S)], M("__neg__"), lambda x: -x)
    add("arithmetic.neg_", [P("x", S)], M("neg_"), lambda x: -x, inplace=True)
    for nm, k, kw in [("int", 2, {}), ("tuple", (2, 1), {"stride": (1, 2)}), ("padded", 2, {"padding": 1}), ("stride", 2, {"stride": 1})]:
        kk = tup(k, 2)
        st = tup(kw.get("stride", k), 2)
        pd = tup(kw.get("padding", 0), 2)
        add("arithmetic.avg_pool2d(%s)" % nm, [P("x", (1, 2, 4, 4))], (lambda k, kw: lambda it, x: method(it, x, "avg_pool2d", k, **kw))(k, kw),
            (lambda kk, st, pd: lambda x: avg_pool(x, kk, st, pd))(kk, st, pd), ns=(1, 2, 3))
    return out


def _scatter(x, i, u):
    x = x.copy()
    for p in np.ndindex(*i.shape):
        x[p[0], i[p]] = u[p]
    return x


def private_cases():
    """products and sums of two sharings, for every protocol"""
    out = []
    for proto, ns in (("beaver", (1, 2, 3)), ("replicated", (3,))):
        cfg = {"mpc.protocol": proto}

        def add(label, ops, do, spec, ns_=None, **k):
            out.append(Case("arithmetic.%s [%s]" % (label, proto), ops, do, spec, ns=tuple(x for x in (ns_ or ns) if x in ns) or ns, cfg=cfg, **k))
        add("mul(same shape)", [P("x", S), P("y", S)], M("mul"), lambda x, y: x * y)
        add("mul(broadcast)", [P("x", S), P("y", (3,))], M("mul"), lambda x, y: x * y)
        add("mul(scalar)", [P("x", S), P("y", ())], M("mul"), lambda x, y: x * y)
        add("mul_(in place)", [P("x", S), P("y", S)], M("mul_"), lambda x, y: x * y, inplace=True)
        add("__mul__", [P("x", S), P("y", S)], M("__mul__"), lambda x, y: x * y)
        add("__rmul__", [P("x", S), P("y", S)], M("__rmul__"), lambda x, y: x * y)
        add("square", [P("x", S)], M("square"), lambda x: x * x)
        add("square_(in place)", [P("x", S)], M("square_"), lambda x: x * x, inplace=True)
        add("square(unscaled)", [P("x", S, 0)], M("square"), lambda x: x * x)
        for sh in ((), (1,), (4,), (2, 1, 2)):
            add("square(shape %s)" % (sh,), [P("x", sh)], M("square"), lambda x: x * x, ns_=(2, 3))
            add("square(unscaled, shape %s)" % (sh,), [P("x", sh, 0)], M("square"), lambda x: x * x, ns_=(2, 3))
            add("mul(shape %s)" % (sh,), [P("x", sh), P("y", sh)], M("mul"), lambda x, y: x * y, ns_=(2, 3))
            add("mul(unscaled, shape %s)" % (sh,), [P("x", sh, 0), P("y", sh, 0)], M("mul"), lambda x, y: x * y, ns_=(2, 3))
            add("mul_(shape %s)" % (sh,), [P("x", sh), P("y", sh)], M("mul_"), lambda x, y: x * y, ns_=(2,), inplace=True)
            add("mul(matrix, shape %s)" % (sh,), [P("x", (2, 1, 4) if sh == (4,) else (2, 3, 2)), P("y", sh)], M("mul"), lambda x, y: x * y, ns_=(2, 3))
            add("mul(shape %s, matrix)" % (sh,), [P("x", sh), P("y", (2, 1, 4) if sh == (4,) else (2, 3, 2))], M("mul"), lambda x, y: x * y, ns_=(2, 3))
        add("matmul(1 x 1)", [P("x", (1, 1)), P("y", (1, 1))], M("matmul"), lambda x, y: np.matmul(x, y), ns_=(2, 3))
        add("matmul(vector first)", [P("x", (3,)), P("y", (3, 2))], M("matmul"), lambda x, y: np.matmul(x, y), ns_=(2, 3))
        add("matmul(vectors)", [P("x", (3,)), P("y", (3,))], M("matmul"), lambda x, y: arr(np.dot(x, y)), ns_=(2, 3))
        add("matmul(broadcast batch)", [P("x", (2, 2, 3)), P("y", (3, 2))], M("matmul"), lambda x, y: np.matmul(x, y), ns_=(2, 3))
        add("matmul(2d)", [P("x", (2, 3)), P("y", (3, 2))], M("matmul"), lambda x, y: np.matmul(x, y))
        add("matmul(batched)", [P("x", (2, 2, 3)), P("y", (2, 3, 1))], M("matmul"), lambda x, y: np.matmul(x, y), ns_=(2, 3))
        add("matmul(vector)", [P("x", (2, 3)), P("y", (3,))], M("matmul"), lambda x, y: np.matmul(x, y), ns_=(2, 3))
        for lab, o in [("plain", {}), ("stride", {"stride": 2}), ("padding", {"padding": 1}), ("dilation", {"dilation": 2}), ("all", {"stride": 2, "padding": 2, "dilation": 2})]:
            add("conv1d(%s)" % lab, [P("x", (2, 2, 6)), P("y", (2, 2, 3))], M("conv1d", **o), conv_spec(1, **o), ns_=(2, 3))
        add("conv1d(groups)", [P("x", (1, 4, 4)), P("y", (2, 2, 3))], M("conv1d", groups=2), conv_spec(1, groups=2), ns_=(2, 3))
        for lab, o in [("plain", {}), ("stride,padding", {"stride": (2, 1), "padding": (0, 1)}), ("dilation", {"dilation": (1, 2)})]:
            add("conv2d(%s)" % lab, [P("x", (1, 2, 4, 4)), P("y", (2, 2, 2, 2))], M("conv2d", **o), conv_spec(2, **o), ns_=(2, 3))
        add("conv2d(groups)", [P("x", (1, 2, 3, 3)), P("y", (2, 1, 2, 2))], M("conv2d", groups=2), conv_spec(2, groups=2), ns_=(2, 3))
        for lab, o in [("plain", {}), ("stride", {"stride": 2, "output_padding": 1}), ("padding,dilation", {"padding": 1, "dilation": 2})]:
            add("conv_transpose1d(%s)" % lab, [P("x", (1, 2, 3)), P("y", (2, 1, 3))], M("conv_transpose1d", **o), conv_spec(1, True, **o), ns_=(2, 3))
        for lab, o in [("plain", {}), ("stride,padding", {"stride": (2, 1), "padding": (1, 0)}), ("groups", {"groups": 2})]:
            add("conv_transpose2d(%s)" % lab, [P("x", (1, 2, 2, 2)), P("y", (2, 1, 2, 3))], M("conv_transpose2d", **o), conv_spec(2, True, **o), ns_=(2, 3))
        add("where(private condition)", [P("x", S), P("c", S), P("y", S)], lambda it, x, c, y: method(it, x, "where", c, y),
            lambda x, c, y: x * c + (1 - c) * y)
    return out


def precision_cases():
    """operands of different precision"""
    out = []
    for px, py in [(16, 16), (16, 0), (0, 16), (0, 0), (8, 16), (16, 8), (20, 16)]:
        for op, sp in [("add", lambda x, y: x + y), ("sub", lambda x, y: x - y), ("mul", lambda x, y: x * y)]:
            if op == "mul" and px != py and px and py:
                continue        # product of two different non-zero precisions: the recorded scale decides (see C09)
            out.append(Case("arithmetic.%s(precision %d, %d)" % (op, px, py), [P("x", S, px), P("y", S, py)], M(op), sp, ns=(2, 3)))
        for op, sp in [("add_", lambda x, y: x + y), ("sub_", lambda x, y: x - y)]:
            out.append(Case("arithmetic.%s(precision %d, %d)" % (op, px, py), [P("x", S, px), P("y", S, py)], M(op), sp, ns=(2,), inplace=True))
        if px in (0, 16) and py in (0, 16):
            out.append(Case("arithmetic.matmul(precision %d, %d)" % (px, py), [P("x", (2, 3), px), P("y", (3, 2), py)], M("matmul"),
                            lambda x, y: np.matmul(x, y), ns=(2, 3)))
            out.append(Case("arithmetic.conv2d(precision %d, %d)" % (px, py), [P("x", (1, 1, 3, 3), px), P("y", (1, 1, 2, 2), py)], M("conv2d"),
                            conv_spec(2), ns=(2,)))
    for px in (8, 12, 20):
        out.append(Case("arithmetic.square(precision %d)" % px, [P("x", S, px)], M("square"), lambda x: x * x, ns=(2, 3)))
        out.append(Case("arithmetic.mul(precision %d, public)" % px, [P("x", S, px), U("u", S)], M("mul"), lambda x, u: x * frac(u), ns=(2, 3)))
        out.append(Case("arithmetic.mul_(precision %d, public)" % px, [P("x", S, px), U("u", S)], M("mul_"), lambda x, u: x * frac(u), ns=(2,), inplace=True))
        out.append(Case("arithmetic.add(precision %d, public)" % px, [P("x", S, px), U("u", S)], M("add"), lambda x, u: x + frac(u), ns=(2, 3)))
        out.append(Case("arithmetic.div(precision %d, float)" % px, [P("x", S, px), K(0.4)], M("div"), lambda x, u: x / Fr("0.4"), ns=(2, 3)))
    for a, b in [(16, 8), (8, 16), (16, 16), (0, 16), (16, 0)]:
        def enc(it, x, b=b):
            e = call(it, cls(it, "crypten.encoder.FixedPointEncoder"), precision_bits=b)
            return method(it, x, "encode", e)

        def enci(it, x, b=b):
            e = call(it, cls(it, "crypten.encoder.FixedPointEncoder"), precision_bits=b)
            return method(it, x, "encode_", e)
        out.append(Case("arithmetic.encode(%d to %d)" % (a, b), [P("x", S, a)], enc, lambda x: x, ns=(2, 3)))
        out.append(Case("arithmetic.encode_(%d to %d)" % (a, b), [P("x", S, a)], enci, lambda x: x, ns=(2, 3), inplace=True))
    return out


def structural_cases(kind=P, who="arithmetic"):
    """structural operations: same operation on the plaintext"""
    out = []

    def add(label, ops, do, spec, **k):
        k.setdefault("ns", (1, 2))
        out.append(Case("%s.%s" % (who, label), ops, do, spec, view=True, **k))
    X = kind("x", (2, 3))
    X3 = kind("x3", (2, 3, 4))
    X1 = kind("x1", (5,))
    add("view(6)", [X], lambda it, x: method(it, x, "view", 6), lambda x: x.reshape(6))
    add("view(3, -1)", [X], lambda it, x: method(it, x, "view", 3, -1), lambda x: x.reshape(3, 2))
    add("view((3, 2))", [X], lambda it, x: method(it, x, "view", (3, 2)), lambda x: x.reshape(3, 2))
    add("reshape(3, 2)", [X], lambda it, x: method(it, x, "reshape", 3, 2), lambda x: x.reshape(3, 2))
    add("reshape((1, 6))", [X], lambda it, x: method(it, x, "reshape", (1, 6)), lambda x: x.reshape(1, 6))
    add("t()", [X], lambda it, x: method(it, x, "t"), lambda x: x.T)
    for d in [(0, 1), (1, 2), (-1, 0)]:
        add("transpose%s" % (d,), [X3], (lambda d: lambda it, x: method(it, x, "transpose", *d))(d), (lambda d: lambda x: np.swapaxes(x, *d))(d))
    add("permute(2, 0, 1)", [X3], lambda it, x: method(it, x, "permute", 2, 0, 1), lambda x: np.transpose(x, (2, 0, 1)))
    add("permute((1, 2, 0))", [X3], lambda it, x: method(it, x, "permute", (1, 2, 0)), lambda x: np.transpose(x, (1, 2, 0)))
    add("flatten()", [X3], lambda it, x: method(it, x, "flatten"), lambda x: x.reshape(-1))
    add("flatten(start_dim=1)", [X3], lambda it, x: method(it, x, "flatten", start_dim=1), lambda x: x.reshape(2, 12))
    add("flatten(0, 1)", [X3], lambda it, x: method(it, x, "flatten", 0, 1), lambda x: x.reshape(6, 4))
    add("squeeze()", [kind("xs", (1, 3, 1))], lambda it, x: method(it, x, "squeeze"), lambda x: x.reshape(3))
    add("squeeze(0)", [kind("xs", (1, 3, 1))], lambda it, x: method(it, x, "squeeze", 0), lambda x: x.reshape(3, 1))
    add("squeeze(-1)", [kind("xs", (1, 3, 1))], lambda it, x: method(it, x, "squeeze", -1), lambda x: x.reshape(1, 3))
    add("unsqueeze(1)", [X], lambda it, x: method(it, x, "unsqueeze", 1), lambda x: x[:, None])
    add("unsqueeze(-1)", [X], lambda it, x: method(it, x, "unsqueeze", -1), lambda x: x[..., None])
    add("expand(4, 2, 3)", [X], lambda it, x: method(it, x, "expand", 4, 2, 3), lambda x: np.broadcast_to(x, (4, 2, 3)))
    add("expand(-1, 3)", [kind("xe", (2, 1))], lambda it, x: method(it, x, "expand", -1, 3), lambda x: np.broadcast_to(x, (2, 3)))
    add("repeat(2, 1)", [X], lambda it, x: method(it, x, "repeat", 2, 1), lambda x: np.tile(x, (2, 1)))
    add("narrow(1, 1, 2)", [X3], lambda it, x: method(it, x, "narrow", 1, 1, 2), lambda x: x[:, 1:3])
    add("roll(1, 1)", [X3], lambda it, x: method(it, x, "roll", 1, 1), lambda x: np.roll(x, 1, 1))
    add("roll(2, dims=0)", [X3], lambda it, x: method(it, x, "roll", 2, dims=2), lambda x: np.roll(x, 2, 2))
    add("flip(1)", [X3], lambda it, x: method(it, x, "flip", 1), lambda x: np.flip(x, 1))
    add("flip(0, 2)", [X3], lambda it, x: method(it, x, "flip", 0, 2), lambda x: np.flip(x, (0, 2)))
    add("unfold(0, 3, 2)", [X1], lambda it, x: method(it, x, "unfold", 0, 3, 2), lambda x: np.stack([x[0:3], x[2:5]]))
    for lab, idx, py in [("[1]", 1, 1), ("[:, 1]", (SliceV(None, None, None), 1), (slice(None), 1)), ("[0:1]", SliceV(0, 1, None), slice(0, 1)),
                         ("[..., -1]", (Ellipsis, -1), (Ellipsis, -1)), ("[:, None]", (SliceV(None, None, None), None), (slice(None), None)),
                         ("[1, 2, 0]", (1, 2, 0), (1, 2, 0)), ("[:, ::2]", (SliceV(None, None, None), SliceV(None, None, 2)), (slice(None), slice(None, None, 2)))]:
        add("__getitem__%s" % lab, [X3], (lambda i: lambda it, x: method(it, x, "__getitem__", i))(idx), (lambda p: lambda x: arr(x[p]))(py))
    add("gather(1)", [X3, I([[[0, 1, 0, 2]], [[2, 2, 1, 0]]])], lambda it, x, i: method(it, x, "gather", 1, i), lambda x, i: gather_(x, 1, i))
    add("gather(0)", [X, I([[1, 0, 1]])], lambda it, x, i: method(it, x, "gather", 0, i), lambda x, i: gather_(x, 0, i))
    add("index_select(1)", [X3, I([2, 0])], lambda it, x, i: method(it, x, "index_select", 1, i), lambda x, i: x[:, [2, 0]])
    add("take(flat)", [X, I([0, 4, 4])], lambda it, x, i: method(it, x, "take", i), lambda x, i: x.reshape(-1)[[0, 4, 4]])
    add("take(dimension)", [X3, I([2, 0])], lambda it, x, i: method(it, x, "take", i, 1), lambda x, i: x[:, [2, 0]])
    X4 = kind("x4", (2, 1, 3, 2))
    for d in (-1, -2, -3, 2):
        add("take(dimension %d)" % d, [X3, I([1, 0])], (lambda d: lambda it, x, i: method(it, x, "take", i, d))(d), (lambda d: lambda x, i: np.take(x, [1, 0], d))(d))
        add("index_select(%d)" % d, [X3, I([1, 0, 1])], (lambda d: lambda it, x, i: method(it, x, "index_select", d, i))(d), (lambda d: lambda x, i: np.take(x, [1, 0, 1], d))(d))
        add("unsqueeze(%d) rank 3" % d, [X3], (lambda d: lambda it, x: method(it, x, "unsqueeze", d))(d), (lambda d: lambda x: np.expand_dims(x, d))(d))
        add("unbind(dim=%d)" % d, [X3], (lambda d: lambda it, x: method(it, x, "unbind", dim=d))(d),
            (lambda d: lambda x: [np.take(x, j, d) for j in range(x.shape[d])])(d))
        add("unbind(%d)" % d, [X3], (lambda d: lambda it, x: method(it, x, "unbind", d))(d),
            (lambda d: lambda x: [np.take(x, j, d) for j in range(x.shape[d])])(d))
        add("split(1, dim=%d)" % d, [X3], (lambda d: lambda it, x: method(it, x, "split", 1, dim=d))(d), (lambda d: lambda x: np.split(x, x.shape[d], d))(d))
        add("split(1, %d)" % d, [X3], (lambda d: lambda it, x: method(it, x, "split", 1, d))(d), (lambda d: lambda x: np.split(x, x.shape[d], d))(d))
        add("narrow(%d, 1, 1)" % d, [X3], (lambda d: lambda it, x: method(it, x, "narrow", d, 1, 1))(d), (lambda d: lambda x: np.take(x, [1], d))(d))
        add("flip(%d)" % d, [X3], (lambda d: lambda it, x: method(it, x, "flip", d))(d), (lambda d: lambda x: np.flip(x, d))(d))
        add("roll(1, %d)" % d, [X3], (lambda d: lambda it, x: method(it, x, "roll", 1, d))(d), (lambda d: lambda x: np.roll(x, 1, d))(d))
        add("gather(%d)" % d, [X3, I([[[0, 1, 1, 0]], [[1, 1, 0, 0]]])], (lambda d: lambda it, x, i: method(it, x, "gather", d, i))(d),
            (lambda d: lambda x, i: gather_(x, d % 3, i))(d))
        if kind is P:
            add("sum(%d) rank 3" % d, [X3], (lambda d: lambda it, x: method(it, x, "sum", d))(d), (lambda d: lambda x: x.sum(d))(d))
            add("sum(%d, keepdim=True) rank 3" % d, [X3], (lambda d: lambda it, x: method(it, x, "sum", d, keepdim=True))(d), (lambda d: lambda x: x.sum(d, keepdims=True))(d))
            add("mean(%d) rank 3" % d, [X3], (lambda d: lambda it, x: method(it, x, "mean", d))(d), (lambda d: lambda x: x.sum(d) / x.shape[d])(d))
            add("cumsum(%d)" % d, [X3], (lambda d: lambda it, x: method(it, x, "cumsum", d))(d), (lambda d: lambda x: np.cumsum(x, d))(d))
            add("prod(%d)" % d, [kind("xp3", (2, 3, 3))], (lambda d: lambda it, x: method(it, x, "prod", d))(d), (lambda d: lambda x: np.prod(x, axis=d))(d))
    add("take(matrix of indices)", [X, I([[0, 5], [2, 2]])], lambda it, x, i: method(it, x, "take", i), lambda x, i: x.reshape(-1)[np.array([[0, 5], [2, 2]])])
    add("squeeze() rank 4", [X4], lambda it, x: method(it, x, "squeeze"), lambda x: x.reshape(2, 3, 2))
    add("squeeze(1) rank 4", [X4], lambda it, x: method(it, x, "squeeze", 1), lambda x: x.reshape(2, 3, 2))
    add("squeeze(0) rank 4, not unit", [X4], lambda it, x: method(it, x, "squeeze", 0), lambda x: x)
    add("permute rank 4", [X4], lambda it, x: method(it, x, "permute", 3, 0, -2, 1), lambda x: np.transpose(x, (3, 0, 2, 1)))
    add("transpose(-1, -2)", [X4], lambda it, x: method(it, x, "transpose", -1, -2), lambda x: np.swapaxes(x, -1, -2))
    add("flatten(1, 2) rank 4", [X4], lambda it, x: method(it, x, "flatten", 1, 2), lambda x: x.reshape(2, 3, 2))
    add("flatten(-2)", [X4], lambda it, x: method(it, x, "flatten", -2), lambda x: x.reshape(2, 1, 6))
    add("flatten() scalar", [kind("x0", ())], lambda it, x: method(it, x, "flatten"), lambda x: x.reshape(1))
    add("view(-1) scalar", [kind("x0", ())], lambda it, x: method(it, x, "view", -1), lambda x: x.reshape(1))
    add("reshape(-1)", [X4], lambda it, x: method(it, x, "reshape", -1), lambda x: x.reshape(-1))
    add("repeat(2, 2, 1)", [X], lambda it, x: method(it, x, "repeat", 2, 2, 1), lambda x: np.tile(x, (2, 2, 1)))
    add("t() vector", [X1], lambda it, x: method(it, x, "t"), lambda x: x)
    add("clone()", [X3], lambda it, x: method(it, x, "clone"), lambda x: x)
    add("split((1, 2), dim=-2)", [X3], lambda it, x: method(it, x, "split", (1, 2), dim=-2), lambda x: [x[:, :1], x[:, 1:]])
    add("split(2)", [X1], lambda it, x: method(it, x, "split", 2), lambda x: [x[:2], x[2:4], x[4:]])
    add("split([1, 2], dim=1)", [X3], lambda it, x: method(it, x, "split", it.new_list([1, 2]), dim=1), lambda x: [x[:, :1], x[:, 1:]])
    add("unbind()", [X], lambda it, x: method(it, x, "unbind"), lambda x: [x[0], x[1]])
    add("unbind(dim=1)", [X], lambda it, x: method(it, x, "unbind", dim=1), lambda x: [x[:, 0], x[:, 1], x[:, 2]])
    if kind is P:
        add("sum()", [X3], lambda it, x: method(it, x, "sum"), lambda x: arr(x.sum()))
        add("sum(1)", [X3], lambda it, x: method(it, x, "sum", 1), lambda x: x.sum(1))
        add("sum(dim=-1, keepdim)", [X3], lambda it, x: method(it, x, "sum", dim=-1, keepdim=True), lambda x: x.sum(-1, keepdims=True))
        add("sum((0, 2))", [X3], lambda it, x: method(it, x, "sum", (0, 2)), lambda x: x.sum((0, 2)))
        add("cumsum(1)", [X3], lambda it, x: method(it, x, "cumsum", 1), lambda x: np.cumsum(x, 1))
        add("cumsum(dim=0)", [X3], lambda it, x: method(it, x, "cumsum", dim=0), lambda x: np.cumsum(x, 0))
        add("trace()", [kind("xq", (3, 3))], lambda it, x: method(it, x, "trace"), lambda x: arr(np.trace(x)))
        add("mean()", [X3], lambda it, x: method(it, x, "mean"), lambda x: arr(x.sum() / 24), ns=(1, 2, 3))
        add("mean(1)", [X3], lambda it, x: method(it, x, "mean", 1), lambda x: x.sum(1) / 3, ns=(1, 2, 3))
        add("mean(2, keepdim)", [X3], lambda it, x: method(it, x, "mean", 2, keepdim=True), lambda x: x.sum(2, keepdims=True) / 4)
        add("prod()", [kind("xp", (3,))], lambda it, x: method(it, x, "prod"), lambda x: arr(x[0] * x[1] * x[2]))
        add("prod(1)", [kind("xp5", (2, 5))], lambda it, x: method(it, x, "prod", 1), lambda x: np.prod(x, axis=1))
        add("prod(0, keepdim)", [kind("xp4", (4, 2))], lambda it, x: method(it, x, "prod", 0, keepdim=True), lambda x: np.prod(x, axis=0, keepdims=True))
        add("dot", [X1, kind("y1", (5,))], lambda it, x, y: method(it, x, "dot", y), lambda x, y: arr((x * y).sum()))
        add("dot(weights)", [X1, kind("y1", (5,)), U("w", (5,))], lambda it, x, y, w: method(it, x, "dot", y, weights=w),
            lambda x, y, w: arr((x * y * frac(w)).sum()))
        add("ger", [kind("xg", (2,)), kind("yg", (3,))], lambda it, x, y: method(it, x, "ger", y), lambda x, y: np.outer(x, y))
    return out


def join_cases(kind=P, who="arithmetic", cq=AST):
    out = []

    def add(label, ops, do, spec, **k):
        k.setdefault("ns", (1, 2))
        out.append(Case("%s.%s" % (who, label), ops, do, spec, **k))
    for op in ("cat", "stack"):
        for dim in (0, 1, -1):
            f = (lambda op, dim: lambda it, l: call(it, it.getattr(cls(it, cq), op), l, dim=dim))(op, dim)
            s = (lambda op, dim: lambda l: (np.concatenate if op == "cat" else np.stack)(l, axis=dim))(op, dim)
            add("%s(dim=%d)" % (op, dim), [L(kind("a", (2, 3)), kind("b", (2, 3)), kind("c", (2, 3)))], f, s)
        f0 = (lambda op: lambda it, l: call(it, it.getattr(cls(it, cq), op), l))(op)
        s0 = (lambda op: lambda l: (np.concatenate if op == "cat" else np.stack)(l, axis=0))(op)
        add("%s()" % op, [L(kind("a", (2, 3)), kind("b", (2, 3)))], f0, s0)
        fp = (lambda op: lambda it, l: call(it, it.getattr(cls(it, cq), op), l, 1))(op)
        sp = (lambda op: lambda l: (np.concatenate if op == "cat" else np.stack)(l, axis=1))(op)
        add("%s(1)" % op, [L(kind("a", (2, 3)), kind("b", (2, 3)))], fp, sp)
    return out
