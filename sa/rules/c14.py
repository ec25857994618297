"""Gradients of encrypted functions are the vector-Jacobian products of their plaintext counterparts."""
import itertools
import math
from .prog import *
from .c19 import pair, pool_cols
from ..evalq import pool_windows

MINIMUM = 60


class In:
    """operand of a differentiated program. kind: enc (gradient wanted), const (encrypted, no gradient), pub"""

    def __init__(self, shape, kind="enc", lo=-3, hi=3, dtype="float", precision=16, fixed=None, step=8):
        self.shape, self.kind, self.lo, self.hi, self.dtype, self.precision, self.fixed, self.step = shape, kind, lo, hi, dtype, precision, fixed, step

    def values(self, name, point):
        if self.fixed is not None:
            return fa(self.fixed[point % len(self.fixed)] if isinstance(self.fixed, tuple) else self.fixed)
        a = np.empty(self.shape, dtype=object)
        st = 1 if self.dtype == "long" or self.precision == 0 else self.step
        lo, hi = int(self.lo * st), int(self.hi * st)
        for i in range(a.size):
            a.reshape(-1)[i] = Fr(lo + h64("gv", name, i, point) % (hi - lo + 1), st)
        return a

    def op(self, name, points):
        pts = tuple(self.values(name, p).tolist() for p in range(points))
        if self.kind == "pub":
            return X(name, pts, None, kind="pub", dtype=self.dtype)
        return X(name, pts, self.precision)


def enc(*shape, **kw):
    return In(shape, "enc", **kw)


def const(*shape, **kw):
    return In(shape, "const", **kw)


def pub(*shape, **kw):
    return In(shape, "pub", **kw)


def flt(a):
    return np.vectorize(float, otypes=[float])(a) if a.size else a.astype(float)


H = 1e-5


def vjp(f, xs, i, g):
    """numeric vector-Jacobian product of f at xs with respect to operand i"""
    base = xs[i]
    out = np.zeros(base.shape)
    for q in np.ndindex(*base.shape):
        d = []
        for s in (1, -1):
            y = base.copy()
            y[q] += s * H
            d.append(np.asarray(f(*[y if j == i else x for j, x in enumerate(xs)]), dtype=float))
        out[q] = float(np.sum((d[0] - d[1]) / (2 * H) * g))
    return out


def near(got, want, tol, what):
    got, want = arr(got), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return "%s has shape %s instead of %s" % (what, list(got.shape), list(want.shape))
    for q in np.ndindex(*want.shape):
        a, b = float(num(got[q])), float(want[q])
        if not abs(a - b) <= tol * max(1.0, abs(b)):
            return "%s at %s is %.6g instead of %.6g" % (what, list(q), a, b)
    return None


def setgrad(it, x, v=True):
    it.setattr(x, "requires_grad", v)


class GradProg(Prog):
    """fn(it, *operands): the program; f(*arrays): its plaintext counterpart. tol: relative above 1, absolute below"""

    def __init__(self, label, ins, fn, f, tol=0.002, gtol=None, ns=(1,), points=2, cfg=None, first=False, out_scale=8, check_out=True, may_raise=None):
        self.plain = (label, ins, fn, f, tol, points, cfg, first, may_raise) if check_out else None
        gtol = tol if gtol is None else gtol
        ops = [i.op("xyzw"[k], points) for k, i in enumerate(ins)]
        vals0 = [flt(i.values("xyzw"[k], 0)) for k, i in enumerate(ins)]
        oshape = np.asarray(f(*vals0)).shape
        gin = In(oshape, lo=-2, hi=2, step=out_scale)
        ops.append(gin.op("G", points))
        wrt = [k for k, i in enumerate(ins) if i.kind == "enc"]

        def do(it, *ts):
            for k in wrt:
                setgrad(it, ts[k])
            out = fn(it, *ts[:-1])
            res = out[0] if first else out
            method(it, res, "backward", ts[-1])
            return [res] + [it.getattr(ts[k], "grad") for k in wrt]

        def judge(got, *vals):
            xs, g = [flt(v) for v in vals[:-1]], flt(vals[-1])
            want = f(*xs)
            if check_out:
                d = near(got[0], want, tol, "the result")
                if d:
                    return d
            for slot, k in enumerate(wrt):
                if got[1 + slot] is None:
                    return "operand %d receives no gradient" % k
                d = near(got[1 + slot], vjp(f, xs, k, g), gtol, "the gradient of operand %d" % k)
                if d:
                    return d
            return None
        super().__init__(label, ops, do, None, ns=ns, points=points, judge=judge, cfg=cfg, may_raise=may_raise)


class Forward(Prog):
    """the same program without recording"""

    def __init__(self, label, ins, fn, f, tol, points, cfg, first, may_raise):
        ops = [i.op("xyzw"[k], points) for k, i in enumerate(ins)]

        def do(it, *ts):
            out = fn(it, *ts)
            return [out[0] if first else out]

        def judge(got, *vals):
            return near(got[0], f(*[flt(v) for v in vals]), tol, "the result")
        super().__init__(label, ops, do, None, ns=(1,), points=points, judge=judge, cfg=cfg, may_raise=may_raise)


def cr(name):
    """function of the crypten module"""
    return lambda it, *a, **kw: call(it, it.mod_get(it.import_module("crypten"), name), *a, **kw)


def tens(it, v):
    return tm.EXT["torch.tensor"](it, [pylist(it, v)], {"dtype": ExtV("torch.long")})


def lst(name):
    """function of the crypten module over a list"""
    return lambda it, *xs, **kw: cr(name)(it, it.new_list(list(xs)), **kw)


def attr(name, *extra):
    """call an attribute looked up on the object (operators look methods up on the type)"""
    return lambda it, x, *ys: it.call(it.getattr(x, name), list(ys) + list(extra), {})


def sub(k):
    """subscript in the interpreter's representation"""
    if isinstance(k, tuple):
        return tuple(sub(x) for x in k)
    return SliceV(k.start, k.stop, k.step) if isinstance(k, slice) else k


def structural():
    P = []

    def a(label, ins, fn, f, **kw):
        P.append(GradProg(label, ins, fn, f, **kw))
    a("t", [enc(2, 3)], M("t"), lambda x: x.T, ns=(1, 2))
    a("transpose(0,1)", [enc(2, 3)], M("transpose", 0, 1), lambda x: x.T)
    a("transpose(-1,0)", [enc(2, 3, 2)], M("transpose", -1, 0), lambda x: np.swapaxes(x, -1, 0))
    for p in ((2, 0, 1), (1, 2, 0), (0, 2, 1)):
        a("permute%s" % (p,), [enc(2, 3, 2)], M("permute", p), lambda x, p=p: np.transpose(x, p))
    a("flip(0)", [enc(3, 2)], M("flip", 0), lambda x: np.flip(x, 0))
    a("flip((0,1))", [enc(3, 2)], M("flip", (0, 1)), lambda x: np.flip(x, (0, 1)))
    a("clone", [enc(3)], M("clone"), lambda x: x.copy())
    for d in (0, 1, -1):
        sh = (2, 3) if d == 0 else (3, 2)
        a("cat dim=%d" % d, [enc(2, 2), enc(*((1, 2) if d == 0 else (2, 1)))], lambda it, x, y, d=d: lst("cat")(it, x, y, dim=d), lambda x, y, d=d: np.concatenate([x, y], d), ns=(1, 2))
    a("cat three", [enc(2), enc(1), enc(3)], lambda it, x, y, z: lst("cat")(it, x, y, z), lambda x, y, z: np.concatenate([x, y, z], 0))
    for d in (0, 1, -1):
        a("stack dim=%d" % d, [enc(2, 2), enc(2, 2)], lambda it, x, y, d=d: lst("stack")(it, x, y, dim=d), lambda x, y, d=d: np.stack([x, y], d), ns=(1, 2))
    a("view(3,2)", [enc(2, 3)], M("view", 3, 2), lambda x: x.reshape(3, 2))
    a("view(-1)", [enc(2, 3)], M("view", -1), lambda x: x.reshape(-1))
    a("reshape((3,2))", [enc(2, 3)], M("reshape", (3, 2)), lambda x: x.reshape(3, 2))
    a("reshape(1,6)", [enc(2, 3)], M("reshape", 1, 6), lambda x: x.reshape(1, 6))
    a("flatten", [enc(2, 3, 2)], M("flatten"), lambda x: x.reshape(-1))
    a("flatten(1)", [enc(2, 3, 2)], M("flatten", 1), lambda x: x.reshape(2, 6))
    a("flatten(0,1)", [enc(2, 3, 2)], M("flatten", start_dim=0, end_dim=1), lambda x: x.reshape(6, 2))
    for d, s, l in ((0, 1, 2), (1, 0, 1), (2, 1, 1), (1, 0, 3), (-1, 1, 1), (-2, 1, 2)):
        def nar(x, d=d, s=s, l=l):
            sl = [slice(None)] * x.ndim
            sl[d] = slice(s, s + l)
            return x[tuple(sl)]
        a("narrow(%d,%d,%d)" % (d, s, l), [enc(3, 3, 2)], M("narrow", d, s, l), nar)
    for ix in ([0, 2], [1, 1, 4], [[5, 0], [2, 2]]):
        a("take(%s)" % ix, [enc(2, 3)], lambda it, x, ix=ix: method(it, x, "take", tens(it, ix)), lambda x, ix=ix: x.reshape(-1)[np.array(ix)])
    for d in (0, 1, -1):
        for ix in ([1, 0], [1, 1], [[0, 1], [1, 0]]):
            a("take(%s, dim=%d)" % (ix, d), [enc(2, 3)], lambda it, x, ix=ix, d=d: method(it, x, "take", tens(it, ix), d), lambda x, ix=ix, d=d: np.take(x, np.array(ix), axis=d))
        for ix in ([1, 0], [1, 1, 0]):
            a("index_select(%d,%s)" % (d, ix), [enc(2, 3)], lambda it, x, ix=ix, d=d: method(it, x, "index_select", d, tens(it, ix)), lambda x, ix=ix, d=d: np.take(x, np.array(ix), axis=d))
    for d, ix in ((0, [[1, 0, 1], [0, 0, 1]]), (1, [[2, 0], [1, 1]]), (-1, [[0, 0, 0, 2], [1, 2, 1, 1]])):
        a("gather(%d,%s)" % (d, ix), [enc(2, 3)], lambda it, x, ix=ix, d=d: method(it, x, "gather", d, tens(it, ix)), lambda x, ix=ix, d=d: np.take_along_axis(x, np.array(ix), d))

    def scat(x, y, d, ix):
        x = x.copy()
        ix = np.array(ix)
        for q in np.ndindex(*ix.shape):
            t = list(q)
            t[d] = ix[q]
            x[tuple(t)] = y[q]
        return x
    for d, ix in ((0, [[1, 0, 1]]), (1, [[2, 0], [1, 2]]), (0, [[1, 0], [0, 1]])):
        a("scatter(%d,%s)" % (d, ix), [enc(2, 3), enc(*np.array(ix).shape)], lambda it, x, y, ix=ix, d=d: method(it, x, "scatter", d, tens(it, ix), y),
          lambda x, y, ix=ix, d=d: scat(x, y, d, ix))
    for s, d in ((1, None), (1, 0), (-2, 1), ((1, 2), (0, 1)), ((1, 2), (1, 1)), (1, -1)):
        a("roll(%s,%s)" % (s, d), [enc(3, 4)], M("roll", s, **({} if d is None else {"dims": d})), lambda x, s=s, d=d: np.roll(x, s, d), points=1)
    for sh, ar in (((1, 3, 1), ()), ((1, 3, 1), (0,)), ((1, 3, 1), (2,)), ((1, 3, 1), (-1,)), ((2, 3), (0,)), ((1, 1, 2, 1), ()), ((1, 1), ()), ((3, 1, 1), (-2,))):
        a("squeeze%s of %s" % (ar, list(sh)), [enc(*sh)], M("squeeze", *ar), lambda x, ar=ar: x.squeeze() if not ar else (x.squeeze(ar[0]) if x.shape[ar[0]] == 1 else x))
    a("squeeze(dim=0)", [enc(1, 3)], M("squeeze", dim=0), lambda x: x.squeeze(0))
    for d in (0, 1, 2, -1, -2):
        a("unsqueeze(%d)" % d, [enc(2, 3)], M("unsqueeze", d), lambda x, d=d: np.expand_dims(x, d))
    gi = lambda k: M("__getitem__", sub(k))
    for nm, k in (("0", 0), ("-1", -1), ("1:", slice(1, None, None)), ("::2", slice(None, None, 2)), ("(0,1)", (0, 1)), ("(:,1)", (slice(None, None, None), 1)),
                  ("(..., 0)", (Ellipsis, 0)), ("(:,None)", (slice(None, None, None), None))):
        a("x[%s]" % nm, [enc(3, 3)], gi(k), lambda x, k=k: x[k])
    a("x[[2,0]]", [enc(3, 2)], lambda it, x: method(it, x, "__getitem__", tens(it, [2, 0])), lambda x: x[[2, 0]])
    a("x[[1,1,0]]", [enc(3, 2)], lambda it, x: method(it, x, "__getitem__", tens(it, [1, 1, 0])), lambda x: x[[1, 1, 0]])
    for pd in ((1, 2), (0, 1, 2, 0), (1, 1, 0, 2, 1, 0), (0, 0, 1, 0)):
        def padf(x, pd=pd, v=0.0):
            w = [(0, 0)] * x.ndim
            for i in range(0, len(pd), 2):
                w[x.ndim - 1 - i // 2] = (pd[i], pd[i + 1])
            return np.pad(x, w, constant_values=v)
        a("pad%s" % (pd,), [enc(2, 2, 2)], M("pad", pd), padf)
    a("pad value=1.5", [enc(2, 2)], M("pad", (1, 1), value=1.5), lambda x: np.pad(x, [(0, 0), (1, 1)], constant_values=1.5))
    for d in (0, 1, -1):
        a("cumsum(%d)" % d, [enc(3, 2)], M("cumsum", d), lambda x, d=d: np.cumsum(x, d))
    a("trace", [enc(3, 3)], M("trace"), lambda x: np.trace(x))
    for d in (None, 0, 1, -1):
        for keep in (False, True):
            kw = {} if d is None else {"dim": d, "keepdim": keep}
            if d is None and keep:
                continue
            a("sum(%s,%s)" % (d, keep), [enc(2, 3)], M("sum", **kw), lambda x, d=d, keep=keep: x.sum() if d is None else x.sum(d, keepdims=keep))
            a("mean(%s,%s)" % (d, keep), [enc(2, 3)], M("mean", **kw), lambda x, d=d, keep=keep: x.mean() if d is None else x.mean(d, keepdims=keep))
    a("sum(1) positional", [enc(2, 3)], M("sum", 1), lambda x: x.sum(1))
    a("mean(1) positional", [enc(2, 3)], M("mean", 1), lambda x: x.mean(1))
    a("sum of 0-dim", [enc()], M("sum"), lambda x: x)
    a("mean of 0-dim", [enc()], M("mean"), lambda x: x)
    a("neg", [enc(3)], M("neg"), lambda x: -x)
    a("unary minus", [enc(3)], lambda it, x: method(it, x, "__neg__"), lambda x: -x)
    return P


SHAPES = [((2, 3), (2, 3)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 1), (1, 3)), ((2, 3), (1,)), ((), (2,)), ((2, 3), ()), ((1, 2, 1), (3, 1, 2)), ((2, 2), (2, 1))]


def arithmetic():
    P = []

    def a(label, ins, fn, f, **kw):
        P.append(GradProg(label, ins, fn, f, **kw))
    BIN = {"add": np.add, "sub": np.subtract, "mul": np.multiply}
    for nm, f in BIN.items():
        for s1, s2 in SHAPES:
            ns = (1, 2, 3) if (s1, s2) == ((2, 3), (3,)) else (1,)
            a("%s %s %s" % (nm, list(s1), list(s2)), [enc(*s1), enc(*s2)], M(nm), f, ns=ns, points=1)
            a("%s %s public %s" % (nm, list(s1), list(s2)), [enc(*s1), pub(*s2)], M(nm), f, points=1)
        a("%s constant" % nm, [enc(2, 3), const(3)], M(nm), f)
        a("%s of a constant" % nm, [const(2, 3), enc(3)], M(nm), f)
        a("%s public integers" % nm, [enc(2, 3), pub(3, dtype="long")], M(nm), f)
        for s in (2, -1.5):
            a("%s(%s)" % (nm, s), [enc(2)], M(nm, s), lambda x, f=f, s=s: f(x, s))
    for s in (2, -1.5):
        a("%s - x" % s, [enc(2)], lambda it, x, s=s: it.binop("Sub", s, x), lambda x, s=s: s - x)
        a("%s * x" % s, [enc(2)], lambda it, x, s=s: it.binop("Mult", s, x), lambda x, s=s: s * x)
        a("%s + x" % s, [enc(2)], lambda it, x, s=s: it.binop("Add", s, x), lambda x, s=s: s + x)
        a("__rtruediv__(%s)" % s, [enc(2, lo=1, hi=4)], attr("__rtruediv__", s), lambda x, s=s: s / x, tol=0.01)
        a("div(%s)" % s, [enc(2)], M("div", s), lambda x, s=s: x / s)
    for sy, f in (("Add", np.add), ("Sub", np.subtract), ("Mult", np.multiply)):
        a("x %s y operators" % sy, [enc(2, 2), enc(2)], op2(sy), f)
    a("public - x", [pub(2, 3), enc(3)], lambda it, p, x: attr("__rsub__", p)(it, x), lambda p, x: p - x)
    a("__rsub__ encrypted", [enc(3), enc(2, 3)], lambda it, p, x: attr("__rsub__", p)(it, x), lambda p, x: p - x)
    for s1, s2 in (((2, 3), (2, 3)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 1), (1, 3)), ((), (2,)), ((2,), ())):
        a("div %s by encrypted %s" % (list(s1), list(s2)), [enc(*s1), enc(*s2, lo=1, hi=4)], M("div"), np.divide, tol=0.01, points=1)
        a("div %s by public %s" % (list(s1), list(s2)), [enc(*s1), pub(*s2, lo=1, hi=4)], M("div"), np.divide, tol=0.005, points=1)
        a("public %s over %s" % (list(s1), list(s2)), [pub(*s1), enc(*s2, lo=1, hi=4)], lambda it, p, x: attr("__rtruediv__", p)(it, x), np.divide, tol=0.01, points=1)
    for s1, s2 in (((2, 3), (3, 2)), ((3,), (3,)), ((2, 3), (3,)), ((3,), (3, 2)), ((2, 2, 3), (3, 2)), ((2, 2, 3), (2, 3, 2)), ((2, 3), (2, 3, 2)), ((3,), (2, 3, 2)),
                   ((2, 2, 3), (3,)), ((2, 1, 2, 3), (3, 3, 1)), ((1, 3), (3, 1)), ((1,), (1,)), ((1, 1, 3), (3, 3)), ((1, 2, 3), (2, 3, 2)), ((2, 1), (1,)), ((1,), (1, 2))):
        ns = (1, 2) if s1 == (2, 3) else (1,)
        a("matmul %s %s" % (list(s1), list(s2)), [enc(*s1), enc(*s2)], M("matmul"), np.matmul, ns=ns, points=1)
        a("matmul %s public %s" % (list(s1), list(s2)), [enc(*s1), pub(*s2)], M("matmul"), np.matmul, points=1)
    a("dot", [enc(4), enc(4)], M("dot"), np.dot, ns=(1, 2))
    a("dot public", [enc(4), pub(4)], M("dot"), np.dot)
    a("ger", [enc(3), enc(2)], M("ger"), np.outer, ns=(1, 2))
    a("ger public", [enc(3), pub(2)], M("ger"), np.outer)
    a("square", [enc(2, 3)], M("square"), np.square, ns=(1, 2))
    for p in (2, 3, 4, 5, 1, -1, -2):
        lo = 1 if p < 0 else -2
        a("pow(%d)" % p, [enc(4, lo=lo, hi=2)], M("pow", p), lambda x, p=p: x ** float(p), tol=0.02)
        a("pos_pow(%d)" % p, [enc(4, lo=1, hi=2)], M("pos_pow", p), lambda x, p=p: x ** float(p), tol=0.02)
    for p in (2.0, 1.5, 0.5):
        a("pos_pow(%s)" % p, [enc(4, lo=1, hi=3)], M("pos_pow", p), lambda x, p=p: x ** p, tol=0.05)
    a("x ** 2", [enc(4)], attr("__pow__", 2), lambda x: x ** 2)
    for co in ([1.0, 2.0], [0.5, -1.0, 2.0], [0.0, 0.0, 0.0, 1.0], [2.0]):
        a("polynomial(%s)" % co, [enc(3, lo=-2, hi=2)], (lambda it, x, co=co: method(it, x, "polynomial", pylist(it, co))), lambda x, co=co: sum(c * x ** (i + 1) for i, c in enumerate(co)), tol=0.01)
    a("polynomial of public coefficients", [enc(3, lo=-2, hi=2), pub(3)], M("polynomial"), lambda x, c: sum(c[i] * x ** (i + 1) for i in range(3)), tol=0.01)
    return P


def away(shape, lo, hi, avoid, step=8):
    """values of a grid at distance > 1/16 from the points of `avoid`"""
    o = In(shape, lo=lo, hi=hi, step=step)
    base = o.values

    def values(name, point):
        v = base(name, point)
        for q in np.ndindex(*v.shape):
            while v[q] in [Fr(z) for z in avoid]:
                v[q] += Fr(1, 4)
        return v
    o.values = values
    return o


def distinct(*shape, **kw):
    """pairwise distinct values"""
    o = In(shape, **kw)

    def values(name, point):
        n = int(np.prod(shape))
        order = sorted(range(n), key=lambda i: h64("ds", name, i, point))
        a = np.empty(n, dtype=object)
        for r, i in enumerate(order):
            a[i] = Fr(3 * r - n, 8)
        return a.reshape(shape)
    o.values = values
    return o


def erf(x):
    return np.vectorize(math.erf, otypes=[float])(x)


def smax(x, d):
    e = np.exp(x - x.max(d, keepdims=True))
    return e / e.sum(d, keepdims=True)


def nonlinear():
    P = []

    def a(label, ins, fn, f, **kw):
        P.append(GradProg(label, ins, fn, f, **kw))
    z = away((6,), -3, 3, (0,))
    sg = lambda x: 1 / (1 + np.exp(-x))
    a("relu", [z], M("relu"), lambda x: np.maximum(x, 0), ns=(1, 2))
    a("abs", [z], M("abs"), np.abs, ns=(1, 2))
    a("builtin abs", [z], lambda it, x: method(it, x, "__abs__"), np.abs)
    a("sign", [z], M("sign"), np.sign)
    a("relu6", [away((8,), -4, 9, (0, 6))], M("relu6"), lambda x: np.clip(x, 0, 6), ns=(1, 2))
    a("hardtanh", [away((8,), -3, 3, (1, -1))], M("hardtanh"), lambda x: np.clip(x, -1, 1), ns=(1, 2))
    for lo, hi in ((-2, 2), (0, 6), (-0.5, 1.5), (-1, 5)):
        a("hardtanh(%s,%s)" % (lo, hi), [away((8,), -4, 8, (lo, hi))], M("hardtanh", lo, hi), lambda x, lo=lo, hi=hi: np.clip(x, lo, hi))
        a("hardtanh(min_val=%s,max_val=%s)" % (lo, hi), [away((8,), -4, 8, (lo, hi))], M("hardtanh", min_val=lo, max_val=hi), lambda x, lo=lo, hi=hi: np.clip(x, lo, hi))
    a("tanh", [enc(6, lo=-2, hi=2)], M("tanh"), np.tanh, tol=0.02)
    a("sigmoid", [enc(6)], M("sigmoid"), sg, tol=0.02, ns=(1, 2))
    a("erf", [enc(6, lo=-1, hi=1)], M("erf"), erf, tol=0.02)
    a("exp", [enc(6, lo=-2, hi=2)], M("exp"), np.exp, tol=0.05)
    a("log", [enc(6, lo=1, hi=8)], M("log"), np.log, tol=0.03)
    a("reciprocal", [enc(6, lo=1, hi=4)], M("reciprocal"), lambda x: 1 / x, tol=0.02)
    a("reciprocal of negative entries", [enc(6, lo=-4, hi=-1)], M("reciprocal"), lambda x: 1 / x, tol=0.02)
    a("sqrt", [enc(6, lo=1, hi=9)], M("sqrt"), np.sqrt, tol=0.02)
    a("sin", [enc(6)], M("sin"), np.sin, tol=0.05)
    a("cos", [enc(6)], M("cos"), np.cos, tol=0.05)
    for d in (0, 1, -1):
        a("softmax(%d)" % d, [enc(2, 3)], M("softmax", d), lambda x, d=d: smax(x, d), tol=0.02)
        a("log_softmax(%d)" % d, [enc(2, 3)], M("log_softmax", d), lambda x, d=d: np.log(smax(x, d)), tol=0.05)
    a("softmax of one column", [enc(2, 1)], M("softmax", 1), lambda x: smax(x, 1))
    a("log_softmax of one column", [enc(2, 1)], M("log_softmax", 1), lambda x: np.log(smax(x, 1)))
    for nm, r in (("max", np.max), ("min", np.min)):
        for sh, dims in (((5,), (None, 0)), ((2, 3), (None, 0, 1, -1)), ((1,), (None, 0))):
            for d in dims:
                if d is None:
                    a("%s of %s" % (nm, list(sh)), [distinct(*sh)], M(nm), lambda x, r=r: r(x), ns=(1, 2) if sh == (5,) else (1,))
                else:
                    for keep in (False, True):
                        a("%s(dim=%d, keepdim=%s) of %s" % (nm, d, keep, list(sh)), [distinct(*sh)], M(nm, dim=d, keepdim=keep),
                          lambda x, d=d, keep=keep, r=r: r(x, axis=d, keepdims=keep), first=True)
    for sh in ((5,), (2, 3)):
        for d in (None,) + tuple(range(len(sh))) + (-1,):
            for keep in ((False,) if d is None else (False, True)):
                for un in (None, False, True):
                    kw = {} if un is None else {"unbiased": un}
                    if d is not None:
                        kw["keepdim"] = keep
                    args = () if d is None else (d,)
                    a("var(%s%s) of %s" % ("" if d is None else "%d, " % d, kw, list(sh)), [enc(*sh)], M("var", *args, **kw),
                      lambda x, d=d, keep=keep, un=un: x.var(axis=d, ddof=0 if un is False else 1, keepdims=keep) if d is not None else x.var(ddof=0 if un is False else 1), tol=0.01, points=1)
    a("var(1, True, True)", [enc(2, 3)], M("var", 1, True, True), lambda x: x.var(axis=1, ddof=1, keepdims=True), tol=0.01)
    a("var(1, False)", [enc(2, 3)], M("var", 1, False), lambda x: x.var(axis=1, ddof=0), tol=0.01)
    far = lambda *s: away(s, -3, 3, (0, 0.125, -0.125, 0.25, -0.25))
    for p in (1, 2, "fro", 3, float("inf")):
        o = 2 if p == "fro" else p
        for d in (None, 0, 1, -1):
            for keep in ((False,) if d is None else (False, True)):
                kw = {"p": p}
                if d is not None:
                    kw.update(dim=d, keepdim=keep)
                xin = distinct(2, 3) if p == float("inf") else far(2, 3)
                if p == float("inf"):
                    xin = distinct(2, 3)
                    b = xin.values
                    xin.values = lambda n, p_, b=b: b(n, p_) + Fr(7)
                a("norm(%s)" % kw, [xin], M("norm", **kw), lambda x, d=d, keep=keep, o=o: np.linalg.norm(x.reshape(-1) if d is None else x, ord=o, axis=None if d is None else d,
                                                                                                  **({} if d is None else {"keepdims": keep})), tol=0.05, points=1)

    def cs(x, y, d):
        return (x * y).sum(d) / np.sqrt((x * x).sum(d) * (y * y).sum(d))
    for d in (0, 1, -1):
        a("cosine_similarity(%d)" % d, [far(2, 3), far(2, 3)], M("cosine_similarity", dim=d), lambda x, y, d=d: cs(x, y, d), tol=0.05, points=1)
    a("cosine_similarity default", [far(2, 3), far(2, 3)], M("cosine_similarity"), lambda x, y: cs(x, y, 1), tol=0.05, points=1)
    a("cosine_similarity public", [far(2, 3), pub(2, 3)], M("cosine_similarity"), lambda x, y: cs(x, y, 1), tol=0.05, points=1)
    a("cosine_similarity of one column", [far(3, 1), far(3, 1)], M("cosine_similarity"), lambda x, y: np.sign(x * y).squeeze(1), points=1)
    return P


def conv_nd(x, k, stride, padding, dilation, groups):
    nd = len(stride)
    x = np.pad(x, [(0, 0), (0, 0)] + [(p, p) for p in padding])
    B, C = x.shape[:2]
    O, Cg = k.shape[:2]
    ks = k.shape[2:]
    out_sp = [(x.shape[2 + i] - dilation[i] * (ks[i] - 1) - 1) // stride[i] + 1 for i in range(nd)]
    out = np.zeros((B, O) + tuple(out_sp))
    for o in range(O):
        g = o // (O // groups)
        for q in np.ndindex(*out_sp):
            for kk in np.ndindex(*ks):
                pos = tuple(q[i] * stride[i] + kk[i] * dilation[i] for i in range(nd))
                for c in range(Cg):
                    out[(slice(None), o) + q] += x[(slice(None), g * Cg + c) + pos] * k[(o, c) + kk]
    return out


def windows():
    P = []

    def a(label, ins, fn, f, **kw):
        P.append(GradProg(label, ins, fn, f, points=kw.pop("points", 1), **kw))
    tup = lambda v, n: v if isinstance(v, tuple) else (v,) * n
    for xs, ks, kw in (((1, 1, 5), (1, 1, 2), {}), ((2, 2, 5), (3, 2, 2), {}), ((1, 2, 6), (2, 2, 3), {"stride": 2}), ((1, 1, 6), (1, 1, 2), {"stride": 2}), ((2, 1, 5), (2, 1, 3), {"padding": 1}),
                       ((1, 1, 7), (1, 1, 3), {"dilation": 2}), ((1, 1, 7), (1, 1, 2), {"dilation": 2, "stride": 2, "padding": 1}), ((1, 2, 4), (2, 1, 2), {"groups": 2}),
                       ((2, 2, 4), (4, 1, 2), {"groups": 2}), ((1, 1, 6), (1, 1, 3), {"stride": (3,), "padding": (2,)}), ((1, 1, 7), (1, 1, 2), {"stride": 3})):
        f = lambda x, k, kw=kw: conv_nd(x, k, tup(kw.get("stride", 1), 1), tup(kw.get("padding", 0), 1), tup(kw.get("dilation", 1), 1), kw.get("groups", 1))
        a("conv1d %s %s %s" % (list(xs), list(ks), kw), [enc(*xs), enc(*ks)], M("conv1d", **kw), f, tol=0.005, ns=(1, 2) if not kw else (1,))
        a("conv1d %s public %s %s" % (list(xs), list(ks), kw), [enc(*xs), pub(*ks)], M("conv1d", **kw), f, tol=0.005)
    for xs, ks, kw in (((1, 1, 4, 4), (1, 1, 2, 2), {}), ((2, 2, 3, 4), (2, 2, 2, 3), {}), ((1, 1, 5, 4), (1, 1, 2, 2), {"stride": 2}), ((1, 1, 4, 5), (1, 1, 3, 2), {"stride": (1, 2)}),
                       ((1, 1, 3, 4), (2, 1, 2, 2), {"padding": 1}), ((1, 1, 3, 4), (1, 1, 2, 3), {"padding": (0, 1)}), ((1, 1, 5, 5), (1, 1, 2, 2), {"dilation": 2}),
                       ((1, 1, 5, 4), (1, 1, 2, 2), {"dilation": (2, 1)}), ((1, 2, 3, 3), (2, 1, 2, 2), {"groups": 2}), ((2, 2, 3, 3), (4, 1, 2, 2), {"groups": 2}),
                       ((1, 1, 6, 5), (1, 1, 3, 2), {"stride": (2, 3), "padding": (1, 0)}), ((1, 1, 5, 6), (1, 1, 2, 2), {"stride": 2, "dilation": (1, 2), "padding": 1})):
        f = lambda x, k, kw=kw: conv_nd(x, k, tup(kw.get("stride", 1), 2), tup(kw.get("padding", 0), 2), tup(kw.get("dilation", 1), 2), kw.get("groups", 1))
        a("conv2d %s %s %s" % (list(xs), list(ks), kw), [enc(*xs), enc(*ks)], M("conv2d", **kw), f, tol=0.005, ns=(1, 2) if not kw else (1,))
        a("conv2d %s public %s %s" % (list(xs), list(ks), kw), [enc(*xs), pub(*ks)], M("conv2d", **kw), f, tol=0.005)

    def avg(x, k, s, p, ceil):
        k, p = pair(k), pair(p)
        s = k if s is None else pair(s)
        wh, ww = pool_windows(x.shape[2], k[0], s[0], p[0], 1, ceil), pool_windows(x.shape[3], k[1], s[1], p[1], 1, ceil)
        out = np.zeros(x.shape[:2] + (len(wh), len(ww)))
        for i, hs in enumerate(wh):
            for j, ws in enumerate(ww):
                cnt = sum(1 for h in hs for w in ws if h < x.shape[2] + p[0] and w < x.shape[3] + p[1])
                for h in hs:
                    for w in ws:
                        if 0 <= h < x.shape[2] and 0 <= w < x.shape[3]:
                            out[:, :, i, j] += x[:, :, h, w] / cnt
        return out

    def mx(x, k, s, p, d, ceil):
        c, _, _ = pool_cols(x, k, s, p, d, ceil, -1e6)
        return c.astype(float).reshape(c.shape[:-2] + (-1,)).max(-1)
    for sh, k, s, p, ceil in (((1, 1, 4, 4), 2, None, 0, False), ((2, 2, 4, 3), 2, 1, 0, False), ((1, 1, 5, 5), 2, 2, 0, False), ((1, 1, 4, 5), (2, 3), (2, 1), 0, False),
                              ((1, 1, 4, 4), 3, 1, 1, False), ((1, 1, 4, 5), (2, 3), 2, (1, 0), False), ((1, 1, 4, 5), (2, 3), 2, (0, 1), False), ((1, 1, 4, 4), 2, 2, 0, True),
                              ((1, 1, 5, 5), 3, 2, 1, True), ((1, 1, 5, 5), 2, 2, 0, True), ((1, 1, 4, 6), 3, 2, 1, True)):
        kw = dict(stride=s, padding=p)
        if ceil:
            kw["ceil_mode"] = True
        a("avg_pool2d(%s, %s) of %s" % (k, kw, list(sh)), [enc(*sh)], M("avg_pool2d", k, **kw), lambda x, k=k, s=s, p=p, ceil=ceil: avg(x, k, s, p, ceil), tol=0.005, may_raise="NotImplementedError" if ceil else None)
    for sh, k, s, p, d, ceil in (((1, 1, 4, 4), 2, None, 0, 1, False), ((2, 2, 4, 3), 2, 1, 0, 1, False), ((1, 1, 5, 5), 2, 2, 0, 1, False), ((1, 1, 4, 5), (2, 3), (2, 1), 0, 1, False),
                                 ((1, 1, 4, 4), 3, 1, 1, 1, False), ((1, 1, 4, 5), (2, 3), 2, (1, 1), 1, False), ((1, 1, 5, 4), 2, 1, 0, 2, False), ((1, 1, 5, 4), 2, 1, 0, (1, 2), False),
                                 ((1, 1, 5, 4), 2, 2, 0, 1, True), ((1, 1, 4, 5), 3, 2, 1, 1, True), ((1, 1, 4, 5), (2, 3), 2, (1, 0), 1, False)):
        kw = dict(stride=s, padding=p, dilation=d, ceil_mode=ceil)
        a("max_pool2d(%s, %s) of %s" % (k, kw, list(sh)), [distinct(*sh)], M("max_pool2d", k, **kw), lambda x, k=k, s=s, p=p, d=d, ceil=ceil: mx(x, k, s, p, d, ceil), tol=0.005,
          ns=(1, 2) if d == 1 and s is None else (1,))
    a("max_pool2d with indices", [distinct(1, 1, 4, 4)], M("max_pool2d", 2, return_indices=True), lambda x: mx(x, 2, None, 0, 1, False), first=True)
    return P


def losses():
    P = []

    def a(label, ins, fn, f, **kw):
        P.append(GradProg(label, ins, fn, f, points=kw.pop("points", 1), **kw))
    sg = lambda x: 1 / (1 + np.exp(-x))
    bce = lambda p, t: -np.mean(t * np.log(p) + (1 - t) * np.log(1 - p))
    bits = (0, 1, 1, 0)
    prob = [Fr(v, 16) for v in (3, 9, 14, 6)]
    nodiff = [const(4, fixed=[Fr(b) for b in bits])]
    soft = [const(4, fixed=[Fr(1, 4), Fr(1), Fr(1, 2), Fr(0)])]
    for tn, t in (("", nodiff), (" with soft targets", soft), (" with a public target", [pub(4, fixed=[Fr(b) for b in bits])])):
        a("binary_cross_entropy" + tn, [enc(4, fixed=prob)] + t, M("binary_cross_entropy"), bce, tol=0.06, gtol=0.03)
        a("binary_cross_entropy_with_logits" + tn, [enc(4)] + t, M("binary_cross_entropy_with_logits"), lambda x, t: bce(sg(x), t), tol=0.03)
        for al in (0.0, 0.25, 0.8):
            q = lambda x, al=al: sg(x) if al == 0.0 else al * sg(x) + (1 - al) * (1 - sg(x))
            a("rappor_loss(%s)%s" % (al, tn), [enc(4)] + t, lambda it, x, y, al=al: method(it, x, "rappor_loss", y, al), lambda x, t, q=q: bce(q(x), t), tol=0.04)
    hot = [[Fr(0), Fr(1), Fr(0)], [Fr(1), Fr(0), Fr(0)]]
    ce = lambda x, t: -np.sum(t * np.log(smax(x, 1 if x.ndim > 1 else 0))) / x.shape[0]
    a("cross_entropy", [enc(2, 3), const(2, 3, fixed=hot)], M("cross_entropy"), ce, tol=0.04, ns=(1, 2))
    a("cross_entropy with a public target", [enc(2, 3), pub(2, 3, fixed=hot)], M("cross_entropy"), ce, tol=0.04)

    def bn(x, w, b, rm=None, rv=None, training=False, eps=1e-5):
        ax = tuple(i for i in range(x.ndim) if i != 1)
        sh = [1] * x.ndim
        sh[1] = x.shape[1]
        m, v = (x.mean(ax), x.var(ax)) if training else (rm, rv)
        return (x - m.reshape(sh)) / np.sqrt(v + eps).reshape(sh) * w.reshape(sh) + b.reshape(sh)
    for sh in ((4, 2), (2, 2, 3), (2, 2, 2, 2)):
        a("batchnorm training of %s" % list(sh), [enc(*sh), enc(2), enc(2)], M("batchnorm", training=True), lambda x, w, b: bn(x, w, b, training=True), tol=0.05)
        for kind in (const, pub):
            a("batchnorm with %s statistics of %s" % ("public" if kind is pub else "encrypted", list(sh)), [enc(*sh), enc(2), enc(2), kind(2, lo=1, hi=3)],
              lambda it, x, w, b, r: method(it, x, "batchnorm", w, b, running_mean=r, running_var=r), lambda x, w, b, r: bn(x, w, b, r, r), tol=0.05)
    return P


class Composed(Prog):
    """operation without a recorded form of its own: its result records nothing, or the right gradient"""

    def __init__(self, label, ins, fn, f, tol=0.003, ns=(1,), cfg=None, never=False):
        """never: the result must not be recorded (it is piecewise constant)"""
        ops = [i.op("xyzw"[k], 2) for k, i in enumerate(ins)]
        oshape = np.asarray(f(*[flt(i.values("xyzw"[k], 0)) for k, i in enumerate(ins)])).shape
        ops.append(In(oshape, lo=-2, hi=2).op("G", 2))
        wrt = [k for k, i in enumerate(ins) if i.kind == "enc"]

        def do(it, *ts):
            for k in wrt:
                setgrad(it, ts[k])
            out = fn(it, *ts[:-1])
            method(it, out, "backward", ts[-1])
            return [out, it.getattr(out, "requires_grad")] + [it.getattr(ts[k], "grad") for k in wrt]

        def judge(got, *vals):
            xs, g = [flt(v) for v in vals[:-1]], flt(vals[-1])
            d = near(got[0], f(*xs), tol, "the result")
            if d:
                return d
            rec = got[1] is True or (not isinstance(got[1], bool) and bool(num(arr(got[1]).reshape(-1)[0])))
            if not rec:
                return None
            for slot, k in enumerate(wrt):
                want = vjp(f, xs, k, g)
                if got[2 + slot] is None:
                    if np.any(np.abs(want) > 1e-9):
                        return "the result is recorded but operand %d receives no gradient" % k
                    continue
                d = near(got[2 + slot], want, tol, "the gradient of operand %d" % k)
                if d:
                    return d
            return None
        super().__init__(label, ops, do, None, ns=ns, points=2, judge=judge, cfg=cfg)


def composed():
    P = []

    def a(label, ins, fn, f, **kw):
        P.append(Composed(label, ins, fn, f, **kw))
    sep = [Fr(v, 8) for v in (-9, 4, 17, 3)]
    oth = [Fr(v, 8) for v in (2, -5, 11, 20)]
    X4, Y4 = enc(4, fixed=sep), enc(4, fixed=oth)
    for nm, op in (("gt", np.greater), ("ge", np.greater_equal), ("lt", np.less), ("le", np.less_equal), ("eq", np.equal), ("ne", np.not_equal)):
        ns = (1, 2, 3) if nm in ("eq", "ne") else (1, 2)
        a(nm + " of encrypted", [X4, Y4], M(nm), lambda x, y, op=op: 1. * op(x, y), ns=ns)
        a(nm + " of public", [X4, pub(4, fixed=oth)], M(nm), lambda x, y, op=op: 1. * op(x, y), ns=ns)
        a("x * (x %s y)" % nm, [X4, Y4], lambda it, x, y, nm=nm: method(it, x, "mul", method(it, x, nm, y)), lambda x, y, op=op: x * op(x, y), ns=(1, 2))
        a("x * (x %s 0.125)" % nm, [X4], lambda it, x, nm=nm: method(it, x, "mul", method(it, x, nm, 0.125)), lambda x, op=op: x * op(x, 0.125), ns=(1, 2))
    a("where(x > y, y)", [X4, Y4], lambda it, x, y: method(it, x, "where", method(it, x, "gt", y), y), lambda x, y: np.maximum(x, y))
    a("where by a constant", [X4, Y4, const(4, fixed=[Fr(v) for v in (1, 0, 0, 1)])], lambda it, x, y, c: method(it, x, "where", c, y), lambda x, y, c: np.where(c != 0, x, y))
    a("where by a public condition", [X4, Y4, pub(4, fixed=[Fr(v) for v in (1, 0, 0, 1)], dtype="long")], lambda it, x, y, c: method(it, x, "where", c, y), lambda x, y, c: np.where(c != 0, x, y))
    a("crypten.where", [X4, Y4, const(4, fixed=[Fr(v) for v in (1, 0, 0, 1)])], lambda it, x, y, c: cr("where")(it, c, x, y), lambda x, y, c: np.where(c != 0, x, y))
    a("expand", [enc(1, 3)], M("expand", 2, 3), lambda x: np.tile(x, (2, 1)))
    a("repeat", [enc(2)], M("repeat", 3), lambda x: np.tile(x, 3))
    a("prod", [enc(3)], M("prod"), lambda x: np.prod(x))
    a("prod(0)", [enc(3, 2)], M("prod", 0), lambda x: np.prod(x, 0))
    a("split", [enc(4)], lambda it, x: it.getitem(method(it, x, "split", 2), 1), lambda x: x[2:])
    a("unbind", [enc(2, 3)], lambda it, x: it.getitem(method(it, x, "unbind"), 1), lambda x: x[1])
    ix = [Fr(v) for v in (2, 0)]
    a("index_add", [enc(3), enc(2), pub(2, fixed=ix, dtype="long")], lambda it, x, y, i: method(it, x, "index_add", 0, i, y), lambda x, y, i: x + np.array([y[1], 0, y[0]]))
    a("scatter_add", [enc(3), enc(2), pub(2, fixed=ix, dtype="long")], lambda it, x, y, i: method(it, x, "scatter_add", 0, i, y), lambda x, y, i: x + np.array([y[1], 0, y[0]]))
    a("argmax", [X4], M("argmax", one_hot=True), lambda x: 1. * (np.arange(4) == np.argmax(x)), ns=(1, 2))
    a("argmin", [X4], M("argmin", one_hot=True), lambda x: 1. * (np.arange(4) == np.argmin(x)), ns=(1, 2))
    a("x * argmax(x)", [X4], lambda it, x: method(it, x, "mul", method(it, x, "argmax", one_hot=True)), lambda x: x * (np.arange(4) == np.argmax(x)))
    a("x * sign(x)", [X4], lambda it, x: method(it, x, "mul", method(it, x, "sign")), lambda x: np.abs(x))
    a("adaptive_avg_pool2d", [enc(1, 1, 2, 2)], M("adaptive_avg_pool2d", 1), lambda x: x.mean((2, 3), keepdims=True))
    a("adaptive_max_pool2d", [enc(1, 1, 2, 2)], M("adaptive_max_pool2d", 1), lambda x: x.max((2, 3), keepdims=True))
    a("conv_transpose1d", [enc(1, 1, 2), enc(1, 1, 2)], M("conv_transpose1d"), lambda x, k: np.array([[np.convolve(x[0, 0], k[0, 0])]]))
    return P


def run(chk):
    chk.rule("R6", "operations without a recorded form: the result of the program has the plaintext value, and records either nothing or the right gradient")
    prog_obligations(chk, "R6", composed())
    for r, t, f in (("R1", "shape and selection functions", structural), ("R2", "arithmetic with broadcasting, every operand kind", arithmetic),
                    ("R3", "activations, approximations, reductions, norms", nonlinear), ("R4", "convolutions and pooling", windows), ("R5", "losses and normalisation", losses)):
        chk.rule(r, t + ": result and gradient of the recorded program, interpreted with real protocols over the 64-bit ring, agree with the plaintext "
                 "function and its numeric vector-Jacobian product")
        chk.rule(r + "u", t + ": the same program without recording yields the plaintext result")
        ps = f()
        prog_obligations(chk, r, ps)
        prog_obligations(chk, r + "u", [Forward(*p.plain) for p in ps if p.plain])
