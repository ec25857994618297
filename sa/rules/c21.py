"""Layers, losses, optimiser and imported graph nodes against their PyTorch meaning, as programs analysed at every party."""
import math
from .c15 import *

MINIMUM = 60


def initial(salt, *shape):
    """start values given by sa/stubs.py"""
    n = int(np.prod(shape)) if shape else 1
    return np.array([((i * 37 + salt * 11) % 41 - 20) / 32 for i in range(n)]).reshape(shape)


def two(v, k=2):
    return (v,) * k if isinstance(v, int) else tuple(v)


def conv(x, w, b=None, stride=1, padding=0, dilation=1, groups=1):
    k = w.ndim - 2
    s, p, d = two(stride, k), two(padding, k), two(dilation, k)
    x = np.pad(x, [(0, 0), (0, 0)] + [(q, q) for q in p])
    n, o, per, opg = x.shape[0], w.shape[0], w.shape[1], w.shape[0] // groups
    size = [(x.shape[2 + i] - d[i] * (w.shape[2 + i] - 1) - 1) // s[i] + 1 for i in range(k)]
    out = np.zeros([n, o] + size)
    for oc in range(o):
        g = oc // opg
        for pos in np.ndindex(*size):
            acc = np.zeros(n)
            for t in np.ndindex(*w.shape[2:]):
                at = tuple(pos[i] * s[i] + t[i] * d[i] for i in range(k))
                acc += x[(slice(None), slice(g * per, (g + 1) * per)) + at] @ w[(oc, slice(None)) + t]
            out[(slice(None), oc) + pos] = acc
    return out if b is None else out + b.reshape((1, -1) + (1,) * k)


def osize(L, k, s, p, d, ceil):
    o = (L + 2 * p - d * (k - 1) - 1 + (s - 1 if ceil else 0)) // s + 1
    if ceil and (o - 1) * s >= L + p:
        o -= 1
    return o


def pool(x, kernel, stride=None, padding=0, dilation=1, ceil=False, how="max"):
    k, p, d = two(kernel), two(padding), two(dilation)
    s = k if stride is None else two(stride)
    H, W = x.shape[2:]
    oh, ow = [osize(L, k[i], s[i], p[i], d[i], ceil) for i, L in enumerate((H, W))]
    out = np.zeros(x.shape[:2] + (oh, ow))
    for a, i, j in np.ndindex(x.shape[0], oh, ow):
        for c in range(x.shape[1]):
            vs, cnt = [], 0
            for u, v in np.ndindex(*k):
                r, q = i * s[0] - p[0] + u * d[0], j * s[1] - p[1] + v * d[1]
                if r < H + p[0] and q < W + p[1]:
                    cnt += 1
                if 0 <= r < H and 0 <= q < W:
                    vs.append(x[a, c, r, q])
            out[a, c, i, j] = max(vs) if how == "max" else sum(vs) / cnt
    return out


def sigm(x):
    return 1 / (1 + np.exp(-x))


def softmax(x, dim):
    e = np.exp(x - x.max(dim, keepdims=True))
    return e / e.sum(dim, keepdims=True)


def bnorm(x, w, b, mean, var, eps):
    s = (1, -1) + (1,) * (x.ndim - 2)
    return (x - mean.reshape(s)) / np.sqrt(var.reshape(s) + eps) * w.reshape(s) + b.reshape(s)


def stats(x):
    ax = tuple(i for i in range(x.ndim) if i != 1)
    return x.mean(ax), x.var(ax), x.var(ax, ddof=1)


def adder(rule, **dflt):
    out = []

    def a(label, ins, body, want, **kw):
        P = Src(label, ins, body, want, **{**dflt, **kw})
        out.append((rule, P))
    return out, a


# ------------------------------------------------------------------ layers
def layers():
    P, a = adder("R1", tol=0.003)
    V = lambda *s, **k: enc(*s, **k)
    for shape in ((2, 3), (3,), (2, 2, 3)):
        for bias in (True, False):
            a("Linear on %s%s" % (shape, "" if bias else " without bias"), [V(*shape)], """
                m = crypten.nn.Linear(3, 2%s)
                m.encrypt()
                return [m(x), m.weight, hasattr(m, "bias")]""" % ("" if bias else ", bias=False"),
              lambda x, bias=bias: [x @ initial(1, 2, 3).T + (initial(2, 2) if bias else 0), initial(1, 2, 3), bias])
    a("Linear with replaced parameters", [V(2, 3), pub(2, 3, lo=-1, hi=1), pub(2)], """
        m = crypten.nn.Linear(3, 2)
        m.set_parameter("weight", y)
        m.set_parameter("bias", z)
        m.encrypt()
        return [m(x)]""", lambda x, w, b: [x @ w.T + b])
    a("Linear, unencrypted", [pub(2, 3)], """
        m = crypten.nn.Linear(3, 2)
        return [m(x)]""", lambda x: [x @ initial(1, 2, 3).T + initial(2, 2)], ns=(1,))
    a("gradients of Linear", [V(2, 3, lo=-2, hi=2)], """
        m = crypten.nn.Linear(3, 2)
        m.encrypt()
        leaf(x)
        m(x).sum().backward()
        return [x.grad, m.weight.grad, m.bias.grad]""",
      lambda x: [gx(np.tile(initial(1, 2, 3).sum(0), (2, 1))), ("the gradient of the weight", np.tile(x.sum(0), (2, 1))), ("the gradient of the bias", np.array([2., 2]))])
    opts1 = [{}, {"stride": 2}, {"padding": 2}, {"dilation": 2}, {"groups": 2}, {"stride": 2, "padding": 1, "dilation": 2}, {"bias": False}, {"bias": False, "padding": 1, "groups": 2}]
    for o in opts1:
        txt = "".join(", %s=%r" % kv for kv in sorted(o.items()))
        a("Conv1d%s" % txt, [V(2, 2, 6)], """
            m = crypten.nn.Conv1d(2, 4, 3%s)
            m.encrypt()
            return [m(x)]""" % txt,
          lambda x, o=o: [conv(x, initial(1, 4, 2 // o.get("groups", 1), 3), initial(2, 4) if o.get("bias", True) else None, **{k: v for k, v in o.items() if k != "bias"})], points=1)
    opts2 = [{}, {"stride": 2}, {"stride": (2, 1)}, {"padding": (0, 2)}, {"dilation": (1, 2)}, {"groups": 2}, {"stride": (1, 2), "padding": (2, 1), "dilation": (2, 1)}, {"bias": False},
             {"bias": False, "padding": 1, "groups": 2}]
    for kern in (2, (1, 3)):
        for o in opts2:
            txt = "".join(", %s=%r" % kv for kv in sorted(o.items()))
            a("Conv2d kernel %s%s" % (kern, txt), [V(1, 2, 4, 5)], """
                m = crypten.nn.Conv2d(2, 2, %r%s)
                m.encrypt()
                return [m(x)]""" % (kern, txt),
              lambda x, o=o, kern=kern: [conv(x, initial(1, 2, 2 // o.get("groups", 1), *two(kern)), initial(2, 2) if o.get("bias", True) else None, **{k: v for k, v in o.items() if k != "bias"})],
              points=1, ns=(1, 2) if kern == 2 else (1,))
    el = lambda label, ctor, f, shape=(2, 3), **kw: a(label, [V(*shape)], "m = crypten.nn.%s\nm.encrypt()\nreturn [m(x)]" % ctor, f, **kw)
    el("ReLU", "ReLU()", lambda x: [np.maximum(x, 0)])
    el("Hardtanh", "Hardtanh()", lambda x: [np.clip(x, -1, 1)])
    el("Hardtanh with asymmetric range", "Hardtanh(-0.5, 2)", lambda x: [np.clip(x, -.5, 2)])
    el("Hardtanh by keyword", "Hardtanh(max_val=2, min_val=-0.5)", lambda x: [np.clip(x, -.5, 2)])
    a("ReLU6", [V(6, lo=-3, hi=12)], "m = crypten.nn.ReLU6()\nm.encrypt()\nreturn [m(x)]", lambda x: [np.clip(x, 0, 6)])
    el("Sigmoid", "Sigmoid()", lambda x: [sigm(x)], tol=0.02, ns=(1,))
    for d in (0, 1, -1):
        el("Softmax dim %d" % d, "Softmax(%d)" % d, lambda x, d=d: [softmax(x, d)], tol=0.02, ns=(1,), points=1)
        el("LogSoftmax dim %d" % d, "LogSoftmax(%d)" % d, lambda x, d=d: [np.log(softmax(x, d))], tol=0.05, ns=(1,), points=1)
    el("Exp", "Exp()", lambda x: [np.exp(x)], tol=0.2, ns=(1,), points=1)
    el("Erf", "Erf()", lambda x: [np.vectorize(math.erf)(x)], tol=0.1, ns=(1,), points=1, shape=(2,)) if False else None
    a("Sqrt", [V(3, lo=1, hi=9)], "m = crypten.nn.Sqrt()\nm.encrypt()\nreturn [m(x)]", lambda x: [np.sqrt(x)], tol=0.03, ns=(1,), points=1)
    for how in ("max", "avg"):
        for arg, kw in (("2", dict(kernel=2)), ("(2, 1)", dict(kernel=(2, 1))), ("3, stride=1", dict(kernel=3, stride=1)), ("(1, 2), stride=(2, 1)", dict(kernel=(1, 2), stride=(2, 1))),
                        ("2, 1, 1", dict(kernel=2, stride=1, padding=1)), ("(3, 2), stride=2, padding=(1, 0)", dict(kernel=(3, 2), stride=2, padding=(1, 0))),
                        ("2, stride=2, ceil_mode=True", dict(kernel=2, stride=2, ceil=True)), ("2, padding=1, ceil_mode=True", dict(kernel=2, padding=1, ceil=True))):
            if how == "avg" and "stride=2, ceil" in arg:
                continue            # documented as unsupported
            a("%sPool2d(%s)" % (how.title(), arg), [V(1, 1, 4, 5)], "m = crypten.nn.%sPool2d(%s)\nm.encrypt()\nreturn [m(x)]" % (how.title(), arg),
              lambda x, kw=kw, how=how: [pool(x, how=how, **kw)], points=1, ns=(1,))
    for how in ("avg", "max"):
        for arg in ("2", "(2, 1)", "(None, 2)", "(1, 4)", "1", "(4, None)"):
            def want(x, how=how, arg=arg):
                o = eval(arg)
                o = [s if t is None else t for s, t in zip(x.shape[2:], two(o) if o is not None else o)]
                r = np.zeros(x.shape[:2] + tuple(o))
                for i, j in np.ndindex(*o):
                    b = [(math.floor(q * L / k), math.ceil((q + 1) * L / k)) for q, L, k in zip((i, j), x.shape[2:], o)]
                    cell = x[:, :, b[0][0]:b[0][1], b[1][0]:b[1][1]]
                    r[:, :, i, j] = cell.mean((2, 3)) if how == "avg" else cell.max((2, 3))
                return [r]
            a("Adaptive%sPool2d(%s)" % (how.title(), arg), [V(1, 2, 4, 4)], "m = crypten.nn.Adaptive%sPool2d(%s)\nm.encrypt()\nreturn [m(x)]" % (how.title(), arg), want, points=1, ns=(1,))
    a("AdaptiveAvgPool2d with the size given to forward", [V(1, 1, 4, 4)], "m = crypten.nn.AdaptiveAvgPool2d(4)\nm.encrypt()\nreturn [m(x, (2, 1))]",
      lambda x: [x.reshape(1, 1, 2, 2, 1, 4).mean((3, 5))], points=1, ns=(1,))
    el("GlobalAveragePool", "GlobalAveragePool()", lambda x: [x.mean((2, 3), keepdims=True)], shape=(2, 2, 2, 3))
    for k in (1, 2, 3):
        pads = [1, 2, 0, 1, 2, 0][: 2 * k]
        el("ConstantPad%dd" % k, "ConstantPad%dd(%r, 2.5)" % (k, tuple(pads)),
           lambda x, pads=pads, k=k: [np.pad(x, [(0, 0)] * (x.ndim - k) + [(pads[2 * i], pads[2 * i + 1]) for i in reversed(range(k))], constant_values=2.5)], shape=(2,) * (k + 1))
        el("ConstantPad%dd of one number" % k, "ConstantPad%dd(1, 0)" % k, lambda x, k=k: [np.pad(x, [(0, 0)] * (x.ndim - k) + [(1, 1)] * k)], shape=(2,) * (k + 1))
    for ax in (0, 1, 2, 3):
        el("Flatten(%d)" % ax, "Flatten(%d)" % ax, lambda x, ax=ax: [x.reshape(int(np.prod(x.shape[:ax])), -1)], shape=(2, 3, 2))
    for ctor, f in (("Transpose((1, 0, 2))", lambda x: x.transpose(1, 0, 2)), ("Transpose((2, 0, 1))", lambda x: x.transpose(2, 0, 1)), ("Unsqueeze(1)", lambda x: x[:, None]),
                    ("Unsqueeze([-1])", lambda x: x[..., None]), ("Mean([0], True)", lambda x: x.mean(0, keepdims=True)), ("Mean([1, 2])", lambda x: x.mean((1, 2))),
                    ("Sum([2])", lambda x: x.sum(2)), ("Sum([0, 2], True)", lambda x: x.sum((0, 2), keepdims=True)), ("Reshape((3, 4))", lambda x: x.reshape(3, 4)),
                    ("Reshape((2, -1))", lambda x: x.reshape(2, -1)), ("Slice([1], [3], [1])", lambda x: x[:, 1:3]), ("Slice([0, 1], [1, 9])", lambda x: x[0:1, 1:]),
                    ("Slice([1, 0], [2, 1], [2, 0])", lambda x: x[0:1, :, 1:2]), ("Gather(1, indices=[2, 0])", lambda x: x[:, [2, 0]]), ("Gather(0, indices=1)", lambda x: x[1])):
        el(ctor, ctor, lambda x, f=f: [f(x)], shape=(2, 3, 2), ns=(1,))
    el("Squeeze(1)", "Squeeze(1)", lambda x: [x[:, 0]], shape=(2, 1, 3), ns=(1,))
    el("Squeeze(2) of a longer dimension", "Squeeze(2)", lambda x: [x], shape=(2, 1, 3), ns=(1,))
    el("Dropout in evaluation", "Dropout(0.5).eval()", lambda x: [x], ns=(1,))
    el("Dropout2d in evaluation", "Dropout2d(0.5).eval()", lambda x: [x], shape=(1, 2, 2, 2), ns=(1,))
    for nm, f in (("Add", lambda x, y: x + y), ("Sub", lambda x, y: x - y), ("Mul", lambda x, y: x * y), ("MatMul", lambda x, y: x @ y)):
        a(nm, [V(2, 2), V(2, 2)], "m = crypten.nn.%s()\nm.encrypt()\nreturn [m([x, y])]" % nm, lambda x, y, f=f: [f(x, y)])
    a("Div", [V(2, 2), pub(2, 2, lo=1, hi=4)], "m = crypten.nn.Div()\nm.encrypt()\nreturn [m([x, y])]", lambda x, y: [x / y])
    for p in ("2", "3", "torch.tensor(2.0)", "torch.tensor([3])"):
        a("Pow of %s" % p, [V(3, lo=-2, hi=2)], "m = crypten.nn.Pow()\nm.encrypt()\nreturn [m([x, %s])]" % p, lambda x, p=p: [x ** (2 if "2" in p else 3)], ns=(1,))
    for al, be, ta, tb in ((1, 1, 0, 0), (0.5, 2.0, 0, 0), (1, 1, 1, 0), (1, 1, 0, 1), (2, -1, 1, 1)):
        a("Gemm(%s, %s, %s, %s)" % (al, be, ta, tb), [V(2, 3) if not ta else V(3, 2), V(3, 2) if not tb else V(2, 3), V(2)], """
            m = crypten.nn.Gemm(%r, %r, %r, %r)
            m.encrypt()
            return [m([x, y, z])]""" % (al, be, bool(ta), bool(tb)), lambda x, y, z, al=al, be=be, ta=ta, tb=tb: [al * ((x.T if ta else x) @ (y.T if tb else y)) + be * z], ns=(1,))
    a("Where", [V(4), V(4)], "m = crypten.nn.Where()\nm.encrypt()\nreturn [m([torch.tensor([1, 0, 0, 1]), x, y])]", lambda x, y: [np.where([1, 0, 0, 1], x, y)])
    a("Equal", [V(4), V(4)], "m = crypten.nn.Equal()\nm.encrypt()\nreturn [m([x, y]), m([x, x])]", lambda x, y: [1. * (x == y), np.ones(4)])
    a("Concat", [V(2, 2), V(2, 3)], "m = crypten.nn.Concat(1)\nm.encrypt()\nreturn [m([x, y]), m([y])]", lambda x, y: [np.concatenate([x, y], 1), y])
    a("Concat of plain tensors", [pub(2, 2), pub(2, 3)], "m = crypten.nn.Concat(1)\nreturn [m([x, y])]", lambda x, y: [np.concatenate([x, y], 1)], ns=(1,))
    a("Expand", [V(2, 1)], "m = crypten.nn.Expand()\nm.encrypt()\nreturn [m([x, torch.tensor([2, 3])])]", lambda x: [np.tile(x, (1, 3))], ns=(1,))
    a("ConstantOfShape and Shape", [V(2, 3)], "c = crypten.nn.ConstantOfShape(2.5)\ns = crypten.nn.Shape()\nreturn [c(torch.tensor([2, 3])), s(x), crypten.nn.Shape(dim=1)(x)]",
      lambda x: [np.full((2, 3), 2.5), np.array([2., 3]), np.array(3.)], ns=(1,)) if False else None
    for st, pd, dl, gr in ((1, 0, 1, 1), ((2, 1), (0, 1), (1, 2), 1), (1, (2, 1), 1, 2)):
        for bias in (True, False):
            for plain_ in (True, False):
                V_ = (lambda *s: pub(*s)) if plain_ else V
                ins = [V_(1, 2, 4, 5), V_(2, 2 // gr, 2, 3)] + ([V_(2)] if bias else [])
                a("Conv module stride %s padding %s dilation %s groups %s%s%s" % (st, pd, dl, gr, " with bias" if bias else "", " unencrypted" if plain_ else ""), ins, """
                    m = crypten.nn.module.Conv(%r, %r, %r, groups=%r)
                    %s
                    return [m([%s])]""" % (st, pd, dl, gr, "" if plain_ else "m.encrypt()", "x, y, z" if bias else "x, y"),
                  lambda x, w, b=None, st=st, pd=pd, dl=dl, gr=gr: [conv(x, w, b, st, pd, dl, gr)], points=1, ns=(1,), tol=0.005)
    return P


def normalisation():
    P, a = adder("R1", tol=0.05)
    V = lambda *s, **k: enc(*s, **k)
    for k, shape in ((1, (4, 2)), (1, (2, 2, 3)), (2, (2, 2, 2, 2))):
        for mom, eps in ((0.1, 1e-5), (0.5, 0.25)):
            def want(x, mom=mom, eps=eps):
                m, v, u = stats(x)
                w, b = np.array([.5, 2]), np.array([1., -1])
                return [bnorm(x, w, b, m, v, eps), ("the running mean", (1 - mom) * np.array([1., -2]) + mom * m), ("the running variance", (1 - mom) * np.array([4., 2]) + mom * u)]
            a("BatchNorm%dd on %s in training, momentum %s eps %s" % (k, shape, mom, eps), [V(*shape)], BN % (k, mom, eps, "") + "return [m(x), m.running_mean, m.running_var]", want, ns=(1,), points=1)

            def ev(x, eps=eps):
                return [bnorm(x, np.array([.5, 2]), np.array([1., -1]), np.array([1., -2]), np.array([4., 2]), eps), ("the running mean", np.array([1., -2])), ("the running variance", np.array([4., 2]))]
            for order in ("m.encrypt(); m.eval()", "m.eval(); m.encrypt()"):
                a("BatchNorm%dd on %s in evaluation, eps %s, %s" % (k, shape, eps, order), [V(*shape)], BN.replace("m.encrypt()", order) % (k, mom, eps, "") + "return [m(x), m.running_mean, m.running_var]", ev, ns=(1,), points=1)
    a("BatchNorm1d evaluated, trained, evaluated again", [V(4, 2)], BN % (1, 0.5, 0.0, "") + "m.eval(); m(x); m.train(); m(x); m.eval()\nreturn [m(x)]",
      lambda x: [bnorm(x, np.array([.5, 2]), np.array([1., -1]), .5 * np.array([1., -2]) + .5 * stats(x)[0], .5 * np.array([4., 2]) + .5 * stats(x)[2], 0)], ns=(1,), points=1)
    a("BatchNorm1d whose running variance is replaced in evaluation", [V(4, 2)], BN % (1, 0.5, 0.0, "") + "m.eval()\nm.set_buffer(\"running_var\", crypten.cryptensor(torch.tensor([1.0, 9.0])))\nreturn [m(x)]",
      lambda x: [bnorm(x, np.array([.5, 2]), np.array([1., -1]), np.array([1., -2]), np.array([1., 9]), 0)], ns=(1,), points=1)
    a("BatchNormalization in evaluation", [V(4, 2), V(2), V(2)], """
        m = crypten.nn.module.BatchNormalization(eps=0.25)
        m.encrypt(); m.eval()
        return [m([x, y, z, torch.tensor([1.0, -2.0]), torch.tensor([4.0, 2.0])])]""", lambda x, w, b: [bnorm(x, w, b, np.array([1., -2]), np.array([4., 2]), .25)], ns=(1,), points=1)
    return P


BN = """m = crypten.nn.BatchNorm%dd(2, momentum=%r, eps=%r)
m.set_parameter("weight", torch.tensor([0.5, 2.0]))
m.set_parameter("bias", torch.tensor([1.0, -1.0]))
m.set_buffer("running_mean", torch.tensor([1.0, -2.0]))
m.set_buffer("running_var", torch.tensor([4.0, 2.0]))
m.encrypt()
%s"""


# ------------------------------------------------------------------ losses
def losses():
    P, a = adder("R2", tol=0.05, points=1)
    V = lambda *s, **k: enc(*s, **k)

    def loss(label, ctor, f, x, y, **kw):
        """f(x, y) the value; the gradient is its numeric derivative"""
        def want(xv, yv):
            return [("the loss", np.array(f(xv, yv))), gx(vjp(lambda p, q: np.array(f(p, q)), [xv, yv], 0, np.array(1.)))]
        a(label, [x, y], "leaf(x)\nm = crypten.nn.%s\nv = m(x, y)\nv.backward()\nreturn [v, x.grad]" % ctor, want, **kw)

        def skipped(xv, yv):
            return [want(xv, yv)[1]]
        if "MSE" not in ctor and "L1" not in ctor:
            a(label + ", forward skipped", [x, y], "leaf(x)\nm = crypten.nn.%s\nv = m(x, y)\nv.backward()\nreturn [x.grad]" % ctor.replace(")", ", skip_forward=True)").replace("(, ", "("), skipped, **kw)
    loss("MSELoss", "MSELoss()", lambda x, y: ((x - y) ** 2).mean(), V(2, 3), V(2, 3), ns=(1, 2))
    loss("MSELoss of a public target", "MSELoss()", lambda x, y: ((x - y) ** 2).mean(), V(2, 3), pub(2, 3), ns=(1,))
    loss("L1Loss", "L1Loss()", lambda x, y: np.abs(x - y).mean(), V(2, 3, fixed=[[1., -2, 3], [0.5, 0, 2]]), V(2, 3, fixed=[[2., -3, 1], [1.5, 2, 1]]), ns=(1, 2))
    prob = lambda *s: enc(*s, lo=.2, hi=.8, step=64)
    bit = lambda *s: enc(*s, lo=0, hi=1, step=1)
    bce = lambda x, y: -(y * np.log(x) + (1 - y) * np.log(1 - x)).mean()
    loss("BCELoss", "BCELoss()", bce, prob(2, 2), bit(2, 2), ns=(1,))
    loss("BCELoss of fractional targets", "BCELoss()", bce, prob(3), prob(3), ns=(1,))
    loss("BCEWithLogitsLoss", "BCEWithLogitsLoss()", lambda x, y: bce(sigm(x), y), V(2, 2, lo=-2, hi=2), bit(2, 2), ns=(1,))
    rap = lambda x, y, al: bce(al * sigm(x) + (1 - al) * (1 - sigm(x)), y)
    for al in (0.2, 0.75):
        loss("RAPPORLoss(%s)" % al, "loss.RAPPORLoss(%s)" % al, lambda x, y, al=al: rap(x, y, al), V(2, 2, lo=-2, hi=2), bit(2, 2), ns=(1,))

    def xent(x, y):
        return -(y * np.log(softmax(x, 1))).sum() / x.shape[0]
    for b, c in ((1, 3), (2, 3), (3, 2)):
        eye = np.eye(c)[[i % c for i in range(b)]]
        loss("CrossEntropyLoss of %d samples in %d classes" % (b, c), "CrossEntropyLoss()", xent, V(b, c, lo=-2, hi=2), V(b, c, fixed=eye.tolist()), ns=(1,))
    for ctor in ("MSELoss", "L1Loss", "BCELoss", "BCEWithLogitsLoss", "CrossEntropyLoss"):
        a("%s rejects other reductions" % ctor, [], """
            try:
                crypten.nn.%s(reduction="sum")
                return [False]
            except NotImplementedError:
                return [True]""" % ctor, lambda: [("rejected", True)], ns=(1,))
        a("%s rejects sizes that differ" % ctor, [V(2, 3), V(2, 2)], """
            try:
                crypten.nn.%s()(x, y)
                return [False]
            except AssertionError:
                return [True]""" % ctor, lambda x, y: [("rejected", True)], ns=(1,))
    cs = lambda x, y, d: (x * y).sum(d) / (np.sqrt((x * x).sum(d)) * np.sqrt((y * y).sum(d)))
    for d in (0, 1):
        a("CosineSimilarity dim %d" % d, [V(2, 3, lo=1, hi=3), V(2, 3, lo=1, hi=3)], "m = crypten.nn.CosineSimilarity(dim=%d)\nreturn [m(x, y)]" % d, lambda x, y, d=d: [cs(x, y, d)], ns=(1,))
    return P


# ------------------------------------------------------------------ optimiser
def sgd_ref(ps, gs, steps, lr, momentum=0, dampening=0, weight_decay=0, nesterov=False, threshold=None):
    ps, buf = [p.copy() for p in ps], [None] * len(ps)
    for t in range(steps):
        for i, p in enumerate(ps):
            d = gs[i] * (t + 1)
            if threshold is not None:
                d = np.where(d * d < threshold * threshold, d, 0)
            d = d + weight_decay * p
            if momentum:
                buf[i] = d.copy() if buf[i] is None else momentum * buf[i] + (1 - dampening) * d
                d = d + momentum * buf[i] if nesterov else buf[i]
            ps[i] = p - lr * d
    return ps


def optimiser():
    P, a = adder("R3", tol=0.003, points=1)
    V = lambda *s, **k: enc(*s, **k)
    for o in ({"lr": 0.5}, {"lr": 0.25, "momentum": 0.5}, {"lr": 0.5, "momentum": 0.5, "dampening": 0.25}, {"lr": 0.5, "weight_decay": 0.25}, {"lr": 0.25, "momentum": 0.5, "nesterov": True},
              {"lr": 0.25, "momentum": 0.5, "weight_decay": 0.5, "nesterov": True}, {"lr": 0.5, "grad_threshold": 2.5}, {"lr": 0.5, "momentum": 0.75, "dampening": 0.5, "weight_decay": 0.25, "grad_threshold": 2.5},
              {"lr": 0.5, "momentum": 0.5, "grad_threshold": -2.5}):
        txt = ", ".join("%s=%r" % kv for kv in sorted(o.items()))
        for enc_ in (True, False):
            mk = V if enc_ else pub
            # gradients away from the threshold
            gfix = [[1., -2, 4], [0.5, 0.75, -3]]

            def want(p, q, g, h, o=o):
                kw = dict(o)
                th = kw.pop("grad_threshold", None)
                r = sgd_ref([p, q], [g, h], 3, threshold=th, **kw)
                return [("the first parameter", r[0]), ("the second parameter", r[1]), ("the gradient of the first parameter", 3 * g), ("the gradient of the second parameter", 3 * h)]
            if not enc_ and "grad_threshold" in o:
                continue
            a("SGD(%s), 3 steps%s" % (txt, "" if enc_ else " unencrypted"), [mk(2, 3), mk(2), mk(2, 3, fixed=gfix), mk(2, fixed=[2., -0.25])], """
                opt = crypten.optim.SGD([x, y], %s)
                for k in range(3):
                    opt.zero_grad()
                    x.grad = z * (k + 1)
                    y.grad = w * (k + 1)
                    opt.step()
                return [x, y, x.grad, y.grad]""" % txt, want, ns=(1, 2) if enc_ else (1,))
    a("SGD with groups", [V(2), V(2), V(2)], """
        opt = crypten.optim.SGD([{"params": [x]}, {"params": y, "lr": 0.25, "momentum": 0.5}, {"params": z}], lr=0.5)
        for k in range(2):
            x.grad = torch.tensor([1.0, 2.0])
            y.grad = torch.tensor([1.0, 2.0])
            z.grad = None
            opt.step()
        return [x, y, z]""", lambda x, y, z: [x - np.array([1., 2]), y - .25 * 2.5 * np.array([1., 2]), z], ns=(1,))
    a("SGD with a group that is added later", [V(2), V(2)], """
        opt = crypten.optim.SGD([x], lr=0.5, weight_decay=0.5)
        opt.add_param_group({"params": y, "weight_decay": 0})
        x.grad = torch.tensor([1.0, 2.0])
        y.grad = torch.tensor([1.0, 2.0])
        opt.step()
        return [x, y]""", lambda x, y: [x - .5 * (np.array([1., 2]) + .5 * x), y - .5 * np.array([1., 2])], ns=(1,))
    a("SGD with a closure", [V(2)], """
        leaf(x)
        opt = crypten.optim.SGD([x], lr=0.25)
        def closure():
            opt.zero_grad()
            l = (x * x).sum()
            l.backward()
            return l
        a = opt.step(closure)
        b = opt.step(closure)
        return [x, a, b, CrypTensor.AUTOGRAD_ENABLED]""", lambda x: [.25 * x, (x * x).sum(), (.25 * x * x).sum(), True], ns=(1,))
    a("SGD trains a leaf", [V(2), V(2)], """
        leaf(x)
        opt = crypten.optim.SGD([x], lr=0.5, momentum=0.5)
        for k in range(2):
            opt.zero_grad()
            (x * y).sum().backward()
            opt.step()
        return [x, y, x.grad, x.requires_grad]""", lambda x, y: [x - .5 * 2.5 * y, y, gx(y), True], ns=(1,))
    a("zero_grad", [V(2), V(2)], """
        opt = crypten.optim.SGD([x, y], lr=0.5)
        g = torch.tensor([1.0, 2.0])
        x.grad = crypten.cryptensor(g)
        opt.zero_grad(set_to_none=False)
        r = [x.grad, y.grad]
        x.grad = crypten.cryptensor(g)
        opt.zero_grad()
        return r + [x.grad, y.grad]""", lambda x, y: [0 * x, None, None, None], ns=(1,))
    for bad in ("lr=-0.5", "lr=0.5, momentum=-1", "lr=0.5, weight_decay=-1", "lr=0.5, nesterov=True", "lr=0.5, momentum=0.5, dampening=0.5, nesterov=True"):
        a("SGD rejects %s" % bad, [V(2)], """
            try:
                crypten.optim.SGD([x], %s)
                return [False]
            except ValueError:
                return [True]""" % bad, lambda x: [("rejected", True)], ns=(1,))
    for th in ("", ", grad_threshold=2.5", ", grad_threshold=None"):
        g = [1., 3., -2]
        a("update_parameters(0.5%s)" % th, [V(3), pub(3, fixed=g)], """
            m = crypten.nn.Module()
            m.register_parameter("p", x)
            m.encrypted = True
            g = crypten.cryptensor(y)
            m.p.grad = g
            m.update_parameters(0.5%s)
            return [m.p, m.p.grad, g]""" % th, lambda x, y, th=th: [x - .5 * (np.where(np.abs(y) < 2.5, y, 0) if "2.5" in th else y), ("the gradient", y), ("the gradient", y)], ns=(1, 2))
    a("update_parameters of an unencrypted module", [pub(3), pub(3)], """
        m = crypten.nn.Module()
        m.register_parameter("p", x)
        m.p.grad = y
        m.update_parameters(0.5)
        return [m.p, m.p.grad]""", lambda x, y: [x - .5 * y, ("the gradient", y)], ns=(1,))
    a("update_parameters with large gradients", [V(3)], """
        m = crypten.nn.Module()
        m.register_parameter("p", x)
        m.encrypted = True
        m.p.grad = crypten.cryptensor(torch.tensor([1.0, 99.0, -200.0]))
        m.update_parameters(0.5)
        return [m.p]""", lambda x: [x - .5 * np.array([1., 99, 0])], ns=(1,))
    a("update_parameters reaches submodules", [V(2, 3)], """
        m = crypten.nn.Sequential(crypten.nn.Linear(3, 2), crypten.nn.Linear(2, 1))
        m.encrypt()
        m(x).sum().backward()
        m.update_parameters(0.5)
        a, b = list(m.children())
        return [a.weight, a.bias, b.weight, b.bias]""", upd, ns=(1,))
    a("update_parameters outside training is rejected", [V(2)], """
        m = crypten.nn.Linear(2, 1)
        m.encrypt()
        m.eval()
        try:
            m.update_parameters(0.5)
            return [False]
        except AssertionError:
            return [True]""", lambda x: [("rejected", True)], ns=(1,))
    return P


def upd(x):
    w1, b1, w2, b2 = initial(1, 2, 3), initial(2, 2), initial(1, 1, 2), initial(2, 1)
    h = x @ w1.T + b1
    g = np.tile(w2, (2, 1))
    return [w1 - .5 * g.T @ x, b1 - .5 * g.sum(0), w2 - .5 * h.sum(0, keepdims=True), b2 - 1.]



# ------------------------------------------------------------------ graphs and containers
def graphs():
    P, a = adder("R4", tol=0.004, points=1, ns=(1,))
    V = lambda *s, **k: enc(*s, **k)
    relu = lambda x: np.maximum(x, 0)
    a("Graph with a value used twice by one node", [V(3)], """
        g = crypten.nn.Graph("in", "out")
        g.add_module("out", crypten.nn.Mul(), ["in", "in"])
        g.encrypt()
        return [g(x)]""", lambda x: [x * x])
    a("Graph with several inputs in any order", [V(3), V(3)], """
        g = crypten.nn.Graph(["a", "b"], "out")
        g.add_module("out", crypten.nn.Sub(), ["d", "e"])
        g.add_module("d", crypten.nn.Mul(), ["b", "e"])
        g.add_module("e", crypten.nn.Sub(), ["b", "a"])
        g.encrypt()
        return [g(x, y)]""", lambda x, y: [y * (y - x) - (y - x)])
    a("Graph with several outputs", [V(3), V(3)], """
        g = crypten.nn.Graph(["a", "b"], ["p", "q", "a"])
        g.add_module("p", crypten.nn.Sub(), ["a", "b"])
        g.add_module("r", crypten.nn.ReLU(), ["b"])
        g.add_module("q", crypten.nn.Mul(), ["r", "p"])
        g.encrypt()
        u, v, w = g(x, y)
        return [u, v, w]""", lambda x, y: [x - y, relu(y) * (x - y), x])
    a("Graph whose first output is needed later", [V(3)], """
        g = crypten.nn.Graph("a", ["p", "s"])
        g.add_module("p", crypten.nn.ReLU(), ["a"])
        g.add_module("q", crypten.nn.Add(), ["p", "a"])
        g.add_module("s", crypten.nn.Mul(), ["q", "q"])
        g.encrypt()
        u, v = g(x)
        return [u, v]""", lambda x: [relu(x), (relu(x) + x) ** 2])
    a("Graph with parameters and constants", [V(2, 3)], """
        g = crypten.nn.Graph("a", "out")
        g.add_module("w", crypten.nn.module.Parameter(torch.tensor([[1.0, 2.0], [0.5, -1.0], [3.0, 0.0]])), [])
        g.add_module("c", crypten.nn.module.Constant(torch.tensor(2.0)), [])
        g.add_module("mm", crypten.nn.MatMul(), ["a", "w"])
        g.add_module("out", crypten.nn.Mul(), ["mm", "c"])
        g.encrypt()
        return [g(x)]""", lambda x: [2 * (x @ np.array([[1., 2], [.5, -1], [3, 0]]))])
    a("Graph evaluated twice", [V(3), V(3)], """
        g = crypten.nn.Graph("a", "out")
        g.add_module("b", crypten.nn.ReLU(), ["a"])
        g.add_module("out", crypten.nn.Add(), ["b", "a"])
        g.encrypt()
        u = g(x)
        return [u, g(y), g(x)]""", lambda x, y: [relu(x) + x, relu(y) + y, relu(x) + x])
    a("Graph with a long chain", [V(3)], """
        g = crypten.nn.Graph("n0", "n8")
        for k in range(8):
            g.add_module("n" + str(k + 1), crypten.nn.Add(), ["n" + str(k), "n" + str(max(k - 2, 0))])
        g.encrypt()
        return [g(x)]""", chain8)
    a("Graph with the wrong number of inputs", [V(3)], """
        g = crypten.nn.Graph(["a", "b"], "out")
        g.add_module("out", crypten.nn.Add(), ["a", "b"])
        g.encrypt()
        try:
            g(x)
            return [False]
        except AssertionError:
            return [True]""", lambda x: [("rejected", True)])
    a("Graph that is not connected", [V(3)], """
        g = crypten.nn.Graph("a", "out")
        g.add_module("b", crypten.nn.ReLU(), ["a"])
        g.add_module("out", crypten.nn.Add(), ["b", "c"])
        g.encrypt()
        try:
            g(x)
            return [False]
        except ValueError:
            return [True]""", lambda x: [("rejected", True)])
    a("nested Graphs", [V(3)], """
        h = crypten.nn.Graph("i", "o")
        h.add_module("o", crypten.nn.Mul(), ["i", "i"])
        g = crypten.nn.Graph("a", "out")
        g.add_module("h", h, ["a"])
        g.add_module("out", crypten.nn.Sub(), ["h", "a"])
        g.encrypt()
        return [g(x)]""", lambda x: [x * x - x])
    w1, b1 = initial(1, 3, 3), initial(2, 3)
    a("Sequential", [V(2, 3)], """
        m = crypten.nn.Sequential(crypten.nn.Linear(3, 3), crypten.nn.ReLU(), crypten.nn.Linear(3, 3))
        m.encrypt()
        return [m(x)]""", lambda x: [relu(x @ w1.T + b1) @ w1.T + b1])
    a("Sequential of an ordered dictionary", [V(2, 3)], """
        from collections import OrderedDict
        m = crypten.nn.Sequential(OrderedDict([("b", crypten.nn.Linear(3, 3)), ("a", crypten.nn.ReLU())]))
        m.encrypt()
        return [m(x)]""", lambda x: [relu(x @ w1.T + b1)])
    a("Sequential of an ordered dictionary and modules", [V(2, 3)], """
        from collections import OrderedDict
        m = crypten.nn.Sequential(crypten.nn.ReLU(), OrderedDict([("b", crypten.nn.Linear(3, 3)), ("a", crypten.nn.ReLU())]), crypten.nn.Flatten(0))
        m.encrypt()
        return [m(x)]""", lambda x: [relu(relu(x) @ w1.T + b1).reshape(1, -1)])
    a("Sequential of one module", [V(2, 3)], """
        m = crypten.nn.Sequential(crypten.nn.ReLU())
        m.encrypt()
        return [m(x)]""", lambda x: [relu(x)])
    a("Sequential with several inputs", [V(3), V(3)], """
        m = crypten.nn.Sequential(crypten.nn.Sub(), crypten.nn.ReLU(), input_names=["p", "q"])
        m.encrypt()
        return [m(x, y)]""", lambda x, y: [relu(x - y)])
    a("module that registers its parts by assignment", [V(2, 3)], """
        class Net(crypten.nn.Module):
            def __init__(self):
                super().__init__()
                self.fc = crypten.nn.Linear(3, 3)
                self.parts = crypten.nn.ModuleList([crypten.nn.ReLU(), crypten.nn.Linear(3, 3)])
            def forward(self, x):
                x = self.fc(x)
                for p in self.parts:
                    x = p(x)
                return x
        m = Net()
        m.encrypt()
        return [m(x), len(list(m.parameters()))]""", lambda x: [relu(x @ w1.T + b1) @ w1.T + b1, np.array(4)])
    a("ModuleList edits", [V(2, 3)], """
        l = crypten.nn.ModuleList([crypten.nn.ReLU(), crypten.nn.Flatten(0), crypten.nn.Linear(3, 3)])
        del l[1]
        l.append(crypten.nn.ReLU())
        l.encrypt()
        y = x
        for p in l:
            y = p(y)
        return [y, len(l)]""", lambda x: [relu(relu(x) @ w1.T + b1), np.array(3)])
    a("ModuleDict", [V(2, 3)], """
        l = crypten.nn.ModuleDict({"r": crypten.nn.ReLU(), "l": crypten.nn.Linear(3, 3)})
        l.encrypt()
        return [l["l"](l["r"](x)), len(l), "r" in l]""", lambda x: [relu(x) @ w1.T + b1, np.array(2), True])
    return P


def chain8(x):
    v = [x]
    for k in range(8):
        v.append(v[k] + v[max(k - 2, 0)])
    return [v[8]]


# ------------------------------------------------------------------ imported graphs
ONNX = """
class Attr:
    def __init__(self, name, value):
        self.name = name
        self.f = 0.0
        self.i = 0
        self.s = b""
        self.t = None
        self.ints = []
        self.floats = []
        if isinstance(value, bytes):
            self.kind = "s"
        elif isinstance(value, bool) or isinstance(value, int):
            self.kind = "i"
        elif isinstance(value, float):
            self.kind = "f"
        elif isinstance(value, list):
            self.kind = "ints"
        else:
            self.kind = "t"
        setattr(self, self.kind, value)
    def HasField(self, kind):
        if kind in ("ints", "floats"):
            raise ValueError("repeated field")
        return kind == self.kind

class Node:
    def __init__(self, op, ins, outs, **attributes):
        self.op_type = op
        self.input = ins
        self.output = outs
        self.attribute = [Attr(k, v) for k, v in attributes.items()]

class Value:
    def __init__(self, name, array=None):
        self.name = name
        self.array = array

class Proto:
    def __init__(self, ins, outs, nodes, initializers):
        self.graph = self
        self.input = [Value(n) for n in ins]
        self.output = [Value(n) for n in outs]
        self.initializer = [Value(k, v) for k, v in initializers.items()]
        self.node = nodes

class File:
    def __init__(self, model):
        self.model = model
    def seek(self, position):
        pass

def load(ins, out, nodes, initializers={}, encrypt=True):
    m = crypten.nn.from_onnx(File(Proto(ins, [out], nodes, initializers)))
    m.eval()
    if encrypt:
        m.encrypt()
    return m
"""


class Imported(Src):
    def __init__(self, label, ins, body, want, **kw):
        super().__init__(label, ins, "from_onnx = None\n" + body, want, **kw)
        names = ", ".join("xyzw"[k] for k in range(len(ins)))
        text = HEAD.replace("def program", ONNX + "\ndef program") % names + textwrap.indent(textwrap.dedent(body).strip("\n"), "    ") + "\n"
        self.do = lambda it, *ts: call(it, it.mod_get(source(it, text), "program"), *ts)


def imports():
    P = []

    def a(label, ins, body, want, **kw):
        P.append(("R5", Imported(label, ins, body, want, **{**dict(tol=0.004, points=1, ns=(1,)), **kw})))
    V = lambda *s, **k: enc(*s, **k)

    def one(label, shape, op, attrs, f, extra=(), outs=1, **kw):
        """one node; extra: further inputs as initializers"""
        ini = ", ".join("'i%d': torch.tensor(%r)" % (k, v) for k, v in enumerate(extra))
        a("imported %s" % label, [V(*shape)], """
            m = load(["input"], "output", [Node(%r, [%s], [%s]%s)], {%s})
            return [m(x)]""" % (op, ", ".join(["'input'"] + ["'i%d'" % k for k in range(len(extra))]), ", ".join(["'output'"] + ["'o%d'" % k for k in range(1, outs)]),
                                "".join(", %s=%r" % kv for kv in attrs.items()), ini), lambda x: [f(x)], **kw)
    for k, s, p, d, g in (([3, 2], [2, 1], [1, 2, 1, 2], [1, 1], 1), ([2, 2], [1, 1], [0, 0, 0, 0], [1, 2], 1), ([2, 2], [1, 2], [2, 0, 2, 0], [2, 1], 2), ([1, 3], [1, 1], [0, 1, 0, 1], [1, 1], 2)):
        for bias in (True, False):
            w = initial(3, 2, 2 // g, *k)
            b = initial(4, 2)
            one("Conv kernel %s stride %s pads %s dilations %s group %s%s" % (k, s, p, d, g, " with bias" if bias else ""), (1, 2, 4, 5), "Conv",
                dict(kernel_shape=k, strides=s, pads=p, dilations=d, group=g), lambda x, w=w, b=b, s=s, p=p, d=d, g=g, bias=bias: conv(x, w, b if bias else None, s, p[:2], d, g),
                extra=[w.tolist()] + ([b.tolist()] if bias else []))
    one("Conv in one dimension", (1, 2, 6), "Conv", dict(kernel_shape=[3], strides=[2], pads=[1, 1], dilations=[1], group=1), lambda x: conv(x, initial(3, 2, 2, 3), None, 2, 1, 1, 1), extra=[initial(3, 2, 2, 3).tolist()])
    for how, op in (("max", "MaxPool"), ("avg", "AveragePool")):
        for k, s, p, c in (([2, 2], [2, 2], None, 0), ([2, 1], [1, 2], None, 0), ([1, 3], [2, 1], [0, 1, 0, 1], 0), ([3, 2], [1, 2], [1, 0, 1, 0], 0), ([2, 2], [2, 2], None, 1), ([2, 2], None, None, 0)):
            at = dict(kernel_shape=k)
            at.update({"strides": s} if s else {})
            at.update({"pads": p} if p else {})
            at.update({"ceil_mode": c} if c else {})
            if how == "avg":
                if c:
                    continue
                at.update({"count_include_pad": 1})
            one("%s %s" % (op, at), (1, 1, 4, 5), op, at, lambda x, k=k, s=s, p=p, c=c, how=how: pool(x, k, s or 1, p[:2] if p else 0, 1, bool(c), how))
    one("MaxPool with dilation", (1, 1, 4, 5), "MaxPool", dict(kernel_shape=[2, 2], strides=[1, 1], dilations=[1, 2]), lambda x: pool(x, 2, 1, 0, (1, 2)))
    for what, at in (("begin and end pads that differ", dict(kernel_shape=[2, 2], strides=[2, 2], pads=[0, 0, 1, 1])), ("average without the padding", dict(kernel_shape=[2, 2], strides=[2, 2], pads=[1, 1, 1, 1])),
                     ("average without the padding, stated", dict(kernel_shape=[2, 2], strides=[2, 2], pads=[1, 1, 1, 1], count_include_pad=0))):
        for op in ("AveragePool", "MaxPool"):
            if op == "MaxPool" and "average" in what:
                continue
            a("imported %s: %s is not silently ignored" % (op, what), [V(1, 1, 4, 4)], """
                try:
                    m = load(["input"], "output", [Node(%r, ["input"], ["output"]%s)], {})
                    m(x)
                    return [False]
                except (AssertionError, ValueError, NotImplementedError):
                    return [True]""" % (op, "".join(", %s=%r" % kv for kv in at.items())), lambda x: [("rejected", True)])
    for al, be, ta, tb in ((1.0, 1.0, 0, 1), (0.5, 2.0, 0, 0), (2.0, 1.0, 1, 0), (1.0, 0.5, 1, 1)):
        w, c = initial(3, 2, 3), initial(4, 2)
        one("Gemm alpha %s beta %s transA %s transB %s" % (al, be, ta, tb), (3, 2) if ta else (2, 3), "Gemm", dict(alpha=al, beta=be, transA=ta, transB=tb),
            lambda x, w=w, c=c, al=al, be=be, ta=ta: al * ((x.T if ta else x) @ w.T) + be * c, extra=[(w if tb else w.T).tolist(), c.tolist()])
    for ax in (0, 1):
        one("Softmax axis %d" % ax, (2, 3), "Softmax", dict(axis=ax), lambda x, ax=ax: softmax(x, ax), tol=0.02)
        one("LogSoftmax axis %d" % ax, (2, 3), "LogSoftmax", dict(axis=ax), lambda x, ax=ax: np.log(softmax(x, ax)), tol=0.05)
        one("Concat axis %d" % ax, (2, 2), "Concat", dict(axis=ax), lambda x, ax=ax: np.concatenate([x, initial(3, 2, 2)], ax), extra=[initial(3, 2, 2).tolist()])
    for ax in (0, 1, 2):
        one("Flatten axis %d" % ax, (2, 3, 2), "Flatten", dict(axis=ax), lambda x, ax=ax: x.reshape(int(np.prod(x.shape[:ax])), -1))
        for op, f in (("ReduceMean", np.mean), ("ReduceSum", np.sum)):
            for keep in (None, 0, 1):
                one("%s axis %d keepdims %s" % (op, ax, keep), (2, 3, 2), op, {**dict(axes=[ax]), **({} if keep is None else dict(keepdims=keep))}, lambda x, ax=ax, f=f, keep=keep: f(x, axis=ax, keepdims=keep != 0))
    one("Flatten", (2, 3, 2), "Flatten", {}, lambda x: x.reshape(2, -1))
    one("ReduceMean of two axes", (2, 3, 2), "ReduceMean", dict(axes=[0, 2], keepdims=0), lambda x: x.mean((0, 2)))
    one("Transpose", (2, 3, 2), "Transpose", dict(perm=[2, 0, 1]), lambda x: x.transpose(2, 0, 1))
    one("Squeeze", (2, 1, 3), "Squeeze", dict(axes=[1]), lambda x: x[:, 0])
    one("Unsqueeze", (2, 3), "Unsqueeze", dict(axes=[1]), lambda x: x[:, None])
    one("Unsqueeze with the axis as input", (2, 3), "Unsqueeze", {}, lambda x: x[:, None], extra=[[1]]) if False else None
    one("Slice", (3, 4), "Slice", dict(starts=[1, 0], ends=[3, 2], axes=[1, 0]), lambda x: x[0:2, 1:3])
    one("Slice without axes", (3, 4), "Slice", dict(starts=[1, 0], ends=[3, 2]), lambda x: x[1:3, 0:2])
    one("Relu", (2, 3), "Relu", {}, lambda x: np.maximum(x, 0))
    one("Sigmoid", (2, 2), "Sigmoid", {}, sigm, tol=0.02)
    one("Exp", (2, 2), "Exp", {}, np.exp, tol=0.2)
    one("Clip", (6,), "Clip", dict(min=-0.5, max=2.0), lambda x: np.clip(x, -.5, 2))
    one("GlobalAveragePool", (2, 2, 2, 3), "GlobalAveragePool", {}, lambda x: x.mean((2, 3), keepdims=True))
    one("Dropout", (2, 3), "Dropout", dict(ratio=0.25), lambda x: x, outs=2)
    for op, f in (("Add", lambda x, y: x + y), ("Sub", lambda x, y: x - y), ("Mul", lambda x, y: x * y), ("MatMul", lambda x, y: x @ y)):
        one(op, (2, 2), op, {}, lambda x, f=f: f(x, initial(3, 2, 2)), extra=[initial(3, 2, 2).tolist()])
        a("imported %s of one value with itself" % op, [V(2, 2)], "m = load(['input'], 'output', [Node(%r, ['input', 'input'], ['output'])])\nreturn [m(x)]" % op, lambda x, f=f: [f(x, x)])
    a("imported Sub and Div of two inputs", [V(2, 2), V(2, 2, lo=1, hi=4)], """
        m = load(["p", "q"], "output", [Node("Sub", ["q", "p"], ["d"]), Node("Div", ["d", "q"], ["output"])])
        return [m(x, y)]""", lambda x, y: [(y - x) / y], tol=0.02)
    for c in ("torch.tensor(2.0)", "torch.tensor([1.0, -0.5])"):
        a("imported Constant %s" % c, [V(2, 2)], "m = load(['input'], 'output', [Node('Constant', [], ['c'], value=%s), Node('Mul', ['input', 'c'], ['output'])])\nreturn [m(x)]" % c,
          lambda x, c=c: [x * np.array(2. if "2.0" in c else [1, -.5])])
    for ax, idx in ((None, "[1, 0]"), (0, "[1, 0]"), (1, "[2, 0]"), (1, "1")):
        a("imported Gather axis %s of %s" % (ax, idx), [V(2, 3)], """
            m = load(['input'], 'output', [Node('Constant', [], ['c'], value=torch.tensor(%s)), Node('Gather', ['input', 'c'], ['output']%s)])
            return [m(x)]""" % (idx, "" if ax is None else ", axis=%d" % ax), lambda x, ax=ax, idx=idx: [np.take(x, eval(idx), axis=ax or 0)])
    for shape, pads in ((2, 3), [0, 1, 2, 0]), ((1, 2, 2, 2), [0, 0, 1, 0, 0, 0, 2, 3]), ((2, 2), [1, 1, 1, 1]):
        a("imported Pad %s" % pads, [V(*shape)], """
            m = load(['input'], 'output', [Node('Constant', [], ['c'], value=torch.tensor(%r)), Node('Pad', ['input', 'c'], ['output'], mode=b"constant")])
            return [m(x)]""" % pads, lambda x, pads=pads: [np.pad(x, list(zip(pads[: len(pads) // 2], pads[len(pads) // 2:])))])
    a("imported Reshape", [V(2, 3)], "m = load(['input'], 'output', [Node('Constant', [], ['c'], value=torch.tensor([3, 2])), Node('Reshape', ['input', 'c'], ['output'])])\nreturn [m(x)]", lambda x: [x.reshape(3, 2)])
    a("imported Unsqueeze with the axis as input", [V(2, 3)], "m = load(['input'], 'output', [Node('Constant', [], ['c'], value=torch.tensor([1])), Node('Unsqueeze', ['input', 'c'], ['output'])])\nreturn [m(x)]", lambda x: [x[:, None]])
    a("imported Slice with ranges as inputs", [V(3, 4)], """
        k = lambda n, v: Node('Constant', [], [n], value=torch.tensor(v))
        m = load(['input'], 'output', [k('s', [1]), k('e', [3]), k('a', [1]), k('t', [1]), Node('Slice', ['input', 's', 'e', 'a', 't'], ['output'])])
        return [m(x)]""", lambda x: [x[:, 1:3]])
    a("imported Pow", [V(2, 3, lo=-2, hi=2)], "m = load(['input'], 'output', [Node('Constant', [], ['c'], value=torch.tensor(3.0)), Node('Pow', ['input', 'c'], ['output'])])\nreturn [m(x)]", lambda x: [x ** 3])
    a("imported Clip with bounds as inputs", [V(6)], """
        k = lambda n, v: Node('Constant', [], [n], value=torch.tensor(v))
        m = load(['input'], 'output', [k('lo', -0.5), k('hi', 2.0), Node('Clip', ['input', 'lo', 'hi'], ['output'])])
        return [m(x)]""", lambda x: [np.clip(x, -.5, 2)])
    for eps in (1e-5, 0.25):
        a("imported BatchNormalization epsilon %s" % eps, [V(4, 2)], """
            m = load(['input'], 'output', [Node('BatchNormalization', ['input', 'w', 'b', 'm', 'v'], ['output'], epsilon=%r, momentum=0.9)],
                     {'w': torch.tensor([0.5, 2.0]), 'b': torch.tensor([1.0, -1.0]), 'm': torch.tensor([1.0, -2.0]), 'v': torch.tensor([4.0, 2.0])})
            return [m(x)]""" % eps, lambda x, eps=eps: [bnorm(x, np.array([.5, 2]), np.array([1., -1]), np.array([1., -2]), np.array([4., 2]), eps)], tol=0.02)
    a("imported network", [V(1, 1, 4, 4)], """
        m = load(['input'], 'output', [Node('Conv', ['input', 'w', 'b'], ['c'], kernel_shape=[2, 2], strides=[1, 1], pads=[1, 0, 1, 0], dilations=[1, 1], group=1), Node('Relu', ['c'], ['r']),
                                       Node('MaxPool', ['r'], ['p'], kernel_shape=[2, 1], strides=[2, 1]), Node('Flatten', ['p'], ['f'], axis=1), Node('Gemm', ['f', 'g', 'h'], ['output'], alpha=1.0, beta=1.0, transB=1)],
                 {'h': torch.tensor(%r), 'w': torch.tensor(%r), 'g': torch.tensor(%r), 'b': torch.tensor(%r)})
        return [m(x)]""" % (initial(6, 2).tolist(), initial(3, 2, 1, 2, 2).tolist(), initial(5, 2, 12).tolist(), initial(4, 2).tolist()),
      lambda x: [pool(np.maximum(conv(x, initial(3, 2, 1, 2, 2), initial(4, 2), 1, (1, 0)), 0), (2, 1)).reshape(1, -1)[:, :12] @ initial(5, 2, 12).T + initial(6, 2)])
    for what, node in (("an unknown operation", "Node('Sinh', ['input'], ['output'])"), ("a padding mode", "Node('Pad', ['input', 'input'], ['output'], mode=b'reflect')"),
                       ("Conv pads that differ", "Node('Conv', ['input', 'input'], ['output'], kernel_shape=[1, 1], strides=[1, 1], pads=[0, 0, 1, 1], dilations=[1, 1])")):
        a("import rejects %s" % what, [], """
            try:
                load(['input'], 'output', [%s])
                return [False]
            except (ValueError, AssertionError):
                return [True]""" % node, lambda: [("rejected", True)])
    return P


def run(chk):
    chk.rule("R1", "the output of a layer, and the statistics it keeps, are those of the PyTorch layer of that name with the same options and parameters")
    chk.rule("R2", "a loss and its gradient are those of the PyTorch loss of that name")
    chk.rule("R3", "an optimiser step changes the parameters, and nothing else, as PyTorch's does")
    chk.rule("R4", "a graph of modules computes the composition that its edges describe")
    chk.rule("R5", "an imported node computes the function that the ONNX operator set gives for its attributes and inputs, or is rejected")
    for rule, p in imports() + graphs() + layers() + normalisation() + losses() + optimiser():
        prog_obligations(chk, rule, [p])
