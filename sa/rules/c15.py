"""Gradient bookkeeping: programs over the recording tensor type, analysed at every party."""
import ast
import textwrap
from .prog import *
from .c14 import enc, const, pub, near, flt, vjp

MINIMUM = 20


def source(it, text, name="verif_program"):
    """module holding a program of the specification"""
    it.prog.files[name] = ("<program>", ast.parse(text), False)
    it.mods.pop(name, None)
    try:
        return it.import_module(name)
    finally:
        it.mods.pop(name, None)
        it.prog.files.pop(name, None)


HEAD = """
import torch
import crypten
from crypten.cryptensor import CrypTensor

def leaf(*ts):
    for t in ts:
        t.requires_grad = True

def one(like):
    return like.new(torch.ones(like.size()))

def program(%s):
"""


class Src(Prog):
    """body: Python text over the operands x, y, z, w; want(*arrays) -> list of arrays, None, booleans"""

    HEAD = HEAD

    def __init__(self, label, ins, body, want, ns=(1, 2), points=2, tol=0.002, cfg=None, agree=False):
        ops = [i.op("xyzw"[k], points) for k, i in enumerate(ins)]
        names = ", ".join("xyzw"[k] for k in range(len(ins)))
        text = self.HEAD.replace("def program(%s)", "def program(" + names + ")") + textwrap.indent(textwrap.dedent(body).strip("\n"), "    ") + "\n"

        def do(it, *ts):
            return call(it, it.mod_get(source(it, text), "program"), *ts)

        def judge(got, *vals):
            exp = want(*[flt(v) for v in vals])
            if len(got) != len(exp):
                return "the program yields %d values instead of %d" % (len(got), len(exp))
            for i, (g, e) in enumerate(zip(got, exp)):
                what = "value %d" % i
                if isinstance(e, tuple):
                    what, e = e
                if e is None or g is None:
                    if not (e is None and g is None):
                        return "%s is %s instead of %s" % (what, "missing" if g is None else "present", "absent" if e is None else "present")
                    continue
                if isinstance(e, (bool, str)):
                    v = scalar(g)
                    if v != e:
                        return "%s is %s instead of %s" % (what, v, e)
                    continue
                d = near(g, e, tol, what)
                if d:
                    return d
            return None
        super().__init__(label, ops, do, None, ns=ns, points=points, judge=judge, cfg=cfg)
        self.agree = agree


def scalar(g):
    if isinstance(g, (bool, str)):
        return g
    a = arr(g)
    v = a.reshape(-1)[0] if a.size else None
    return bool(num(v)) if not isinstance(v, str) else v


def gx(v):
    return ("the gradient of x", v)


def gy(v):
    return ("the gradient of y", v)


def counting():
    V = lambda *s: enc(*s)
    one = np.ones_like
    P = []

    def a(label, ins, body, want, **kw):
        P.append(Src(label, ins, body, want, **kw))
    a("sum of products used twice", [V(3), V(3)], """
        leaf(x, y)
        z = x * y
        w = z + z
        w.sum().backward()
        return [x.grad, y.grad, z.grad, w.grad]""", lambda x, y: [gx(2 * y), gy(2 * x), ("gradient kept at an inner node", None), ("gradient kept at an inner node", None)])
    a("operand used twice in one product", [V(3)], """
        leaf(x)
        (x * x).sum().backward()
        return [x.grad]""", lambda x: [gx(2 * x)])
    a("operand used twice in one sum", [V(3)], """
        leaf(x)
        (x + x).sum().backward()
        return [x.grad]""", lambda x: [gx(2 * one(x))])
    a("operand subtracted from itself", [V(3)], """
        leaf(x)
        (x - x * 3).sum().backward()
        return [x.grad]""", lambda x: [gx(-2 * one(x))])
    a("matrix product with its own transpose", [V(2, 2)], """
        leaf(x)
        x.matmul(x.t()).sum().backward()
        return [x.grad]""", lambda x: [gx(2 * np.tile(x.sum(0), (2, 1)))])
    a("diamond", [V(3)], """
        leaf(x)
        a = x * 2
        b = a + x
        c = a * b
        c.sum().backward()
        return [x.grad, a.grad, b.grad]""", lambda x: [gx(12 * x), None, None])
    a("unbalanced diamond, short path first", [V(3)], """
        leaf(x)
        a = x + 1
        b = a * a
        c = b * 2
        d = a + c
        d.sum().backward()
        return [x.grad]""", lambda x: [gx(1 + 4 * (x + 1))])
    a("unbalanced diamond, long path first", [V(3)], """
        leaf(x)
        a = x + 1
        b = a * a
        c = b * 2
        d = c + a
        d.sum().backward()
        return [x.grad]""", lambda x: [gx(1 + 4 * (x + 1))])
    a("two nested diamonds", [V(2)], """
        leaf(x)
        a = x * 2
        b = a + a
        c = b + a
        d = c + b
        e = d - a
        (e + d).sum().backward()
        return [x.grad]""", lambda x: [gx(2 * (5 + 5 - 1) * one(x))])
    a("node with three consumers", [V(2), V(2)], """
        leaf(x, y)
        s = x + y
        p = s * y
        q = s * x
        r = s.neg()
        (p + q + r).sum().backward()
        return [x.grad, y.grad]""", lambda x, y: [gx(2 * x + 2 * y - 1), gy(2 * x + 2 * y - 1)])
    a("branch that does not reach the root", [V(2)], """
        leaf(x)
        a = x * 2
        unused = a * 3
        b = a * 5
        c = unused + 1
        b.sum().backward()
        return [x.grad, unused.grad, c.grad]""", lambda x: [gx(10 * one(x)), None, None])
    a("two backward passes accumulate", [V(2), V(2)], """
        leaf(x, y)
        (x * 2).sum().backward()
        (x * y).sum().backward()
        return [x.grad, y.grad]""", lambda x, y: [gx(2 + y), gy(x)])
    a("three backward passes accumulate", [V(2)], """
        leaf(x)
        for k in range(3):
            (x * x).sum().backward()
        return [x.grad]""", lambda x: [gx(6 * x)])
    a("cleared gradients start over", [V(2)], """
        leaf(x)
        (x * 2).sum().backward()
        x.grad = None
        (x * x).sum().backward()
        return [x.grad]""", lambda x: [gx(2 * x)])
    a("second backward of the same root", [V(2)], """
        leaf(x)
        s = (x * x).sum()
        s.backward()
        s.backward()
        return [x.grad, len(s.children) == 0]""", lambda x: [gx(2 * x), ("graph cleared", True)])
    a("inner root with other consumers", [V(2)], """
        leaf(x)
        a = x * 3
        s = a.sum()
        t = s * 7
        s.backward()
        return [x.grad]""", lambda x: [gx(3 * one(x))])
    a("leaf as root", [V(1)], """
        leaf(x)
        x.backward()
        return [x.grad]""", lambda x: [gx(one(x))])
    a("given gradient of a non-scalar root", [V(3), const(3)], """
        leaf(x)
        (x * x).backward(y)
        return [x.grad, y]""", lambda x, g: [gx(2 * x * g), ("the gradient that was passed", g)])
    a("joined operands", [V(2), const(2), V(2)], """
        leaf(x, z)
        c = crypten.cat([x, y, z, x])
        (c * torch.tensor([1.0, 2, 3, 4, 5, 6, 7, 8])).sum().backward()
        return [x.grad, y.grad, z.grad]""", lambda x, y, z: [gx(np.array([8., 10])), None, ("the gradient of z", np.array([5., 6]))])
    a("stacked operands", [V(2), const(2), V(2)], """
        leaf(x, z)
        c = crypten.stack([y, x, x * z], dim=1)
        (c * torch.tensor([[1.0, 2, 3], [4, 5, 6]])).sum().backward()
        return [x.grad, y.grad, z.grad]""", lambda x, y, z: [gx(np.array([2., 5]) + np.array([3., 6]) * z), None, ("the gradient of z", np.array([3., 6]) * x)])
    a("selected entries used separately", [V(3)], """
        leaf(x)
        (x[0] * x[1] + x[2] * x[0]).backward()
        return [x.grad]""", lambda x: [gx(np.array([x[1] + x[2], x[0], x[0]]))])
    a("broadcast operand", [V(2, 3), V(3)], """
        leaf(x, y)
        (x * y + y).sum().backward()
        return [x.grad, y.grad]""", lambda x, y: [gx(np.tile(y, (2, 1))), gy(x.sum(0) + 2)])
    a("public operands", [V(3), pub(3)], """
        leaf(x)
        a = x * y
        b = y + a
        (b - y * x).sum().backward()
        return [x.grad]""", lambda x, y: [gx(0 * x)])
    a("maximum and its position", [V(3)], """
        leaf(x)
        v, i = x.max(0)
        (v * 3).backward()
        return [x.grad, i.requires_grad, v.requires_grad]""", lambda x: [gx(3. * (np.arange(3) == np.argmax(x))), ("position requires a gradient", False), ("value requires a gradient", True)])
    a("result of a comparison as a factor", [V(3)], """
        leaf(x)
        m = x.gt(0)
        (m * x).sum().backward()
        return [x.grad]""", lambda x: [gx(1. * (x > 0))])
    return P


def requested():
    V = lambda *s: enc(*s)
    one = np.ones_like
    P = []

    def a(label, ins, body, want, **kw):
        P.append(Src(label, ins, body, want, **kw))
    a("operands that do not require gradients", [V(3), const(3)], """
        leaf(x)
        s = (x * y + y * y).sum()
        s.backward()
        return [x.grad, y.grad, s.requires_grad]""", lambda x, y: [gx(y), ("gradient of y, which requires none", None), True])
    a("nothing requires gradients", [const(3), const(3)], """
        s = (x * y).sum()
        s.backward()
        return [x.grad, y.grad, s.requires_grad, s.grad]""", lambda x, y: [None, None, ("result requires a gradient", False), None])
    a("detached copy as a factor", [V(3)], """
        leaf(x)
        y = x.detach()
        (x * y).sum().backward()
        return [x.grad, y.grad, y.requires_grad, x.requires_grad]""", lambda x: [gx(x), None, False, True])
    a("detached inner node used as a new leaf", [V(2), V(2)], """
        leaf(x, y)
        s = x * y
        t = s.detach()
        t.requires_grad = True
        (t * t).sum().backward()
        return [x.grad, y.grad, t.grad]""", lambda x, y: [("gradient behind a detached tensor", None), None, ("the gradient of the detached leaf", 2 * x * y)])
    a("inner node detached in place", [V(2)], """
        leaf(x)
        a = x * 2
        b = a * 3
        b.detach_()
        (b * a).sum().backward()
        return [x.grad, b.grad]""", lambda x: [gx(12 * x), None])
    a("inner node that no longer requires a gradient", [V(2)], """
        leaf(x)
        a = x * 2
        b = a * 3
        b.requires_grad = False
        (b + a).sum().backward()
        return [x.grad, b.grad]""", lambda x: [gx(2 * one(x)), None])
    a("part computed without recording", [V(2)], """
        leaf(x)
        y = x * 2
        with CrypTensor.no_grad():
            z = y * 3
        (y * z).sum().backward()
        return [x.grad, z.grad, z.requires_grad]""", lambda x: [gx(12 * x), None, ("result of an unrecorded computation requires a gradient", False)])
    a("part recorded inside an unrecorded scope", [V(2)], """
        leaf(x)
        with crypten.no_grad():
            u = x * 5
            with crypten.enable_grad():
                y = x * 2
            v = y * 3
        (y + v).sum().backward()
        return [x.grad, y.requires_grad, v.requires_grad, u.requires_grad]""", lambda x: [gx(2 * one(x)), True, False, False])
    a("target of a loss is not differentiated", [enc(3, lo=1, hi=2)], """
        leaf(x)
        p = x * 0.25
        t = p * 0.5
        l = p.binary_cross_entropy(t, skip_forward=True)
        (l + p.sum()).backward(one(l))
        return [(x.grad - x.grad) if x.grad is not None else None]""", lambda x: [("the gradient of x", 0 * x)])
    a("encrypted operand passed by keyword", [V(1, 1, 3), V(1, 1, 2)], """
        leaf(x, y)
        x.conv1d(kernel=y).sum().backward()
        return [x.grad, y.grad]""", lambda x, y: [gx(np.array([[[y[0, 0, 0], y.sum(), y[0, 0, 1]]]])), gy(np.array([[[x[0, 0, :2].sum(), x[0, 0, 1:].sum()]]]))])
    a("weights of a normalisation passed by keyword", [enc(3, 2), enc(2), enc(2), const(2)], """
        leaf(x, y, z)
        v = torch.ones(2)
        x.batchnorm(bias=z, weight=y, running_mean=w, running_var=v, eps=0.0).sum().backward()
        return [x.grad, y.grad, z.grad, w.grad]""", lambda x, y, z, w: [gx(np.tile(y, (3, 1))), gy((x - w).sum(0)), ("the gradient of z", 3. + 0 * z), None])
    a("statistics of a normalisation passed by position", [enc(3, 2), enc(2), enc(2), const(2)], """
        leaf(x, y, z)
        v = torch.ones(2)
        x.batchnorm(y, z, w, v, False, 0.0).sum().backward()
        return [x.grad, y.grad, z.grad, w.grad]""", lambda x, y, z, w: [gx(np.tile(y, (3, 1))), gy((x - w).sum(0)), ("the gradient of z", 3. + 0 * z), None])
    return P


def scopes():
    V = lambda *s: enc(*s)
    P = []

    def a(label, ins, body, want, **kw):
        P.append(Src(label, ins, body, want, ns=(1,), points=1, **kw))
    on = "CrypTensor.AUTOGRAD_ENABLED"
    for api in ("crypten", "CrypTensor"):
        a("%s.no_grad restores the setting" % api, [], """
            r = [CrypTensor.AUTOGRAD_ENABLED]
            with %s.no_grad():
                r.append(CrypTensor.AUTOGRAD_ENABLED)
                with %s.no_grad():
                    r.append(CrypTensor.AUTOGRAD_ENABLED)
                r.append(CrypTensor.AUTOGRAD_ENABLED)
                with %s.enable_grad():
                    r.append(CrypTensor.AUTOGRAD_ENABLED)
                    with %s.enable_grad():
                        r.append(CrypTensor.AUTOGRAD_ENABLED)
                    r.append(CrypTensor.AUTOGRAD_ENABLED)
                r.append(CrypTensor.AUTOGRAD_ENABLED)
            r.append(CrypTensor.AUTOGRAD_ENABLED)
            with %s.enable_grad():
                r.append(CrypTensor.AUTOGRAD_ENABLED)
            r.append(CrypTensor.AUTOGRAD_ENABLED)
            return r""" % ((api,) * 5), lambda: [True, False, False, False, True, True, True, False, True, True, True])
        a("%s.no_grad left by an exception" % api, [], """
            r = []
            try:
                with %s.no_grad():
                    raise ValueError("x")
            except ValueError:
                pass
            r.append(CrypTensor.AUTOGRAD_ENABLED)
            %s.set_grad_enabled(False)
            try:
                with %s.enable_grad():
                    raise ValueError("x")
            except ValueError:
                pass
            r.append(CrypTensor.AUTOGRAD_ENABLED)
            with %s.no_grad():
                try:
                    with %s.enable_grad():
                        raise KeyError("x")
                except KeyError:
                    r.append(CrypTensor.AUTOGRAD_ENABLED)
            r.append(CrypTensor.AUTOGRAD_ENABLED)
            %s.set_grad_enabled(True)
            r.append(CrypTensor.AUTOGRAD_ENABLED)
            return r""" % ((api,) * 6), lambda: [True, False, False, False, True])
    a("backward restores the setting", [V(2)], """
        leaf(x)
        r = []
        (x * 2).sum().backward()
        r.append(CrypTensor.AUTOGRAD_ENABLED)
        y = x * 2
        try:
            y.backward()
        except RuntimeError:
            r.append(True)
        r.append(CrypTensor.AUTOGRAD_ENABLED)
        z = x * 3
        with crypten.no_grad():
            z.sum().backward()
            r.append(CrypTensor.AUTOGRAD_ENABLED)
        r.append(CrypTensor.AUTOGRAD_ENABLED)
        return r""", lambda x: [True, True, True, False, True])
    a("failing operations restore the setting", [V(2), V(3)], """
        leaf(x, y)
        r = []
        try:
            x.hardtanh("a", "b")
            r.append(False)
        except AssertionError:
            r.append(CrypTensor.AUTOGRAD_ENABLED)
        try:
            x.sigmoid().tanh().no_such_function()
        except AttributeError:
            r.append(CrypTensor.AUTOGRAD_ENABLED)
        (x * 2).sum().backward()
        return r + [x.grad]""", lambda x, y: [True, True, gx(2 + 0 * x)])
    a("backward without a gradient is rejected for non-scalars and loses nothing", [V(2), const(2)], """
        leaf(x)
        z = x * x
        try:
            z.backward()
            return [False, None]
        except RuntimeError:
            pass
        z.backward(y)
        return [True, x.grad]""", lambda x, y: [("rejected", True), gx(2 * x * y)])
    for nm, stmt in (("add_", "x.add_(y)"), ("mul_", "x.mul_(y)"), ("+=", "x += y"), ("-=", "x -= y"), ("item assignment", "x[0] = 5"), ("sub_", "x.sub_(1)"), ("item assignment of a tensor", "x[0] = y[0]")):
        for who in ("x", "y", "x * 1"):
            if who == "y" and "y" not in stmt:
                continue
            a("%s where %s requires a gradient is rejected" % (nm, {"x": "the receiver", "y": "the operand"}.get(who, "an inner receiver")), [V(2), V(2)], """
                %s
                try:
                    %s
                    return [False]
                except RuntimeError:
                    return [True]""" % ({"x": "leaf(x)", "y": "leaf(y)"}.get(who, "leaf(x); x = x * 1"), stmt), lambda x, y: [("rejected", True)])
    a("in-place operations without recording", [V(2), V(2)], """
        leaf(y)
        with crypten.no_grad():
            x.add_(y)
            x[0] = 1
            y.sub_(x)
        return [x, y, x.requires_grad, y.requires_grad]""", lambda x, y: [np.array([1, (x + y)[1]]), y - np.array([1, (x + y)[1]]), False, True])
    return P


def aliasing():
    V = lambda *s: enc(*s)
    P = []

    def a(label, ins, body, want, **kw):
        P.append(Src(label, ins, body, want, **kw))
    for nm, expr in (("view", "x.view(2, 2)"), ("reshape", "x.reshape(2, 2)"), ("sum", "x + y"), ("difference", "x - 1"), ("clone", "x.clone()"), ("negation", "x.neg()"), ("transposition", "x.t()"),
                     ("squeeze", "x.unsqueeze(0).squeeze(0)"), ("permutation", "x.permute((1, 0))"), ("concatenation", "crypten.cat([x, y])[:2]"),
                     ("identity pipeline", "x.flatten().view(2, 2)"), ("roll", "x.roll(1, 0)"), ("flip", "x.flip(0)"), ("division by one", "x / 1"), ("product by one", "x * 1")):
        def want(x, y, g, nm=nm):
            f = {"transposition": lambda g: g.T, "permutation": lambda g: g.T, "negation": lambda g: -g, "roll": lambda g: np.roll(g, -1, 0), "flip": lambda g: g[::-1]}.get(nm, lambda g: g)
            return [("the gradient of x after two passes", f(g) + 2), ("the gradient that was passed", g), ("x", x), ("y", y)]
        a("accumulation after %s leaves other tensors alone" % nm, [V(2, 2), V(2, 2), const(2, 2)], """
            leaf(x, y)
            r = %s
            r.backward(z)
            (x * 2).sum().backward()
            return [x.grad, z, x, y]""" % expr, want)
    a("leaves sharing a gradient accumulate separately", [V(2), V(2), const(2)], """
        leaf(x, y)
        (x + y).backward(z)
        (x * 2).sum().backward()
        (y * 3).sum().backward()
        return [x.grad, y.grad, z]""", lambda x, y, z: [gx(z + 2), gy(z + 3), ("the gradient that was passed", z)])
    a("leaves behind a view sharing a gradient", [V(2), V(2), const(2)], """
        leaf(x, y)
        s = x.view(2) + y.view(2)
        s.view(2).backward(z)
        (x * 2).sum().backward()
        return [x.grad, y.grad, z]""", lambda x, y, z: [gx(z + 2), gy(z), ("the gradient that was passed", z)])
    a("inner node with two consumers does not alter the passed gradient", [V(2), const(2)], """
        leaf(x)
        a = x * 2
        b = a.view(2) + a
        b.backward(y)
        return [x.grad, y]""", lambda x, y: [gx(4 * y), ("the gradient that was passed", y)])
    a("saved values are not changed by the backward pass", [V(2)], """
        leaf(x)
        a = x * 1
        b = a * a
        c = b.square()
        d = c - b
        d.sum().backward()
        return [x, a, b, c, d, x.grad]""", lambda x: [x, x, x * x, x ** 4, x ** 4 - x * x, gx(4 * x ** 3 - 2 * x)])
    a("results stay usable after the backward pass", [V(2)], """
        leaf(x)
        a = x * 3
        a.sum().backward()
        b = a.detach() + x
        return [b, x.grad]""", lambda x: [4 * x, gx(3 + 0 * x)])
    return P


def dag(k, size, leaves=3):
    """straight-line program over leaves, meaningful both for encrypted tensors and for arrays"""
    names, lines = ["x", "y", "z"][:leaves], []
    pick = lambda what, m: h64("dag", k, len(lines), what) % m
    used = set()
    for i in range(size):
        # prefer recent nodes and reuse old ones
        a = names[pick("a", len(names))] if pick("old", 3) == 0 else names[-1 - pick("r", min(4, len(names)))]
        b = names[pick("b", len(names))]
        op = ("%s + %s", "%s - %s", "%s * %s", "%s + %s * 0.5", "-%s + %s", "%s.flatten() * %s", "%s * 0.5 - %s")[pick("op", 7)]
        if op.count("*") and i > size - 2:
            op = "%s + %s"
        lines.append("n%d = (%s) * 0.5" % (i, op % (a, b)))
        names.append("n%d" % i)
        used |= {a, b}
    loose = [n for n in names[leaves:] if n not in used]
    lines.append("root = " + " + ".join(loose + ["x"]))
    return lines


def random_dags(count, sizes=(4, 6, 9)):
    P = []
    for k in range(count):
        lines = dag(k, sizes[k % len(sizes)])
        code = compile("\n".join(lines), "<dag>", "exec")

        def f(x, y, z, code=code):
            d = {"x": x, "y": y, "z": z}
            exec(code, d)
            return d["root"]

        def want(x, y, z, f=f):
            xs = [x, y, z]
            return [f(*xs)] + [("the gradient of %s" % n, vjp(f, xs, i, np.ones(x.shape))) for i, n in enumerate("xyz")]
        body = "leaf(x, y, z)\n" + "\n".join(lines) + "\nroot.sum().backward()\nzero = x - x\nreturn [root] + [zero if t.grad is None else t.grad for t in (x, y, z)]"
        P.append(Src("graph %d of %d operations" % (k, len(lines) - 1), [enc(2), enc(2), enc(2)], body, want, ns=(1,), tol=0.01))
    return P


def run(chk):
    prog_obligations(chk, "R1", random_dags(400 if chk.thorough else 60, (4, 6, 9, 14) if chk.thorough else (4, 6, 9)))
    chk.rule("R1", "every path from a root to a tensor contributes to its gradient exactly once")
    chk.rule("R2", "only tensors that require a gradient, and are connected to the root, receive one")
    chk.rule("R3", "the recording setting is restored on every exit of a scope; rejected operations change nothing")
    chk.rule("R4", "accumulating gradients changes no other tensor")
    prog_obligations(chk, "R1", counting())
    prog_obligations(chk, "R2", requested())
    prog_obligations(chk, "R3", scopes())
    prog_obligations(chk, "R4", aliasing())
