"""State of module trees through encryption, decryption, saving, loading and mode changes, as programs analysed at every party."""
from .c21 import *

MINIMUM = 60

TREE = """
from collections import OrderedDict
from crypten import nn

def enc(t):
    return crypten.is_encrypted_tensor(t)

class Own(nn.Module):
    def __init__(self, value):
        super().__init__()
        self.register_parameter("p", value)
        self.register_buffer("b", value + 1)
        self.note = "kept"
        self.inner = nn.Linear(2, 1)

def tree(kind, t):
    t = t * 1
    if kind == "Linear":
        return nn.Linear(3, 2)
    if kind == "BatchNorm":
        return nn.BatchNorm1d(2)
    if kind == "Sequential":
        return nn.Sequential(nn.Linear(2, 2), nn.ReLU(), nn.Linear(2, 1, bias=False))
    if kind == "Nested":
        return nn.Sequential(OrderedDict([("a", nn.Sequential(nn.Linear(2, 2), nn.BatchNorm1d(2))), ("b", nn.Linear(2, 1))]))
    if kind == "Graph":
        g = nn.Graph("input", "output")
        g.add_module("w", nn.Parameter(t), [])
        g.add_module("f", nn.Parameter(t * 2, trainable=False), [])
        g.add_module("c", nn.Constant(2.0), [])
        g.add_module("s", nn.Sequential(nn.Dropout(0.0), nn.Linear(2, 2)), ["input"])
        g.add_module("m", nn.Mul(), ["s", "w"])
        g.add_module("n", nn.Mul(), ["m", "c"])
        g.add_module("output", nn.Add(), ["n", "f"])
        return g
    if kind == "ModuleList":
        return nn.ModuleList([nn.Linear(2, 1), nn.BatchNorm1d(2), nn.ModuleList([nn.Linear(1, 2)])])
    if kind == "ModuleDict":
        return nn.ModuleDict({"k": nn.Linear(2, 1), "l": nn.BatchNorm2d(2)})
    if kind == "Own":
        return Own(t)
    if kind == "Shared":
        one = nn.Linear(2, 2)
        return nn.Sequential(one, nn.Sequential(one, nn.ReLU()), one)

def values(m):
    return [t for _, t in m.named_parameters()] + [t for _, t in m.named_buffers()]

def names(m):
    return ",".join([k for k, _ in m.named_parameters()] + [k for k, _ in m.named_buffers()])

def is_all(m, encrypted):
    return all([c.encrypted is encrypted for c in m.modules()]) and all([enc(t) is encrypted for t in values(m)]) and all(
        [torch.is_tensor(t) is not encrypted for t in values(m)])

def flags(m, p):
    return all([t.requires_grad is p for t in m.parameters()]) and not any([t.requires_grad for t in m.buffers()])

def mode(m, training):
    return all([c.training is training for c in m.modules()])
"""

HERE = np.array([[1.5, -2.0]])
LIN = lambda o, i: [("weight", initial(1, o, i)), ("bias", initial(2, o))]
BNP = [("weight", np.ones(2)), ("bias", np.zeros(2))]
BNB = [("running_mean", np.zeros(2)), ("running_var", np.ones(2))]


def pre(p, items):
    return [(p + "." + k, v) for k, v in items]


def contents(kind, t):
    """(parameters, buffers, number of modules) of a tree: the specification of tree()"""
    if kind == "Linear":
        return LIN(2, 3), [], 1
    if kind == "BatchNorm":
        return BNP, BNB, 1
    if kind == "Sequential":
        return pre("0", LIN(2, 2)) + pre("2", LIN(1, 2)[:1]), [], 4
    if kind == "Nested":
        return pre("a", pre("0", LIN(2, 2)) + pre("1", BNP)) + pre("b", LIN(1, 2)), pre("a.1", BNB), 5
    if kind == "Graph":
        return [("w.data", t)] + pre("s.1", LIN(2, 2)), [("f.data", 2 * t)], 10
    if kind == "ModuleList":
        return pre("0", LIN(1, 2)) + pre("1", BNP) + pre("2.0", LIN(2, 1)), pre("1", BNB), 5
    if kind == "ModuleDict":
        return pre("k", LIN(1, 2)) + pre("l", BNP), pre("l", BNB), 3
    if kind == "Own":
        return [("p", t)] + pre("inner", LIN(1, 2)), [("b", t + 1)], 2
    if kind == "Shared":
        return pre("0", LIN(2, 2)) + pre("1.0", LIN(2, 2)), [], 4


KINDS = ["Linear", "BatchNorm", "Sequential", "Nested", "Graph", "ModuleList", "ModuleDict", "Own", "Shared"]


class Tree(Src):
    HEAD = HEAD.replace("def program", TREE + "\ndef program")


def yes(what):
    return (what, True)


def trees():
    P = []

    def a(rule, label, ins, body, want, **kw):
        kw = {**dict(tol=0.001, points=1, agree=True), **kw}
        P.append((rule, Tree(label, ins, body, want, **kw)))
    T2 = [pub(1, 2, lo=-3, hi=3)]

    def vals(kind, x):
        p, b, _ = contents(kind, x)
        return [(k, v) for k, v in p + b]

    def keys(kind):
        p, b, _ = contents(kind, HERE)
        return ",".join(k for k, _ in p + b)

    def local(kind):
        """order of a state dictionary: each module's parameters, then its buffers, then its children"""
        p, b, _ = contents(kind, HERE)

        def order(ps, bs):
            out = [k for k in ps if "." not in k] + [k for k in bs if "." not in k]
            heads = []
            for k in ps + bs:
                if "." in k and k.split(".")[0] not in heads:
                    heads.append(k.split(".")[0])
            if kind == "Graph" and not any("." not in k for k in ps + bs) and set(heads) == {"w", "s", "f"}:
                heads = ["w", "f", "s"]
            for h in heads:
                out += [h + "." + k for k in order([k.split(".", 1)[1] for k in ps if k.startswith(h + ".")], [k.split(".", 1)[1] for k in bs if k.startswith(h + ".")])]
            return out
        return ",".join(order([k for k, _ in p], [k for k, _ in b]))

    for k in KINDS:
        n = contents(k, HERE)[2]
        a("R1", "%s: names and values" % k, T2, "m = tree(%r, x)\nreturn [names(m), len(list(m.modules())) == %d, is_all(m, False), flags(m, True), mode(m, True)] + values(m)" % (k, n),
          lambda x, k=k: [("the names", keys(k)), yes("number of modules"), yes("plain at first"), yes("gradient flags"), yes("training mode")] + vals(k, x), ns=(1,))
        for src in (0, 1):
            a("R1", "%s: encrypted with values from party %d" % (k, src), T2, """
                m = tree(%r, x)
                r = crypten.communicator.get().get_rank()
                if r != %d:
                    for t in values(m):
                        t.fill_(0)
                q = m.encrypt(src=%d)
                return [names(m), is_all(m, True), flags(m, True), mode(m, True), q is m] + values(m)""" % (k, src, src),
              lambda x, k=k: [("the names", keys(k)), yes("everything encrypted"), yes("gradient flags"), yes("training mode"), yes("the module itself is returned")] + vals(k, x), ns=(1, 2) if src == 0 else (2, 3))
        a("R1", "%s: encrypted and decrypted" % k, T2, """
            m = tree(%r, x)
            m.encrypt()
            q = m.decrypt()
            return [names(m), is_all(m, False), flags(m, True), mode(m, True), q is m] + values(m)""" % k,
          lambda x, k=k: [("the names", keys(k)), yes("everything decrypted"), yes("gradient flags"), yes("training mode"), yes("the module itself is returned")] + vals(k, x))
        a("R1", "%s: encrypted twice, decrypted twice, encrypted" % k, T2, """
            m = tree(%r, x)
            m.encrypt()
            first = values(m)
            m.encrypt()
            same = all([p is q for p, q in zip(first, values(m))])
            m.decrypt()
            m.decrypt()
            m.encrypt()
            return [same, is_all(m, True), flags(m, True)] + values(m)""" % k, lambda x, k=k: [yes("encrypting again keeps the values"), yes("everything encrypted"), yes("gradient flags")] + vals(k, x), ns=(2,))
        for order, fin in (("m.eval(); m.encrypt()", False), ("m.encrypt(); m.eval()", False), ("m.eval(); m.encrypt(); m.train()", True), ("m.encrypt(); m.eval(); m.decrypt()", False),
                           ("m.encrypt(); m.train(False); m.decrypt(); m.train()", True), ("m.eval(); m.decrypt(); m.encrypt(); m.decrypt(); m.train(True)", True)):
            encd = "m.decrypt()" not in order
            a("R2", "%s after %s" % (k, order), T2, "m = tree(%r, x)\n%s\nreturn [is_all(m, %s), flags(m, %s), mode(m, %s)]" % (k, order, encd, fin, fin), lambda x: [yes("encryption state"), yes("gradient flags"), yes("mode")], ns=(1,))
        for how in ("", "m.encrypt()"):
            what = "encrypted" if how else "plain"
            a("R3", "%s: state of the %s model" % (k, what), T2, """
                m = tree(%r, x)
                %s
                s = m.state_dict()
                t = m.state_dict(keep_vars=True)
                return [",".join(s.keys()), ",".join(t.keys()), any([v.requires_grad for v in s.values()]), all([t[k] is v for k, v in m.named_parameters()]), all([enc(v) is %s for v in s.values()])] + [s[k] for k in names(m).split(",")]""" % (k, how, bool(how)),
              lambda x, k=k: [("the keys", local(k)), ("the keys", local(k)), ("part of the gradient graph", False), yes("variables are kept when asked for"), yes("form of the entries")] + vals(k, x), ns=(1,))
            for how2 in ("s", "torch.load"):
                a("R3", "%s: %s state loaded into another model%s" % (k, what, "" if how2 == "s" else " through a file"), T2, """
                    m = tree(%r, x)
                    o = tree(%r, x)
                    for t in values(o):
                        t.fill_(7)
                    %s
                    s = m.state_dict()
                    %s
                    kept = values(o)
                    o.load_state_dict(s)
                    same = all([p is q for p, q in zip(kept, values(o))])
                    for t in values(m):
                        with crypten.no_grad(), torch.no_grad():
                            t.sub_(3)
                    return [names(o), same, is_all(o, %s), flags(o, True), mode(o, True)] + values(o)""" % (
                    k, k, "m.encrypt(); o.encrypt()" if how else "pass",
                    "pass" if how2 == "s" else "box = []\ncrypten.save(s, box, save_closure=lambda o, f: f.append(o))\ns = crypten.load(box, load_closure=lambda f: f[0])".replace("\n", "\n" + " " * 20), bool(how)),
                  lambda x, k=k: [("the names", keys(k)), yes("tensors are filled in place"), yes("form"), yes("gradient flags"), yes("mode")] + vals(k, x), ns=(1, 2) if how else (1,))
    P += strictness(vals) + changes()
    return P


def strictness(vals):
    P = []

    def a(label, body, want, **kw):
        P.append(("R4", Tree(label, [pub(1, 2, lo=-3, hi=3)], body, want, **{**dict(tol=0.001, points=1, ns=(1,), agree=True), **kw})))

    def refuses(label, change, exc="ValueError", how="", load="o.load_state_dict(s)", k="Nested"):
        a(label, """
            m = tree(%r, x)
            o = tree(%r, x)
            %s
            s = m.state_dict()
            %s
            try:
                %s
                return [False]
            except %s:
                return [True]""" % (k, k, how or "pass", change or "pass", load, exc), lambda x: [yes("refused")])
    for key in ("a.0.weight", "a.1.running_var", "b.bias"):
        refuses("a state without %s is refused" % key, "del s[%r]" % key)
    for key in ("a.0.wait", "weight", "b.weight.x", "c.weight"):
        refuses("a state with an entry %s of its own is refused" % key, "s[%r] = x" % key)
    for key in ("a.0.weight", "a.1.running_mean"):
        refuses("a state with %s of a different size is refused" % key, "s[%r] = torch.ones(5)" % key)
        refuses("a state with %s of a different size is refused when not strict" % key, "s[%r] = torch.ones(5)" % key, load="o.load_state_dict(s, strict=False)")
    refuses("a state without version is refused", "s = OrderedDict([(k, v) for k, v in s.items()])")
    refuses("a state of another version is refused", "s._metadata = {'version': 0}")
    refuses("an encrypted state is refused by a plain model", "", "AssertionError", how="m.encrypt()")
    refuses("a plain state is refused by an encrypted model", "", "AssertionError", how="o.encrypt()")
    refuses("an encrypted buffer is refused by a plain model", "s['a.1.running_mean'] = crypten.cryptensor(torch.ones(2))", "AssertionError")
    a("what is present is loaded when not strict", """
        m = tree("Nested", x)
        s = OrderedDict([("a.1.running_mean", torch.tensor([5.0, 6.0])), ("b.bias", torch.tensor([4.0])), ("unknown", x)])
        m.load_state_dict(s, strict=False)
        return values(m) + [len(s) == 3]""", lambda x: [(k, {"a.1.running_mean": np.array([5., 6]), "b.bias": np.array([4.])}.get(k, v)) for k, v in vals("Nested", x)] + [yes("the state is unchanged")])
    a("loading leaves the state unchanged", """
        m = tree("Nested", x)
        s = m.state_dict()
        before = ",".join(s.keys())
        tree("Nested", x).load_state_dict(s)
        return [before == ",".join(s.keys())] + values(m)""", lambda x: [yes("keys")] + vals("Nested", x))
    return P


def changes():
    P = []

    def a(label, body, want, ins=None, **kw):
        P.append(("R5", Tree(label, ins or [pub(1, 2, lo=-3, hi=3)], body, want, **{**dict(tol=0.001, points=1, ns=(1, 2), agree=True), **kw})))
    a("a plain module added to an encrypted model is encrypted next time", """
        m = nn.Sequential(nn.Linear(2, 2))
        m.encrypt()
        m.add_module("more", nn.Sequential(nn.Parameter(x), nn.BatchNorm1d(2)), ["0"])
        m.encrypt()
        return [is_all(m, True), flags(m, True)] + values(m)""", lambda x: [yes("everything encrypted"), yes("gradient flags")] + [v for _, v in LIN(2, 2)] + [x] + [v for _, v in BNP + BNB])
    a("an encrypted module in a plain model is decrypted", """
        i = nn.Sequential(nn.Parameter(x), nn.BatchNorm1d(2))
        i.encrypt()
        m = nn.Sequential(i, nn.Linear(2, 2))
        m.decrypt()
        return [is_all(m, False), flags(m, True)] + values(m)""", lambda x: [yes("everything decrypted"), yes("gradient flags")] + [x] + [v for _, v in BNP] + [v for _, v in LIN(2, 2)] + [v for _, v in BNB])
    a("an encrypted module in a plain model is encrypted once", """
        i = nn.Sequential(nn.Parameter(x), nn.BatchNorm1d(2))
        i.encrypt()
        old = values(i)
        m = nn.Sequential(i, nn.Linear(2, 2))
        m.encrypt()
        return [is_all(m, True), all([p is q for p, q in zip(old, values(i))])] + values(m)""", lambda x: [yes("everything encrypted"), yes("kept")] + [x] + [v for _, v in BNP] + [v for _, v in LIN(2, 2)] + [v for _, v in BNB])
    a("Parameter of an encrypted tensor", """
        p = nn.Parameter(crypten.cryptensor(x))
        q = nn.Parameter(crypten.cryptensor(x), trainable=False)
        m = nn.Sequential(p, q)
        first = p.encrypted and q.encrypted
        m.encrypt()
        return [first, is_all(m, True), p.requires_grad, q.requires_grad, p(None), q.data]""", lambda x: [yes("known as encrypted"), yes("everything encrypted"), yes("trained"), ("trained", False), x, x])
    a("buffers are not trained", """
        t = crypten.cryptensor(x, requires_grad=True)
        p = nn.Parameter(t, trainable=False)
        m = tree("Own", x)
        m.register_buffer("extra", crypten.cryptensor(x, requires_grad=True))
        m.inner = p
        return [p.requires_grad, p.data.requires_grad, m.extra.requires_grad, names(m)]""", lambda x: [("trained", False)] * 3 + [("names", "p,b,extra,inner.data")])
    a("a module replaces a parameter and a buffer of the same name", """
        m = tree("Own", x)
        m.p = nn.Parameter(x * 2)
        m.b = nn.Parameter(x * 3)
        m.note = nn.ReLU()
        return [names(m), ",".join([k for k, _ in m.named_children()]), isinstance(m.p, nn.Parameter), isinstance(m.b, nn.Parameter), isinstance(m.note, nn.ReLU), m.p.data, m.b.data]""",
      lambda x: [("names", "inner.weight,inner.bias,p.data,b.data"), ("children", "inner,p,b,note"), yes("the module is found"), yes("the module is found"), yes("the module is found"), 2 * x, 3 * x], ns=(1,))
    a("a child module is replaced by a module or by nothing only", """
        m = tree("Own", x)
        try:
            m.inner = x
            return [False]
        except TypeError:
            m.inner = None
            m.encrypt()
            return [True, m.p, is_all(m, True), ",".join(m.state_dict().keys())]""", lambda x: [yes("refused"), x, yes("everything encrypted"), ("the keys", "p,b")], ns=(1,))
    a("frozen parameters stay frozen", """
        m = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 2))
        for t in m._modules["0"].parameters():
            t.requires_grad = False
        m.encrypt()
        one = [t.requires_grad for t in m.parameters()]
        m.decrypt()
        return one + [t.requires_grad for t in m.parameters()]""", lambda x: [("frozen", False), ("frozen", False), ("trained", True), ("trained", True)] * 2)
    a("set_parameter and set_buffer", """
        m = tree("Own", x)
        m.set_parameter("p", x * 3)
        m.set_buffer("b", x * 4)
        s = m.state_dict()
        m.encrypt()
        return [m.p, m.b, s["p"], s["b"]]""", lambda x: [3 * x, 4 * x, 3 * x, 4 * x])
    a("assigning to a registered name replaces the parameter", """
        m = tree("Own", x)
        m.p = x * 3
        m.b = x * 4
        m.inner = nn.Linear(2, 2)
        s = m.state_dict()
        return [s["p"], s["b"], s["inner.weight"], names(m), m.note]""", lambda x: [3 * x, 4 * x, initial(1, 2, 2), "p,inner.weight,inner.bias,b", "kept"], ns=(1,))
    for nm, body in (("register a parameter twice", "m.register_parameter('p', x)"), ("register a buffer twice", "m.register_buffer('b', x)"), ("register a parameter under an attribute's name", "m.register_parameter('note', x)"),
                     ("register a buffer under a parameter's name", "m.register_buffer('p', x)"), ("set a parameter that does not exist", "m.set_parameter('q', x)"), ("set a buffer that does not exist", "m.set_buffer('p', x)"),
                     ("set a parameter that is a buffer", "m.set_parameter('b', x)")):
        a("cannot " + nm, """
            m = tree("Own", x)
            try:
                %s
                return [False]
            except ValueError:
                return [True, m.p, m.b]""" % body, lambda x: [yes("refused"), x, x + 1], ns=(1,))
    for tr in (True, False):
        a("parameters set from shares in %s mode" % ("training" if tr else "evaluation"), """
            m = tree("Own", x)
            m.encrypt()
            m.train(%s)
            m.set_parameter_from_shares("p", y.share, precision=16)
            return [m.p, m.p.requires_grad, enc(m.p), m.state_dict()["p"]]""" % tr, lambda x, y, tr=tr: [y, ("trained", tr), yes("encrypted"), y], ins=[pub(1, 2), enc(1, 2)])
    a("parameters cannot be set from shares in a plain model", """
        m = tree("Own", x)
        try:
            m.set_parameter_from_shares("p", x)
            return [False]
        except AssertionError:
            return [True]""", lambda x: [yes("refused")], ns=(1,))
    a("zero_grad reaches every parameter", """
        m = tree("Nested", x)
        m.encrypt()
        for t in m.parameters():
            t.grad = t
        m.zero_grad()
        return [all([t.grad is None for t in m.parameters()])]""", lambda x: [yes("no gradient left")], ns=(1,))
    for k in ("Nested", "Own", "Graph"):
        for e in ("", "m.encrypt()"):
            for mv in ("m.cpu()", "m.to('cpu')"):
                a("%s: %s%s" % (k, mv, " of the encrypted model" if e else ""), """
                    m = tree(%r, x)
                    m.eval()
                    m.train()
                    %s
                    q = %s
                    return [names(m) == names(tree(%r, x)), is_all(m, %s), flags(m, True), q is m] + values(m)""" % (k, e or "pass", mv, k, bool(e)),
                  lambda x, k=k: [yes("names"), yes("form"), yes("gradient flags"), yes("the module itself is returned")] + [v for _, v in contents(k, x)[0] + contents(k, x)[1]], ns=(1,))
    a("modules in a ModuleList", """
        d = nn.ModuleList([nn.Linear(2, 1)])
        d.append(nn.Linear(1, 2))
        d.insert(0, nn.Parameter(x))
        d[1] = nn.Parameter(x * 2)
        d.extend([nn.Parameter(x * 3), nn.Parameter(x * 4)])
        del d[2]
        d.encrypt()
        return [names(d), len(d) == 4, is_all(d, True)] + values(d) + [d[-1].data]""", lambda x: [("names", "0.data,1.data,2.data,3.data"), yes("length"), yes("everything encrypted"), x, 2 * x, 3 * x, 4 * x, 4 * x])
    a("modules in a ModuleDict", """
        d = nn.ModuleDict({"a": nn.Linear(2, 1), "b": nn.Parameter(x)})
        d["c"] = nn.Parameter(x * 2)
        d["a"] = nn.Parameter(x * 3)
        d.update({"b": nn.Parameter(x * 4)})
        gone = d.pop("c")
        d.encrypt()
        return [names(d), len(d) == 2, "c" in d, is_all(d, True), gone.encrypted] + values(d)""", lambda x: [("names", "a.data,b.data"), yes("length"), ("still there", False), yes("everything encrypted"), ("removed module encrypted", False), 3 * x, 4 * x])
    a("model handed back to PyTorch", """
        class Model:
            def __init__(self):
                self.p = torch.ones(1, 2)
                self.q = torch.ones(1, 2)
            def named_parameters(self):
                return [("l.p", self.p), ("q", self.q)]
        g = nn.Graph("input", "output")
        g.add_module("l.p", nn.Parameter(x), [])
        g.add_module("q", nn.Parameter(x * 2), [])
        g.pytorch_model = Model()
        g.encrypt()
        try:
            g.to_pytorch()
            refused = False
        except ValueError:
            refused = True
        g.decrypt()
        m = g.to_pytorch()
        return [refused, m is g.pytorch_model, m.p, m.q]""", lambda x: [yes("refused while encrypted"), yes("the attached model"), x, 2 * x])
    a("model without PyTorch counterpart", """
        g = nn.Graph("input", "output")
        try:
            g.to_pytorch()
            return [False]
        except AttributeError:
            return [True]""", lambda x: [yes("refused")], ns=(1,))
    for f, o in (("m(crypten.cryptensor(x))", "plain"), ):
        a("a plain model refuses encrypted inputs", """
            m = nn.Linear(2, 2)
            try:
                m(crypten.cryptensor(x))
                return [False]
            except RuntimeError:
                return [True]""", lambda x: [yes("refused")], ns=(1,))
    a("encrypted gradients are not applied to a plain model", """
        m = tree("Own", x)
        m.p.grad = crypten.cryptensor(x)
        try:
            m.update_parameters(0.1)
            return [False]
        except RuntimeError:
            return [True]""", lambda x: [yes("refused")], ns=(1,))
    a("updates need training mode", """
        m = tree("Own", x)
        m.eval()
        try:
            m.update_parameters(0.1)
            return [False]
        except AssertionError:
            return [True]""", lambda x: [yes("refused")], ns=(1,))
    return P


LOADED = """
import io
SENT = []

class Model(torch.nn.Module):
    def __init__(self, t):
        self.w = t * 1
        self.v = t * 2
        self.r = t * 3
    def parameters(self):
        return iter([self.w, self.v])
    def buffers(self):
        return iter([self.r])

def parts(o):
    if torch.is_tensor(o):
        return [o * 1]
    if isinstance(o, Model):
        return [o.w * 1, o.v * 1, o.r * 1]
    return [o]

def sent(o):
    SENT.append(parts(o))
"""


class Loaded(Tree):
    """programs in which one party's object is sent: sent(obj) is called at the sender, others receive received"""
    HEAD = Tree.HEAD.replace("def program", LOADED + "\ndef program")

    def __init__(self, label, ins, received, body, want, **kw):
        super().__init__(label, ins, body, want, **kw)
        inner = self.do
        self.HEAD = self.HEAD.replace("def program", "def received(t):\n    return %s\n\ndef program" % received)
        names = ", ".join("xyzw"[k] for k in range(len(ins)))
        text = self.HEAD.replace("def program(%s)", "def program(" + names + ")") + textwrap.indent(textwrap.dedent(body).strip("\n"), "    ") + "\n"

        def do(it, *ts):
            m = source(it, text)

            def hook(it, comm, obj, src, k):
                if src == comm.rank:
                    it.call(it.mod_get(m, "sent"), [obj], {})
                    return None
                return (it.call(it.mod_get(m, "received"), [ts[0]], {}),)
            it.params["broadcast_obj_hook"] = hook
            return call(it, it.mod_get(m, "program"), *ts)
        self.do = do


def loading():
    P = []

    def a(label, received, body, want, **kw):
        P.append(("R6", Loaded(label, [pub(1, 2, lo=-3, hi=3)], received, body, want, **{**dict(tol=0.001, points=1, agree=True), **kw})))
    for src in (0, 1, 2):
        ns = [n for n in (1, 2, 3) if n > src and n <= src + 2]
        for how in ("preloaded=x * 1", "f='file', load_closure=lambda f: x * 1"):
            a("tensor of party %d, %s" % (src, how.split("=")[0]), "t * 0", """
                me = crypten.communicator.get().get_rank() == %d
                t = crypten.load_from_party(%s, src=%d) if me else crypten.load_from_party(src=%d)
                return [enc(t), t.src == %d, t] + (SENT[0] if me else [x * 0]) + [(len(SENT) == 1) == me]""" % (src, how, src, src, src),
              lambda x: [yes("encrypted"), yes("the source is recorded"), ("the encrypted value", x), ("what the others receive", 0 * x), yes("sent once")], ns=ns)
            a("model of party %d, %s" % (src, how.split("=")[0]), "Model(t * 0)", """
                me = crypten.communicator.get().get_rank() == %d
                m = crypten.load_from_party(%s, src=%d) if me else crypten.load_from_party(src=%d, model_class=Model)
                return [isinstance(m, Model), m.src == %d] + (SENT[0] if me else [x * 0] * 3) + [(len(SENT) == 1) == me] + [(m.w if me else m.w + x), (m.v if me else m.v + 2 * x), (m.r if me else m.r + 3 * x)]""" % (
                src, how.replace("x * 1", "Model(x)"), src, src, src),
              lambda x: [yes("a model of the class"), yes("the source is recorded")] + [("what the others receive", 0 * x)] * 3 + [yes("sent once"), ("the source's own parameter", x), ("the source's own parameter", 2 * x), ("the source's own buffer", 3 * x)], ns=ns)
        a("something else of party %d" % src, "-1", """
            me = crypten.communicator.get().get_rank() == %d
            try:
                crypten.load_from_party(preloaded="secret", src=%d) if me else crypten.load_from_party(src=%d)
                return [False, False]
            except TypeError:
                return [True, SENT[0][0] == -1 if me else True]""" % (src, src, src), lambda x: [yes("refused"), yes("the others learn nothing")], ns=ns)
    for arg in ("src=None", "src=1", "src=-1", "src='0'"):
        a("a source that does not exist, %s" % arg, "t * 0", """
            try:
                crypten.load_from_party(preloaded=x, %s)
                return [False]
            except AssertionError:
                return [True]""" % arg, lambda x: [yes("refused")], ns=(1,))
    for arg in ("f='file', preloaded=x", ""):
        a("the source must have exactly one object%s" % (", given two" if arg else ", given none"), "t * 0", """
            try:
                crypten.load_from_party(%s)
                return [False]
            except AssertionError:
                return [True]""" % arg, lambda x: [yes("refused")], ns=(1,))
    for src in (0, 1):
        a("saved by party %d" % src, "t * 0", """
            box = []
            crypten.save_from_party(x, box, src=%d, save_closure=lambda o, f: f.append(o))
            return [len(box) == (1 if crypten.communicator.get().get_rank() == %d else 0)]""" % (src, src), lambda x: [yes("written by that party only")], ns=(src + 1, 3))
    a("encrypted tensors are not saved by one party", "t * 0", """
        box = []
        try:
            crypten.save_from_party(crypten.cryptensor(x), box, save_closure=lambda o, f: f.append(o))
            return [False]
        except NotImplementedError:
            return [len(box) == 0]""", lambda x: [yes("refused")], ns=(1, 2))
    a("shares saved and loaded", "t * 0", """
        box = []
        t = crypten.cryptensor(x)
        crypten.save(t, box, save_closure=lambda o, f: f.append(o))
        u = crypten.load(box, load_closure=lambda f: f[0])
        return [enc(u), len(box) == 1, u]""", lambda x: [yes("encrypted"), yes("one object"), x], ns=(1, 2, 3))
    return P


def run(chk):
    chk.rule("R1", "encrypting turns every parameter and buffer of every module of a tree into an encryption of the source party's value, decrypting restores plain tensors, and names, flags and values stay the same")
    chk.rule("R2", "training mode, encryption state and gradient flags reach every module through every sequence of calls")
    chk.rule("R3", "a saved state holds every parameter and buffer under its name, and loading it fills the tensors of another model of the same form in place")
    chk.rule("R4", "a state that does not fit is refused, and only what fits is loaded when loading is not strict")
    chk.rule("R5", "changes of a model's parts reach its state")
    chk.rule("R6", "an object loaded from one party reaches the others as form only, and its encryption holds the source's values")
    for rule, p in trees() + loading():
        prog_obligations(chk, rule, [p])
