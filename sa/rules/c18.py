"""Approximated functions evaluate their documented series with the configured iterations, initial values and methods."""
import math
from .prog import *
from .c14 import In, enc, pub, flt, near

MINIMUM = 60
PB = 22
DEF = {"functions.exp_iterations": 8, "functions.reciprocal_method": "NR", "functions.reciprocal_nr_iters": 10, "functions.reciprocal_log_iters": 2,
       "functions.reciprocal_all_pos": False, "functions.reciprocal_initial": None, "functions.sqrt_nr_iters": 3, "functions.sqrt_nr_initial": None,
       "functions.sigmoid_tanh_method": "reciprocal", "functions.sigmoid_tanh_terms": 32, "functions.log_iterations": 2, "functions.log_exp_iterations": 8,
       "functions.log_order": 8, "functions.trig_iterations": 10, "functions.erf_iterations": 8, "functions.max_method": "log_reduction"}


class Cf:
    """configuration the reference formulas read"""

    def __init__(self, over):
        self.d = {**DEF, **over}

    def __getattr__(self, k):
        return self.d["functions." + k]


def r_exp(c, x, it=None):
    it = c.exp_iterations if it is None else it
    return (1 + x / 2.0 ** it) ** (2.0 ** it)


def r_log(c, x, in01=False, its=None):
    if in01:
        return r_log(c, 100 * x) - math.log(100)
    y = x / 120 - 20 * r_exp(c, -(2 * x + 1)) + 3
    for _ in range(c.log_iterations if its is None else its):
        h = 1 - x * r_exp(c, -y, c.log_exp_iterations)
        y = y - sum(h ** k / k for k in range(1, c.log_order + 1))
    return y


def r_rec(c, x, in01=False):
    if in01:
        return 64 * r_rec(Cf({**c.d, "functions.reciprocal_all_pos": True}), 64 * x)
    if not c.reciprocal_all_pos:
        s = np.where(x < 0, -1.0, 1.0)
        return s * r_rec(Cf({**c.d, "functions.reciprocal_all_pos": True}), s * x)
    if c.reciprocal_method == "NR":
        y = 3 * r_exp(c, 1 - 2 * x) + 0.003 if c.reciprocal_initial is None else c.reciprocal_initial
        for _ in range(c.reciprocal_nr_iters):
            y = 2 * y - x * y * y
        return y
    return r_exp(c, -r_log(c, x, its=c.reciprocal_log_iters))


def r_isqrt(c, x):
    y = 2.2 * r_exp(c, -(x / 2 + 0.2)) + 0.2 - x / 1024 if c.sqrt_nr_initial is None else c.sqrt_nr_initial
    for _ in range(c.sqrt_nr_iters):
        y = y * (3 - x * y * y) / 2
    return y


def r_eix(c, x):
    return (1 + 1j * x / 2.0 ** c.trig_iterations) ** (2.0 ** c.trig_iterations)


def r_erf(c, x):
    return 2 / math.sqrt(math.pi) * sum((-1) ** n * x ** (2 * n + 1) / (math.factorial(n) * (2 * n + 1)) for n in range(c.erf_iterations + 1))


def r_tanh(c, x):
    if c.sigmoid_tanh_method == "reciprocal":
        return 2 * r_sig(c, 2 * x) - 1
    co = np.polynomial.chebyshev.chebinterpolate(np.tanh, c.sigmoid_tanh_terms - 1)
    co[0::2] = 0
    return np.clip(np.polynomial.chebyshev.chebval(x, co), -1, 1)


def r_sig(c, x):
    if c.sigmoid_tanh_method == "chebyshev":
        return r_tanh(c, x / 2) / 2 + 0.5
    p = 1 / (1 + r_exp(c, -np.abs(x)))
    return np.where(x < 0, 1 - p, p)


def r_pow(c, x, p):
    if p < 0:
        return r_rec(c, x) ** (-p)
    return x ** p


def r_pos_pow(c, x, p):
    if isinstance(p, (int, float)) and int(p) == p:
        return r_pow(c, x, int(p))
    return r_exp(c, r_log(c, x) * p)


def r_softmax(c, x, d):
    e = r_exp(c, x - x.max(d, keepdims=True))
    return e / e.sum(d, keepdims=True)


def r_logsoftmax(c, x, d):
    z = x - x.max(d, keepdims=True)
    return z - r_log(c, r_exp(c, z).sum(d, keepdims=True))


class Approx(Prog):
    def __init__(self, label, ins, fn, f, over=None, tol=2e-3, ns=(1,), points=1):
        over = over or {}
        c = Cf(over)
        ops = [i.op("xyz"[k], points) for k, i in enumerate(ins)]

        def judge(got, *vals):
            want = f(c, *[flt(v) for v in vals])
            if isinstance(want, tuple):
                for i, w in enumerate(want):
                    d = near(got[i], w, tol, "value %d" % i)
                    if d:
                        return d
                return None
            return near(got[0], want, tol, "the result")

        def do(it, *ts):
            out = fn(it, *ts)
            return list(out) if isinstance(out, (list, tuple)) else [out]
        cf = dict(over)
        cf["encoder.precision_bits"] = PB
        lab = label + (" with %s" % ", ".join("%s=%s" % (k.split(".")[1], v) for k, v in over.items()) if over else "")
        super().__init__(lab, ops, do, None, ns=ns, points=points, judge=judge, cfg=cf)


def v(*xs):
    """encrypted vector of the given values (multiples of 2^-22)"""
    xs = [Fr(round(x * 2 ** 12), 2 ** 12) for x in xs]
    return In((len(xs),), fixed=xs, precision=PB)


def v2(rows):
    return In((len(rows), len(rows[0])), fixed=[[Fr(round(x * 2 ** 12), 2 ** 12) for x in r] for r in rows], precision=PB)


def m(name, *a, **kw):
    def f(it, x, *ys):
        return it.resolve(it.call(it.getattr(x, name), list(ys) + list(a), kw))
    return f


def O(**kw):
    return {"functions." + k: v for k, v in kw.items()}


def series():
    P = []

    def a(label, ins, fn, f, over=None, **kw):
        P.append(Approx(label, ins, fn, f, over, **kw))
    X1 = v(-3, -1.5, -0.25, 0, 0.5, 1, 2.25, 3)
    POS = v(0.05, 0.3, 0.75, 1, 1.5, 3.5, 9, 20, 60)
    SMALL = v(0.3, 0.75, 1, 1.5, 2.5)
    SGN = v(-60, -7.5, -1, -0.3, 0.3, 0.75, 1, 2.5, 12, 60)
    for o in ({}, O(exp_iterations=1), O(exp_iterations=4), O(exp_iterations=5), O(exp_iterations=9), O(exp_iterations=11)):
        a("exp", [X1], m("exp"), r_exp, o, ns=(1, 2) if not o else (1,))
    for o in ({}, O(log_iterations=1), O(log_iterations=0), O(log_iterations=3), O(log_order=1), O(log_order=2), O(log_order=3), O(log_order=5), O(log_exp_iterations=4), O(log_exp_iterations=6),
              O(exp_iterations=5), O(exp_iterations=4, log_exp_iterations=9), O(log_iterations=1, log_order=2, log_exp_iterations=5)):
        a("log", [SMALL if "functions.exp_iterations" in o else POS], m("log"), r_log, o, ns=(1, 2) if not o else (1,))
    for o in ({}, O(log_iterations=1)):
        a("log(input_in_01=True)", [v(0.01, 0.1, 0.3, 0.75, 1)], m("log", input_in_01=True), lambda c, x: r_log(c, x, True), o)
    for o in ({}, O(reciprocal_nr_iters=3), O(reciprocal_nr_iters=1), O(reciprocal_nr_iters=0), O(reciprocal_nr_iters=5), O(exp_iterations=4, reciprocal_nr_iters=2),
              O(reciprocal_initial=0.015625), O(reciprocal_initial=0.015625, reciprocal_nr_iters=4), O(reciprocal_method="log"), O(reciprocal_method="log", reciprocal_log_iters=1),
              O(reciprocal_method="log", reciprocal_log_iters=3), O(reciprocal_method="log", log_iterations=1), O(reciprocal_method="log", log_order=3), O(reciprocal_method="log", exp_iterations=6)):
        a("reciprocal", [SMALL if "functions.exp_iterations" in o else SGN], m("reciprocal"), r_rec, o, ns=(1, 2) if not o else (1,))
    for o in (O(reciprocal_all_pos=True), O(reciprocal_all_pos=True, reciprocal_nr_iters=2), O(reciprocal_all_pos=True, reciprocal_method="log"), O(reciprocal_all_pos=True, reciprocal_initial=0.015625)):
        a("reciprocal", [v(0.3, 0.75, 1, 2.5, 12, 60)], m("reciprocal"), r_rec, o)
    for o in ({}, O(reciprocal_nr_iters=4), O(reciprocal_all_pos=True), O(reciprocal_method="log")):
        a("reciprocal(input_in_01=True)", [v(0.02, 0.1, 0.3, 0.75, 1)], m("reciprocal", input_in_01=True), lambda c, x: r_rec(c, x, True), o)
    a("division by an encrypted value", [v(1, -2, 3), v(4, 0.5, -8)], lambda it, x, y: it.binop("Div", x, y), lambda c, x, y: x * r_rec(c, y))
    a("div by an encrypted value", [v(1, -2, 3), v(4, 0.5, -8)], m("div"), lambda c, x, y: x * r_rec(c, y), O(reciprocal_nr_iters=3))
    a("public number divided by an encrypted value", [v(4, 0.5, -8)], m("__rtruediv__", 3), lambda c, y: 3 * r_rec(c, y))
    SQ = v(0.1, 0.5, 1, 2.25, 7, 16, 50, 150)
    for o in ({}, O(sqrt_nr_iters=0), O(sqrt_nr_iters=1), O(sqrt_nr_iters=5), O(exp_iterations=5, sqrt_nr_iters=1), O(sqrt_nr_initial=0.125), O(sqrt_nr_initial=0.0625, sqrt_nr_iters=1)):
        sq = SMALL if "functions.exp_iterations" in o else SQ
        a("inv_sqrt", [sq], m("inv_sqrt"), r_isqrt, o, ns=(1, 2) if not o else (1,))
        if o.get("functions.sqrt_nr_iters") != 0 or "functions.sqrt_nr_initial" not in o:
            a("sqrt", [sq], m("sqrt"), lambda c, x: x * r_isqrt(c, x), o)
    for o in ({}, O(trig_iterations=1), O(trig_iterations=2), O(trig_iterations=6), O(trig_iterations=11)):
        a("cos", [X1], m("cos"), lambda c, x: r_eix(c, x).real, o, tol=4e-3)
        a("sin", [X1], m("sin"), lambda c, x: r_eix(c, x).imag, o, tol=4e-3)
        a("cossin", [X1], m("cossin"), lambda c, x: (r_eix(c, x).real, r_eix(c, x).imag), o, tol=4e-3)
    for o in ({}, O(exp_iterations=4), O(reciprocal_nr_iters=1), O(reciprocal_initial=0.0625), O(reciprocal_method="NR", exp_iterations=10)):
        a("sigmoid", [v(-6, -2.5, -1, -0.125, 0, 0.125, 1, 2.5, 6)], m("sigmoid"), r_sig, o, tol=6e-3, ns=(1, 2) if not o else (1,))
        a("tanh", [v(-3, -1, -0.125, 0, 0.125, 1, 3)], m("tanh"), r_tanh, o, tol=0.012)
    for t in (32, 6, 8, 16):
        o = O(sigmoid_tanh_method="chebyshev", sigmoid_tanh_terms=t)
        a("tanh", [v(-1, -0.75, -0.25, 0, 0.125, 0.5, 1)], m("tanh"), r_tanh, o)
        a("sigmoid", [v(-2, -1.5, -0.25, 0, 0.125, 1.75, 2)], m("sigmoid"), r_sig, o)
    a("tanh of a matrix", [v2([[-1, 0.5], [0.25, 1], [0, -0.5]])], m("tanh"), r_tanh, O(sigmoid_tanh_method="chebyshev"))
    a("tanh of steep inputs", [v(-1.125, 1.125, 1.0625)], m("tanh"), r_tanh, O(sigmoid_tanh_method="chebyshev", sigmoid_tanh_terms=6))
    for o in ({}, O(erf_iterations=1), O(erf_iterations=2), O(erf_iterations=5), O(erf_iterations=0)):
        a("erf", [v(-1.25, -0.5, 0, 0.25, 0.75, 1)], m("erf"), r_erf, o)
    for d, o in ((1, {}), (0, {}), (-1, {}), (1, O(exp_iterations=4)), (1, O(reciprocal_method="log")), (1, O(reciprocal_nr_iters=6)), (1, O(max_method="pairwise"))):
        x = v2([[1, 2, 3], [0, 0.25, -4], [-1, -1, -1]])
        tol = 0.02 if "functions.reciprocal_method" in o else 5e-3
        a("softmax(%d)" % d, [x], m("softmax", d), lambda c, x, d=d: r_softmax(c, x, d), o, tol=tol)
        a("log_softmax(%d)" % d, [x], m("log_softmax", d), lambda c, x, d=d: r_logsoftmax(c, x, d), o, tol=5e-3)
    for nm, val in (("softmax", 1.0), ("log_softmax", 0.0)):
        a("%s of one class" % nm, [v2([[1], [-2]])], m(nm, 1), lambda c, x, val=val: np.full(x.shape, val))
        a("%s dim keyword" % nm, [v2([[1, 2], [-2, 0]])], m(nm, dim=0), lambda c, x, nm=nm: (r_softmax if nm == "softmax" else r_logsoftmax)(c, x, 0), tol=5e-3)
    BASE = v(-2, -1.25, -0.5, 0.5, 1, 1.75)
    for p in (-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 2.0, 3.0, -1.0):
        a("pow(%s)" % p, [BASE], m("pow", p), lambda c, x, p=p: r_pow(c, x, int(p)), tol=4e-3)
    PB_ = v(0.25, 0.5, 1, 1.75, 3)
    for p in (2, 3.0, -1, 0.5, 1.5, -0.5, 2.25, 5, 0):
        a("pos_pow(%s)" % p, [PB_], m("pos_pow", p), lambda c, x, p=p: r_pos_pow(c, x, p), tol=6e-3)
    a("pos_pow(public tensor)", [PB_, In((5,), "pub", fixed=[Fr(1, 2), Fr(3, 2), 2, Fr(-1, 2), 1])], m("pos_pow"), lambda c, x, p: r_exp(c, r_log(c, x) * p), tol=6e-3)
    a("pos_pow(encrypted)", [PB_, v(0.5, 1.5, 2, -0.5, 1)], m("pos_pow"), lambda c, x, p: r_exp(c, r_log(c, x) * p), tol=6e-3)
    for co in ([2.0], [1.0, -2.0], [0.5, 0.0, 3.0], [1.0, 2.0, 3.0, 4.0], [0.0, 0.0, 0.0, 0.0, 1.0], [1.0, 1.0, 1.0, 1.0, 1.0, -1.0], [0.25] * 8, [0.125] * 9):
        a("polynomial(%s)" % co, [v(-1.25, -0.5, 0, 0.75, 1, 1.5)], lambda it, x, co=co: m("polynomial", it.new_list(list(co)))(it, x), lambda c, x, co=co: sum(k * x ** (i + 1) for i, k in enumerate(co)))
    a("polynomial of a matrix", [v2([[-1, 0.5], [0.25, 1]])], lambda it, x: m("polynomial", it.new_list([1.0, -2.0, 0.5]))(it, x), lambda c, x: x - 2 * x ** 2 + 0.5 * x ** 3)
    a("polynomial with encrypted coefficients", [v(-1, 0.5, 2), v(1, -2, 0.5)], m("polynomial"), lambda c, x, k: sum(k[i] * x ** (i + 1) for i in range(3)))
    N = [[3, -4, 1], [0.5, 2, -1.5]]
    for p, d, keep in ((2, None, False), ("fro", None, False), (2, 1, False), (2, 0, True), (1, None, False), (1, 1, True), (3, 1, False), (float("inf"), 1, False), (float("inf"), None, False), (1.5, None, False)):
        kw = {"p": p}
        if d is not None:
            kw.update(dim=d, keepdim=keep)

        def f(c, x, p=p, d=d, keep=keep):
            s = lambda z: z.sum() if d is None else z.sum(d, keepdims=keep)
            if p == 1:
                return s(np.abs(x))
            if p in (2, "fro"):
                z = s(x * x)
                return z * r_isqrt(c, z)
            if p == float("inf"):
                return np.abs(x).max() if d is None else np.abs(x).max(d, keepdims=keep)
            return r_pos_pow(c, s(r_pos_pow(c, np.abs(x), p)), 1 / p)
        a("norm(%s)" % kw, [v2(N)], m("norm", **kw), f, tol=0.01)
    return P


def true_math():
    """every method is the function it is named after, on the documented range"""
    P = []

    def a(label, ins, fn, f, over=None, tol=0.03, **kw):
        P.append(Approx(label, ins, fn, lambda c, *x: f(*x), over, tol=tol, **kw))
    sg = lambda x: 1 / (1 + np.exp(-x))
    for me in ("NR", "log"):
        o = O(reciprocal_method=me)
        a("reciprocal", [v(-60, -7.5, -1, -0.3, 0.3, 1, 2.5, 60)], m("reciprocal"), lambda x: 1 / x, o)
        a("reciprocal(input_in_01=True)", [v(0.02, 0.1, 0.5, 1)], m("reciprocal", input_in_01=True), lambda x: 1 / x, o)
        a("softmax(1)", [v2([[1, 2, 3], [0, 0.25, -4]])], m("softmax", 1), lambda x: np.exp(x) / np.exp(x).sum(1, keepdims=True), o)
        a("pow(-3)", [v(-2, -0.5, 0.75, 3)], m("pow", -3), lambda x: x ** -3, o, tol=0.08)
        a("division", [v(1, -2, 3), v(4, 0.5, -8)], m("div"), lambda x, y: x / y, o)
        a("sigmoid", [v(-4, -0.5, 0, 1, 3)], m("sigmoid"), sg, o)
    for me in ("reciprocal", "chebyshev"):
        o = O(sigmoid_tanh_method=me)
        a("sigmoid", [v(-2, -0.5, 0, 1, 2)], m("sigmoid"), sg, o)
        a("tanh", [v(-1, -0.5, 0, 0.25, 1)], m("tanh"), np.tanh, o)
    a("exp", [v(-4, -1, 0, 1, 2)], m("exp"), np.exp)
    a("log", [v(0.1, 0.5, 1, 5, 40, 200)], m("log"), np.log, tol=0.06)
    a("log(input_in_01=True)", [v(0.01, 0.1, 0.5, 1)], m("log", input_in_01=True), np.log, tol=0.06)
    a("sqrt", [v(0.1, 1, 4, 30, 150)], m("sqrt"), np.sqrt)
    a("inv_sqrt", [v(0.1, 1, 4, 30, 150)], m("inv_sqrt"), lambda x: 1 / np.sqrt(x))
    a("cos", [v(-3, -1, 0, 0.5, 2)], m("cos"), np.cos)
    a("sin", [v(-3, -1, 0, 0.5, 2)], m("sin"), np.sin)
    a("erf", [v(-1, -0.5, 0, 0.25, 1)], m("erf"), np.vectorize(math.erf))
    a("log_softmax(1)", [v2([[1, 2, 3], [0, 0.25, -4]])], m("log_softmax", 1), lambda x: x - np.log(np.exp(x).sum(1, keepdims=True)), tol=0.05)
    return P


def run(chk):
    chk.rule("R1", "every approximated function over the 64-bit ring agrees with its documented series evaluated on the plaintext, for every method, number of iterations and initial value set in the configuration")
    chk.rule("R2", "every selectable method agrees with the mathematical function on its documented range")
    prog_obligations(chk, "R1", series())
    prog_obligations(chk, "R2", true_math())
