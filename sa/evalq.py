"""Random interpretation of value graphs.

A value graph (sa.terms) is interpreted over the rationals: every input symbol is
mapped to pseudo-random rationals (or to the representatives of an ordering class chosen by
the rule), transcendental functions are uninterpreted atoms (a pseudo-random rational determined by
function and argument), fixed-point truncation is exact division.  Two graphs that denote the same
rational function (with uninterpreted atoms) always get the same value; two that do not are told apart
except with negligible probability (Schwartz-Zippel).
"""
import hashlib
import math
from fractions import Fraction as Fr

import numpy as np

from .terms import Term, T
from . import torchmodel as tm
from .bits import BV


class Undecided(Exception):
    pass


class SpecError(Exception):
    """the graph applies an operation to operands it is not defined for (shape clash etc.)"""


def h64(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), "big")


PRIMES = [1, 1, 1, 3, 7, 11, 13]


def rnd(*k):
    h = h64(*k)
    n = h % 1987 - 993
    if n == 0:
        n = 17
    return Fr(n, PRIMES[(h >> 20) % len(PRIMES)])


def conv_const(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return Fr(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return v
        f = Fr(v).limit_denominator(10 ** 5)
        if f == 0 and v != 0 or abs(float(f) - v) > 1e-13 * abs(v):
            f = Fr(repr(v))
        return f
    return v


class Num:
    """helpers on elements; elements are Fraction, bool, or user classes (Dual) with arithmetic"""


def arr(x):
    if isinstance(x, np.ndarray):
        return x
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def emap(f, *xs):
    xs = [arr(x) for x in xs]
    try:
        bs = np.broadcast_arrays(*xs)
    except ValueError as e:
        raise SpecError("shapes %s do not broadcast" % (tuple(x.shape for x in xs),))
    out = np.empty(bs[0].shape, dtype=object)
    if out.shape == ():
        out[()] = f(*[b[()] for b in bs])
        return out
    fl = [b.ravel() for b in bs]
    o = out.reshape(-1)
    for i in range(o.size):
        o[i] = f(*[b[i] for b in fl])
    return out


def num(x):
    if isinstance(x, (bool, np.bool_)):
        return Fr(int(x))
    if isinstance(x, int):
        return Fr(x)
    return x


def val(x):
    """ordinary value of an element for comparisons"""
    if hasattr(x, "primal"):
        return x.primal
    return num(x)


def atom(fn, *args):
    """uninterpreted function symbol"""
    if any(hasattr(a, "primal") for a in args):
        return next(a for a in args if hasattr(a, "primal")).atom(fn, *args)
    x = args[0]
    exact = None
    if fn == "exp" and x == 0:
        exact = Fr(1)
    elif fn == "log" and x == 1:
        exact = Fr(0)
    elif fn in ("sqrt",) and x >= 0:
        n, d = x.numerator, x.denominator
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            exact = Fr(math.isqrt(n), math.isqrt(d))
    elif fn in ("sin", "tanh", "erf", "tan") and x == 0:
        exact = Fr(0)
    elif fn == "cos" and x == 0:
        exact = Fr(1)
    if exact is not None:
        return exact
    if fn == "sqrt" and len(args) == 1:
        x2 = x
        h = Fr(h64("sqrt", x) % 100003 + 2, 17)
        return h
    h = h64(fn, *args)
    r = Fr(h % 100003 + 2, 100019)        # in (0,1)
    if fn in ("exp", "log2"):
        return r * 40
    if fn in ("tanh", "erf", "sin", "tan", "sinh"):
        return (r if x > 0 else -Fr(h64(fn, -x) % 100003 + 2, 100019))
    if fn == "cos":
        x = abs(x)
        return Fr(h64(fn, x) % 100003 + 2, 100019)
    if fn == "sigmoid":
        if x < 0:
            return 1 - Fr(h64(fn, -x) % 100003 + 2, 100019)
        return r
    return r * 3 + 1


REAL = {"sigmoid": lambda x: 1 / (1 + math.exp(-x)), "pow": lambda x, y: x ** y}


def func(c, fn, *args):
    """over the ring the numbers are concrete: the function itself, in double precision; else an uninterpreted atom"""
    if c.ring and not any(hasattr(a, "primal") for a in args):
        try:
            return Fr((REAL.get(fn) or getattr(math, fn))(*[float(a) for a in args]))
        except (ValueError, OverflowError):
            raise Undecided("%s of %s" % (fn, [str(a) for a in args]))
    return atom(fn, *args)


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return Fr(q) if (a < 0) == (b < 0) else -Fr(q)


class Ctx:
    """One interpretation point: symbol values, events of every rank, options."""

    def __init__(self, point=0, env=None, events=None, exact=True, extra=None):
        self.point = point
        self.env = env or {}
        self.events = events or {}
        self.exact = exact
        self.memo = {}
        self.extra = extra or {}       # op name -> fn(ctx, term)
        self.conds = {}
        self.rands = {}
        self.ring = False              # True: integers are 64-bit two's complement words

    # -------------------------------------------------------------- entry
    def eval(self, t):
        if isinstance(t, Term):
            r = self.memo.get(t.id)
            if r is None:
                # iterative on deep graphs
                stack = [t]
                while stack:
                    x = stack[-1]
                    if x.id in self.memo:
                        stack.pop()
                        continue
                    if x.op in LAZY:
                        self.memo[x.id] = self.step(x)
                        stack.pop()
                        continue
                    pend = []
                    for a in x.args:
                        self._collect(a, pend)
                    if pend:
                        stack.extend(pend)
                        continue
                    self.memo[x.id] = self.step(x)
                    stack.pop()
                r = self.memo[t.id]
            return r
        if isinstance(t, tuple):
            return tuple(self.eval(x) for x in t)
        return conv_const(t)

    def _collect(self, a, pend):
        if isinstance(a, Term):
            if a.id not in self.memo:
                pend.append(a)
        elif isinstance(a, tuple):
            for x in a:
                self._collect(x, pend)

    def tensor(self, t):
        v = self.eval(t)
        return arr(v)

    def scalar(self, t):
        v = self.eval(t)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise SpecError("scalar of array")
            v = v.reshape(-1)[0]
        return v

    def int_(self, t):
        v = self.scalar(t)
        if isinstance(v, Fr):
            if v.denominator != 1:
                raise SpecError("integer expected, got %s" % v)
            return int(v)
        if v is None:
            return None
        return int(v)

    def ints(self, t):
        if isinstance(t, Term):
            v = self.eval(t)
            if isinstance(v, np.ndarray):
                return tuple(int(x) for x in v.reshape(-1))
            if isinstance(v, (tuple, list)):
                return tuple(int(self.scalarv(x)) for x in v)
            return (int(v),)
        if isinstance(t, tuple):
            return tuple(self.int_(x) for x in t)
        return (t,)

    def scalarv(self, v):
        if isinstance(v, np.ndarray):
            return v.reshape(-1)[0]
        return v

    def truth(self, c):
        v = self.scalar(c)
        if isinstance(v, str) or v is None:
            return bool(v)
        return bool(val(v) != 0) if not isinstance(v, (bool, np.bool_)) else bool(v)

    # -------------------------------------------------------------- dispatch
    def step(self, t):
        op = t.op
        f = self.extra.get(op)
        if f is not None:
            r = f(self, t)
            if r is not None:
                return r
        f = OPS.get(op)
        if f is None:
            raise Undecided("operator %s" % op)
        try:
            r = f(self, t, t.args)
            if self.ring and op in WRAP:
                r = emap(wrap64, r) if isinstance(r, np.ndarray) else wrap64(r)
            return r
        except (IndexError, ValueError, TypeError, ZeroDivisionError) as e:
            if isinstance(e, ZeroDivisionError):
                raise Undecided("division by zero at sample point in %s" % op)
            raise SpecError("%s on %s: %s" % (op, [getattr(self.memo.get(a.id), "shape", None) if isinstance(a, Term) else a for a in t.args], e))


WRAP = {"xor", "band", "bor", "add", "sub", "mul", "neg", "lshift", "sum", "matmul", "cumsum", "conv1d", "conv2d", "conv_transpose1d",
        "conv_transpose2d", "scatter_add", "index_add", "trace", "prod", "avg_pool2d"}


def wrap64(x):
    x = num(x)
    if isinstance(x, Fr) and x.denominator == 1 and not -2 ** 63 <= x < 2 ** 63:
        v = int(x) & (2 ** 64 - 1)
        return Fr(v - 2 ** 64 if v >= 2 ** 63 else v)
    return x


LAZY = {"frombytes", "rand", "gen", "pending", "ite", "comm", "sym", "opaque", "and", "or"}
OPS = {}


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


@op("truth")
def _(c, t, a):
    v = c.eval(a[0])
    if isinstance(v, (tuple, list)):
        return len(v) > 0
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise SpecError("truth value of a tensor with %d elements" % v.size)
        v = v.reshape(-1)[0]
    return bool(val(v) != 0) if not isinstance(v, (str, type(None))) else bool(v)


@op("opaque")
def _(c, t, a):
    raise Undecided("opaque value: %s" % (a[0],))


@op("sym")
def _sym(c, t, a):
    name = a[0]
    if name in c.env:
        v = c.env[name]
        return v(c) if callable(v) else v
    b = tm.base_name(name)
    sh = tm.SHAPES.get(b)
    if b in c.env and b == name:
        return c.env[b]
    if sh is None:
        if t.ty in ("int", "float"):
            k = h64(name, c.point)
            return Fr(k % 5 + 2) if t.ty == "int" else rnd(name, c.point)
        if t.ty == "bool":
            return bool(h64(name, c.point) & 1)
        raise Undecided("symbol %s" % name)
    return sample(name, sh, c.point, tm.DTYPES.get(b, "float"))


def sample(name, sh, point, dtype="float"):
    out = np.empty(sh, dtype=object)
    f = out.reshape(-1)
    for i in range(f.size):
        r = rnd(name, i, point)
        if dtype == "long":
            r = Fr(h64(name, i, point) % (1 << 40) - (1 << 39))
        elif dtype == "bool":
            r = bool(h64(name, i, point) & 1)
        f[i] = r
    return out.reshape(sh)


@op("rand")
def _rand(c, t, a):
    gen, size, idx = a[0], a[1], a[2]
    sz = c.ints(size) if not isinstance(size, tuple) or size else ()
    if isinstance(gen, Term) and gen.args and gen.args[0] == "seeded":
        gen = ("seeded", str(num(c.scalar(gen.args[1]))))
    key = (repr(gen), repr(idx), repr(a[3:]), c.point)
    ov = c.rands.get((repr(a[0]), repr(idx))) if c.rands else None
    if ov is not None:
        return ov
    fn = a[3] if len(a) > 3 else "ring"
    out = np.empty(sz, dtype=object)
    f = out.reshape(-1)
    for i in range(f.size):
        h = h64("rand", key, i, tuple(sz))
        lo, hi = (a[4], a[5]) if len(a) > 5 else (None, None)
        if fn in ("torch.randint", "ring") and isinstance(lo, int) and isinstance(hi, int) and hi > lo:
            h = int.from_bytes(hashlib.blake2b(repr((key, i, f.size)).encode(), digest_size=16).digest(), "big")
            f[i] = Fr(lo + h % (hi - lo))
        elif fn in ("torch.rand",):
            f[i] = Fr(h % 100003 + 1, 100019)
        else:
            f[i] = Fr(h % 100003 - 50000, 101)
    return out.reshape(sz)


def ew_num(pyop):
    def f(c, t, a):
        return emap(lambda x, y: pyop(num(x), num(y)), c.eval(a[0]), c.eval(a[1]))
    return f


OPS["add"] = ew_num(lambda x, y: x + y)
OPS["sub"] = ew_num(lambda x, y: x - y)
OPS["mul"] = ew_num(lambda x, y: x * y)
OPS["div"] = ew_num(lambda x, y: x / y)


@op("divt")
def _(c, t, a):
    if c.exact:
        return emap(lambda x, y: num(x) / num(y), c.eval(a[0]), c.eval(a[1]))
    return emap(lambda x, y: trunc_div(num(x), num(y)), c.eval(a[0]), c.eval(a[1]))


@op("divf", "floordiv")
def _(c, t, a):
    return emap(lambda x, y: Fr(num(x) // num(y)), c.eval(a[0]), c.eval(a[1]))


@op("mod")
def _(c, t, a):
    return emap(lambda x, y: num(x) % num(y), c.eval(a[0]), c.eval(a[1]))


@op("pow")
def _pow(c, t, a):
    def f(x, y):
        x, y = num(x), num(y)
        yv = val(y)
        if yv.denominator == 1 and abs(yv) < 4096:
            n = int(yv)
            r = Fr(1)
            for _ in range(abs(n)):
                r = r * x
            return r if n >= 0 else 1 / r
        if yv.denominator == 2 and True:
            n = int(yv - Fr(1, 2))
            s = func(c, "sqrt", x)
            return s * (x ** n if n >= 0 else 1 / x ** -n)
        n = math.floor(yv)
        fr = yv - n
        return func(c, "pow", x, fr) * (x ** n if n >= 0 else 1 / (x ** -n))
    return emap(f, c.eval(a[0]), c.eval(a[1]))


@op("neg")
def _(c, t, a):
    return emap(lambda x: -num(x), c.eval(a[0]))


@op("long", "int", "round_int")
def _(c, t, a):
    if c.exact:
        return emap(num, c.eval(a[0]))
    return emap(lambda x: x if isinstance(x, BV) else Fr(math.trunc(num(x))), c.eval(a[0]))


@op("float", "double", "half")
def _(c, t, a):
    return emap(num, c.eval(a[0]))


@op("bool")
def _(c, t, a):
    return emap(lambda x: bool(val(x) != 0), c.eval(a[0]))


@op("abs")
def _(c, t, a):
    return emap(lambda x: -num(x) if val(x) < 0 else num(x), c.eval(a[0]))


@op("sign")
def _(c, t, a):
    return emap(lambda x: Fr((val(x) > 0) - (val(x) < 0)), c.eval(a[0]))


@op("relu")
def _(c, t, a):
    return emap(lambda x: num(x) if val(x) > 0 else Fr(0), c.eval(a[0]))


@op("floor")
def _(c, t, a):
    return emap(lambda x: Fr(math.floor(val(x))), c.eval(a[0]))


@op("ceil")
def _(c, t, a):
    return emap(lambda x: Fr(math.ceil(val(x))), c.eval(a[0]))


@op("round")
def _(c, t, a):
    if c.exact:
        return emap(num, c.eval(a[0]))
    return emap(lambda x: Fr(round(val(x))), c.eval(a[0]))


@op("trunc")
def _(c, t, a):
    return emap(lambda x: Fr(math.trunc(val(x))), c.eval(a[0]))


@op("frac")
def _(c, t, a):
    return emap(lambda x: num(x) - math.trunc(val(x)), c.eval(a[0]))


def _atom_op(name):
    @op(name)
    def f(c, t, a):
        return emap(lambda x: func(c, name, num(x)), c.eval(a[0]))
    return f


for _n in ("exp", "log", "sqrt", "cos", "sin", "tanh", "sigmoid", "erf", "log2", "tan"):
    _atom_op(_n)
for _n in ("log", "exp", "sqrt", "sin", "cos", "tanh"):
    OPS["math." + _n] = (lambda nm: lambda c, t, a: emap(lambda x: func(c, nm, num(x)), c.eval(a[0])))(_n)


@op("math.floor")
def _(c, t, a):
    return emap(lambda x: Fr(math.floor(val(x))), c.eval(a[0]))


@op("math.ceil")
def _(c, t, a):
    return emap(lambda x: Fr(math.ceil(val(x))), c.eval(a[0]))


@op("reciprocal")
def _(c, t, a):
    return emap(lambda x: 1 / num(x), c.eval(a[0]))


@op("lt")
def _(c, t, a):
    return emap(lambda x, y: (x if isinstance(x, BV) else y.lift(x)).ltw(y) if isinstance(x, BV) or isinstance(y, BV)
                else bool(val(x) < val(y)), c.eval(a[0]), c.eval(a[1]))


@op("ltz")
def _(c, t, a):
    return emap(lambda x: Fr(int(val(x) < 0)), c.eval(a[0]))


@op("eq")
def _(c, t, a):
    x, y = c.eval(a[0]), c.eval(a[1])
    if isinstance(x, (tuple, str)) or isinstance(y, (tuple, str)) or x is None or y is None:
        return _plain(x) == _plain(y)
    return emap(lambda p, q: (p if isinstance(p, BV) else q.lift(p)).eqw(q) if isinstance(p, BV) or isinstance(q, BV)
                else bool(val(p) == val(q)), x, y)


def _plain(x):
    if isinstance(x, np.ndarray):
        return tuple(x.reshape(-1))
    if isinstance(x, tuple):
        return tuple(_plain(y) for y in x)
    return x


@op("not")
def _(c, t, a):
    return emap(lambda x: x.notw() if isinstance(x, BV) else not bool(val(x) != 0), c.eval(a[0]))


@op("and")
def _(c, t, a):
    x = c.eval(a[0])
    if not isinstance(x, np.ndarray) or x.size == 1:
        if not c.truth(a[0]):
            return x if isinstance(x, np.ndarray) and x.ndim else False
    return emap(lambda p, q: bool(val(p) != 0) and bool(val(q) != 0), x, c.eval(a[1]))


@op("or")
def _(c, t, a):
    x = c.eval(a[0])
    if not isinstance(x, np.ndarray) or x.size == 1:
        if c.truth(a[0]):
            return x if isinstance(x, np.ndarray) and x.ndim else True
    return emap(lambda p, q: bool(val(p) != 0) or bool(val(q) != 0), x, c.eval(a[1]))


@op("xor")
def _(c, t, a):
    x, y = c.eval(a[0]), c.eval(a[1])

    def f(p, q):
        if isinstance(p, (bool, np.bool_)) and isinstance(q, (bool, np.bool_)):
            return bool(p) != bool(q)
        if isinstance(p, BV):
            return p.bitop("xor", q)
        if isinstance(q, BV):
            return q.bitop("xor", p)
        p, q = num(p), num(q)
        return Fr(int(p) ^ int(q))
    return emap(f, x, y)


def bw(name, f):
    def g(p, q):
        if isinstance(p, BV):
            return p.bitop(name, q)
        if isinstance(q, BV):
            return q.bitop(name, p)
        return Fr(f(int(num(p)), int(num(q))))
    return g


@op("band")
def _(c, t, a):
    return emap(bw("band", lambda p, q: p & q), c.eval(a[0]), c.eval(a[1]))


@op("bor")
def _(c, t, a):
    return emap(bw("bor", lambda p, q: p | q), c.eval(a[0]), c.eval(a[1]))


@op("lshift")
def _(c, t, a):
    return emap(lambda p, q: p.shl(num(q)) if isinstance(p, BV) else num(p) * 2 ** int(num(q)), c.eval(a[0]), c.eval(a[1]))


@op("rshift")
def _(c, t, a):
    return emap(lambda p, q: p.shr(num(q)) if isinstance(p, BV) else Fr(int(num(p)) >> int(num(q))), c.eval(a[0]), c.eval(a[1]))


@op("all")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    return all(bool(val(x) != 0) for x in v.reshape(-1))


@op("any")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    return any(bool(val(x) != 0) for x in v.reshape(-1))


@op("ite")
def _(c, t, a):
    return c.eval(a[1] if c.truth(a[0]) else a[2])


@op("where")
def _(c, t, a):
    return emap(lambda k, x, y: x if val(k) != 0 else y, c.eval(a[0]), c.eval(a[1]), c.eval(a[2]))


@op("clamp")
def _(c, t, a):
    lo = c.eval(a[1]) if len(a) > 1 else None
    hi = c.eval(a[2]) if len(a) > 2 else None

    def f(x):
        x = num(x)
        if lo is not None and val(x) < val(c.scalarv(lo)):
            x = num(c.scalarv(lo))
        if hi is not None and val(x) > val(c.scalarv(hi)):
            x = num(c.scalarv(hi))
        return x
    return emap(f, c.eval(a[0]))


@op("scalar")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    if v.size != 1:
        raise SpecError("item() of a tensor with %d elements" % v.size)
    return v.reshape(-1)[0]


@op("list")
def _(c, t, a):
    return tuple(c.eval(x) for x in a)


@op("obj")
def _(c, t, a):
    return c.eval(a[1])


@op("kw")
def _(c, t, a):
    return c.eval(a[1])


# ------------------------------------------------------------------ structure
@op("stack")
def _(c, t, a):
    xs = [arr(c.eval(x)) for x in a[1:]]
    return np.stack(xs, axis=c.int_(a[0]))


@op("cat")
def _(c, t, a):
    xs = [arr(c.eval(x)) for x in a[1:]]
    return np.concatenate(xs, axis=c.int_(a[0]))


@op("bcto", "expand", "broadcast_to")
def _(c, t, a):
    sz = a[1:] if t.op == "expand" else a[1]
    if t.op == "expand" and len(sz) == 1:
        sz = sz[0]
    sz = c.ints(sz)
    v = arr(c.eval(a[0]))
    if len(sz) < v.ndim:
        raise SpecError("expand to fewer dimensions")
    off = len(sz) - v.ndim
    sz = tuple(v.shape[i - off] if s == -1 else s for i, s in enumerate(sz))
    try:
        return np.broadcast_to(v, sz)
    except ValueError as e:
        raise SpecError(str(e))


@op("full")
def _(c, t, a):
    return np.broadcast_to(arr(c.eval(a[1])), c.ints(a[0]))


@op("uninit")
def _(c, t, a):
    return Fr(h64("uninit", c.point) % 9973)


def _sizes(c, a):
    if len(a) == 1:
        return c.ints(a[0])
    return c.ints(tuple(a))


@op("view", "reshape")
def _(c, t, a):
    return arr(c.eval(a[0])).reshape(_sizes(c, a[1:]))


@op("transpose")
def _(c, t, a):
    return np.swapaxes(arr(c.eval(a[0])), c.int_(a[1]), c.int_(a[2]))


@op("permute")
def _(c, t, a):
    return np.transpose(arr(c.eval(a[0])), _sizes(c, a[1:]))


@op("squeeze")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    if len(a) == 1:
        return np.squeeze(v)
    ds = _sizes(c, a[1:])
    ds = tuple(d for d in ds if v.shape[d] == 1)
    return np.squeeze(v, axis=ds) if ds else v


@op("unsqueeze")
def _(c, t, a):
    return np.expand_dims(arr(c.eval(a[0])), c.int_(a[1]))


@op("flatten")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    s = c.int_(a[1]) if len(a) > 1 else 0
    e = c.int_(a[2]) if len(a) > 2 else -1
    if v.ndim == 0:
        return v.reshape(1)
    s, e = s % v.ndim, e % v.ndim
    return v.reshape(v.shape[:s] + (-1,) + v.shape[e + 1:])


@op("narrow")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    d, s, l = c.int_(a[1]), c.int_(a[2]), c.int_(a[3])
    if s < 0:
        s += v.shape[d]
    if s + l > v.shape[d]:
        raise SpecError("narrow out of range")
    ix = [slice(None)] * v.ndim
    ix[d] = slice(s, s + l)
    return v[tuple(ix)]


@op("select")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    return arr(np.take(v, c.int_(a[2]), axis=c.int_(a[1])))


@op("unbind_i")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    return arr(np.take(v, c.int_(a[2]), axis=c.int_(a[1])))


@op("split_i")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    dim, i = c.int_(a[2]), c.int_(a[3])
    n = v.shape[dim]
    sz = c.eval(a[1])
    if isinstance(sz, tuple):
        sz = [int(x) for x in sz]
        st = sum(sz[:i])
        ln = sz[i]
    else:
        st = int(c.scalarv(sz)) * i
        ln = min(int(c.scalarv(sz)), n - st)
    ix = [slice(None)] * v.ndim
    ix[dim] = slice(st, st + ln)
    return v[tuple(ix)]


def _index(c, i):
    if isinstance(i, tuple):
        return tuple(_index(c, x) for x in i)
    if isinstance(i, Term):
        if i.op == "slice":
            return slice(*[None if x is None else c.int_(x) for x in i.args])
        if i.op == "ellipsis":
            return Ellipsis
        if i.op == "list":
            return [int(x) for x in c.ints(tuple(i.args))]
        v = c.eval(i)
        if isinstance(v, np.ndarray):
            if v.size and isinstance(v.reshape(-1)[0], (bool, np.bool_)):
                return v.astype(bool)
            return v.astype(int) if v.ndim else int(v[()])
        if isinstance(v, Fr):
            return int(v)
        return v
    return i


@op("slice", "ellipsis")
def _(c, t, a):
    return t


@op("getitem")
def _(c, t, a):
    v = c.eval(a[0])
    if isinstance(v, tuple):
        i = _index(c, a[1])
        return v[i]
    v = arr(v)
    i = _index(c, a[1])
    if isinstance(i, tuple):
        i = tuple(np.array(x) if isinstance(x, (list, tuple)) else x for x in i)
    return arr(v[i])


@op("setitem")
def _(c, t, a):
    v = arr(c.eval(a[0])).copy()
    i = _index(c, a[1])
    w = arr(c.eval(a[2]))
    if v[i].__class__ is not np.ndarray:
        v[i] = w.reshape(-1)[0] if w.size == 1 else None
    else:
        v[i] = np.broadcast_to(w, v[i].shape)
    return v


@op("viewset")
def _(c, t, a):
    base = arr(c.eval(a[0]))
    idx = np.arange(base.size).reshape(base.shape)
    name = "$idx"
    # apply the view to an index array of the same shape
    vt = T(a[1], T("$lit", a[0]), *a[2])
    sub = Ctx(c.point, c.env, c.events, c.exact, c.extra)
    sub.ring = c.ring
    sub.memo = dict(c.memo)
    lit = np.empty(base.shape, dtype=object)
    lit[...] = np.vectorize(lambda z: Fr(int(z)), otypes=[object])(idx) if base.size else lit
    sub.memo[T("$lit", a[0]).id] = lit
    pos = arr(sub.eval(vt))
    out = base.copy().reshape(-1)
    w = np.broadcast_to(arr(c.eval(a[3])), pos.shape)
    for p, x in zip(pos.reshape(-1), w.reshape(-1)):
        out[int(p)] = x
    return out.reshape(base.shape)


@op("sum")
def _(c, t, a):
    v = emap(num, c.eval(a[0]))
    if len(a) == 1:
        return arr(sum(v.reshape(-1), Fr(0)))
    d = c.eval(a[1])
    if d is None or d == ():
        ax = tuple(range(v.ndim))
    else:
        ax = tuple(int(x) for x in d) if isinstance(d, tuple) else int(c.scalarv(d))
    keep = bool(c.scalar(a[2])) if len(a) > 2 else False
    if v.ndim == 0:
        return v
    return arr(np.sum(v, axis=ax, keepdims=keep))


@op("prod")
def _(c, t, a):
    v = emap(num, c.eval(a[0]))
    if len(a) == 1 or a[1] is None:
        return arr(np.prod(v))
    return arr(np.prod(v, axis=c.int_(a[1]), keepdims=bool(c.scalar(a[2])) if len(a) > 2 else False))


@op("cumsum")
def _(c, t, a):
    return np.cumsum(emap(num, c.eval(a[0])), axis=c.int_(_kw(a, 1, "dim")))


@op("flip")
def _(c, t, a):
    return np.flip(arr(c.eval(a[0])), axis=_sizes(c, a[1:]))


def _kw(a, i, name, default=None):
    for x in a:
        if isinstance(x, Term) and x.op == "kw" and x.args[0] == name:
            return x.args[1]
    pos = [x for x in a if not (isinstance(x, Term) and x.op == "kw")]
    return pos[i] if len(pos) > i else default


@op("roll")
def _(c, t, a):
    sh = c.ints(_kw(a, 1, "shifts"))
    d = _kw(a, 2, "dims")
    v = arr(c.eval(a[0]))
    if d is None:
        return np.roll(v.reshape(-1), sh[0]).reshape(v.shape)
    return np.roll(v, sh, axis=c.ints(d))


@op("repeat")
def _(c, t, a):
    r = _sizes(c, a[1:])
    return np.tile(arr(c.eval(a[0])), r)


@op("trace")
def _(c, t, a):
    return arr(np.trace(emap(num, c.eval(a[0]))))


@op("diagonal")
def _(c, t, a):
    return np.diagonal(arr(c.eval(a[0])), *[c.int_(x) for x in a[1:]])


@op("unfold")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    d, s, st = c.int_(_kw(a, 1, "dimension")), c.int_(_kw(a, 2, "size")), c.int_(_kw(a, 3, "step"))
    d %= v.ndim
    n = (v.shape[d] - s) // st + 1
    parts = []
    for i in range(n):
        ix = [slice(None)] * v.ndim
        ix[d] = slice(i * st, i * st + s)
        parts.append(np.moveaxis(v[tuple(ix)], d, -1))
    return np.stack(parts, axis=d)


@op("movedim")
def _(c, t, a):
    return np.moveaxis(arr(c.eval(a[0])), c.ints(a[1]), c.ints(a[2]))


def _idx(c, t):
    v = arr(c.eval(t))
    return np.vectorize(lambda z: int(z), otypes=[int])(v) if v.size else v.astype(int)


@op("gather")
def _(c, t, a):
    v, d, ix = arr(c.eval(a[0])), c.int_(_kw(a, 1, "dim")), _idx(c, _kw(a, 2, "index"))
    return gather(v, d, ix)


def gather(v, d, ix):
    out = np.empty(ix.shape, dtype=object)
    for p in np.ndindex(*ix.shape):
        q = list(p)
        q[d] = ix[p]
        out[p] = v[tuple(q)]
    return out


@op("scatter", "scatter_add")
def _(c, t, a):
    v = arr(c.eval(a[0])).copy()
    d, ix = c.int_(_kw(a, 1, "dim")), _idx(c, _kw(a, 2, "index"))
    src = _kw(a, 3, "src")
    if src is None:
        src = _kw(a, 3, "value")
    s = arr(c.eval(src))
    for p in np.ndindex(*ix.shape):
        q = list(p)
        q[d] = ix[p]
        x = s[p] if s.ndim else s[()]
        v[tuple(q)] = num(v[tuple(q)]) + num(x) if t.op == "scatter_add" else x
    return v


@op("index_add")
def _(c, t, a):
    v = arr(c.eval(a[0])).copy()
    d, ix = c.int_(_kw(a, 1, "dim")), _idx(c, _kw(a, 2, "index")).reshape(-1)
    s = _kw(a, 3, "source")
    if s is None:
        s = _kw(a, 3, "tensor")
    s = arr(c.eval(s))
    vm, sm = np.moveaxis(v, d, 0), np.moveaxis(s, d, 0)
    for k, i in enumerate(ix):
        vm[i] = vm[i] + sm[k]
    return v


@op("index_fill")
def _(c, t, a):
    v = arr(c.eval(a[0])).copy()
    x = arr(c.eval(_kw(a, 3, "value"))).reshape(-1)[0]
    vm = np.moveaxis(v, c.int_(_kw(a, 1, "dim")), 0)
    for i in _idx(c, _kw(a, 2, "index")).reshape(-1):
        vm[i] = x
    return v


@op("index_select")
def _(c, t, a):
    return np.take(arr(c.eval(a[0])), _idx(c, _kw(a, 2, "index")).reshape(-1), axis=c.int_(_kw(a, 1, "dim")))


@op("take")
def _(c, t, a):
    v, ix = arr(c.eval(a[0])), _idx(c, _kw(a, 1, "index"))
    if len(a) > 2 and a[2] is not None:
        return np.take(v, ix, axis=c.int_(a[2]))
    return arr(np.take(v.reshape(-1), ix))


@op("pad")
def _(c, t, a):
    v = arr(c.eval(a[0]))
    p = c.ints(a[1])
    mode = a[2] if len(a) > 2 else "constant"
    if mode != "constant":
        raise Undecided("pad mode")
    w = c.scalar(a[3]) if len(a) > 3 else Fr(0)
    if w is None:
        w = Fr(0)
    return fpad(v, p, w)


def fpad(v, p, w=Fr(0)):
    for k in range(len(p) // 2):
        d = v.ndim - 1 - k
        lo, hi = p[2 * k], p[2 * k + 1]
        parts = []
        for n in (lo, hi):
            if n > 0:
                sh = list(v.shape)
                sh[d] = n
                z = np.empty(sh, dtype=object)
                z[...] = w
                parts.append(z)
            else:
                parts.append(None)
        if lo < 0 or hi < 0:
            ix = [slice(None)] * v.ndim
            ix[d] = slice(-lo if lo < 0 else 0, v.shape[d] + hi if hi < 0 else None)
            v = v[tuple(ix)]
        v = np.concatenate(([parts[0]] if parts[0] is not None else []) + [v] + ([parts[1]] if parts[1] is not None else []), axis=d)
    return v


@op("tril", "triu")
def _(c, t, a):
    v = emap(num, c.eval(a[0]))
    k = c.int_(a[1]) if len(a) > 1 else 0
    m = (np.tril if t.op == "tril" else np.triu)(np.ones(v.shape[-2:], dtype=int), k)
    return emap(lambda x, y: x if y else Fr(0), v, m.astype(object))


@op("matmul")
def _(c, t, a):
    x, y = emap(num, c.eval(a[0])), emap(num, c.eval(a[1]))
    if x.ndim == 0 or y.ndim == 0:
        raise SpecError("matmul of 0-d")
    return arr(np.matmul(x, y))


@op("arange")
def _(c, t, a):
    lo, hi, st = [c.int_(x) for x in a[:3]]
    out = np.empty(len(range(lo, hi, st)), dtype=object)
    for i, x in enumerate(range(lo, hi, st)):
        out[i] = Fr(x)
    return out


@op("eye")
def _(c, t, a):
    n = c.int_(a[0])
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = Fr(int(i == j))
    return out


def tup(v, n):
    v = tuple(int(x) for x in v) if isinstance(v, (tuple, list)) else (int(v),)
    return v * n if len(v) == 1 else v


def _convargs(c, a, n):
    g = lambda k, d: c.eval(_kw(a, 99, k, d))
    st, pd, dl = g("stride", 1), g("padding", 0), g("dilation", 1)
    conv = lambda z: tuple(int(c.scalarv(x)) for x in z) if isinstance(z, tuple) else (int(c.scalarv(z)),)
    ex = lambda z: conv(z) * n if len(conv(z)) == 1 else conv(z)
    return ex(st), ex(pd), ex(dl), int(c.scalarv(g("groups", 1))), ex(g("output_padding", 0)), _kw(a, 99, "bias", None)


def conv_nd(x, w, st, pd, dl, groups, n):
    """x (B,C,*), w (O,C/g,*)"""
    x = fpad(x, tuple(p for q in reversed(pd) for p in (q, q)))
    B, C = x.shape[:2]
    O, Cg = w.shape[:2]
    if C != Cg * groups or O % groups:
        raise SpecError("conv channel mismatch")
    k = w.shape[2:]
    out_sp = tuple((x.shape[2 + i] - dl[i] * (k[i] - 1) - 1) // st[i] + 1 for i in range(n))
    if any(o <= 0 for o in out_sp):
        raise SpecError("conv output empty")
    out = np.empty((B, O) + out_sp, dtype=object)
    for b in range(B):
        for o in range(O):
            g = o // (O // groups)
            for p in np.ndindex(*out_sp):
                s = Fr(0)
                for ci in range(Cg):
                    for q in np.ndindex(*k):
                        pos = tuple(p[i] * st[i] + q[i] * dl[i] for i in range(n))
                        s = s + num(x[(b, g * Cg + ci) + pos]) * num(w[(o, ci) + q])
                out[(b, o) + p] = s
    return out


def convt_nd(x, w, st, pd, dl, groups, opad, n):
    """x (B,C,*), w (C,O/g,*)"""
    B, C = x.shape[:2]
    Cw, Og = w.shape[:2]
    if C != Cw or C % groups:
        raise SpecError("conv_transpose channel mismatch")
    k = w.shape[2:]
    full = tuple((x.shape[2 + i] - 1) * st[i] + dl[i] * (k[i] - 1) + 1 + opad[i] for i in range(n))
    O = Og * groups
    out = np.empty((B, O) + full, dtype=object)
    out[...] = Fr(0)
    Cg = C // groups
    for b in range(B):
        for ci in range(C):
            g = ci // Cg
            for p in np.ndindex(*x.shape[2:]):
                xv = num(x[(b, ci) + p])
                for o in range(Og):
                    for q in np.ndindex(*k):
                        pos = tuple(p[i] * st[i] + q[i] * dl[i] for i in range(n))
                        out[(b, g * Og + o) + pos] = out[(b, g * Og + o) + pos] + xv * num(w[(ci, o) + q])
    ix = tuple(slice(pd[i], full[i] - pd[i]) for i in range(n))
    return out[(slice(None), slice(None)) + ix]


def _conv(n, tr):
    def f(c, t, a):
        x, w = arr(c.eval(a[0])), arr(c.eval(a[1]))
        st, pd, dl, g, op_, bias = _convargs(c, a[2:], n)
        unb = x.ndim == n + 1
        if unb:
            x = x[None]
        if x.ndim != n + 2 or w.ndim != n + 2:
            raise SpecError("conv rank mismatch %s %s" % (x.shape, w.shape))
        r = convt_nd(x, w, st, pd, dl, g, op_, n) if tr else conv_nd(x, w, st, pd, dl, g, n)
        if bias is not None:
            b = arr(c.eval(bias))
            r = r + b.reshape((1, -1) + (1,) * n)
        return r[0] if unb else r
    return f


OPS["conv1d"], OPS["conv2d"] = _conv(1, False), _conv(2, False)
OPS["conv_transpose1d"], OPS["conv_transpose2d"] = _conv(1, True), _conv(2, True)


def pool_windows(H, k, s, p, d, ceil):
    eff = d * (k - 1) + 1
    n = H + 2 * p - eff
    o = (-(-n // s) if ceil else n // s) + 1
    if ceil and (o - 1) * s >= H + p:
        o -= 1
    return [[i * s - p + j * d for j in range(k)] for i in range(o)]


@op("avg_pool2d")
def _avg(c, t, a):
    x = arr(c.eval(a[0]))
    conv = lambda z: tuple(int(c.scalarv(v)) for v in z) if isinstance(z, tuple) else (int(c.scalarv(z)),) * 2
    k = conv(c.eval(_kw(a, 1, "kernel_size")))
    s = c.eval(_kw(a, 99, "stride"))
    s = k if s is None or s == () else conv(s)
    p = conv(c.eval(_kw(a, 99, "padding", 0)))
    ceil = bool(c.scalar(_kw(a, 99, "ceil_mode", False)))
    dv = c.eval(_kw(a, 99, "divisor_override"))
    r = avg_pool(x, k, s, p, ceil, None if dv is None else num(c.scalarv(dv)))
    return r


def avg_pool(x, k, s, p, ceil=False, div=None, count_include_pad=True):
    unb = x.ndim == 3
    if unb:
        x = x[None]
    if x.ndim != 4:
        raise SpecError("avg_pool2d rank")
    H, W = x.shape[2:]
    wh, ww = pool_windows(H, k[0], s[0], p[0], 1, ceil), pool_windows(W, k[1], s[1], p[1], 1, ceil)
    out = np.empty(x.shape[:2] + (len(wh), len(ww)), dtype=object)
    for b in range(x.shape[0]):
        for ch in range(x.shape[1]):
            for i, hs in enumerate(wh):
                for j, ws in enumerate(ww):
                    acc = Fr(0)
                    cnt = 0
                    for h in hs:
                        for w in ws:
                            if 0 <= h < H and 0 <= w < W:
                                acc = acc + num(x[b, ch, h, w])
                            if -p[0] <= h < H + p[0] and -p[1] <= w < W + p[1]:
                                cnt += 1
                    out[b, ch, i, j] = acc / (div if div is not None else cnt)
    return out[0] if unb else out


@op("one_hot")
def _(c, t, a):
    ix = _idx(c, a[0])
    n = c.int_(_kw(a, 1, "num_classes", -1))
    if n == -1:
        n = int(ix.max()) + 1
    out = np.empty(ix.shape + (n,), dtype=object)
    out[...] = Fr(0)
    for p in np.ndindex(*ix.shape):
        out[p + (ix[p],)] = Fr(1)
    return out


@op("argmax", "argmin")
def _(c, t, a):
    v = emap(val, c.eval(a[0]))
    f = np.argmax if t.op == "argmax" else np.argmin
    d = _kw(a, 1, "dim")
    if d is None:
        return arr(Fr(int(f(v))))
    keep = _kw(a, 2, "keepdim", False)
    r = f(v, axis=c.int_(d))
    r = np.vectorize(lambda z: Fr(int(z)), otypes=[object])(r)
    return np.expand_dims(r, c.int_(d)) if keep is True else arr(r)


@op("max", "min")
def _(c, t, a):
    v = emap(num, c.eval(a[0]))
    f = (lambda q: max(q, key=val)) if t.op == "max" else (lambda q: min(q, key=val))
    d = _kw(a, 1, "dim")
    if d is None:
        return arr(f(list(v.reshape(-1))))
    raise Undecided("max with dim")


@op("dimsize")
def _(c, t, a):
    s = c.ints(a[0])
    return Fr(s[c.int_(a[1])])


@op("ndim")
def _(c, t, a):
    return Fr(len(c.ints(a[0])))


@op("nelement")
def _(c, t, a):
    r = 1
    for x in c.ints(a[0]):
        r *= x
    return Fr(r)


@op("shape")
def _(c, t, a):
    sh = tm.SHAPES.get(a[0])
    if sh is None:
        raise Undecided("shape of %s" % a[0])
    return sh


@op("shapeof", "shp_stack", "shp_cat", "shp_matmul", "bcast", "iteshape")
def _(c, t, a):
    raise Undecided("symbolic shape")


@op("enum", "ext", "native", "dtype", "class", "func", "device")
def _(c, t, a):
    return t


def same(x, y, tol=Fr(1, 10 ** 9)):
    """equality of two interpreted arrays, None if equal else a description"""
    x, y = arr(x), arr(y)
    if x.shape != y.shape:
        return "shape %s instead of %s" % (x.shape, y.shape)
    for p in np.ndindex(*x.shape):
        u, v = num(x[p]), num(y[p])
        if hasattr(u, "primal") or hasattr(v, "primal"):
            u, v = val(u), val(v)
        if isinstance(u, float) or isinstance(v, float) or isinstance(u, str) or u is None:
            if u != v:
                return "element %s differs" % (p,)
            continue
        if abs(u - v) > tol * max(1, abs(u), abs(v)):
            return "element %s is %s instead of %s" % (list(p), fmt(u), fmt(v))
    return None


def fmt(u):
    try:
        return "%.6g" % float(u)
    except OverflowError:
        return "huge"


@op("frombytes")
def _(c, t, a):
    u = a[0]
    if not isinstance(u, Term) or u.op != "urandom":
        raise Undecided("bytes")
    rank, k, n = u.args
    bits = int(n * 8)
    v = c.env.get("ur:%d:%d" % (rank, k))
    if v is None:
        v = int.from_bytes(hashlib.blake2b(repr(("ur", rank, k, c.point)).encode(), digest_size=64).digest(), "big")
    v %= 1 << bits
    if a[2] == "little":
        v = int.from_bytes(v.to_bytes((bits + 7) // 8, "big"), "little")
    if a[1] and v >= 1 << (bits - 1):
        v -= 1 << bits
    return Fr(v)
