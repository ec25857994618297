"""Abstract semantics of Python builtins and of the tensor library."""
from fractions import Fraction
import math
import zlib
import math
from .terms import *
from .terms import _k
from .values import *

DEVICE = sym("cpu-device", "device")
VIEW_OPS = {"view", "reshape", "transpose", "t", "squeeze", "unsqueeze", "permute", "flatten", "narrow",
            "expand", "getitem", "data", "detach", "broadcast_to", "contiguous_", "unfold", "select",
            "expand_as", "view_as", "unbind_i", "split_i", "movedim", "T", "diagonal"}
IDENT_VIEWS = {"data", "detach"}
# ops that are the identity on values (representation changes only)
EW_UNARY = {"neg", "invert", "long", "float", "double", "abs", "sign", "exp", "log", "sqrt", "reciprocal", "cos", "sin",
            "tanh", "sigmoid", "frac", "floor", "ceil", "round", "not", "bool", "int", "relu", "to_dtype",
            "ltz", "isnan", "log2", "trunc", "half", "square", "type"}
EW_BIN = {"add", "sub", "mul", "div", "divt", "divf", "mod", "pow", "xor", "band", "bor", "lshift", "rshift", "lt", "eq",
          "and", "or", "max2", "min2", "fmod"}


# ------------------------------------------------------------------ shapes
SHAPES = {}      # base symbol name -> shape tuple (shape-specialised analyses)
DTYPES = {}


def base_name(n):
    return n.split("@")[0] if isinstance(n, str) else n


def shape_of(t):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return (len(t),)
        return ()
    if t.shp is not None:
        return t.shp
    r = _shape_of(t)
    if isinstance(r, Term) or isinstance(r, tuple) and any(isinstance(x, Term) for x in r):
        r = shape_by_zeros(t) or r
    t.shp = r
    return r


def shape_by_zeros(t):
    """shape of the operator applied to tensors of zeros of the operands' shapes"""
    if t.op in ("sym", "opaque", "ite", "comm", "rand", "pending", "bcto", "list") or t.op.startswith("ext:"):
        return None
    args = []
    any_t = False

    def conc(s):
        return isinstance(s, tuple) and all(isinstance(x, int) for x in s)
    for a in t.args:
        if isinstance(a, Term) and has_data(a) and a.op not in ("slice", "ellipsis", "list", "kw"):
            if _is_const_index(a):
                args.append(a)
                any_t = True
                continue
            s = shape_of(a)
            if not conc(s):
                return None
            args.append(T("bcto", 0, s))
            any_t = True
        else:
            args.append(a)
    if not any_t:
        return None
    from . import evalq
    try:
        v = evalq.Ctx(0).eval(T(t.op, *args, ty=t.ty))
        return tuple(evalq.arr(v).shape)
    except Exception:
        return None


def _is_const_index(a):
    """a tensor with known integer entries (used as an index)"""
    return all(x.op != "sym" and x.op not in ("comm", "rand", "opaque") for x in walk(a)) and a.op in ("stack", "list", "arange", "const")


def bcast(s, t):
    if s is t or (isinstance(s, tuple) and isinstance(t, tuple) and _same(s, t)):
        return s
    if s == ():
        return t
    if t == ():
        return s
    if isinstance(s, tuple) and isinstance(t, tuple):
        n = max(len(s), len(t))
        a = (1,) * (n - len(s)) + s
        b = (1,) * (n - len(t)) + t
        out = []
        for x, y in zip(a, b):
            if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
                out.append(x)
            elif isinstance(x, int) and x == 1:
                out.append(y)
            elif isinstance(y, int) and y == 1:
                out.append(x)
            elif isinstance(x, int):
                out.append(x)
            elif isinstance(y, int):
                out.append(y)
            else:
                out.append(T("bdim", *sorted((x, y), key=lambda q: q.id), ty="int"))
        return tuple(out)
    # flatten nested bcast
    parts = []
    for q in (s, t):
        if isinstance(q, Term) and q.op == "bcast":
            parts.extend(q.args)
        else:
            parts.append(q)
    uniq = []
    for p in parts:
        if not any(p is u or (isinstance(p, tuple) and isinstance(u, tuple) and _same(p, u)) for u in uniq):
            uniq.append(p)
    if len(uniq) == 1:
        return uniq[0]
    uniq.sort(key=lambda q: q.id if isinstance(q, Term) else -1)
    return T("bcast", *uniq, ty="size")


def _same(s, t):
    return len(s) == len(t) and all(x is y or (isinstance(x, int) and isinstance(y, int) and x == y)
                                    for x, y in zip(s, t))


def norm_dim(d, n):
    return d + n if d < 0 else d


def nelem_tuple(s):
    r = 1
    for x in s:
        r = s_mul(r, x)
    return r


def _shape_of(t):
    op, a = t.op, t.args
    if op == "sym":
        if base_name(a[0]) in SHAPES:
            return SHAPES[base_name(a[0])]
        return T("shape", base_name(a[0]), ty="size")
    if op == "comm":
        return a[3]
    if op in EW_UNARY:
        return shape_of(a[0])
    if op in EW_BIN:
        return bcast(shape_of(a[0]), shape_of(a[1]))
    if op == "ite":
        x, y = shape_of(a[1]), shape_of(a[2])
        if x is y or (isinstance(x, tuple) and isinstance(y, tuple) and _same(x, y)):
            return x
        return T("iteshape", a[0], x if isinstance(x, Term) else T("list", *x), y if isinstance(y, Term) else T("list", *y), ty="size")
    if op == "where":
        return bcast(shape_of(a[0]), bcast(shape_of(a[1]), shape_of(a[2])))
    if op == "rand":
        s = a[1]
        return s if isinstance(s, (tuple, Term)) else ()
    if op == "bcto":
        return a[1]
    if op == "full":
        return a[0]
    if op == "stack":
        s = shape_of(a[1])
        if isinstance(s, tuple) and isinstance(a[0], int):
            d = norm_dim(a[0], len(s) + 1)
            return s[:d] + (len(a) - 1,) + s[d:]
        return T("shp_stack", a[0], len(a) - 1, s, ty="size")
    if op == "cat":
        ss = [shape_of(x) for x in a[1:]]
        if all(isinstance(s, tuple) for s in ss) and isinstance(a[0], int) and ss and ss[0]:
            d = norm_dim(a[0], len(ss[0]))
            tot = 0
            for s in ss:
                tot = s_add(tot, s[d]) if d < len(s) else tot
            return ss[0][:d] + (tot,) + ss[0][d + 1:]
        return T("shp_cat", a[0], *ss, ty="size")
    if op == "setitem" or op == "viewset":
        return shape_of(a[0])
    s = shape_of(a[0]) if a and isinstance(a[0], Term) else (() if a and isnum(a[0]) else None)
    if s is not None and isinstance(s, tuple):
        r = _shape_tuple(op, s, a[1:], t)
        if r is not None:
            return r
    if op in ("scatter", "scatter_add", "index_add", "cumsum", "flip", "roll", "clamp", "softmax",
              "index_fill", "masked_fill") and s is not None:
        return s
    if op == "matmul":
        return T("shp_matmul", shape_of(a[0]), shape_of(a[1]), ty="size")
    if op in ("view", "reshape"):
        sz = a[1:]
        if len(sz) == 1 and (isinstance(sz[0], tuple) or isinstance(sz[0], Term) and sz[0].ty == "size"):
            sz = sz[0]
        if isinstance(sz, Term) or not any(isinstance(x, int) and x == -1 for x in sz):
            return sz
    rest = tuple(x for x in a[1:] if not (isinstance(x, Term) and x.op in ("sym",) and x.ty is None and False))
    return T("shapeof", op, s if s is not None else (), *[shape_of(x) if (isinstance(x, Term) and has_data(x)) else x for x in rest], ty="size")


def has_data(x):
    return isinstance(x, Term) and x.ty not in ("int", "float", "size", "bool", "str", "device")


def _shape_tuple(op, s, a, t):
    n = len(s)
    if op == "getitem":
        idx = a[0]
        idx = idx if isinstance(idx, tuple) else (idx,)
        out = []
        d = 0
        for q in idx:
            if q is None:
                out.append(1)
            elif isinstance(q, int) and not isinstance(q, bool):
                d += 1
            elif isinstance(q, Term) and q.op == "slice":
                lo, hi, st = q.args
                if lo is None and hi is None and st is None:
                    out.append(s[d])
                else:
                    out.append(_slice_len(s[d], lo, hi, st))
                d += 1
            else:
                return None
        return tuple(out) + s[d:]
    if op == "transpose" and len(a) == 2 and all(isinstance(x, int) for x in a):
        d0, d1 = norm_dim(a[0], n), norm_dim(a[1], n)
        l = list(s)
        if d0 < n and d1 < n:
            l[d0], l[d1] = l[d1], l[d0]
        return tuple(l)
    if op == "t":
        return s[::-1]
    if op == "permute":
        p = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
        if all(isinstance(x, int) for x in p):
            return tuple(s[x] for x in p)
    if op == "unsqueeze" and isinstance(a[0], int):
        d = norm_dim(a[0], n + 1)
        return s[:d] + (1,) + s[d:]
    if op == "squeeze":
        if not a:
            if all(isinstance(x, int) or lower_bound(x) is not None and lower_bound(x) > 1 for x in s):
                return tuple(x for x in s if not (isinstance(x, int) and x == 1))
            return None
        if isinstance(a[0], int):
            d = norm_dim(a[0], n)
            if isinstance(s[d], int) and s[d] == 1:
                return s[:d] + s[d + 1:]
            if isinstance(s[d], int):
                return s
            return None
    if op in ("view", "reshape"):
        sz = a
        if len(sz) == 1 and isinstance(sz[0], tuple):
            sz = sz[0]
        if len(sz) == 1 and isinstance(sz[0], Term) and sz[0].op == "list":
            sz = sz[0].args
        if any(isinstance(x, Term) and x.ty == "size" for x in sz):
            return None
        if any(isinstance(x, int) and x == -1 for x in sz):
            if len(sz) == 1:
                return (nelem_tuple(s),)
            rest = 1
            for x in sz:
                if not (isinstance(x, int) and x == -1):
                    rest = s_mul(rest, x)
            tot = nelem_tuple(s)
            v = tot // rest if isinstance(tot, int) and isinstance(rest, int) else (
                tot if rest == 1 else T("floordiv", tot, rest, ty="int"))
            return tuple(v if (isinstance(x, int) and x == -1) else x for x in sz)
        return tuple(sz)
    if op == "flatten":
        st = a[0] if a else 0
        if isinstance(st, int) and len(a) <= 1:
            st = norm_dim(st, n)
            return s[:st] + (nelem_tuple(s[st:]),)
    if op in ("sum", "mean", "red"):
        dim = a[0] if a else None
        keep = a[1] if len(a) > 1 else False
        if dim is None:
            return ()
        dims = dim if isinstance(dim, tuple) else (dim,)
        if all(isinstance(x, int) for x in dims) and isinstance(keep, bool):
            dims = [norm_dim(x, n) for x in dims]
            if keep:
                return tuple(1 if i in dims else x for i, x in enumerate(s))
            return tuple(x for i, x in enumerate(s) if i not in dims)
    if op == "expand":
        sz = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
        if not any(isinstance(x, int) and x == -1 for x in sz):
            return tuple(sz)
    if op == "narrow":
        if isinstance(a[0], int):
            d = norm_dim(a[0], n)
            return s[:d] + (a[2],) + s[d + 1:]
    if op == "matmul":
        o = shape_of(a[0])
        if isinstance(o, tuple) and n >= 1 and len(o) >= 1:
            if n == 1 and len(o) == 1:
                return ()
            if n == 1:
                return o[:-2] + (o[-1],)
            if len(o) == 1:
                return s[:-1]
            bs = bcast(s[:-2], o[:-2])
            return (bs if isinstance(bs, tuple) else ()) + (s[-2], o[-1])
    if op in ("cumsum", "flip", "roll", "scatter", "scatter_add", "index_add"):
        return s
    if op == "split_i":
        size, dim, i = a
        if isinstance(dim, int):
            d = norm_dim(dim, n)
            if isinstance(size, tuple):
                return s[:d] + (size[i],) + s[d + 1:]
            if isinstance(size, int) and isinstance(s[d], int):
                return s[:d] + (min(size, s[d] - size * i),) + s[d + 1:]
    if op == "unbind_i":
        dim, i = a
        if isinstance(dim, int):
            d = norm_dim(dim, n)
            return s[:d] + s[d + 1:]
    return None


def _slice_len(dim, lo, hi, st):
    lo = 0 if lo is None else lo
    if st is not None and st != 1:
        return T("slicelen", dim, lo, hi, st, ty="int")
    if isinstance(dim, int) and isinstance(lo, int) and (hi is None or isinstance(hi, int)):
        return len(range(*slice(lo, hi, st).indices(dim)))
    if hi is None:
        if isinstance(lo, int) and lo < 0:
            return -lo
        return s_sub(dim, lo)
    if isinstance(hi, int) and hi < 0:
        hi = s_add(dim, hi)
    if isinstance(lo, int) and lo < 0:
        lo = s_add(dim, lo)
    return s_sub(hi, lo)


def leading_dim(it, ref):
    t = it.tterm(ref)
    s = shape_of(t)
    if isinstance(s, tuple) and s:
        return s[0]
    return None


# ------------------------------------------------------------------ term constructors
def ew1(op, a):
    if isinstance(a, bool) and op in ("long", "float", "int", "double"):
        return int(a)
    if isnum(a):
        if op == "neg":
            return -a
        if op in ("long", "int") and isinstance(a, int):
            return a
        if op == "float" and isinstance(a, (int, float)):
            return a
        if op == "invert" and isinstance(a, int):
            return ~a
        if op == "abs":
            return abs(a)
    if isinstance(a, Term) and a.op == "stack" and op in EW_UNARY:
        return T("stack", a.args[0], *[ew1(op, x) for x in a.args[1:]])
    if op == "neg" and isinstance(a, Term) and a.op == "neg":
        return a.args[0]
    if op == "square":
        return ew2("mul", a, a)
    if op in ("long", "int", "float", "double", "half"):
        if isinstance(a, Term) and a.op == op:
            return a
    return T(op, a, ty=a.ty if isinstance(a, Term) and a.ty in ("int", "float") and op == "neg" else None)


def ew2(op, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return T(op, a, b)
    if isnum(a) and isnum(b):
        try:
            if op in ("add", "sub", "mul", "lshift"):
                r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "lshift": lambda: a << b}[op]()
                if isinstance(r, int) and not -2 ** 63 <= r < 2 ** 63:
                    r = ((r + 2 ** 63) % 2 ** 64) - 2 ** 63       # 64-bit tensor arithmetic
                return r
            if op == "div":
                return a / b
            if op == "divt":
                return int(a / b) if not (isinstance(a, int) and isinstance(b, int)) else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
            if op == "xor":
                return a ^ b
            if op == "band":
                return a & b
            if op == "bor":
                return a | b
            if op == "lshift":
                return a << b
            if op == "rshift":
                return a >> b
            if op == "lt":
                return a < b
            if op == "eq":
                return a == b
            if op == "pow":
                return a ** b
            if op == "mod":
                return a % b
        except Exception:
            pass
    sa = isinstance(a, Term) and a.op == "stack"
    sb = isinstance(b, Term) and b.op == "stack"
    if sa and sb and a.args[0] == b.args[0] == 0 and len(a.args) == len(b.args):
        if all(_shape_eq(x, y) for x, y in zip(a.args[1:], b.args[1:])):
            return T("stack", 0, *[ew2(op, x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if sa and not sb and a.args[0] == 0 and _fits(b, a.args[1]):
        return T("stack", 0, *[ew2(op, x, b) for x in a.args[1:]])
    if sb and not sa and b.args[0] == 0 and _fits(a, b.args[1]):
        return T("stack", 0, *[ew2(op, a, x) for x in b.args[1:]])
    if op == "add":
        if isnum(a) and a == 0 and not isinstance(a, bool):
            return b
        if isnum(b) and b == 0 and not isinstance(b, bool):
            return a
    if op == "sub" and isnum(b) and b == 0:
        return a
    if op == "mul":
        if isnum(a) and a == 1:
            return b
        if isnum(b) and b == 1:
            return a
    if op == "eq" and a is b:
        return True
    return T(op, a, b, ty="bool" if op in ("lt", "eq") and not has_data(a) and not has_data(b) else None)


def _shape_eq(x, y):
    s, t = shape_of(x), shape_of(y)
    return s is t or (isinstance(s, tuple) and isinstance(t, tuple) and _same(s, t))


def _fits(b, elem):
    s, t = shape_of(b), shape_of(elem)
    if s == ():
        return True
    return s is t or (isinstance(s, tuple) and isinstance(t, tuple) and (_same(s, t) or len(s) <= len(t)))


EW_DIST = EW_UNARY | EW_BIN


def mk_getitem(t, idx):
    if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
    if isinstance(idx, int) and not isinstance(idx, bool) and isinstance(t, Term):
        if t.op == "stack" and t.args[0] == 0 and -len(t.args) + 1 <= idx < len(t.args) - 1:
            return t.args[1:][idx]
        if t.op == "setitem" and isinstance(t.args[1], int):
            if t.args[1] == idx:
                return t.args[2]
            if (t.args[1] >= 0) == (idx >= 0):
                return mk_getitem(t.args[0], idx)
        if t.op == "bcto":
            pass
    if isinstance(t, Term) and t.op == "stack" and t.args[0] == 0 and isinstance(idx, Term) and idx.op == "slice":
        lo, hi, st = idx.args
        if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            el = t.args[1:][slice(lo, hi, st)]
            if el:
                return T("stack", 0, *el)
    if isinstance(t, Term) and t.op == "viewset" and t.args[1] == "getitem" and t.args[2] == (idx,):
        return t.args[3]
    if isinstance(t, Term) and t.op == "setitem" and _k(t.args[1]) == _k(idx):
        return t.args[2]
    if isinstance(t, Term) and t.op == "bcto" and isinstance(idx, int):
        pass
    return T("getitem", t, idx)


def mk_setitem(t, idx, v):
    if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
    if isinstance(idx, int) and not isinstance(idx, bool) and isinstance(t, Term) and t.op == "stack" and t.args[0] == 0:
        l = list(t.args[1:])
        if -len(l) <= idx < len(l):
            l[idx] = v
            return T("stack", 0, *l)
    if isinstance(t, Term) and t.op == "setitem" and _k(t.args[1]) == _k(idx):
        t = t.args[0]
    return T("setitem", t, idx, v)


def view_term(bt, op, args):
    if op in IDENT_VIEWS:
        return bt
    if op == "getitem":
        return mk_getitem(bt, args[0])
    if isinstance(bt, Term) and bt.op == "viewset" and bt.args[1] == op and _k(bt.args[2]) == _k(args):
        return bt.args[3]
    return struct(op, bt, args)


def viewset(bt, op, args, v):
    if op in IDENT_VIEWS:
        return v
    if op == "getitem":
        return mk_setitem(bt, args[0], v)
    if op == "transpose" and len(args) == 2:
        return struct("transpose", v, args)
    if op == "t":
        return struct("t", v, ())
    if op in ("unsqueeze",):
        return struct("squeeze", v, args)
    return T("viewset", bt, op, args, v)


def struct(op, t, args):
    """structural (linear) operator with light canonicalisation"""
    args = tuple(args)
    if op in ("view", "reshape"):
        op = "view"
        if len(args) == 1 and isinstance(args[0], Term) and args[0].op == "list":
            args = args[0].args
        if len(args) == 1 and isinstance(args[0], tuple):
            args = args[0]
        sh = shape_of(t)
        if len(args) == 1 and args[0] is sh:
            return t
        if isinstance(sh, tuple) and _k(tuple(args)) == _k(sh):
            return t
        if isinstance(t, Term) and t.op == "view":
            return struct("view", t.args[0], args)
    if op == "T":
        op = "t"
    if op == "t":
        if isinstance(shape_of(t), tuple) and len(shape_of(t)) < 2:
            return t
        op, args = "transpose", (0, 1)
    if op == "transpose" and len(args) == 2:
        if all(isinstance(x, int) for x in args):
            n = shape_of(t)
            if isinstance(n, tuple):
                args = tuple(norm_dim(x, len(n)) for x in args)
            if args[0] == args[1]:
                return t
            args = tuple(sorted(args)) if (args[0] >= 0) == (args[1] >= 0) else args
        if isinstance(t, Term) and t.op == "transpose" and t.args[1:] == args:
            return t.args[0]
    if op == "permute" and len(args) == 1 and isinstance(args[0], tuple):
        args = args[0]
    if op == "expand" and len(args) == 1 and isinstance(args[0], tuple):
        args = args[0]
    if op == "flatten":
        if args == (0,) or args == ():
            args = ()
    if op == "unsqueeze" and isinstance(t, Term) and False:
        pass
    if op in ("squeeze", "unsqueeze") and isinstance(t, Term) and t.op == "stack" and t.args[0] == 0 \
            and args and isinstance(args[0], int) and args[0] > 0:
        return T("stack", 0, *[struct(op, x, (args[0] - 1,)) for x in t.args[1:]])
    if op == "squeeze" and not args:
        if shape_of(t) == ():
            return t
        if isinstance(t, Term) and t.op == "stack" and len(t.args) == 2 and shape_of(t.args[1]) == ():
            return t.args[1]
    if op == "squeeze" and args and isinstance(t, Term):
        if t.op == "stack" and args[0] == 0 and t.args[0] == 0 and len(t.args) == 2:
            return t.args[1]
        if t.op == "unsqueeze" and t.args[1:] == args:
            return t.args[0]
    return T(op, t, *args)


def mk_sum(t, dim=None, keepdim=False):
    if isinstance(t, Term) and t.op == "stack" and t.args[0] == 0 and dim in (0, (0,)) and keepdim is False:
        r = t.args[1]
        for x in t.args[2:]:
            r = ew2("add", r, x)
        return r
    if dim is None:
        if shape_of(t) == ():
            return t
        return T("sum", t)
    return T("sum", t, dim, keepdim)


# ------------------------------------------------------------------ method names
DUNDER = {"__add__": "add", "__radd__": "add", "__sub__": "sub", "__mul__": "mul", "__rmul__": "mul",
          "__truediv__": "div", "__div__": "div", "__floordiv__": "floor_divide", "__mod__": "remainder",
          "__pow__": "pow", "__matmul__": "matmul", "__xor__": "bitwise_xor", "__rxor__": "bitwise_xor",
          "__and__": "bitwise_and", "__rand__": "bitwise_and", "__or__": "bitwise_or", "__ror__": "bitwise_or",
          "__lshift__": "bitwise_left_shift", "__rshift__": "bitwise_right_shift", "__neg__": "neg",
          "__invert__": "bitwise_not", "__lt__": "lt", "__le__": "le", "__gt__": "gt", "__ge__": "ge",
          "__eq__": "eq", "__ne__": "ne", "__abs__": "abs", "__pos__": "clone"}
REFL = {"__rsub__": "sub", "__rtruediv__": "div", "__rpow__": "pow", "__rfloordiv__": "floor_divide",
        "__rmod__": "remainder", "__rmatmul__": "matmul", "__rlshift__": "bitwise_left_shift",
        "__rrshift__": "bitwise_right_shift"}
IDUNDER = {"__iadd__": "add", "__isub__": "sub", "__imul__": "mul", "__itruediv__": "div",
           "__ifloordiv__": "floor_divide", "__imod__": "remainder", "__ipow__": "pow", "__ixor__": "bitwise_xor",
           "__iand__": "bitwise_and", "__ior__": "bitwise_or", "__ilshift__": "bitwise_left_shift",
           "__irshift__": "bitwise_right_shift", "__imatmul__": "matmul"}
ALIASES = {"subtract": "sub", "multiply": "mul", "true_divide": "div", "divide": "div", "negative": "neg",
           "logical_xor": "bitwise_xor", "less": "lt", "greater": "gt", "less_equal": "le", "greater_equal": "ge",
           "not_equal": "ne", "absolute": "abs", "mm": "matmul", "bmm": "matmul", "concat": "cat",
           "concatenate": "cat", "logical_not": "bitwise_not_bool", "swapaxes": "transpose", "eq": "eq", "int": "long",
           "resize": "view", "clip": "clamp", "bitwise_or": "bitwise_or", "mv": "matmul", "numel": "nelement",
           "arccos": "acos"}
TENSOR_ATTRS = {"device", "dtype", "shape", "data", "grad", "requires_grad", "is_cuda", "T", "grad_fn", "is_leaf",
                "ndim", "is_sparse", "layout"}
NOT_ATTRS = {"cat", "stack", "pad", "conv1d", "conv2d", "conv_transpose1d", "conv_transpose2d", "avg_pool2d", "src", "ptype", "_tensor", "encoder", "share", "get_plain_text", "reveal", "encrypted"}
INT_DT = {"torch.uint8": 0, "torch.int8": 0, "torch.int16": 0, "torch.int32": 0, "torch.int64": 0, "torch.long": 0,
          "torch.int": 0, "torch.short": 0}
FLT_DT = {"torch.float", "torch.float32", "torch.float64", "torch.double", "torch.float16", "torch.half"}


def dt_of_ext(v):
    if isinstance(v, ExtV):
        if v.name in INT_DT:
            return "long"
        if v.name in FLT_DT:
            return "float"
        if v.name == "torch.bool":
            return "bool"
        if v.name == "builtins.float":
            return "float"
        if v.name == "builtins.int":
            return "long"
    return None


def install(it):
    it.__class__.tensor_method = tensor_method
    it.__class__.tensor_attr = tensor_attr
    it.__class__.tensor_setattr = tensor_setattr
    it.__class__.container_attr = container_attr
    it.__class__.const_attr = const_attr
    it.__class__.term_attr = term_attr
    it.__class__.ext_attr = ext_attr
    it.__class__.ext_call = ext_call
    it.__class__.ext_class_attr = ext_class_attr
    it.__class__.isinstance_ = isinstance_
    it.__class__.write_cell = write_cell
    it.__class__.op = tensor_op
    it.builtins = BUILTINS


# ------------------------------------------------------------------ tensors
def write_cell(it, ref, term, dtype=None):
    h = it.st.get(ref)
    dt = dtype or h.dtype
    if h.base is not None:
        bref, op, args = h.base
        bt = it.cell_term(it.st.get(bref))
        write_cell(it, bref, viewset(bt, op, args, term))
        return
    it.st.put(ref, HTensor(term, dt, None, h.meta))


def tensor_attr(it, o, name):
    h = it.st.get(o)
    t = it.cell_term(h)
    if h.dtype == "crypt":
        return crypt_attr(it, o, h, t, name)
    if name == "device":
        return DEVICE
    if name == "dtype":
        return {"long": ExtV("torch.int64"), "float": ExtV("torch.float32"), "bool": ExtV("torch.bool")}.get(
            h.dtype, T("dtype", t))
    if name == "is_cuda":
        return False
    if name == "shape":
        return shape_of(t)
    if name == "ndim":
        s = shape_of(t)
        return len(s) if isinstance(s, tuple) else T("ndim", s, ty="int")
    if name in ("data",):
        return it.new_tensor(None, h.dtype, (o, "data", ()))
    if name in ("T",):
        return it.new_tensor(None, h.dtype, (o, "t", ()))
    if name == "requires_grad":
        m = h.meta or {}
        return m.get("requires_grad", T("requires_grad", t, ty="bool") if it.params.get("sym_requires_grad") else False)
    if name == "grad":
        m = h.meta or {}
        return m.get("grad")
    if name == "__class__":
        return ExtV("torch.Tensor")
    if h.meta and name in h.meta:
        return h.meta[name]
    if name in NOT_ATTRS:
        return UNDEF
    return BoundV(o, BuiltinV("tensor." + name, lambda it2, a, k: it2.tensor_method(a[0], name, a[1:], k)))


def tensor_setattr(it, o, name, v):
    h = it.st.get(o)
    if name == "data":
        it.write_cell(o, it.as_term(v))
        return
    m = dict(h.meta or {})
    m[name] = v
    it.st.put(o, HTensor(h.term, h.dtype, h.base, m))


CT_PRIM = {"add", "sub", "mul", "div", "neg", "matmul", "conv1d", "conv2d", "conv_transpose1d", "conv_transpose2d",
           "_ltz", "avg_pool2d", "square", "sum", "view", "reshape", "transpose", "t", "squeeze", "unsqueeze",
           "permute", "flatten", "narrow", "expand", "__getitem__", "__setitem__", "cumsum", "flip", "roll", "gather",
           "index_select", "split", "unbind", "unfold", "repeat", "trace", "size", "dim", "nelement", "numel",
           "__len__", "pad", "scatter", "scatter_add", "index_add", "take", "clone", "shallow_copy", "copy_", "mean",
           "detach", "_sum_pool2d"}


def crypt_attr(it, o, h, t, name):
    """attributes of an abstract encrypted tensor (high-level analyses)"""
    m = h.meta or {}
    if name in m:
        return m[name]
    if name == "device":
        return DEVICE
    if name == "is_cuda":
        return False
    if name == "shape":
        return shape_of(t)
    if name == "requires_grad":
        return False
    if name in ("data", "_tensor", "share"):
        return it.new_tensor(None, h.dtype, (o, "data", ()))
    if name == "__class__":
        return it.params.get("ct_class")
    if name in ("__dict__",):
        return UNDEF
    name = {"__abs__": "abs", "__pow__": "pow"}.get(name, name)
    inline = it.params.get("ct_inline", ())
    base = name[:-1] if name.endswith("_") and not name.endswith("__") else name
    if (name in DUNDER and DUNDER[name] in CT_PRIM or name in IDUNDER or name in CT_PRIM or
            (base != name and base in CT_PRIM) or name in it.params.get("ct_prim", ())) and base not in inline:
        return BoundV(o, BuiltinV("ct." + name, lambda it2, a, k: it2.tensor_method(a[0], name, a[1:], k)))
    cls = it.params.get("ct_class")
    if cls is not None:
        v = it.class_lookup(cls, name)
        if v is None and base != name:
            v = it.class_lookup(cls, base)
            if v is not None:
                f = it.bind_attr(o, cls, v)

                def oop(it2, a, k, f=f):
                    r = it2.call(f, a, k)
                    it2.write_cell(o, it2.as_term(r))
                    return o
                return BuiltinV("oop." + name, oop)
        if v is None and name in DUNDER:
            return BoundV(o, BuiltinV("ct." + name, lambda it2, a, k: it2.tensor_method(a[0], name, a[1:], k)))
        if v is not None:
            return it.bind_attr(o, cls, v)
        if name in ("requires_grad", "grad", "grad_fn", "children", "ctx"):
            return None
        return UNDEF
    return BoundV(o, BuiltinV("ct." + name, lambda it2, a, k: it2.tensor_method(a[0], name, a[1:], k)))


def promote(dts):
    if "crypt" in dts:
        return "crypt"
    if "float" in dts:
        return "float"
    if "any" in dts:
        return "any"
    if "long" in dts:
        return "long"
    if "bool" in dts:
        return "bool"
    return "any"


def dtype_of(it, v):
    if isinstance(v, Ref):
        h = it.st.get(v)
        if isinstance(h, HTensor):
            return h.dtype
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return None
    if isinstance(v, float):
        return "float"
    if isinstance(v, Term):
        return {"int": None, "float": "float", "bool": "bool"}.get(v.ty, None)
    return None


def tensor_method(it, ref, name, args, kwargs):
    args = [it.resolve(a) for a in args]
    for i, a in enumerate(args):
        if isinstance(a, Phi) and name not in ("__setitem__",):
            return it.fork(a.cond, lambda: tensor_method(it, ref, name, args[:i] + [a.a] + args[i + 1:], kwargs),
                           lambda: tensor_method(it, ref, name, args[:i] + [a.b] + args[i + 1:], kwargs))
    h = it.st.get(ref)
    # other operand implements the reflected operation
    inplace = False
    if name in IDUNDER:
        opn, inplace = IDUNDER[name], True
    elif name in DUNDER:
        opn = DUNDER[name]
    elif name in REFL:
        other = args[0]
        return tensor_op(it, REFL[name], [other, ref] + list(args[1:]), kwargs)
    elif name == "__getitem__":
        i = args[0]
        return it.new_tensor(None, h.dtype, (ref, "getitem", (index_term(it, i),)))
    elif name == "__setitem__":
        v = args[1]
        vt = it.as_term(v)
        it.write_cell(ref, mk_setitem(it.cell_term(h), index_term(it, args[0]), vt))
        return None
    elif name == "__len__":
        return tensor_op(it, "size", [ref, 0], {})
    elif name.endswith("_") and not name.endswith("__"):
        opn, inplace = name[:-1], True
    else:
        opn = name
    if inplace:
        if opn in ("copy", "set", "fill", "zero", "requires_grad", "resize", "unsqueeze", "squeeze", "uniform", "normal",
                   "t", "transpose", "detach", "random", "bernoulli"):
            return inplace_special(it, ref, opn, args, kwargs)
        r = tensor_op(it, opn, [ref] + list(args), kwargs)
        dt = h.dtype
        it.write_cell(ref, it.as_term(r))
        return ref
    return tensor_op(it, opn, [ref] + list(args), kwargs)


def inplace_special(it, ref, opn, args, kwargs):
    h = it.st.get(ref)
    t = it.cell_term(h)
    if opn == "copy":
        v = it.as_term(args[0])
        if isinstance(args[0], Ref) and isinstance(it.st.get(args[0]), HInst):
            v = it.as_term(args[0])
        it.write_cell(ref, v)
        return ref
    if opn == "set":
        src = args[0]
        # rebinds the storage: becomes an alias of the source
        dt = it.st.get(src).dtype if isinstance(src, Ref) and isinstance(it.st.get(src), HTensor) else h.dtype
        if h.base is not None:
            it.write_cell(ref, it.as_term(src))
        else:
            it.st.put(ref, HTensor(it.as_term(src), dt, None, h.meta))
        return ref
    if opn == "fill":
        it.write_cell(ref, T("bcto", it.as_term(args[0]), shape_of(t)))
        return ref
    if opn == "zero":
        it.write_cell(ref, T("bcto", 0, shape_of(t)))
        return ref
    if opn == "requires_grad":
        tensor_setattr(it, ref, "requires_grad", args[0] if args else kwargs.get("requires_grad", True))
        return ref
    if opn == "detach":
        return ref
    if opn in ("unsqueeze", "squeeze", "t", "transpose"):
        it.st.put(ref, HTensor(struct(opn, t, tuple(it.as_term(a) for a in args)), h.dtype, None, h.meta))
        return ref
    n = it.fresh("rng")
    nt = T("rand", "torch." + opn + "_", shape_of(t), n, *[it.as_term(a) for a in args])
    it.events.append({"kind": "rng", "fn": "torch." + opn + "_", "gen": kwargs.get("generator"), "size": shape_of(t),
                      "where": it.where() if it.frames else "?"})
    it.write_cell(ref, nt)
    return ref


def index_term(it, i):
    if isinstance(i, tuple):
        return tuple(index_term(it, x) for x in i)
    if isinstance(i, Ref) and isinstance(it.st.get(i), HList):
        h = it.st.get(i)
        if h.items is not None:
            return tuple(index_term(it, x) for x in h.items)
    if i is Ellipsis:
        return T("ellipsis")
    return it.as_term(i)


def size_args(it, args):
    """normalise size arguments (*sizes or one sequence) to a tuple or a size term"""
    if len(args) == 1:
        a = it.resolve(args[0])
        if isinstance(a, tuple):
            return tuple(it.as_term(x) for x in a)
        if isinstance(a, Ref) and isinstance(it.st.get(a), HList):
            h = it.st.get(a)
            if h.items is not None:
                return tuple(it.as_term(x) for x in h.items)
            return h.sym
        if isinstance(a, Term) and a.ty not in ("int",):
            return a
    return tuple(it.as_term(a) for a in args)


def tensor_op(it, name, args, kwargs):
    """Pure tensor operation; args[0] is the receiver.  Returns an abstract value."""
    args = [it.resolve(a) for a in args]
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            return it.fork(a.cond, lambda: tensor_op(it, name, args[:i] + [a.a] + args[i + 1:], kwargs),
                           lambda: tensor_op(it, name, args[:i] + [a.b] + args[i + 1:], kwargs))
    kwargs = dict(kwargs)
    name = ALIASES.get(name, name)
    # objects of the analysed program as operands: defer to their methods
    for i, a in enumerate(args):
        if i > 0 and isinstance(a, Ref) and isinstance(it.st.get(a), HInst) and name in (
                "add", "mul", "sub", "div", "matmul", "bitwise_and", "bitwise_xor", "bitwise_or"):
            r = {"add": "__radd__", "mul": "__rmul__", "sub": "__rsub__", "div": "__rtruediv__",
                 "matmul": "__rmatmul__", "bitwise_and": "__rand__", "bitwise_xor": "__rxor__",
                 "bitwise_or": "__ror__"}[name]
            if it.inst_method(a, r) is not None:
                return it.call(it.getattr(a, r, dunder=True), [args[0]], {})
    dts = [d for d in (dtype_of(it, a) for a in args) if d]
    dt = promote(dts) if dts else "long"
    s = args[0]
    ts = [it.as_term(a) for a in args]
    NEW = lambda t, d=None: it.new_tensor(t, d or dt)
    out = kwargs.pop("out", None)
    g = lambda i, k, default=None: args[i] if len(args) > i else kwargs.get(k, default)
    gt = lambda i, k, default=None: it.as_term(g(i, k, default))
    if name == "add" or name == "sub":
        al = kwargs.get("alpha")
        y = ts[1] if al is None else ew2("mul", it.as_term(al), ts[1])
        return NEW(ew2(name, ts[0], y))
    if name == "rsub":
        return NEW(ew2("sub", ts[1], ts[0]))
    if name == "mul":
        return NEW(ew2("mul", ts[0], gt(1, "other")))
    if name == "div":
        rm = kwargs.get("rounding_mode")
        y = gt(1, "other")
        if rm == "trunc":
            return NEW(ew2("divt", ts[0], y))
        if rm == "floor":
            return NEW(ew2("divf", ts[0], y))
        return NEW(ew2("div", ts[0], y), "crypt" if dt == "crypt" else "float")
    if name == "floor_divide":
        return NEW(ew2("divf", ts[0], ts[1]))
    if name in ("remainder",):
        return NEW(ew2("mod", ts[0], ts[1]))
    if name == "neg":
        return NEW(ew1("neg", ts[0]))
    if name == "square":
        return NEW(ew2("mul", ts[0], ts[0]))
    if name == "pow":
        e = gt(1, "exponent")
        if isinstance(e, int) and 1 <= e <= 3:
            r = ts[0]
            for _ in range(e - 1):
                r = ew2("mul", r, ts[0])
            return NEW(r)
        if isinstance(e, float) and e == 2.0:
            return NEW(ew2("mul", ts[0], ts[0]))
        return NEW(ew2("pow", ts[0], e))
    if name == "reciprocal":
        return NEW(ew2("div", 1, ts[0]), "crypt" if dt == "crypt" else "float")
    if name in ("bitwise_xor", "bitwise_and", "bitwise_or", "logical_and", "logical_or"):
        y = gt(1, "other")
        boolean = dt == "bool" or name.startswith("logical")
        o = {"bitwise_xor": "xor", "bitwise_and": "band", "bitwise_or": "bor", "logical_and": "band",
             "logical_or": "bor"}[name]
        if boolean and o != "xor":
            o = {"band": "and", "bor": "or"}[o]
            if o == "and":
                return NEW(t_and(ts[0], y), "bool")
            return NEW(t_or(ts[0], y), "bool")
        return NEW(ew2(o, ts[0], y))
    if name in ("bitwise_left_shift", "bitwise_right_shift"):
        return NEW(ew2("lshift" if "left" in name else "rshift", ts[0], gt(1, "other")))
    if name in ("bitwise_not", "bitwise_not_bool"):
        if dt == "bool":
            return NEW(t_not(ts[0]), "bool")
        return NEW(ew2("xor", ts[0], -1))
    if name in ("lt", "gt", "le", "ge", "eq", "ne"):
        y = gt(1, "other")
        x = ts[0]
        bd = "crypt" if dt == "crypt" else "bool"
        if name == "lt":
            return NEW(ew2("lt", x, y), bd)
        if name == "gt":
            return NEW(ew2("lt", y, x), bd)
        if name == "le":
            return NEW(t_not(ew2("lt", y, x)), bd)
        if name == "ge":
            return NEW(t_not(ew2("lt", x, y)), bd)
        if name == "eq":
            return NEW(ew2("eq", *sorted_pair(x, y)), bd)
        return NEW(t_not(ew2("eq", *sorted_pair(x, y))), bd)
    if name in ("long", "float", "double", "bool", "half", "short", "byte", "char"):
        if dt == "crypt":
            return NEW(ts[0])
        d2 = {"long": "long", "float": "float", "double": "float", "bool": "bool", "half": "float"}.get(name, "long")
        if d2 == dt:
            return NEW(ts[0], d2) if name != "double" else NEW(ts[0], d2)
        if name in ("short", "byte", "char"):
            return NEW(T(name, ts[0]), d2)
        return NEW(ew1({"long": "long", "float": "float", "double": "float", "half": "half", "bool": "bool"}[name], ts[0]), d2)
    if name in ("to", "type", "astype"):
        d2 = None
        for a in list(args[1:]) + list(kwargs.values()):
            d2 = dt_of_ext(a) or d2
        if d2 and d2 != dt:
            return NEW(ew1(d2, ts[0]), d2)
        return it.resolve(s) if isinstance(s, Ref) else NEW(ts[0])
    if name in ("cuda", "cpu", "contiguous", "detach", "requires_grad_", "pin_memory"):
        if name == "detach" and dt != "crypt":
            return it.new_tensor(None, dt, (s, "detach", ()))
        return NEW(ts[0]) if name == "detach" else s
    if name in ("clone", "shallow_copy") and isinstance(s, Ref):
        if name == "shallow_copy":
            return it.new_tensor(None, dt, (s, "data", ()))
        h = it.st.get(s)
        return it.new_tensor(ts[0], dt, None, None)
    if name == "copy":
        return NEW(ts[1])
    if name in ("abs", "sign", "exp", "log", "sqrt", "cos", "sin", "tanh", "sigmoid", "frac", "floor", "ceil", "round",
                "relu", "_ltz", "trunc", "log2", "isnan"):
        if name == "_ltz":
            return NEW(T("ltz", ts[0]))
        if dt == "crypt" and name == "relu":
            pass
        return NEW(ew1(name, ts[0]))
    if name == "clamp":
        return NEW(T("clamp", ts[0], gt(1, "min"), gt(2, "max")))
    if name == "matmul":
        return NEW(T("matmul", ts[0], gt(1, "other")))
    if name in ("conv1d", "conv2d", "conv_transpose1d", "conv_transpose2d"):
        w = gt(1, "weight")
        if "kernel" in kwargs and w is None:
            w = it.as_term(kwargs.pop("kernel"))
        kw = dict(kwargs)
        kw.pop("weight", None)
        names = ["bias", "stride", "padding", "dilation", "groups"] if not name.startswith("conv_t") else [
            "bias", "stride", "padding", "output_padding", "groups", "dilation"]
        if dt == "crypt":
            names = names[1:]
        for n, v in zip(names, args[2:]):
            kw[n] = v
        return NEW(T(name, ts[0], w, *kwterm(it, kw, {"stride": 1, "padding": 0, "dilation": 1, "groups": 1,
                                                     "output_padding": 0, "bias": None})))
    if name == "sum":
        dim = g(1, "dim")
        if dim is None and "axis" in kwargs:
            dim = kwargs["axis"]
        if isinstance(dim, Ref):
            dim = tuple(it.try_iter(dim)) if it.try_iter(dim) is not None else it.as_term(dim)
        if isinstance(dim, tuple):
            dim = tuple(it.as_term(x) for x in dim)
            if len(dim) == 1:
                dim = dim[0]
        keep = gt(2, "keepdim", False)
        dt2 = "long" if dt == "bool" else dt
        return it.new_tensor(mk_sum(ts[0], it.as_term(dim), keep), dt2)
    if name == "mean" and dt != "crypt_":
        dim = g(1, "dim")
        if isinstance(dim, Ref):
            dim = tuple(it.try_iter(dim)) if it.try_iter(dim) is not None else it.as_term(dim)
        keep = gt(2, "keepdim", False)
        sm = mk_sum(ts[0], it.as_term(dim), keep)
        n0, n1 = nelement_term(ts[0]), nelement_term(sm)
        d = s_div_sizes(n0, n1)
        return NEW(ew2("div", sm, d), "crypt" if dt == "crypt" else "float")
    if name in ("size",):
        sh = shape_of(ts[0])
        d = g(1, "dim")
        if d is None:
            return sh
        d = it.as_term(d)
        if isinstance(sh, tuple) and isinstance(d, int):
            try:
                return sh[d]
            except IndexError:
                it.raise_exc("IndexError", "dim out of range")
        return T("dimsize", sh if isinstance(sh, Term) else T("list", *sh), d, ty="int")
    if name in ("dim", "ndimension"):
        sh = shape_of(ts[0])
        return len(sh) if isinstance(sh, tuple) else T("ndim", sh, ty="int")
    if name == "nelement":
        return nelement_term(ts[0])
    if name == "item":
        t = ts[0]
        if not isinstance(t, Term):
            return t
        while isinstance(t, Term) and t.op == "stack" and len(t.args) == 2:
            t = t.args[1]
        if is_const(t):
            return t
        t = ts[0]
        return T("scalar", t, ty={"long": "int", "float": "float", "bool": "bool"}.get(dt))
    if name == "tolist":
        def lst(t):
            if not isinstance(t, Term):
                return t
            if t.op == "stack" and t.args[0] == 0:
                r = [lst(x) for x in t.args[1:]]
                return None if any(x is None for x in r) else it.new_list(r)
            return None
        r = lst(ts[0])
        if r is not None:
            return r
    if name in ("tolist", "numpy"):
        return T(name, ts[0])
    if name == "all":
        if dt == "bool" or True:
            t = ts[0]
            if isinstance(t, bool):
                return t
            return NEW(T("all", t, *kwterm(it, kwargs, {})), "bool") if len(args) > 1 else it.new_tensor(T("all", t, ty="bool"), "bool")
    if name == "any":
        t = ts[0]
        if isinstance(t, bool):
            return t
        return it.new_tensor(T("any", t, *ts[1:], ty="bool"), "bool")
    if name in ("view", "reshape", "expand", "permute"):
        sz = size_args(it, args[1:]) if len(args) > 1 else it.as_term(next(iter(kwargs.values())))
        if name in ("view", "reshape") and dt_of_ext(args[1]) is not None:
            return NEW(T("viewdtype", ts[0], ts[1]))
        a = sz if isinstance(sz, tuple) else (sz,)
        base = (s, name if name != "reshape" else "view", a)
        return it.new_tensor(None, dt, base) if isinstance(s, Ref) else NEW(struct(name, ts[0], a))
    if name in ("transpose", "t", "squeeze", "unsqueeze", "flatten", "narrow", "select", "diagonal", "movedim"):
        pos = list(ts[1:])
        order = {"transpose": ["dim0", "dim1"], "squeeze": ["dim"], "unsqueeze": ["dim"],
                 "flatten": ["start_dim", "end_dim"], "narrow": ["dim", "start", "length"]}.get(name, [])
        for n in order[len(pos):]:
            if n in kwargs:
                pos.append(it.as_term(kwargs[n]))
        if name == "flatten":
            while pos and ((len(pos) == 2 and pos[1] == -1) or (len(pos) == 1 and pos[0] == 0)):
                pos.pop()
        if name == "squeeze" and len(pos) == 1 and pos[0] is None:
            pos = []
        return it.new_tensor(None, dt, (s, name, tuple(pos))) if isinstance(s, Ref) else NEW(struct(name, ts[0], pos))
    if name == "broadcast_to":
        return it.new_tensor(bc(ts[0], ts[1]), dt)
    if name in ("expand_as", "view_as", "reshape_as"):
        return it.new_tensor(None, dt, (s, "view" if "as" in name and "expand" not in name else "expand", (shape_of(ts[1]),)))
    if name == "broadcast_tensors":
        ls = args if len(args) > 1 else (it.try_iter(args[0]) or args)
        lt = [it.as_term(x) for x in ls]
        sh = ()
        for x in lt:
            sh = bcast(sh, shape_of(x))
        res = []
        for x, t in zip(ls, lt):
            s1 = shape_of(t)
            same = s1 is sh or (isinstance(s1, tuple) and isinstance(sh, tuple) and _same(s1, sh))
            if same and isinstance(x, Ref):
                res.append(it.new_tensor(None, dtype_of(it, x), (x, "data", ())))
            elif isinstance(x, Ref):
                res.append(it.new_tensor(bc(t, sh), dtype_of(it, x) or "any"))
            else:
                res.append(it.new_tensor(bc(t, sh), dtype_of(it, x) or "any"))
        return tuple(res)
    if name in ("stack", "cat"):
        ls = it.try_iter(args[0])
        dim = gt(1, "dim", 0)
        if dim is None:
            dim = 0
        if ls is None:
            return it.new_tensor(T(name + "_sym", dim, ts[0]), "any")
        d2 = promote([d for d in (dtype_of(it, a) for a in ls) if d] or ["any"])
        els = [it.as_term(x) for x in ls]
        if name == "cat" and len(els) and all(isinstance(x, Term) and x.op == "stack" and x.args[0] == 0 for x in els) and dim == 0:
            return it.new_tensor(T("stack", 0, *[y for x in els for y in x.args[1:]]), d2)
        return it.new_tensor(T(name, dim, *els), d2)
    if name == "split":
        sz = g(1, "split_size", g(1, "split_size_or_sections"))
        dim = gt(2, "dim", 0)
        if isinstance(sz, Ref):
            szt = tuple(it.as_term(x) for x in it.try_iter(sz)) if it.try_iter(sz) is not None else it.as_term(sz)
        else:
            szt = it.as_term(sz)
        n = None
        sh = shape_of(ts[0])
        if isinstance(szt, tuple):
            n = len(szt)
        elif isinstance(szt, int) and isinstance(sh, tuple) and isinstance(dim, int) and isinstance(sh[dim], int):
            n = -(-sh[dim] // szt)
        if n is None:
            return T("split", ts[0], szt, dim, ty="tensorlist")
        return tuple(it.new_tensor(None, dt, (s, "split_i", (szt, dim, i))) for i in range(n))
    if name == "unbind":
        dim = gt(1, "dim", 0)
        sh = shape_of(ts[0])
        if isinstance(sh, tuple) and isinstance(dim, int) and isinstance(sh[dim], int):
            if dim == 0:
                return tuple(it.new_tensor(None, dt, (s, "getitem", (i,))) for i in range(sh[dim]))
            return tuple(it.new_tensor(None, dt, (s, "unbind_i", (dim, i))) for i in range(sh[dim]))
        return T("unbind", ts[0], dim, ty="tensorlist")
    if name in ("zeros_like", "ones_like", "full_like", "empty_like", "rand_like", "randn_like"):
        d2 = dt_of_ext(kwargs.get("dtype")) or dt
        if name == "rand_like" or name == "randn_like":
            n = it.fresh("rng")
            it.events.append({"kind": "rng", "fn": "torch." + name, "gen": kwargs.get("generator"),
                              "size": shape_of(ts[0]), "where": it.where()})
            return it.new_tensor(T("rand", "torch." + name, shape_of(ts[0]), n), "float")
        v = {"zeros_like": 0, "ones_like": 1, "empty_like": T("uninit")}.get(name)
        if name == "full_like":
            v = gt(1, "fill_value")
        return it.new_tensor(bc(v, shape_of(ts[0])), d2)
    if name in ("new_zeros", "new_ones", "new_full", "new_empty"):
        sz = size_args(it, args[1:2]) if name == "new_full" else size_args(it, args[1:])
        v = {"new_zeros": 0, "new_ones": 1, "new_empty": T("uninit")}.get(name)
        if name == "new_full":
            v = gt(2, "fill_value")
        return it.new_tensor(bc(v, sz), dt_of_ext(kwargs.get("dtype")) or dt)
    if name == "where":
        # torch.where(cond, a, b)  or  tensor.where(cond, b)
        return NEW(T("where", ts[0], ts[1], ts[2]) if len(ts) > 2 else T("where", *ts))
    if name in ("pad",):
        p = g(1, "pad")
        pt = tuple(it.as_term(x) for x in it.try_iter(p)) if it.try_iter(p) is not None else it.as_term(p)
        return NEW(T("pad", ts[0], pt, gt(2, "mode", "constant"), gt(3, "value", 0)))
    if name in ("avg_pool2d",):
        names = ["kernel_size", "stride", "padding", "ceil_mode", "count_include_pad", "divisor_override"]
        kw = dict(kwargs)
        for n, v in zip(names, args[1:]):
            kw[n] = v
        return NEW(T("avg_pool2d", ts[0], *kwterm(it, kw, {"stride": None, "padding": 0, "ceil_mode": False,
                                                          "count_include_pad": True, "divisor_override": None})))
    if name in ("dot",):
        return NEW(mk_sum(ew2("mul", ts[0], ts[1])))
    if name in ("outer", "ger"):
        return NEW(T("matmul", struct("unsqueeze", ts[0], (1,)), struct("unsqueeze", ts[1], (0,))))
    if name == "__len__":
        return tensor_op(it, "size", [s, 0], {})
    if name in ("gather", "scatter", "scatter_add", "index_add", "index_select", "cumsum", "roll", "flip", "repeat", "take",
                "trace", "unfold", "index_fill", "masked_fill", "masked_select", "max", "min", "argmax", "argmin",
                "prod", "std", "var", "norm", "softmax", "log_softmax", "nonzero", "sort", "topk", "tril", "triu",
                "one_hot", "cumprod"):
        order = {"gather": ["dim", "index"], "scatter": ["dim", "index", "src"], "scatter_add": ["dim", "index", "src"],
                 "index_add": ["dim", "index", "source"], "index_select": ["dim", "index"], "cumsum": ["dim"],
                 "roll": ["shifts", "dims"], "flip": ["dims"], "max": ["dim", "keepdim"], "min": ["dim", "keepdim"],
                 "argmax": ["dim", "keepdim"], "unfold": ["dimension", "size", "step"],
                 "one_hot": ["num_classes"], "argmin": ["dim", "keepdim"], "prod": ["dim", "keepdim"]}.get(name, [])
        pos = list(ts[1:])
        if name in ("flip", "repeat"):
            z = size_args(it, args[1:]) if len(args) > 1 else (it.as_term(kwargs.pop("dims")) if "dims" in kwargs else ())
            pos = [z]
        kw = dict(kwargs)
        for n in order[len(pos):]:
            if n in kw:
                pos.append(it.as_term(kw.pop(n)))
        d2 = {"argmax": "long", "argmin": "long", "nonzero": "long", "one_hot": "long"}.get(name, dt)
        return it.new_tensor(T(name, ts[0], *pos, *kwterm(it, kw, {})), d2)
    # unknown operator: uninterpreted
    return NEW(T("t." + name, *ts, *kwterm(it, kwargs, {})))


def bc(t, sh):
    if isinstance(t, Term):
        s1 = shape_of(t)
        if s1 is sh or (isinstance(s1, tuple) and isinstance(sh, tuple) and _same(s1, sh)):
            return t
        if t.op == "bcto":
            t = t.args[0]
    return T("bcto", t, sh)


def sorted_pair(x, y):
    if isinstance(x, Term) and isinstance(y, Term):
        return (x, y) if x.id <= y.id else (y, x)
    if not isinstance(x, Term) and isinstance(y, Term):
        return y, x
    return x, y


def nelement_term(t):
    sh = shape_of(t)
    if isinstance(sh, tuple):
        return nelem_tuple(sh)
    return T("nelement", sh, ty="int")


def s_div_sizes(a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        return a // b
    if isinstance(b, int) and b == 1:
        return a
    return T("floordiv", a, b, ty="int")


def kwterm(it, kw, defaults):
    out = []
    for k in sorted(kw):
        v = it.as_term(kw[k])
        if isinstance(v, Term) and v.op == "list":
            v = tuple(v.args)
        if k in defaults and _k(v) == _k(defaults[k]) and type(v) is type(defaults[k]):
            continue
        out.append(T("kw", k, v))
    return out


# ------------------------------------------------------------------ containers / constants
def container_attr(it, o, name):
    h = it.st.get(o)
    if isinstance(h, HList):
        def m(fn):
            return BuiltinV("list." + name, fn)
        if name == "append":
            def f(i, a, k):
                h = i.st.get(o)
                if h.items is not None:
                    i.st.put(o, HList(h.items + (a[0],)))
                else:
                    i.st.put(o, HList(None, T("append", h.sym, i.as_term(a[0]))))
            return m(f)
        if name == "extend":
            def f(i, a, k):
                h = i.st.get(o)
                x = i.try_iter(a[0])
                if h.items is not None and x is not None:
                    i.st.put(o, HList(h.items + tuple(x)))
                else:
                    i.st.put(o, HList(None, T("lconcat", i.list_term(h), i.as_term(a[0]))))
            return m(f)
        if name == "pop":
            def f(i, a, k):
                h = i.st.get(o)
                idx = a[0] if a else -1
                if h.items is not None and isinstance(idx, int):
                    l = list(h.items)
                    if not l:
                        i.raise_exc("IndexError", "pop from empty list")
                    v = l.pop(idx)
                    i.st.put(o, HList(tuple(l)))
                    return v
                t = i.list_term(h)
                i.st.put(o, HList(None, T("lpop", t, i.as_term(idx))))
                return T("item", t, i.as_term(idx))
            return m(f)
        if name == "insert":
            def f(i, a, k):
                h = i.st.get(o)
                if h.items is not None and isinstance(a[0], int):
                    l = list(h.items)
                    l.insert(a[0], a[1])
                    i.st.put(o, HList(tuple(l)))
                else:
                    i.st.put(o, HList(None, T("linsert", i.list_term(h), i.as_term(a[0]), i.as_term(a[1]))))
            return m(f)
        if name == "reverse":
            def f(i, a, k):
                h = i.st.get(o)
                if h.items is not None:
                    i.st.put(o, HList(h.items[::-1]))
                else:
                    i.st.put(o, HList(None, T("lreverse", h.sym)))
            return m(f)
        if name == "remove":
            def f(i, a, k):
                h = i.st.get(o)
                l = list(h.items or ())
                for j, x in enumerate(l):
                    if i.decide(i.truth(i.eq(x, a[0]))) is True:
                        del l[j]
                        break
                i.st.put(o, HList(tuple(l)))
            return m(f)
        if name == "index":
            def f(i, a, k):
                for j, x in enumerate(i.st.get(o).items or ()):
                    if i.decide(i.truth(i.eq(x, a[0]))) is True:
                        return j
                return i.opaque("index")
            return m(f)
        if name == "count":
            return m(lambda i, a, k: sum(1 for x in (i.st.get(o).items or ()) if i.decide(i.truth(i.eq(x, a[0])))))
        if name == "clear":
            return m(lambda i, a, k: i.st.put(o, HList(())))
        if name == "copy":
            return m(lambda i, a, k: i.st.new(i.st.get(o)))
        if name == "sort":
            return m(lambda i, a, k: i.note("sort"))
        return UNDEF
    # dict / set
    val = lambda x: x[1] if isinstance(x, tuple) else x

    def m(fn):
        return BuiltinV("dict." + name, fn)
    if name == "items":
        def f(i, a, k):
            h = i.st.get(o)
            if h.sym is not None:
                return i.st.new(HList(None, T("items", h.sym)))
            return i.new_list([(x[0] if isinstance(x, tuple) else kk, val(x)) for kk, x in h.items.items()])
        return m(f)
    if name == "keys":
        return m(lambda i, a, k: i.new_list([x[0] if isinstance(x, tuple) else kk for kk, x in i.st.get(o).items.items()]) if i.st.get(o).sym is None else i.st.new(HList(None, T("keys", i.st.get(o).sym))))
    if name == "values":
        return m(lambda i, a, k: i.new_list([val(x) for x in i.st.get(o).items.values()]) if i.st.get(o).sym is None else i.st.new(HList(None, T("values", i.st.get(o).sym))))
    if name == "get":
        def f(i, a, k):
            h = i.st.get(o)
            d = a[1] if len(a) > 1 else k.get("default")
            kk = i.key(a[0])
            if kk in h.items:
                return i.resolve(val(h.items[kk]))
            if h.sym is None and not isinstance(kk, Term):
                return d
            if h.sym is None and isinstance(kk, Term):
                res = d
                for q, x in h.items.items():
                    res = i.merge_value(t_eq(kk, i.as_term(q)), val(x), res)
                return res
            return T("dictget", i.as_term(o), i.as_term(a[0]), i.as_term(d))
        return m(f)
    if name == "pop":
        def f(i, a, k):
            h = i.st.get(o)
            kk = i.key(a[0]) if a else None
            if kk in h.items:
                v = i.resolve(val(h.items[kk]))
                i.st.put(o, HDict({q: x for q, x in h.items.items() if q != kk}, h.kind, h.sym, h.default))
                return v
            if len(a) > 1:
                return a[1]
            if h.sym is not None:
                return T("item", h.sym, i.as_term(a[0]))
            i.raise_exc("KeyError", str(kk))
        return m(f)
    if name == "setdefault":
        def f(i, a, k):
            h = i.st.get(o)
            kk = i.key(a[0])
            if kk in h.items:
                return val(h.items[kk])
            d = a[1] if len(a) > 1 else None
            i.st.put(o, HDict({**h.items, kk: (a[0], d)}, h.kind, h.sym, h.default))
            return d
        return m(f)
    if name == "update":
        def f(i, a, k):
            h = i.st.get(o)
            new = dict(h.items)
            for src in a:
                src = i.resolve(src)
                if isinstance(src, Ref) and isinstance(i.st.get(src), HDict) and i.st.get(src).sym is None:
                    new.update(i.st.get(src).items)
                else:
                    xs = i.try_iter(src)
                    if xs is not None and h.kind == "set":
                        for x in xs:
                            new[i.key(x)] = (x, True)
                    elif xs is not None:
                        for x in xs:
                            kk, vv = i.try_iter(x) or (None, None)
                            new[i.key(kk)] = (kk, vv)
                    else:
                        i.note("update with unknown mapping")
                        i.st.put(o, HDict(new, h.kind, T("dictupd", i.as_term(o), i.as_term(src))))
                        return
            for kk, vv in k.items():
                new[kk] = (kk, vv)
            i.st.put(o, HDict(new, h.kind, h.sym, h.default))
        return m(f)
    if name == "add":
        return m(lambda i, a, k: i.st.put(o, HDict({**i.st.get(o).items, i.key(a[0]): (a[0], True)}, "set", i.st.get(o).sym)))
    if name in ("discard", "remove"):
        return m(lambda i, a, k: i.st.put(o, HDict({q: x for q, x in i.st.get(o).items.items() if q != i.key(a[0])}, "set", i.st.get(o).sym)))
    if name == "clear":
        return m(lambda i, a, k: i.st.put(o, HDict({}, i.st.get(o).kind, None, i.st.get(o).default)))
    if name == "copy":
        def f(i, a, k):
            h = i.st.get(o)
            return i.st.new(HDict(h.items, str(h.kind), h.sym, h.default))
        return m(f)
    if name in ("move_to_end",):
        return m(lambda i, a, k: None)
    if name in ("union", "difference", "intersection", "issubset", "issuperset"):
        def f(i, a, k):
            x = i.st.get(o)
            ks = set(i.key(q) for q in (i.try_iter(a[0]) or []))
            if name == "union":
                return i.st.new(HDict({**x.items, **{i.key(q): (q, True) for q in i.try_iter(a[0])}}, "set"))
            if name == "difference":
                return i.st.new(HDict({q: v for q, v in x.items.items() if q not in ks}, "set"))
            if name == "intersection":
                return i.st.new(HDict({q: v for q, v in x.items.items() if q in ks}, "set"))
            if name == "issubset":
                return set(x.items) <= ks
            return set(x.items) >= ks
        return m(f)
    if name == "_metadata":
        return h.items.get("_metadata", (0, None))[1] if "_metadata" in h.items else UNDEF
    return UNDEF


def const_attr(it, o, name):
    if isinstance(o, str):
        def f(i, a, k):
            aa = []
            for x in a:
                x = i.resolve(x)
                if isinstance(x, Ref):
                    x = i.try_iter(x)
                aa.append(x)
            if all(is_const(x) or isinstance(x, list) and all(is_const(y) for y in x) for x in aa) and all(is_const(v) for v in k.values()):
                try:
                    r = getattr(o, name)(*aa, **k)
                except Exception:
                    return i.opaque("str." + name)
                return i.new_list(r) if isinstance(r, list) else r
            return T("str." + name, o, *[i.as_term(x) if not isinstance(x, list) else tuple(i.as_term(y) for y in x) for x in aa], ty="str")
        if hasattr(str, name):
            return BuiltinV("str." + name, f)
        return UNDEF
    if isinstance(o, tuple):
        if name == "index":
            return BuiltinV("tuple.index", lambda i, a, k: o.index(a[0]) if a[0] in o else i.opaque("index"))
        if name == "count":
            return BuiltinV("tuple.count", lambda i, a, k: o.count(a[0]))
        if name in ("numel",):
            return BuiltinV("size.numel", lambda i, a, k: nelem_tuple(o))
        if name in ("values", "indices") and len(o) == 2:
            return o[0] if name == "values" else o[1]
        return UNDEF
    if isinstance(o, (int, float)):
        if name == "is_integer":
            return BuiltinV("is_integer", lambda i, a, k: float(o).is_integer())
        if name in ("item",):
            return BuiltinV("item", lambda i, a, k: o)
        if name == "bit_length":
            return BuiltinV("bit_length", lambda i, a, k: o.bit_length())
        return UNDEF
    return UNDEF


def term_attr(it, t, name):
    h = it.params.get("term_attr_hook")
    if h:
        r = h(it, t, name)
        if r is not None:
            return r
    if t.ty in ("int", "float", "bool", "str"):
        if name in ("is_integer",):
            return BuiltinV("is_integer", lambda i, a, k: T("is_integer", t, ty="bool"))
        if t.ty == "str":
            return BuiltinV("str." + name, lambda i, a, k: T("str." + name, t, *[i.as_term(x) for x in a], ty="str"))
        return UNDEF
    if t.ty == "size":
        if name == "numel":
            return BuiltinV("numel", lambda i, a, k: T("nelement", t, ty="int"))
        return UNDEF
    if t.ty == "device":
        if name == "type":
            return "cpu"
        return UNDEF
    return T("attr", t, name)


# ------------------------------------------------------------------ isinstance
def isinstance_(it, v, c):
    v = it.resolve(v)
    c = it.resolve(c)
    if isinstance(c, tuple):
        r = False
        for x in c:
            r = t_or(r, isinstance_(it, v, x))
        return r
    if isinstance(v, Phi):
        return t_ite(v.cond, isinstance_(it, v.a, c), isinstance_(it, v.b, c))
    if isinstance(c, Phi):
        return t_ite(c.cond, isinstance_(it, v, c.a), isinstance_(it, v, c.b))
    cn = c.name if isinstance(c, ExtV) else None
    if isinstance(c, BuiltinV):
        cn = "builtins." + c.name
    if isinstance(v, Ref):
        h = it.st.get(v)
        if isinstance(h, HInst):
            if isinstance(c, ClassV):
                return h.cls is not None and c in h.cls.mro
            if cn:
                if cn in ("builtins.object",):
                    return True
                if "__exc__" in h.attrs and cn.split(".")[-1] in (h.attrs["__exc__"], "Exception"):
                    return True
                return h.cls is not None and any(isinstance(b, ExtV) and b.name == cn for b in h.cls.mro)
        if isinstance(h, HTensor):
            if h.dtype == "crypt":
                if isinstance(c, ClassV):
                    k = it.params.get("ct_class")
                    return k is not None and c in k.mro
                return False
            if h.meta and h.meta.get("nn_param") and cn and cn.endswith("Parameter"):
                return True
            return cn in ("torch.Tensor", "torch.LongTensor") and (cn == "torch.Tensor" or h.dtype == "long")
        if isinstance(h, HList):
            return cn == "builtins.list" or bool(cn and cn.endswith("Iterable"))
        if isinstance(h, HDict):
            if h.kind == "set":
                return cn == "builtins.set"
            return cn in ("builtins.dict", "collections.OrderedDict") or bool(cn and cn.endswith("Mapping"))
    if isinstance(v, bool):
        return cn in ("builtins.bool", "builtins.int")
    if isinstance(v, bytes):
        return cn == "builtins.bytes"
    if isinstance(v, int):
        return cn == "builtins.int"
    if isinstance(v, float):
        return cn == "builtins.float"
    if isinstance(v, str):
        return cn == "builtins.str"
    if v is None:
        return cn == "builtins.NoneType"
    if isinstance(v, tuple):
        return cn in ("builtins.tuple", "torch.Size") or bool(cn and cn.endswith("Iterable"))
    if isinstance(v, Term):
        ty = v.ty
        if ty in ("int", "float", "bool", "str", "size", "device", "range", "tensorlist"):
            if ty == "size":
                return cn in ("builtins.tuple", "torch.Size")
            if ty == "tensorlist":
                return cn in ("builtins.tuple",)
            if ty == "bool":
                return cn in ("builtins.bool", "builtins.int")
            if ty == "device":
                return cn == "torch.device"
            return cn == "builtins." + ty
        h = it.params.get("isinstance_hook")
        if h:
            r = h(it, v, c)
            if r is not None:
                return r
        return T("isinstance", v, cn or it.as_term(c), ty="bool")
    if isinstance(v, (FuncV, BoundV, BuiltinV)):
        return cn in ("types.FunctionType", "types.MethodType", "collections.abc.Callable")
    if isinstance(v, ClassV):
        return cn == "builtins.type" or (isinstance(c, ClassV) and v.meta is c)
    if isinstance(v, SliceV):
        return cn == "builtins.slice"
    if isinstance(v, ModV):
        return cn == "types.ModuleType"
    if isinstance(v, NativeObj):
        f = getattr(v, "isinstance", None)
        return f(it, c) if f else False
    return False


# ------------------------------------------------------------------ builtins
def _b(name):
    def deco(f):
        BUILTINS[name] = BuiltinV(name, f)
        return f
    return deco


BUILTINS = {}
for _n in ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "object", "type", "slice", "bytes", "complex",
           "frozenset", "staticmethod", "classmethod", "property", "super", "range", "enumerate", "zip", "map", "filter",
           "reversed"):
    BUILTINS[_n] = ExtV("builtins." + _n)
for _n in ("Exception", "BaseException", "ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError",
           "AttributeError", "NotImplementedError", "AssertionError", "ImportError", "StopIteration", "OSError",
           "ModuleNotFoundError", "NameError", "DeprecationWarning", "UserWarning", "Warning", "ZeroDivisionError",
           "FileNotFoundError", "RuntimeWarning", "KeyboardInterrupt", "SystemExit", "ConnectionError", "EOFError",
           "OverflowError", "UnicodeDecodeError", "IOError", "TimeoutError", "ArithmeticError", "LookupError"):
    BUILTINS[_n] = ExtV("builtins." + _n)
BUILTINS["NotImplemented"] = ExtV("builtins.NotImplemented")
BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["__debug__"] = True


@_b("len")
def _len(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, Phi):
        return it.fork(v.cond, lambda: _len(it, [v.a], k), lambda: _len(it, [v.b], k))
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, RangeV):
        return T("len", it.as_term(v), ty="int")
    if isinstance(v, Ref):
        h = it.st.get(v)
        if isinstance(h, HList) and h.items is not None:
            return len(h.items)
        if isinstance(h, HDict) and h.sym is None:
            return len(h.items)
        if isinstance(h, HTensor):
            return tensor_op(it, "size", [v, 0], {})
        if isinstance(h, HInst):
            f = it.getattr(v, "__len__", None)
            if f is not None:
                return it.call(f, [], {})
    if isinstance(v, NativeObj):
        return v.len(it)
    t = it.as_term(v)
    if isinstance(t, Term) and t.ty == "size":
        return T("ndim", t, ty="int")
    if isinstance(t, Term) and t.op == "mapcat" and isinstance(t.args[0], Term) and t.args[0].op == "list" and not t.args[0].args:
        sq = t.args[2]
        if isinstance(sq, Term) and sq.op == "range" and sq.args[0] == 0 and sq.args[2] == 1:
            return sq.args[1]
        if isinstance(sq, Term) and sq.ty == "size":
            return T("ndim", sq, ty="int")
    return T("len", t, ty="int")


@_b("isinstance")
def _isinst(it, a, k):
    return isinstance_(it, a[0], a[1])


@_b("issubclass")
def _issub(it, a, k):
    if isinstance(a[0], ClassV) and isinstance(a[1], (ClassV, ExtV)):
        return a[1] in a[0].mro
    return T("issubclass", it.as_term(a[0]), it.as_term(a[1]), ty="bool")


@_b("hasattr")
def _hasattr(it, a, k):
    o, n = it.resolve(a[0]), it.resolve(a[1])
    if isinstance(o, Phi):
        return it.fork(o.cond, lambda: _hasattr(it, [o.a, n], k), lambda: _hasattr(it, [o.b, n], k))
    if isinstance(n, Term):
        return T("hasattr", it.as_term(o), n, ty="bool")
    if isinstance(o, Term) and o.ty not in ("int", "float", "bool", "str", "size", "device"):
        return T("hasattr", o, n, ty="bool")
    if isinstance(o, ExtV):
        r = EXT_HAS.get((o.name, n))
        if r is not None:
            return r
        return True
    st = it.st
    if isinstance(o, Ref) and isinstance(st.get(o), HTensor) and st.get(o).dtype != "crypt":
        h = st.get(o)
        if n in NOT_ATTRS:
            return bool(h.meta and n in h.meta)
        return True if (n in TENSOR_ATTRS or n not in NOT_ATTRS) else False
    saved = st.snap()
    handlers = it.handlers
    it.handlers = [[]]
    try:
        from .interp import Dead
        try:
            r = it.getattr1(o, n)
            ok = r is not UNDEF
        except Dead:
            ok = False
    finally:
        it.handlers = handlers
        st.restore(saved)
    return ok


EXT_HAS = {("torch", "Generator"): True}


@_b("getattr")
def _getattr(it, a, k):
    n = it.resolve(a[1])
    if isinstance(n, Term):
        if n.op == "ite":
            return it.fork(n.args[0], lambda: _getattr(it, [a[0], n.args[1]] + list(a[2:]), k),
                           lambda: _getattr(it, [a[0], n.args[2]] + list(a[2:]), k))
        if isinstance(a[0], ExtV):
            return DynExt(a[0].name, n)
        return it.opaque("getattr dynamic", it.as_term(a[0]), n)
    if isinstance(n, Phi):
        return it.fork(n.cond, lambda: _getattr(it, [a[0], n.a] + list(a[2:]), k),
                       lambda: _getattr(it, [a[0], n.b] + list(a[2:]), k))
    if len(a) > 2:
        has = _hasattr(it, [a[0], n], {})
        return it.fork(has, lambda: it.getattr(a[0], n), lambda: a[2])
    return it.getattr(a[0], n)


class DynExt(NativeObj):
    def __init__(self, mod, n):
        self.mod, self.n = mod, n

    def call(self, it, a, k):
        return it.new_tensor(T("dyn", self.mod, self.n, *[it.as_term(x) for x in a], *kwterm(it, k, {})), "any")


@_b("setattr")
def _setattr(it, a, k):
    n = it.resolve(a[1])
    if isinstance(n, Term):
        it.note("dynamic setattr")
        return None
    it.setattr(a[0], n, a[2])


@_b("delattr")
def _delattr(it, a, k):
    o = a[0]
    if isinstance(o, Ref) and isinstance(it.st.get(o), HInst):
        h = it.st.get(o)
        it.st.put(o, HInst(h.cls, {q: v for q, v in h.attrs.items() if q != a[1]}))


@_b("print")
def _print(it, a, k):
    return None


@_b("callable")
def _callable(it, a, k):
    v = it.resolve(a[0])
    return isinstance(v, (FuncV, BoundV, BuiltinV, ClassV, ExtV)) or (T("callable", v, ty="bool") if isinstance(v, Term) else False)


@_b("globals")
def _globals(it, a, k):
    return GlobalsV(it.frames[-1].module)


@_b("locals")
def _locals(it, a, k):
    e = it.st.get(it.frames[-1].env)
    return it.st.new(HDict({n: (n, v) for n, v in e.vars.items()}))


@_b("vars")
def _vars(it, a, k):
    from .interp import InstDict
    return InstDict(a[0])


class GlobalsV(NativeObj):
    def __init__(self, m):
        self.m = m

    def getitem(self, it, i):
        i = it.resolve(i)
        if isinstance(i, Term) and i.op == "ite":
            return it.fork(i.args[0], lambda: self.getitem(it, i.args[1]), lambda: self.getitem(it, i.args[2]))
        if not isinstance(i, str):
            return it.opaque("globals()[?]", it.as_term(i))
        v = it.mod_get(self.m, i)
        if v is UNDEF:
            it.raise_exc("KeyError", i)
        return v

    def setitem(self, it, i, v):
        it.setattr(self.m, i, v)

    def contains(self, it, x):
        return it.mod_get(self.m, x) is not UNDEF if isinstance(x, str) else T("inglobals", it.as_term(x), ty="bool")

    def getattr(self, it, name):
        if name == "get":
            return BuiltinV("get", lambda i, a, k: i.mod_get(self.m, a[0]) if i.mod_get(self.m, a[0]) is not UNDEF else (a[1] if len(a) > 1 else None))
        if name == "items":
            return BuiltinV("items", lambda i, a, k: i.new_list([(n, v) for n, v in i.st.get(self.m.ref).vars.items()]))
        raise KeyError(name)


@_b("any")
def _any(it, a, k):
    xs = it.try_iter(a[0])
    if xs is None:
        return T("any", it.as_term(a[0]), ty="bool")
    r = False
    for x in xs:
        r = t_or(r, it.truth(x))
    return r


@_b("all")
def _all(it, a, k):
    xs = it.try_iter(a[0])
    if xs is None:
        return T("all", it.as_term(a[0]), ty="bool")
    r = True
    for x in xs:
        r = t_and(r, it.truth(x))
    return r


@_b("sum")
def _sum(it, a, k):
    xs = it.try_iter(a[0])
    if xs is None:
        return T("seqsum", it.as_term(a[0]), ty="int" if False else None)
    r = a[1] if len(a) > 1 else 0
    for x in xs:
        r = it.binop("Add", r, x)
    return r


def _minmax(which):
    def f(it, a, k):
        xs = it.try_iter(a[0]) if len(a) == 1 else list(a)
        if xs is None:
            if isinstance(it.resolve(a[0]), Ref) and it.kind(it.resolve(a[0])) == "tensor":
                return tensor_op(it, which, [a[0]], {})
            return T("seq" + which, it.as_term(a[0]))
        ts = [it.as_term(x) for x in xs]
        if ts and all(isnum(x) for x in ts):
            return (max if which == "max" else min)(ts)
        r = ts[0] if ts else None
        for x in ts[1:]:
            c = t_lt(r, x)
            r = t_ite(c, x, r) if which == "max" else t_ite(t_lt(x, r), x, r)
        return r
    return f


BUILTINS["max"] = BuiltinV("max", _minmax("max"))
BUILTINS["min"] = BuiltinV("min", _minmax("min"))


@_b("abs")
def _abs(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if it.kind(v) == "tensor":
        return tensor_op(it, "abs", [v], {})
    if it.kind(v) == "inst":
        return it.call(it.getattr(v, "__abs__"), [], {})
    return T("abs", it.as_term(v), ty=ty_of(v))


@_b("round")
def _round(it, a, k):
    v = it.resolve(a[0])
    if isnum(v) and all(isnum(x) for x in a[1:]):
        return round(*a)
    return T("round", it.as_term(v), ty="int")


@_b("pow")
def _pow(it, a, k):
    if len(a) == 3 and all(isinstance(x, int) for x in a):
        return pow(*a)
    if len(a) == 3:
        return T("powmod", *[it.as_term(x) for x in a], ty="int")
    return it.binop("Pow", a[0], a[1])


@_b("divmod")
def _divmod(it, a, k):
    return (it.binop("FloorDiv", a[0], a[1]), it.binop("Mod", a[0], a[1]))


@_b("sorted")
def _sorted(it, a, k):
    xs = it.try_iter(a[0])
    if xs is not None and all(is_const(x) for x in xs) and not k:
        try:
            return it.new_list(sorted(xs))
        except TypeError:
            pass
    return it.st.new(HList(None, T("sorted", it.as_term(a[0]))))


@_b("id")
def _id(it, a, k):
    v = it.resolve(a[0])
    return (1 << 40) + 16 * v.id if isinstance(v, Ref) else (1 << 48) + zlib.crc32(repr(v).encode())


@_b("hash")
def _hash(it, a, k):
    return T("hash", it.as_term(a[0]), ty="int")


@_b("repr")
def _repr(it, a, k):
    return T("repr", it.as_term(a[0]), ty="str")


@_b("iter")
def _iter(it, a, k):
    xs = it.try_iter(a[0])
    return IterV(xs) if xs is not None else T("iter", it.as_term(a[0]))


class IterV(NativeObj):
    def __init__(self, xs):
        self.xs = list(xs)
        self.pos = 0

    def iter(self, it):
        return self.xs[self.pos:]


@_b("next")
def _next(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, IterV):
        if v.pos < len(v.xs):
            v.pos += 1
            return v.xs[v.pos - 1]
        if len(a) > 1:
            return a[1]
        it.raise_exc("StopIteration", "")
    xs = it.try_iter(v)
    if xs is not None:
        if xs:
            return xs[0]
        if len(a) > 1:
            return a[1]
        it.raise_exc("StopIteration", "")
    if len(a) > 1:
        return T("next", it.as_term(v), it.as_term(a[1]))
    return T("next", it.as_term(v))


@_b("open")
def _open(it, a, k):
    it.events.append({"kind": "open", "args": [it.as_term(x) for x in a], "where": it.where()})
    return FileV(it.as_term(a[0]), it.as_term(a[1]) if len(a) > 1 else "r")


class FileV(NativeObj):
    def __init__(self, path, mode):
        self.path, self.mode = path, mode

    def getattr(self, it, name):
        if name == "__enter__":
            return BuiltinV("enter", lambda i, a, k: self)
        return BuiltinV("file." + name, lambda i, a, k: T("file." + name, self.path, *[i.as_term(x) for x in a]))

    def term(self, it):
        return T("file", self.path, self.mode)


@_b("input")
def _input(it, a, k):
    return sym("stdin", "str")


@_b("dir")
def _dir(it, a, k):
    return it.st.new(HList(None, T("dir", it.as_term(a[0]))))


@_b("format")
def _format(it, a, k):
    return T("format", *[it.as_term(x) for x in a], ty="str")


@_b("bin")
def _bin(it, a, k):
    return bin(a[0]) if isinstance(a[0], int) else T("bin", it.as_term(a[0]), ty="str")


@_b("ord")
def _ord(it, a, k):
    return ord(a[0]) if isinstance(a[0], str) else T("ord", it.as_term(a[0]), ty="int")


@_b("chr")
def _chr(it, a, k):
    return chr(a[0]) if isinstance(a[0], int) else T("chr", it.as_term(a[0]), ty="str")


@_b("__import__")
def _imp(it, a, k):
    return it.import_module(a[0]) if isinstance(a[0], str) else it.opaque("__import__")


# ------------------------------------------------------------------ external names
def ext_class_attr(it, c, name):
    """attribute inherited from an external base class"""
    if c.name == "enum.Enum":
        return None
    return None


CONSTS = {"math.pi": math.pi, "numpy.pi": math.pi, "math.e": math.e, "math.inf": math.inf, "torch.pi": math.pi,
          "torch.inf": math.inf, "sys.version_info": (3, 12, 0), "torch.__version__": "2.0.0"}


STUBS = {"torch.nn.Module": "Module", "torch.nn.Linear": "Linear", "torch.nn.Conv1d": "Conv1d", "torch.nn.Conv2d": "Conv2d",
         "torch.nn.BatchNorm1d": "BatchNorm1d", "torch.optim.Optimizer": "Optimizer",
         "torch.nn.ModuleList": "ModuleList", "torch.nn.ModuleDict": "ModuleDict"}


def ext_attr(it, o, name):
    n = o.name + "." + name
    if n in it.overrides:
        return it.overrides[n]
    if n in CONSTS:
        return CONSTS[n]
    if n in STUBS and "sa_stubs" in it.prog.files:
        return it.mod_get(it.import_module("sa_stubs"), STUBS[n])
    if n == "torch.Tensor.cuda" or n == "torch.cuda.is_available":
        return BuiltinV(n, lambda i, a, k: False)
    if o.name.startswith("builtins.") and name == "__name__":
        return o.name[9:]
    if o.name == "builtins.property" and name == "setter":
        return ExtV(n)
    return ExtV(n)


def _floatfn(fn, name):
    def f(it, a, k):
        v = it.as_term(a[0])
        if isnum(v) and all(isnum(it.as_term(x)) for x in a):
            try:
                return fn(*[it.as_term(x) for x in a])
            except Exception:
                return it.opaque(name)
        return T(name, *[it.as_term(x) for x in a], ty="float")
    return f


SCALAR_FIRST = {"pow", "remainder", "eq", "ne", "lt", "le", "gt", "ge", "bitwise_and", "bitwise_or", "bitwise_xor", "floor_divide",
                "true_divide", "divide", "multiply", "subtract", "rsub", "maximum", "minimum"}


def ext_call(it, fn, args, kwargs):
    n = fn.name
    ov = it.overrides.get(n)
    if ov is not None and ov is not fn:
        return it.call(ov, args, kwargs)
    args = [it.resolve(a) for a in args]
    h = EXT.get(n)
    if h is not None:
        return h(it, args, kwargs)
    if n.startswith("builtins."):
        if n[9:] in BUILTINS and n.split(".")[-1][0].isupper():
            return it.st.new(HInst(None, {"__exc__": n[9:], "args": tuple(args)}))
        return it.opaque(n)
    if n.startswith("torch.nn.functional.") or n.startswith("torch.nn.grad."):
        if n.startswith("torch.nn.grad."):
            return it.new_tensor(T(n, *[it.as_term(a) for a in args], *kwterm(it, kwargs, {})), "any")
        return tensor_op(it, n.split(".")[-1], args, kwargs)
    if n.startswith("torch.Tensor."):
        return it.tensor_method(args[0], n.split(".")[-1], args[1:], kwargs)
    parts = n.split(".")
    if n == "torch.from_numpy" and args and it.kind(args[0]) == "tensor":
        return args[0]
    if parts[0] == "torch" and len(parts) == 2:
        if args and isinstance(args[0], (Ref,)) and it.kind(args[0]) in ("tensor", "list") or (
                parts[1] in ("add", "mul", "sub", "div", "broadcast_tensors", "stack", "cat", "matmul", "where")):
            # objects of the program implementing __torch_function__
            xs = list(args) + list(it.try_iter(args[0]) or [] if it.kind(args[0]) in ("list", "tuple") else [])
            for x in xs:
                if it.kind(x) == "inst" and it.inst_method(x, "__torch_function__") is not None:
                    f = it.getattr(x, "__torch_function__", dunder=True)
                    return it.call(f, [fn, (), tuple(args), it.st.new(HDict({k: (k, v) for k, v in kwargs.items()}))], {})
            return tensor_op(it, parts[1], args, kwargs)
        if args and isinstance(args[0], tuple):
            return tensor_op(it, parts[1], args, kwargs)
        if parts[1] in SCALAR_FIRST and any(it.kind(a) == "tensor" for a in args[1:]):
            return tensor_op(it, parts[1], args, kwargs)
    # unknown external call
    for a in list(args) + list(kwargs.values()):
        if isinstance(a, Ref) and it.kind(a) in ("list", "dict", "inst"):
            it.note("object passed to external %s" % n)
    it.events.append({"kind": "extcall", "name": n, "args": [it.as_term(a) for a in args],
                      "kw": {k: it.as_term(v) for k, v in kwargs.items()}, "where": it.where() if it.frames else "?",
                      "pc": it.st.pc})
    t = T("ext:" + n, *[it.as_term(a) for a in args], *kwterm(it, kwargs, {}))
    if n.startswith("torch.") and n.split(".")[1] in ("from_numpy",):
        return it.new_tensor(t, "any")
    return t


EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


for _n in ("sqrt", "log", "log2", "log10", "exp", "cos", "sin", "floor", "ceil", "gcd", "comb", "factorial", "isclose",
           "isnan", "prod"):
    if hasattr(math, _n):
        EXT["math." + _n] = _floatfn(getattr(math, _n), "math." + _n)


@ext("numpy.sqrt", "numpy.log", "numpy.exp")
def _npf(it, a, k):
    v = a[0]
    return it.opaque("numpy")


def _npfn(name):
    def f(it, a, k):
        v = it.as_term(a[0])
        if isnum(v):
            return getattr(math, name)(v)
        if it.kind(it.resolve(a[0])) == "tensor":
            return tensor_op(it, name, a, {})
        return T("math." + name, v, ty="float")
    return f


for _n in ("sqrt", "log", "exp", "cos", "sin", "floor", "ceil", "log2"):
    EXT["numpy." + _n] = _npfn(_n)


@ext("builtins.int")
def _int(it, a, k):
    if not a:
        return 0
    v = it.resolve(a[0])
    if isinstance(v, (int, float, bool)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v, *a[1:])
        except Exception:
            return it.opaque("int(str)")
    if it.kind(v) == "tensor":
        return tensor_op(it, "item", [v], {})
    t = it.as_term(v)
    if ty_of(t) == "int":
        return t
    return T("int", t, ty="int")


@ext("builtins.float")
def _float(it, a, k):
    v = it.resolve(a[0]) if a else 0.0
    if isinstance(v, (int, float, bool)):
        return float(v)
    if isinstance(v, str):
        return float(v)
    if it.kind(v) == "tensor":
        return tensor_op(it, "item", [v], {})
    return T("tofloat", it.as_term(v), ty="float")


@ext("builtins.str")
def _str(it, a, k):
    v = it.resolve(a[0]) if a else ""
    return str(v) if is_const(v) else T("str", it.as_term(v), ty="str")


@ext("builtins.bool")
def _bool(it, a, k):
    return it.truth(a[0]) if a else False


@ext("builtins.list")
def _list(it, a, k):
    if not a:
        return it.new_list(())
    xs = it.try_iter(a[0])
    if xs is None:
        t = it.as_term(a[0])
        return it.st.new(HList(None, t))
    return it.new_list(xs)


@ext("builtins.tuple")
def _tuple(it, a, k):
    if not a:
        return ()
    xs = it.try_iter(a[0])
    if xs is None:
        return it.as_term(a[0])
    return tuple(xs)


@ext("builtins.dict", "collections.OrderedDict", "builtins.OrderedDict", "typing.OrderedDict")
def _dict(it, a, k):
    d = {}
    if a:
        s = it.resolve(a[0])
        if isinstance(s, Ref) and isinstance(it.st.get(s), HDict):
            h = it.st.get(s)
            if h.sym is not None:
                return it.st.new(HDict(dict(h.items), "dict", h.sym))
            d.update(h.items)
        else:
            xs = it.try_iter(s)
            if xs is None:
                return it.st.new(HDict({}, "dict", T("dict", it.as_term(s))))
            for x in xs:
                p = it.try_iter(x)
                d[it.key(p[0])] = (p[0], p[1])
    for q, v in k.items():
        d[q] = (q, v)
    return it.st.new(HDict(d))


@ext("collections.defaultdict")
def _ddict(it, a, k):
    return it.st.new(HDict({}, "dict", None, a[0] if a else None))


@ext("builtins.set", "builtins.frozenset")
def _set(it, a, k):
    if not a:
        return it.st.new(HDict({}, "set"))
    xs = it.try_iter(a[0])
    if xs is None:
        return it.st.new(HDict({}, "set", it.as_term(a[0])))
    return it.st.new(HDict({it.key(x): (x, True) for x in xs}, "set"))


@ext("builtins.type")
def _type(it, a, k):
    v = it.resolve(a[0])
    if len(a) == 3:
        return it.opaque("type()")
    if isinstance(v, Phi):
        return it.fork(v.cond, lambda: _type(it, [v.a], k), lambda: _type(it, [v.b], k))
    if isinstance(v, Ref):
        h = it.st.get(v)
        if isinstance(h, HInst):
            return h.cls
        if isinstance(h, HTensor):
            return it.params.get("ct_class") if h.dtype == "crypt" else ExtV("torch.Tensor")
        if isinstance(h, HList):
            return ExtV("builtins.list")
        return ExtV("builtins.dict")
    for ty in (bool, int, float, str, tuple):
        if isinstance(v, ty):
            return ExtV("builtins." + ty.__name__)
    if isinstance(v, ClassV):
        return v.meta or ExtV("builtins.type")
    if isinstance(v, Term) and v.ty in ("int", "float", "str", "bool"):
        return ExtV("builtins." + v.ty)
    return T("type", it.as_term(v))


@ext("builtins.object.__getattribute__", "builtins.type.__getattribute__", "builtins.object.__getattr__")
def _oga(it, a, k):
    return it.raw_or_raise(a[0], it.resolve(a[1]))


@ext("builtins.object.__setattr__", "builtins.dict.__setattr__")
def _osa(it, a, k):
    return it.raw_setattr(a[0], a[1], a[2])


@ext("builtins.object.__delattr__")
def _oda(it, a, k):
    return _delattr(it, a, k)


@ext("builtins.object.__new__")
def _onew(it, a, k):
    return it.st.new(HInst(a[0], {}))


@ext("builtins.object.__init__", "builtins.object.__init_subclass__")
def _oinit(it, a, k):
    return None


@ext("builtins.object")
def _obj(it, a, k):
    return it.st.new(HInst(None, {}))


@ext("builtins.slice")
def _slice(it, a, k):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@ext("builtins.super")
def _super(it, a, k):
    return SuperV(a[0], a[1])


@ext("builtins.staticmethod")
def _static(it, a, k):
    return StaticV(a[0])


@ext("builtins.classmethod")
def _classm(it, a, k):
    return ClassMV(a[0])


@ext("builtins.property")
def _prop(it, a, k):
    return PropV(a[0] if a else None, a[1] if len(a) > 1 else None)


@ext("builtins.range")
def _range(it, a, k):
    ts = [it.as_term(x) for x in a]
    lo, hi, st = (0, ts[0], 1) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else 1)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        r = range(lo, hi, st)
        return tuple(r)
    if isinstance(lo, Term) or isinstance(hi, Term):
        d = s_sub(hi, lo)
        if isinstance(d, int) and st == 1 and 0 <= d < 256:
            return tuple(s_add(lo, i) for i in range(d))
    return RangeV(lo, hi, st)


@ext("builtins.enumerate")
def _enum(it, a, k):
    xs = it.try_iter(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if xs is None:
        return T("enumerate", it.as_term(a[0]), start) if not isinstance(a[0], Term) else T("enumerate", a[0], start)
    return it.new_list([(it.binop("Add", i, start), x) for i, x in enumerate(xs)])


@ext("builtins.zip")
def _zip(it, a, k):
    xs = [it.try_iter(x) for x in a]
    if any(x is None for x in xs):
        # symbolic sizes: index by the shortest known
        known = [len(x) for x in xs if x is not None]
        if known:
            n = min(known)
            return it.new_list([tuple(x[i] if x is not None else it.getitem(b, i) for x, b in zip(xs, a)) for i in range(n)])
        return T("zip", *[it.as_term(x) for x in a])
    return it.new_list([tuple(t) for t in zip(*xs)])


@ext("builtins.map")
def _map(it, a, k):
    xs = it.try_iter(a[1])
    if xs is None or len(a) > 2:
        if len(a) > 2:
            ys = [it.try_iter(x) for x in a[1:]]
            if all(y is not None for y in ys):
                return it.new_list([it.call(a[0], list(t), {}) for t in zip(*ys)])
        return it.st.new(HList(None, T("map", it.as_term(a[0]), it.as_term(a[1]))))
    return it.new_list([it.call(a[0], [x], {}) for x in xs])


@ext("builtins.filter")
def _filter(it, a, k):
    xs = it.try_iter(a[1])
    if xs is not None:
        out = []
        for x in xs:
            d = it.decide(it.truth(it.call(a[0], [x], {})))
            if d is None:
                break
            if d:
                out.append(x)
        else:
            return it.new_list(out)
    return it.st.new(HList(None, T("filter", it.as_term(a[0]), it.as_term(a[1]))))


@ext("builtins.reversed")
def _rev(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, RangeV):
        return it.st.new(HList(None, T("reversed", it.as_term(v))))
    xs = it.try_iter(v)
    if xs is None:
        return it.st.new(HList(None, T("reversed", it.as_term(v))))
    return it.new_list(xs[::-1])


@ext("functools.lru_cache", "functools.wraps", "torch.no_grad", "torch.jit.ignore", "functools.cache")
def _ident_deco(it, a, k):
    if len(a) == 1 and isinstance(a[0], FuncV) and not k:
        return BuiltinV("deco", lambda i, b, kk: b[0]) if False else a[0] if False else BuiltinV("deco", lambda i, b, kk: b[0])
    return BuiltinV("deco", lambda i, b, kk: b[0])


@ext("functools.cache", "functools.total_ordering")
def _cache(it, a, k):
    return a[0]


@ext("contextlib.contextmanager")
def _cm(it, a, k):
    f = a[0]
    f.is_cm = True
    return f


@ext("functools.partial")
def _partial(it, a, k):
    return PartialV(a[0], a[1:], k)


@ext("functools.reduce")
def _reduce(it, a, k):
    xs = it.try_iter(a[1])
    if xs is None:
        return it.opaque("reduce")
    if len(a) > 2:
        xs = [a[2]] + xs
    r = xs[0]
    for x in xs[1:]:
        r = it.call(a[0], [r, x], {})
    return r


@ext("itertools.chain")
def _chain(it, a, k):
    xs = [it.try_iter(x) for x in a]
    if any(x is None for x in xs):
        return it.st.new(HList(None, T("chain", *[it.as_term(x) for x in a])))
    return it.new_list([y for x in xs for y in x])


@ext("copy.deepcopy", "copy.copy")
def _copy(it, a, k):
    v = it.resolve(a[0])
    return deep(it, v, {})


def deep(it, v, memo):
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        h = it.st.get(v)
        if isinstance(h, HList):
            r = it.st.new(HList(h.items, h.sym))
            memo[v.id] = r
            if h.items is not None:
                it.st.put(r, HList(tuple(deep(it, x, memo) for x in h.items)))
            return r
        if isinstance(h, HDict):
            r = it.st.new(HDict({}, h.kind, h.sym, h.default))
            memo[v.id] = r
            it.st.put(r, HDict({q: (x[0], deep(it, x[1], memo)) if isinstance(x, tuple) else x for q, x in h.items.items()}, h.kind, h.sym, h.default))
            return r
        if isinstance(h, HTensor):
            return it.new_tensor(it.cell_term(h), h.dtype, None, h.meta)
        if isinstance(h, HInst):
            if h.cls is not None and h.cls.is_enum:
                return v
            r = it.st.new(HInst(h.cls, {}))
            memo[v.id] = r
            it.st.put(r, HInst(h.cls, {q: deep(it, x, memo) for q, x in h.attrs.items()}))
            return r
    if isinstance(v, tuple):
        return tuple(deep(it, x, memo) for x in v)
    return v


@ext("torch.is_tensor")
def _ist(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, Phi):
        return t_ite(v.cond, _ist(it, [v.a], k), _ist(it, [v.b], k))
    if isinstance(v, Ref) and isinstance(it.st.get(v), HTensor):
        return it.st.get(v).dtype != "crypt"
    if isinstance(v, Term) and v.ty not in ("int", "float", "bool", "str", "size", "device"):
        h = it.params.get("isinstance_hook")
        if h:
            r = h(it, v, ExtV("torch.Tensor"))
            if r is not None:
                return r
        return T("isinstance", v, "torch.Tensor", ty="bool")
    return False


@ext("torch.device")
def _dev(it, a, k):
    return DEVICE


class IInfo(NativeObj):
    def __init__(self, bits):
        self.bits = bits

    def getattr(self, it, name):
        return {"bits": self.bits, "max": 2 ** (self.bits - 1) - 1, "min": -2 ** (self.bits - 1)}[name]


@ext("torch.iinfo")
def _iinfo(it, a, k):
    b = {"torch.long": 64, "torch.int64": 64, "torch.int32": 32, "torch.int": 32, "torch.int16": 16, "torch.uint8": 8,
         "torch.int8": 8}.get(a[0].name if isinstance(a[0], ExtV) else "", 64)
    return IInfo(b)


class FInfo(NativeObj):
    def getattr(self, it, name):
        return {"bits": 32, "max": 3.4e38, "min": -3.4e38, "eps": 1.19e-7}[name]


@ext("torch.finfo")
def _finfo(it, a, k):
    return FInfo()


@ext("torch.tensor", "torch.as_tensor", "torch.LongTensor", "torch.FloatTensor", "torch.Tensor")
def _tensor(it, a, k):
    v = it.resolve(a[0]) if a else ()
    dt = dt_of_ext(k.get("dtype"))
    meta = {"requires_grad": k["requires_grad"]} if "requires_grad" in k else None
    if it.kind(v) == "tensor":
        return it.new_tensor(it.as_term(v), dt or dtype_of(it, v), None, meta)

    def conv(x):
        x = it.resolve(x)
        xs = it.try_iter(x) if it.kind(x) in ("list", "tuple") else None
        if xs is not None:
            if not xs:
                return T("bcto", 0, (0,))
            return T("stack", 0, *[conv(y) for y in xs])
        return it.as_term(x)
    t = conv(v)
    if dt is None:
        leaf = [x for x in walk_leaves(t)]
        dt = "float" if any(isinstance(x, float) or ty_of(x) == "float" for x in leaf) else (
            "long" if leaf and all(isinstance(x, int) or ty_of(x) == "int" for x in leaf) else "any")
    elif dt == "long":
        def tolong(t):
            if isinstance(t, Term) and t.op == "stack":
                return T("stack", t.args[0], *[tolong(x) for x in t.args[1:]])
            if isinstance(t, float):
                return int(t) if t == int(t) else T("long", t)
            if isinstance(t, int):
                return t
            return ew1("long", t)
        t = tolong(t)
    return it.new_tensor(t, dt, None, meta)


def walk_leaves(t):
    if isinstance(t, Term) and t.op == "stack":
        for x in t.args[1:]:
            yield from walk_leaves(x)
    else:
        yield t


@ext("torch.zeros", "torch.ones", "torch.empty")
def _zeros(it, a, k):
    raise NotImplementedError


def _fill(v):
    def f(it, a, k):
        a = list(a)
        if "size" in k:
            a = [k["size"]]
        sz = size_args(it, a)
        val = T("uninit") if v is None else v
        return it.new_tensor(bc(val, sz), dt_of_ext(k.get("dtype")) or "float")
    return f


EXT["torch.zeros"] = _fill(0)
EXT["torch.ones"] = _fill(1)
EXT["torch.empty"] = _fill(None)


@ext("torch.full")
def _full(it, a, k):
    sz = size_args(it, [a[0] if a else k["size"]])
    v = it.as_term(a[1] if len(a) > 1 else k["fill_value"])
    return it.new_tensor(bc(v, sz), dt_of_ext(k.get("dtype")) or ("float" if isinstance(v, float) else "any"))


@ext("torch.arange")
def _arange(it, a, k):
    a = [it.as_term(x) for x in a]
    lo, hi, st = k.get("start", 0), k.get("end"), k.get("step", 1)
    if len(a) == 1:
        hi = a[0]
    elif len(a) >= 2:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            st = a[2]
    lo, hi, st = it.as_term(lo), it.as_term(hi), it.as_term(st)
    dt = dt_of_ext(k.get("dtype")) or "long"
    if all(isinstance(x, int) for x in (lo, hi, st)) and 0 < len(range(lo, hi, st)) <= 256:
        return it.new_tensor(T("stack", 0, *range(lo, hi, st)), dt)
    t = T("arange", lo, hi, st)
    t.shp = (hi if lo == 0 and st == 1 else T("arangelen", lo, hi, st, ty="int"),)
    return it.new_tensor(t, dt)


@ext("torch.eye")
def _eye(it, a, k):
    t = T("eye", *[it.as_term(x) for x in a])
    t.shp = (it.as_term(a[0]), it.as_term(a[-1]))
    return it.new_tensor(t, dt_of_ext(k.get("dtype")) or "float")


@ext("torch.Size")
def _tsize(it, a, k):
    xs = it.try_iter(a[0]) if a else []
    return tuple(xs) if xs is not None else it.as_term(a[0])


def _rng(fn):
    def f(it, a, k):
        gen = it.resolve(k.get("generator"))
        a = list(a)
        lo = hi = None
        if fn == "torch.randint":
            # randint(high, size) or randint(low, high, size)
            kw = {x: k[x] for x in ("low", "high", "size") if x in k}
            pos = list(a)
            size = kw.pop("size", None)
            if size is None:
                size = pos.pop()
            if len(pos) == 2:
                lo, hi = pos
            elif len(pos) == 1:
                if "high" in kw:
                    lo, hi = pos[0], kw["high"]
                else:
                    lo, hi = 0, pos[0]
            else:
                lo, hi = kw.get("low", 0), kw.get("high")
            sz = size_args(it, [size])
        elif fn in ("torch.normal", "torch.bernoulli", "torch.multinomial"):
            sz = size_args(it, [k["size"]]) if "size" in k else (shape_of(it.as_term(a[0])) if a else ())
        else:
            sz = size_args(it, a if a else [k.get("size", ())])
        out = it.rng_draw(fn, gen, sz, it.as_term(lo), it.as_term(hi), a, k) if hasattr(it, "rng_draw") else None
        if out is not None:
            return out
        n = it.fresh("rng")
        gname = it.as_term(gen) if gen is not None else "default"
        it.events.append({"kind": "rng", "fn": fn, "gen": gname, "size": sz, "lo": it.as_term(lo), "hi": it.as_term(hi),
                          "n": n, "where": it.where()})
        t = T("rand", gname, sz, n, fn, it.as_term(lo), it.as_term(hi), *([it.as_term(x) for x in a] if fn in ("torch.normal", "torch.bernoulli") else []))
        return it.new_tensor(t, dt_of_ext(k.get("dtype")) or ("long" if fn == "torch.randint" else "float"))
    return f


for _n in ("torch.randint", "torch.rand", "torch.randn", "torch.randperm", "torch.normal", "torch.bernoulli"):
    EXT[_n] = _rng(_n)


@ext("torch.Generator")
def _gen(it, a, k):
    g = GenV(it.fresh("gen"))
    it.events.append({"kind": "newgen", "gen": g, "where": it.where()})
    return g


class GenV(NativeObj):
    """random generator object"""

    def __init__(self, name):
        self.name = name
        self.draws = 0
        self.seed = None

    def term(self, it):
        return T("gen", self.name)

    def getattr(self, it, name):
        if name == "manual_seed":
            def f(i, a, k):
                self.seed = i.as_term(a[0])
                i.events.append({"kind": "seed", "gen": self, "seed": self.seed, "where": i.where()})
                return self
            return BuiltinV("manual_seed", f)
        if name in ("seed", "initial_seed"):
            return BuiltinV(name, lambda i, a, k: T("gen." + name, self.name, ty="int"))
        if name == "get_state":
            return BuiltinV(name, lambda i, a, k: T("gen.state", self.name))
        if name == "device":
            return DEVICE
        raise KeyError(name)


@ext("warnings.warn", "logging.info", "logging.warning", "logging.debug", "logging.error", "logging.getLogger",
     "warnings.simplefilter", "warnings.filterwarnings", "logging.basicConfig", "warnings.warn_explicit")
def _warn(it, a, k):
    return None


@ext("operator.itemgetter")
def _ig(it, a, k):
    return BuiltinV("itemgetter", lambda i, b, kk: i.getitem(b[0], a[0]))


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("xor", "BitXor"), ("and_", "BitAnd"),
               ("or_", "BitOr"), ("matmul", "MatMult"), ("lshift", "LShift"), ("rshift", "RShift"),
               ("floordiv", "FloorDiv"), ("mod", "Mod"), ("pow", "Pow")):
    EXT["operator." + _n] = (lambda o: lambda it, a, k: it.binop(o, a[0], a[1]))(_o)
    EXT["operator.i" + _n.rstrip("_")] = (lambda o: lambda it, a, k: it.binop(o, a[0], a[1], inplace=True))(_o)
EXT["operator.neg"] = lambda it, a, k: it.unop("USub", a[0])
EXT["operator.invert"] = lambda it, a, k: it.unop("Invert", a[0])
EXT["operator.getitem"] = lambda it, a, k: it.getitem(a[0], a[1])


@ext("torch.broadcast_tensors")
def _bct(it, a, k):
    return tensor_op(it, "broadcast_tensors", a, k)


@ext("torch.broadcast_shapes")
def _bcs(it, a, k):
    s = ()
    for x in a:
        s = bcast(s, it.as_term(x))
    return s


@ext("torch.nn.functional.one_hot")
def _oh(it, a, k):
    return tensor_op(it, "one_hot", a, k)


@ext("os.path.join", "os.path.exists", "os.path.dirname", "os.path.abspath", "os.path.isdir")
def _osp(it, a, k):
    return T("os.path", *[it.as_term(x) for x in a], ty="str" if False else None)


# ------------------------------------------------------------------ operating-system entropy
@ext("os.urandom", "secrets.token_bytes")
def _urandom(it, a, k):
    n = it.resolve(a[0]) if a else 32
    r = T("urandom", it.rank, it.fresh("ur"), n)
    it.events.append({"kind": "entropy", "term": r, "where": it.where()})
    return r


@ext("secrets.randbits")
def _randbits(it, a, k):
    r = T("urandom", it.rank, it.fresh("ur"), Fraction(it.resolve(a[0]), 8))
    it.events.append({"kind": "entropy", "term": r, "where": it.where()})
    return T("frombytes", r, False, "big", ty="int")


@ext("builtins.int.from_bytes", "int.from_bytes")
def _from_bytes(it, a, k):
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    return T("frombytes", it.as_term(a[0]), bool(k.get("signed", False)), order, ty="int")


@ext("inspect.signature")
def _signature(it, a, k):
    f, skip = it.resolve(a[0]), 0
    while isinstance(f, BoundV):
        f, skip = it.resolve(f.func), skip + 1
    if not isinstance(f, FuncV):
        return it.opaque("signature of %r" % (f,))
    g = f.node.args
    names = [x.arg for x in g.posonlyargs + g.args][skip:] + ([g.vararg.arg] if g.vararg else []) + [x.arg for x in g.kwonlyargs] + ([g.kwarg.arg] if g.kwarg else [])
    nd = {}
    pos = [x.arg for x in g.posonlyargs + g.args]
    for n, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
        nd[n] = d
    par = {n: (n, it.st.new(HInst(None, {"name": n, "default": nd.get(n, ExtV("inspect.Parameter.empty"))}))) for n in names}
    return it.st.new(HInst(None, {"parameters": it.st.new(HDict(par))}))


@ext("onnx.numpy_helper.to_array")
def _to_array(it, a, k):
    """the array of a stored tensor: attribute `array` of the stand-in, or the tensor itself"""
    v = it.resolve(a[0])
    return it.getattr(v, "array") if it.kind(v) == "inst" else v


@ext("onnx.load", "onnx.load_model_from_string")
def _onnx_load(it, a, k):
    return it.getattr(a[0], "model")
