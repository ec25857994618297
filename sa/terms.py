"""Hash-consed value-graph terms (the abstract domain of the analysis)."""
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ("op", "args", "ty", "id", "shp")

    def __init__(self, op, args, ty, id):
        self.op, self.args, self.ty, self.id = op, args, ty, id
        self.shp = None

    def __repr__(self):
        return show(self)


def _k(a):
    if isinstance(a, bool):
        return ("b", a)
    if isinstance(a, int):
        return a
    if isinstance(a, float):
        return ("f", repr(a))
    if isinstance(a, tuple):
        return ("t",) + tuple(_k(x) for x in a)
    return a


def T(op, *args, ty=None):
    key = (op,) + tuple(_k(a) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term(op, args, ty, len(_table))
        _table[key] = t
    return t


def sym(name, ty=None):
    return T("sym", name, ty or "obj", ty=ty)


def is_const(v):
    return v is None or isinstance(v, (int, float, str, bool, bytes, Fraction)) or (
        isinstance(v, tuple) and all(is_const(x) for x in v))


def show(t, depth=6):
    if isinstance(t, Term):
        if t.op == "sym":
            return str(t.args[0])
        if depth <= 0:
            return "..."
        return "%s(%s)" % (t.op, ", ".join(show(a, depth - 1) for a in t.args))
    if isinstance(t, tuple):
        return "(" + ", ".join(show(a, depth - 1) for a in t) + ")"
    return repr(t) if not isinstance(t, str) else t


def walk(t, seen=None):
    """All sub-terms, each once."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term) and x.id not in seen:
            seen.add(x.id)
            yield x
            stack.extend(x.args)


NUM = (int, float, Fraction)


def isnum(v):
    return isinstance(v, NUM) and not isinstance(v, bool) or isinstance(v, bool)


# ---------------------------------------------------------------- scalar ops
def s_add(a, b):
    if isnum(a) and isnum(b):
        return a + b
    if isnum(a) and a == 0 and not isinstance(a, float):
        return b
    if isnum(b) and b == 0 and not isinstance(b, float):
        return a
    # canonical: constants last, combine
    if isnum(a):
        a, b = b, a
    if isnum(b) and isinstance(a, Term) and a.op == "add" and isnum(a.args[1]):
        return s_add(a.args[0], a.args[1] + b)
    return T("add", a, b, ty=num_ty(a, b))


def s_sub(a, b):
    if isnum(a) and isnum(b):
        return a - b
    if isnum(b) and b == 0:
        return a
    if a is b:
        return 0
    if isnum(b):
        return s_add(a, -b)
    return T("sub", a, b, ty=num_ty(a, b))


def s_neg(a):
    if isnum(a):
        return -a
    return T("neg", a, ty=getattr(a, "ty", None))


def s_mul(a, b):
    if isnum(a) and isnum(b):
        return a * b
    if isnum(a) and a == 1:
        return b
    if isnum(b) and b == 1:
        return a
    if isnum(a):
        a, b = b, a
    return T("mul", a, b, ty=num_ty(a, b))


def ty_of(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "str"
    if isinstance(v, Term):
        return v.ty
    return None


def num_ty(a, b):
    x, y = ty_of(a), ty_of(b)
    if "float" in (x, y):
        return "float"
    if x in ("int", "bool") and y in ("int", "bool"):
        return "int"
    return None


def t_not(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, Term) and c.op == "not":
        return c.args[0]
    return T("not", c, ty="bool")


def t_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if a is b:
        return a
    return T("and", a, b, ty="bool")


def t_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    if a is b:
        return a
    return T("or", a, b, ty="bool")


def t_lt(a, b):
    if isnum(a) and isnum(b):
        return a < b
    if a is b:
        return False
    d = bounds_lt(a, b)
    if d is not None:
        return d
    return T("lt", a, b, ty="bool")


def lower_bound(v):
    """A sound lower bound of a scalar term, or None."""
    if isnum(v):
        return v
    if isinstance(v, Term):
        if v.op == "sym" and str(v.args[0]).startswith("#"):
            return 0          # '#n' symbols denote sizes/counts >= 0
        if v.op == "sym" and str(v.args[0]).startswith("+"):
            return 1          # '+n' symbols denote positive quantities
        if v.op in ("dimsize", "nelement", "ndim", "len"):
            return 0
        if v.op == "add":
            a, b = lower_bound(v.args[0]), lower_bound(v.args[1])
            if a is not None and b is not None:
                return a + b
        if v.op == "mul":
            a, b = lower_bound(v.args[0]), lower_bound(v.args[1])
            if a is not None and b is not None and a >= 0 and b >= 0:
                return a * b
    return None


def bounds_lt(a, b):
    # a < b false if lower(a) >= const b ; true if const a < lower(b)
    if isnum(b):
        l = lower_bound(a)
        if l is not None and l >= b:
            return False
    if isnum(a):
        l = lower_bound(b)
        if l is not None and l > a:
            return True
    return None


def t_eq(a, b):
    if is_const(a) and is_const(b):
        return a == b
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = t_and(r, t_eq(x, y))
        return r
    if a is None or b is None:
        # a typed term is never None
        o = b if a is None else a
        if isinstance(o, Term) and o.ty in ("int", "float", "bool", "str", "size"):
            return False
    if isnum(b):
        l = lower_bound(a)
        if l is not None and l > b:
            return False
    if isnum(a):
        l = lower_bound(b)
        if l is not None and l > a:
            return False
    if isinstance(a, Term) and isinstance(b, Term) and a.id > b.id:
        a, b = b, a
    if not isinstance(a, Term) and isinstance(b, Term):
        a, b = b, a
    return T("eq", a, b, ty="bool")


def t_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (is_const(a) and is_const(b) and type(a) is type(b) and a == b):
        return a
    if isinstance(c, Term) and c.op == "not":
        return t_ite(c.args[0], b, a)
    if isinstance(a, Term) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, Term) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is True and b is False:
        return c
    if a is False and b is True:
        return t_not(c)
    ta, tb = ty_of(a), ty_of(b)
    return T("ite", c, a, b, ty=ta if ta == tb else None)
