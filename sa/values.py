"""Abstract values and heap contents."""
from .terms import Term, T, t_ite, is_const


class Ref:
    __slots__ = ("id",)
    n = 0

    def __init__(self):
        Ref.n += 1
        self.id = Ref.n

    def __repr__(self):
        return "&%d" % self.id


class HEnv:
    __slots__ = ("vars", "parent")

    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent


class HInst:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class HList:
    __slots__ = ("items", "sym")

    def __init__(self, items, sym=None):
        self.items, self.sym = items, sym


class HDict:
    __slots__ = ("items", "kind", "sym", "default")

    def __init__(self, items, kind="dict", sym=None, default=None):
        self.items, self.kind, self.sym, self.default = items, kind, sym, default


class DKind(str):
    """kind of a dictionary that carries attributes"""

    def __new__(cls, kind, attrs):
        self = str.__new__(cls, kind)
        self.attrs = attrs
        return self


class HTensor:
    """term: value graph; dtype: long/float/bool/any/crypt; base: (Ref, op, args) when a view."""
    __slots__ = ("term", "dtype", "base", "meta")

    def __init__(self, term, dtype="any", base=None, meta=None):
        self.term, self.dtype, self.base, self.meta = term, dtype, base, meta


class Phi:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return "Phi(%r, %r, %r)" % (self.cond, self.a, self.b)


class FuncV:
    def __init__(self, name, node, env, module, qual, defaults, kwdefaults, cls=None):
        self.name, self.node, self.env, self.module = name, node, env, module
        self.qual, self.defaults, self.kwdefaults, self.cls = qual, defaults, kwdefaults, cls
        self.is_cm = False
        self.is_gen = False
        self.attrs = {}

    def __repr__(self):
        return "<fn %s>" % self.qual


class BuiltinV:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class BoundV:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func

    def __repr__(self):
        return "<bound %r %r>" % (self.self_, self.func)


class ClassV:
    def __init__(self, name, qual, bases, ref, meta=None):
        self.name, self.qual, self.bases, self.ref, self.meta = name, qual, bases, ref, meta
        self.is_enum = False
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        # C3 is not needed for this code base: depth-first, last occurrence kept
        for b in self.bases:
            for c in (b.mro if isinstance(b, ClassV) else [b]):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def __repr__(self):
        return "<class %s>" % self.qual


class ModV:
    def __init__(self, name, ref, path, tree):
        self.name, self.ref, self.path, self.tree = name, ref, path, tree
        self.loaded = False

    def __repr__(self):
        return "<mod %s>" % self.name


class ExtV:
    __slots__ = ("name",)
    _c = {}

    def __new__(cls, name):
        o = cls._c.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._c[name] = o
        return o

    def __repr__(self):
        return "<ext %s>" % self.name


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMV:
    def __init__(self, f):
        self.f = f


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SliceV:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def key(self):
        return ("slice", self.lo, self.hi, self.st)


class RangeV:
    """range with symbolic bounds"""

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class CMV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class NativeObj:
    """Python-implemented model object (communicator, generators, cfg ...).
    Subclasses define getattr(interp, name) / call / getitem."""

    def getattr(self, interp, name):
        raise KeyError(name)


class UndefT:
    def __repr__(self):
        return "UNDEF"


UNDEF = UndefT()


class NotImpl:
    pass
