"""Value-numbering dataflow analysis of Python source (see DESIGN.md).

The analysis walks the syntax tree of functions, keeping for every variable and heap cell one
hash-consed term.  A branch on an undetermined condition analyses both arms and joins the cells
with gated (ite) terms; literal-bounded loops are unrolled and others are summarised by mu
terms.  Nothing of the analysed program is executed.
"""
import ast
import os

from .terms import *
from .terms import _k
from .values import *
from . import torchmodel


class Dead(Exception):
    """The current abstract path ends here."""


class AnalysisLimit(Exception):
    pass


class Heap:
    """id -> cell, copied page by page on write"""
    __slots__ = ("pages", "own")

    def __init__(self):
        self.pages, self.own = {}, set()

    def get(self, i, d=None):
        p = self.pages.get(i >> 5)
        return d if p is None else p.get(i, d)

    def __setitem__(self, i, c):
        k = i >> 5
        if k not in self.own:
            p = self.pages.get(k)
            self.pages[k] = {} if p is None else dict(p)
            self.own.add(k)
        self.pages[k][i] = c

    def __contains__(self, i):
        p = self.pages.get(i >> 5)
        return p is not None and i in p

    def items(self):
        for p in self.pages.values():
            yield from p.items()

    def copy(self):
        h = Heap()
        h.pages = dict(self.pages)
        self.own = set()
        return h


class State:
    def __init__(self):
        self.base = {}
        self.heap = Heap()
        self.facts = {}
        self.pc = ()

    def get(self, ref):
        c = self.heap.get(ref.id)
        if c is None:
            c = self.base[ref.id]
        return c

    def put(self, ref, c):
        self.heap[ref.id] = c

    def new(self, c):
        r = Ref()
        self.heap[r.id] = c
        return r

    def snap(self):
        return (self.heap.copy(), dict(self.facts), self.pc)

    def restore(self, s):
        self.heap, self.facts, self.pc = s[0].copy(), dict(s[1]), s[2]

    def freeze(self):
        self.base.update(self.heap.items())
        self.heap = Heap()


class Frame:
    def __init__(self, env, module, func, pc_base):
        self.env, self.module, self.func, self.pc_base = env, module, func, pc_base
        self.returns = []
        self.loops = []
        self.on_yield = None
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.self_cls = None


class Program:
    """Source files of the package, parsed once."""

    def __init__(self, root):
        self.root = root
        self.files = {}
        for pkg in ("crypten",):
            for d, _, fs in os.walk(os.path.join(root, pkg)):
                for f in sorted(fs):
                    if f.endswith(".py"):
                        p = os.path.join(d, f)
                        rel = os.path.relpath(p, root)
                        mod = rel[:-3].replace(os.sep, ".")
                        if mod.endswith(".__init__"):
                            mod = mod[: -len(".__init__")]
                        with open(p, encoding="utf-8") as fh:
                            src = fh.read()
                        self.files[mod] = (p, ast.parse(src, p), f == "__init__.py")
        stubs = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs.py")
        with open(stubs, encoding="utf-8") as fh:
            self.files["sa_stubs"] = (stubs, ast.parse(fh.read(), stubs), False)


MAXDEPTH = 300


class Interp:
    def __init__(self, program, params=None):
        self.prog = program
        self.params = {"rank": 0, "world_size": 2, "cfg": {}}
        self.params.update(params or {})
        self.st = State()
        self.mods = {}
        self.frames = []
        self.overrides = {}
        self.events = []
        self.raises = []
        self.notes = []
        self.trace = []          # functions inlined
        self.handlers = []       # dynamic stack of try contexts
        self.steps = 0
        self.max_steps = 2_000_000
        self.counters = {}
        self.loop_depth = 0
        torchmodel.install(self)

    # ------------------------------------------------------------ utilities
    def note(self, msg):
        f = self.frames[-1] if self.frames else None
        where = f.func.qual if f and f.func else (f.module.name if f else "?")
        self.notes.append("%s: %s" % (where, msg))

    def fresh(self, prefix):
        n = self.counters.get(prefix, 0)
        self.counters[prefix] = n + 1
        return n

    def opaque(self, why, *args, ty=None):
        self.note("opaque " + why)
        n = self.fresh("opaque")
        return T("opaque", why, n, *[self.as_term(a) for a in args], ty=ty)

    def decide(self, c):
        """True/False/None(unknown) for a boolean term, using path facts."""
        if isinstance(c, bool):
            return c
        if not isinstance(c, Term):
            return bool(c)
        f = self.st.facts
        if c in f:
            return f[c]
        if c.op == "not":
            d = self.decide(c.args[0])
            return None if d is None else not d
        if c.op == "and":
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if c.op == "or":
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is True or b is True:
                return True
            if a is False and b is False:
                return False
            return None
        if c.op == "ite":
            d = self.decide(c.args[0])
            if d is not None:
                return self.decide(c.args[1] if d else c.args[2])
        if c.op == "eq" and is_const(c.args[1]):
            # another equality with a different constant already known
            for k, v in f.items():
                if v is True and k.op == "eq" and k.args[0] is c.args[0] and is_const(k.args[1]):
                    if k.args[1] != c.args[1]:
                        return False
        if c.op == "lt" and isinstance(c.args[0], Term) and isinstance(c.args[1], Term):
            if f.get(T("lt", c.args[1], c.args[0])) is True:
                return False
        if c.op == "lt":
            for k, v in f.items():
                if v is True and k.op == "eq" and is_const(k.args[1]):
                    x = [k.args[1] if a is k.args[0] else a for a in c.args]
                    if is_const(x[0]) and is_const(x[1]) and isnum(x[0]) and isnum(x[1]):
                        return x[0] < x[1]
        if c.op == "truth":
            k = f.get(T("eq", c.args[0], 0))
            if k is True:
                return False
            if f.get(T("isnone", c.args[0])) is True:
                return False
        return None

    def assume(self, c, val):
        """Add a fact; returns False when contradictory."""
        d = self.decide(c)
        if d is not None:
            return d == val
        self._add_fact(c, val)
        return True

    def _add_fact(self, c, val):
        if not isinstance(c, Term):
            return
        if c.op == "not":
            return self._add_fact(c.args[0], not val)
        self.st.facts[c] = val
        if c.op == "and" and val:
            self._add_fact(c.args[0], True)
            self._add_fact(c.args[1], True)
        if c.op == "or" and not val:
            self._add_fact(c.args[0], False)
            self._add_fact(c.args[1], False)

    def resolve(self, v):
        while True:
            if isinstance(v, Phi):
                d = self.decide(v.cond)
                if d is None:
                    return v
                v = v.a if d else v.b
            elif isinstance(v, Term) and v.op == "ite":
                d = self.decide(v.args[0])
                if d is None:
                    return v
                v = v.args[1] if d else v.args[2]
            else:
                return v

    # ------------------------------------------------------------ joins
    def merge_value(self, c, a, b):
        if a is b:
            return a
        if isinstance(c, bool):
            return a if c else b
        if is_const(a) and is_const(b) and type(a) is type(b) and _k(a) == _k(b):
            return a
        sa = isinstance(a, Term) or (is_const(a) and a is not None and not isinstance(a, tuple))
        sb = isinstance(b, Term) or (is_const(b) and b is not None and not isinstance(b, tuple))
        if sa and sb and not isinstance(a, str) and not isinstance(b, str):
            return t_ite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_value(c, x, y) for x, y in zip(a, b))
        if isinstance(a, BoundV) and isinstance(b, BoundV) and a.func is b.func and a.self_ is b.self_:
            return a
        if isinstance(c, Term) and c.op == "not":
            return Phi(c.args[0], b, a)
        if isinstance(a, Phi) and a.cond is c:
            a = a.a
        if isinstance(b, Phi) and b.cond is c:
            b = b.b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return Phi(c, a, b)

    def merge_content(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, HEnv):
            d = {}
            for k in list(x.vars) + [k for k in y.vars if k not in x.vars]:
                d[k] = self.merge_value(c, x.vars.get(k, UNDEF), y.vars.get(k, UNDEF))
            return HEnv(d, x.parent)
        if isinstance(x, HInst):
            d = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                d[k] = self.merge_value(c, x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF))
            return HInst(x.cls, d)
        if isinstance(x, HTensor) and isinstance(y, HTensor):
            if x.term is y.term and x.base is y.base:
                return x
            dt = x.dtype if x.dtype == y.dtype else "any"
            if x.base == y.base:
                return HTensor(t_ite(c, x.term, y.term), dt, x.base, x.meta or y.meta)
            # one side re-bound to other storage: drop the view link
            return HTensor(t_ite(c, self.cell_term(x), self.cell_term(y)), dt, None, x.meta or y.meta)
        if isinstance(x, HList) and isinstance(y, HList):
            if x.items is not None and y.items is not None and len(x.items) == len(y.items):
                return HList(tuple(self.merge_value(c, a, b) for a, b in zip(x.items, y.items)))
            if x.items is not None and y.items is not None:
                # lists of different length: keep as gated whole-list term
                return HList(None, T("itelist", c, self.as_term(tuple(x.items)), self.as_term(tuple(y.items))))
            return HList(None, T("itelist", c, self.list_term(x), self.list_term(y)))
        if isinstance(x, HDict) and isinstance(y, HDict):
            if x.sym is None and y.sym is None:
                d = {}
                for k in list(x.items) + [k for k in y.items if k not in x.items]:
                    d[k] = self.merge_value(c, x.items.get(k, UNDEF), y.items.get(k, UNDEF))
                if set(x.items) != set(y.items):
                    self.note("joined dicts with different keys")
                return HDict(d, x.kind, None, x.default)
            return HDict({}, x.kind, T("itedict", c))
        self.note("join of different heap kinds")
        return x

    def list_term(self, h):
        return h.sym if h.items is None else self.as_term(tuple(h.items))

    def join(self, c, A, B, base):
        """Join two snapshots under condition c into the current state."""
        ha, hb = A[0], B[0]
        st = self.st
        heap = ha.copy()
        st.heap = ha          # cell_term may need to read; approximate with A
        ids = set()
        for k in set(ha.pages) | set(hb.pages):
            pa, pb = ha.pages.get(k), hb.pages.get(k)
            if pa is not pb:
                ids.update(pa or ())
                ids.update(pb or ())
        for i in ids:
            x, y = ha.get(i), hb.get(i)
            if x is y:
                heap[i] = x
                continue
            if x is None:
                x = base[0].get(i, st.base.get(i))
            if y is None:
                y = base[0].get(i, st.base.get(i))
            if x is None:
                heap[i] = y
            elif y is None:
                heap[i] = x
            else:
                heap[i] = self.merge_content(c, x, y)
        facts = {k: v for k, v in A[1].items() if B[1].get(k) == v}
        n = len(base[2])
        pa, pb = A[2][n:], B[2][n:]
        if len(pa) == 1 and len(pb) == 1 and pa[0][0] is pb[0][0] and pa[0][1] != pb[0][1]:
            pc = base[2]
        elif not pa or not pb:
            pc = base[2]
        else:
            o = t_or(self.conj(pa), self.conj(pb))
            pc = base[2] if o is True else base[2] + ((o, True),)
        st.heap, st.facts, st.pc = heap, facts, pc

    def conj(self, pcs):
        r = True
        for c, v in pcs:
            r = t_and(r, c if v else t_not(c))
        return r

    def fork(self, cond, fa, fb):
        d = self.decide(cond)
        if d is True:
            return fa()
        if d is False:
            return fb()
        if isinstance(cond, Term) and cond.op == "not":
            return self.fork(cond.args[0], fb, fa)
        st = self.st
        base = st.snap()
        A = B = None
        va = vb = None
        try:
            st.pc = st.pc + ((cond, True),)
            self._add_fact(cond, True)
            va = fa()
            A = st.snap()
        except Dead:
            pass
        st.restore(base)
        try:
            st.pc = st.pc + ((cond, False),)
            self._add_fact(cond, False)
            vb = fb()
            B = st.snap()
        except Dead:
            pass
        if A is None and B is None:
            raise Dead
        if A is None:
            st.restore(B)
            return vb
        if B is None:
            st.restore(A)
            return va
        self.join(cond, A, B, base)
        return self.merge_value(cond, va, vb)

    def merge_records(self, base, recs):
        """recs: list of (snap, value) with pc relative to base; sets state, returns value."""
        st = self.st
        snap, val = recs[-1]
        for s, v in reversed(recs[:-1]):
            c = self.conj(s[2][len(base[2]):])
            if isinstance(c, bool):
                # cannot be discriminated: prefer earlier record
                c = True
            if c is True:
                snap, val = s, v
                continue
            cc = c
            A, B = s, snap
            neg = False
            if isinstance(c, Term) and c.op == "not":
                cc, A, B, neg = c.args[0], snap, s, True
            a_val, b_val = (val, v) if neg else (v, val)
            self.join(cc, A, B, base)
            val = self.merge_value(cc, a_val, b_val)
            # pc after merging: disjunction already computed in join
            snap = self.st.snap()
        st.restore(snap)
        return val

    def lift(self, v, fn):
        v = self.resolve(v)
        if isinstance(v, Phi):
            return self.fork(v.cond, lambda: self.lift(v.a, fn), lambda: self.lift(v.b, fn))
        return fn(v)

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name not in self.prog.files:
            return ExtV(name)
        path, tree, ispkg = self.prog.files[name]
        env = self.st.new(HEnv({"__name__": name, "__file__": path}, None))
        m = ModV(name, env, path, tree)
        m.ispkg = ispkg
        self.mods[name] = m
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
        fr = Frame(env, m, None, len(self.st.pc))
        self.frames.append(fr)
        try:
            for s in tree.body:
                try:
                    self.exec_stmt(s, fr)
                except Dead:
                    self.note("module statement died at %s:%d" % (path, s.lineno))
        finally:
            self.frames.pop()
        m.loaded = True
        if "." in name:
            pn, sub = name.rsplit(".", 1)
            p = self.mods.get(pn)
            if isinstance(p, ModV):
                e = self.st.get(p.ref)
                if sub not in e.vars:
                    self.st.put(p.ref, HEnv({**e.vars, sub: m}, None))
        return m

    def load_all(self):
        for n in sorted(self.prog.files):
            if n.startswith("crypten") and not n.startswith("crypten.models"):
                self.import_module(n)
        self.st.freeze()

    def mod_get(self, m, name):
        key = m.name + "." + name
        if key in self.overrides:
            return self.overrides[key]
        e = self.st.get(m.ref)
        if name in e.vars:
            return e.vars[name]
        if key in self.prog.files:
            return self.import_module(key)
        return UNDEF

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisLimit("step bound")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note("unsupported statement " + type(s).__name__)
            return
        fr.lineno = s.lineno
        return m(s, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.set_name(fr, a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.set_name(fr, top, self.import_module(top))

    def x_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            parts = fr.module.name.split(".")
            if not getattr(fr.module, "ispkg", False):
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        m = self.import_module(base)
        for a in s.names:
            if isinstance(m, ModV):
                if a.name == "*":
                    e = self.st.get(m.ref)
                    al = e.vars.get("__all__")
                    names = list(self.st.get(al).items) if isinstance(al, Ref) else [
                        k for k in e.vars if not k.startswith("_")]
                    for k in names:
                        self.set_name(fr, k, self.mod_get(m, k))
                    continue
                v = self.mod_get(m, a.name)
                if v is UNDEF:
                    self.note("unresolved import %s.%s" % (base, a.name))
                    v = ExtV(base + "." + a.name)
            else:
                v = self.ext_attr(m, a.name)
            self.set_name(fr, a.asname or a.name, v)

    def x_Global(self, s, fr):
        fr.globals_decl.update(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonlocal_decl.update(s.names)

    def set_name(self, fr, name, v):
        if name in fr.globals_decl:
            ref = fr.module.ref
        elif name in fr.nonlocal_decl:
            ref = self.st.get(fr.env).parent
            while ref is not None and name not in self.st.get(ref).vars:
                ref = self.st.get(ref).parent
            ref = ref or fr.env
        else:
            ref = fr.env
        e = self.st.get(ref)
        self.st.put(ref, HEnv({**e.vars, name: v}, e.parent))

    def get_name(self, fr, name):
        ref = fr.env
        while ref is not None:
            e = self.st.get(ref)
            if name in e.vars:
                v = self.resolve(e.vars[name])
                if v is not UNDEF:
                    if ref is fr.module.ref:
                        key = fr.module.name + "." + name
                        if key in self.overrides:
                            return self.overrides[key]
                    return v
            ref = e.parent
        v = self.mod_get(fr.module, name)
        if v is not UNDEF:
            return v
        b = self.builtins.get(name)
        if b is not None:
            return b
        self.raise_exc("NameError", "name %s" % name, fr)

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = self.apply_decorator(d, f, fr)
        self.set_name(fr, s.name, f)

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, s, fr):
        name = getattr(s, "name", "<lambda>")
        cls = getattr(fr, "class_being_defined", None)
        env = fr.env
        if cls is not None:
            env = self.st.get(fr.env).parent
        qual = fr.module.name + "." + (
            (fr.qualprefix + "." if getattr(fr, "qualprefix", "") else "") + name)
        a = s.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = [None if d is None else (self.eval(d, fr),) for d in a.kw_defaults]
        f = FuncV(name, s, env, fr.module, qual, defaults, kwd, cls)
        f.is_gen = has_yield(s)
        return f

    def apply_decorator(self, d, f, fr):
        dv = self.eval(d, fr)
        return self.call(dv, [f], {}, fr)

    def x_ClassDef(self, s, fr):
        bases = []
        meta = None
        for b in s.bases:
            bv = self.eval(b, fr)
            bases.append(bv)
        for k in s.keywords:
            if k.arg == "metaclass":
                meta = self.eval(k.value, fr)
        for b in bases:
            if isinstance(b, ClassV) and b.meta is not None and meta is None:
                meta = b.meta
        ref = self.st.new(HInst(None, {}))
        cls = ClassV(s.name, fr.module.name + "." + s.name, bases, ref, meta)
        cls.node = s
        cls.module = fr.module
        cls.is_enum = any(isinstance(b, ExtV) and b.name == "enum.Enum" or
                          isinstance(b, ClassV) and b.is_enum for b in bases)
        env = self.st.new(HEnv({}, fr.env))
        cfr = Frame(env, fr.module, fr.func, fr.pc_base)
        cfr.class_being_defined = cls
        cfr.qualprefix = s.name
        cfr.globals_decl = set()
        self.frames.append(cfr)
        try:
            self.exec_block(s.body, cfr)
        finally:
            self.frames.pop()
        attrs = dict(self.st.get(env).vars)
        if cls.is_enum:
            for k, v in list(attrs.items()):
                if is_const(v) and not k.startswith("_"):
                    attrs[k] = self.st.new(HInst(cls, {"value": v, "name": k, "_name_": k, "_value_": v}))
        self.st.put(ref, HInst(None, attrs))
        v = cls
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, fr)
        self.set_name(fr, s.name, v)

    def x_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else None
        fr.returns.append((self.st.snap(), v))
        raise Dead

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            self.note("assign target")

    def unpack(self, elts, v, fr):
        v = self.resolve(v)
        if isinstance(v, Phi):
            a = self.try_iter(v.a)
            b = self.try_iter(v.b)
            if a is not None and b is not None and len(a) == len(b):
                items = [self.merge_value(v.cond, x, y) for x, y in zip(a, b)]
            else:
                items = None
        else:
            items = self.try_iter(v)
        if items is None:
            tv = self.as_term(v)
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            items = []
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    items.append(self.opaque("star unpack", tv))
                elif isinstance(v, Ref) and isinstance(self.st.get(v), HTensor):
                    items.append(self.getitem(v, i))
                else:
                    items.append(T("item", tv, i))
        else:
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                n_after = len(elts) - k - 1
                mid = items[k: len(items) - n_after]
                items = items[:k] + [self.new_list(mid)] + items[len(items) - n_after:]
            elif len(items) != len(elts):
                self.raise_exc("ValueError", "unpack", fr)
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    def x_AugAssign(self, s, fr):
        opn = type(s.op).__name__
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.get_name(fr, t.id)
            rhs = self.eval(s.value, fr)
            self.set_name(fr, t.id, self.binop(opn, cur, rhs, inplace=True))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            n = self.mangle(t.attr, fr)
            cur = self.getattr(o, n)
            rhs = self.eval(s.value, fr)
            self.setattr(o, n, self.binop(opn, cur, rhs, inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            cur = self.getitem(o, i)
            rhs = self.eval(s.value, fr)
            self.setitem(o, i, self.binop(opn, cur, rhs, inplace=True))

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval_index(t.slice, fr)
                self.delitem(o, i)
            elif isinstance(t, ast.Name):
                e = self.st.get(fr.env)
                self.st.put(fr.env, HEnv({k: v for k, v in e.vars.items() if k != t.id}, e.parent))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                h = self.st.get(o)
                if isinstance(h, HInst):
                    self.st.put(o, HInst(h.cls, {k: v for k, v in h.attrs.items() if k != t.attr}))

    def x_If(self, s, fr):
        c = self.eval_cond(s.test, fr)
        self.fork(c, lambda: self.exec_block(s.body, fr), lambda: self.exec_block(s.orelse, fr))

    def x_Assert(self, s, fr):
        c = self.eval_cond(s.test, fr)
        d = self.decide(c)
        if d is False:
            self.raise_exc("AssertionError", "explicit " + ast.unparse(s.test)[:60], fr)
        if d is None:
            # paths where it fails end with AssertionError
            self.raises.append((self.conj(self.st.pc + ((c, False),)), "AssertionError", self.where(fr)))
            self._add_fact(c, True)

    def where(self, fr=None):
        fr = fr or self.frames[-1]
        return "%s:%s:%s" % (os.path.basename(fr.module.path), fr.func.name if fr.func else "<module>",
                             getattr(fr, "lineno", 0))

    def x_Raise(self, s, fr):
        if s.exc is None:
            self.raise_exc("reraise", "", fr)
        v = self.eval(s.exc, fr)
        n = self.exc_name(v)
        self.raise_exc(n, "explicit", fr, v)

    def exc_name(self, v):
        if isinstance(v, ExtV):
            return v.name.split(".")[-1]
        if isinstance(v, Ref) and isinstance(self.st.get(v), HInst):
            h = self.st.get(v)
            if "__exc__" in h.attrs:
                return h.attrs["__exc__"]
            return h.cls.name if h.cls else "Exception"
        if isinstance(v, ClassV):
            return v.name
        return "Exception"

    def raise_exc(self, name, msg, fr=None, val=None):
        fr = fr or (self.frames[-1] if self.frames else None)
        if self.handlers:
            self.handlers[-1].append((self.st.snap(), name, val, (self.where(fr) if fr else "?") + " " + msg))
        else:
            self.raises.append((self.conj(self.st.pc), name, (self.where(fr) if fr else "?") + " " + msg))
        raise Dead

    def x_Try(self, s, fr):
        st = self.st
        base = st.snap()
        raised = []
        nret = len(fr.returns)
        nbrk = [(l, len(l["breaks"]), len(l["conts"])) for l in fr.loops]
        self.handlers.append(raised)
        normal = None
        try:
            self.exec_block(s.body, fr)
            if s.orelse:
                self.exec_block(s.orelse, fr)
            normal = st.snap()
        except Dead:
            pass
        finally:
            self.handlers.pop()
        outs = [] if normal is None else [(normal, None)]
        pending = []
        for snap, name, val, where in raised:
            h = None
            for hd in s.handlers:
                if hd.type is None or self.exc_matches(hd.type, name, fr):
                    h = hd
                    break
            if h is None:
                pending.append((snap, name, val, where))
                continue
            st.restore(snap)
            try:
                if h.name:
                    self.set_name(fr, h.name, val if val is not None else
                                  st.new(HInst(None, {"__exc__": name})))
                if s.finalbody:
                    sub = []
                    self.handlers.append(sub)
                try:
                    self.exec_block(h.body, fr)
                finally:
                    if s.finalbody:
                        self.handlers.pop()
                        pending.extend(sub)
                outs.append((st.snap(), None))
            except Dead:
                pass
        if s.finalbody:
            # returns / breaks recorded inside must also pass through finally
            newret = fr.returns[nret:]
            del fr.returns[nret:]
            newloops = []
            for l, nb, nc in nbrk:
                newloops.append((l, l["breaks"][nb:], l["conts"][nc:]))
                del l["breaks"][nb:]
                del l["conts"][nc:]

            def fin(snap):
                st.restore(snap)
                self.exec_block(s.finalbody, fr)
                return st.snap()
            for snap, v in newret:
                try:
                    fr.returns.append((fin(snap), v))
                except Dead:
                    pass
            for l, b, c in newloops:
                for kind, lst in (("breaks", b), ("conts", c)):
                    for snap, v in lst:
                        try:
                            l[kind].append((fin(snap), v))
                        except Dead:
                            pass
            np = []
            for snap, name, val, where in pending:
                try:
                    np.append((fin(snap), name, val, where))
                except Dead:
                    pass
            pending = np
            no = []
            for snap, v in outs:
                try:
                    no.append((fin(snap), v))
                except Dead:
                    pass
            outs = no
        for snap, name, val, where in pending:
            if self.handlers:
                self.handlers[-1].append((snap, name, val, where))
            else:
                self.raises.append((self.conj(snap[2]), name, where))
                self.last_raise_snap = snap
        if not outs:
            raise Dead
        if len(outs) == 1:
            st.restore(outs[0][0])
        else:
            self.merge_records(base, outs)

    x_TryStar = x_Try

    def exc_matches(self, node, name, fr):
        v = self.eval(node, fr)
        names = [self.exc_name(x) for x in v] if isinstance(v, tuple) else [self.exc_name(v)]
        if "Exception" in names or "BaseException" in names or name in names:
            return True
        if name in ("ModuleNotFoundError",) and "ImportError" in names:
            return True
        return False

    def x_With(self, s, fr, k=0):
        if k >= len(s.items):
            return self.exec_block(s.body, fr)
        it = s.items[k]
        cm = self.eval(it.context_expr, fr)

        def body(val):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, fr)
            self.x_With(s, fr, k + 1)
        self.run_with(cm, body, fr)

    def run_with(self, cm, body, fr):
        """Run body() inside context manager cm, routing every outcome through its exit code."""
        cm = self.resolve(cm)
        st = self.st
        if isinstance(cm, CMV):
            outer_handlers = list(self.handlers)
            nret = len(fr.returns)
            nloops = [(l, len(l["breaks"]), len(l["conts"])) for l in fr.loops]
            pend = {"ret": [], "loops": []}

            def on_yield(val):
                base = st.snap()
                raised = []
                self.handlers.append(raised)
                fr_stack = self.frames
                normal = None
                # the body runs in the outer frame
                gen_frames = []
                while self.frames[-1] is not fr:
                    gen_frames.append(self.frames.pop())
                try:
                    body(val)
                    normal = st.snap()
                except Dead:
                    pass
                finally:
                    self.handlers.pop()
                    while gen_frames:
                        self.frames.append(gen_frames.pop())
                outs = []
                if normal is not None:
                    outs.append((normal, "normal"))
                for r in fr.returns[nret:]:
                    outs.append((r[0], ("ret", r[1])))
                del fr.returns[nret:]
                for l, nb, nc in nloops:
                    for r in l["breaks"][nb:]:
                        outs.append((r[0], ("brk", l)))
                    for r in l["conts"][nc:]:
                        outs.append((r[0], ("cont", l)))
                    del l["breaks"][nb:]
                    del l["conts"][nc:]
                # exceptions propagate into the generator at the yield point
                for snap, name, v, where in raised:
                    if self.handlers and len(self.handlers) > len(outer_handlers):
                        self.handlers[-1].append((snap, name, v, where))
                    else:
                        if outer_handlers:
                            outer_handlers[-1].append((snap, name, v, where))
                        else:
                            self.raises.append((self.conj(snap[2]), name, where))
                            self.last_raise_snap = snap
                if not outs:
                    raise Dead
                if len(outs) == 1:
                    st.restore(outs[0][0])
                    pend["out"] = outs
                else:
                    # continue the generator once on the merged state
                    pcs = [(o[0][2], o[1]) for o in outs]
                    self.merge_records(base, [(o[0], None) for o in outs])
                    pend["out"] = outs
                    pend["base"] = base
                return None
            f = cm.func
            self.call_func(f, cm.args, cm.kwargs, on_yield=on_yield)
            outs = pend.get("out")
            if outs is None:
                self.note("context manager did not yield")
                return
            if all(o[1] == "normal" for o in outs):
                return

            def finish(o):
                if o[1] == "normal":
                    return
                kind = o[1][0]
                if kind == "ret":
                    fr.returns.append((st.snap(), o[1][1]))
                elif kind == "brk":
                    o[1][1]["breaks"].append((st.snap(), None))
                else:
                    o[1][1]["conts"].append((st.snap(), None))
                raise Dead
            self._redistribute(outs, pend, finish)
            return
        # object with __enter__/__exit__
        native = isinstance(cm, NativeObj) and hasattr(cm, "enter")
        if native or isinstance(cm, Ref) and isinstance(st.get(cm), HInst):
            val = cm.enter(self) if native else self.call(self.getattr(cm, "__enter__"), [], {}, fr)
            base = st.snap()
            nret = len(fr.returns)
            raised = []
            self.handlers.append(raised)
            normal = None
            try:
                body(val)
                normal = st.snap()
            except Dead:
                pass
            finally:
                self.handlers.pop()
            newret = fr.returns[nret:]
            del fr.returns[nret:]

            def ex(snap, args):
                st.restore(snap)
                if native:
                    cm.exit(self, val)
                else:
                    self.call(self.getattr(cm, "__exit__"), args, {}, fr)
                return st.snap()
            for snap, v in newret:
                fr.returns.append((ex(snap, [None, None, None]), v))
            for snap, name, v, where in raised:
                s2 = ex(snap, [ExtV("builtins." + name), v, sym("tb")])
                if self.handlers:
                    self.handlers[-1].append((s2, name, v, where))
                else:
                    self.raises.append((self.conj(s2[2]), name, where))
                    self.last_raise_snap = s2
            if normal is None:
                raise Dead
            st.restore(ex(normal, [None, None, None]))
            return
        # unknown manager: transparent
        body(self.opaque("with", ) if cm is None else cm)

    def _redistribute(self, outs, pend, finish):
        if len(outs) == 1:
            return finish(outs[0])
        base = pend["base"]

        def go(i):
            if i == len(outs) - 1:
                return finish(outs[i])
            c = self.conj(outs[i][0][2][len(base[2]):])
            return self.fork(c, lambda: finish(outs[i]), lambda: go(i + 1))
        go(0)

    # ------------------------------------------------------------ loops
    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        it = self.resolve(it)
        items = self.try_iter(it)
        if items is None:
            return self.sym_for(s, it, fr)
        if len(items) > 4096:
            raise AnalysisLimit("loop")
        loop = {"breaks": [], "conts": []}
        base = self.st.snap()
        fr.loops.append(loop)
        alive = True
        try:
            for x in items:
                try:
                    self.assign(s.target, x, fr)
                    self.exec_block(s.body, fr)
                    normal = [(self.st.snap(), None)]
                except Dead:
                    normal = []
                cur = loop["conts"] + normal
                loop["conts"] = []
                if not cur:
                    alive = False
                    break
                self.merge_records(base, cur)
        finally:
            fr.loops.pop()
        if alive and s.orelse:
            try:
                self.exec_block(s.orelse, fr)
            except Dead:
                alive = False
        outs = loop["breaks"] + ([(self.st.snap(), None)] if alive else [])
        if not outs:
            raise Dead
        self.merge_records(base, outs)

    def x_While(self, s, fr):
        loop = {"breaks": [], "conts": []}
        base = self.st.snap()
        fr.loops.append(loop)
        alive = True
        n = 0
        try:
            while True:
                c = self.eval_cond(s.test, fr)
                d = self.decide(c)
                if d is False:
                    break
                if d is None:
                    fr.loops.pop()
                    try:
                        self.sym_while(s, fr, loop)
                    finally:
                        fr.loops.append(loop)
                    break
                n += 1
                if n > 4096:
                    raise AnalysisLimit("while")
                try:
                    self.exec_block(s.body, fr)
                    normal = [(self.st.snap(), None)]
                except Dead:
                    normal = []
                cur = loop["conts"] + normal
                loop["conts"] = []
                if not cur:
                    alive = False
                    break
                self.merge_records(base, cur)
        finally:
            fr.loops.pop()
        outs = loop["breaks"] + ([(self.st.snap(), None)] if alive else [])
        if not outs:
            raise Dead
        self.merge_records(base, outs)

    def x_Break(self, s, fr):
        fr.loops[-1]["breaks"].append((self.st.snap(), None))
        raise Dead

    def x_Continue(self, s, fr):
        fr.loops[-1]["conts"].append((self.st.snap(), None))
        raise Dead

    def sym_for(self, s, it, fr):
        seq = self.iter_term(it)
        elem = self.iter_elem(it, seq)

        def once():
            self.assign(s.target, elem, fr)
            self.exec_block(s.body, fr)
        self.summarise(once, ("for", seq), fr)

    def sym_while(self, s, fr, loop):
        def once():
            c = self.eval_cond(s.test, fr)
            self._add_fact(c, True)
            self._loop_cond = c
            self.exec_block(s.body, fr)
        self.summarise(once, ("while",), fr, lambda: self.eval_cond(s.test, fr))

    def iter_term(self, it):
        if isinstance(it, RangeV):
            return T("range", it.lo, it.hi, it.st)
        return self.as_term(it)

    def iter_elem(self, it, seq):
        self.loop_depth += 1
        d = self.loop_depth
        self.loop_depth -= 1
        if isinstance(it, RangeV):
            return T("elem", seq, d, ty="int")
        if isinstance(it, Ref) and isinstance(self.st.get(it), HTensor):
            h = self.st.get(it)
            return self.new_tensor(T("elem", self.cell_term(h), d), h.dtype)
        if isinstance(it, Term) and it.op == "zip":
            return tuple(self.iter_elem(x, self.as_term(x)) for x in it.args)
        if isinstance(it, Term) and it.op == "enumerate":
            return (T("elemidx", it.args[0], d, ty="int"), self.iter_elem(it.args[0], self.as_term(it.args[0])))
        e = T("elem", seq, d, ty="int" if isinstance(seq, Term) and seq.ty == "size" else None)
        f = self.params.get("elem_hook")
        if f:
            r = f(self, it, e)
            if r is not None:
                return r
        return e

    def summarise(self, once, kind, fr, cond=None):
        """Loop summary: changed cells become mu terms of (init, next)."""
        st = self.st
        base = st.snap()
        loop = {"breaks": [], "conts": []}
        fr.loops.append(loop)
        self.loop_depth += 1
        depth = self.loop_depth
        nret = len(fr.returns)
        try:
            def run():
                loop["breaks"], loop["conts"] = [], []
                try:
                    once()
                    outs = [(st.snap(), None)]
                except Dead:
                    outs = []
                outs = loop["breaks"] + loop["conts"] + outs
                if not outs:
                    return None
                if loop["breaks"]:
                    self.note("break in symbolic loop")
                self.merge_records(base, outs)
                return st.snap()
            ev0 = len(self.events)
            after = run()
            del self.events[ev0:]
            if len(fr.returns) > nret:
                self.note("return inside symbolic loop")
            del fr.returns[nret:]
            if after is None:
                st.restore(base)
                return
            changed = []
            for i, c in after[0].items():
                b = base[0].get(i, st.base.get(i))
                if b is None or b is c:
                    continue
                if isinstance(c, HEnv):
                    for k in c.vars:
                        if c.vars[k] is not b.vars.get(k, UNDEF) and not (
                                is_const(c.vars[k]) and is_const(b.vars.get(k, UNDEF)) and
                                _k(c.vars[k]) == _k(b.vars.get(k, UNDEF))):
                            changed.append((i, "env", k))
                elif isinstance(c, HInst):
                    for k in c.attrs:
                        if c.attrs[k] is not b.attrs.get(k, UNDEF):
                            changed.append((i, "attr", k))
                elif isinstance(c, HTensor):
                    changed.append((i, "tensor", None))
                elif isinstance(c, HList):
                    changed.append((i, "list", None))
                elif isinstance(c, HDict):
                    changed.append((i, "dict", None))
            changed.sort(key=lambda x: (x[0], x[1], str(x[2])))
            st.restore(base)
            inits = []
            lvs = []

            def getv(i, k, n, heap):
                c = heap.get(i, st.base.get(i))
                if k == "env":
                    return c.vars.get(n, UNDEF)
                if k == "attr":
                    return c.attrs.get(n, UNDEF)
                return c

            def setv(i, k, n, v):
                c = st.heap.get(i, st.base.get(i))
                if k == "env":
                    st.heap[i] = HEnv({**c.vars, n: v}, c.parent)
                elif k == "attr":
                    st.heap[i] = HInst(c.cls, {**c.attrs, n: v})
                else:
                    st.heap[i] = v

            def abstract(v, lv, sample=None):
                """value shaped like v with content lv"""
                if isinstance(v, Ref):
                    h = st.get(v)
                    if isinstance(h, HTensor):
                        return self.new_tensor(lv, h.dtype)
                    if isinstance(h, HList):
                        return st.new(HList(None, lv))
                    return v
                if isinstance(v, HTensor):
                    return HTensor(lv, v.dtype, None, v.meta)
                if isinstance(v, HList):
                    return HList(None, lv)
                if isinstance(v, HDict):
                    return HDict({}, v.kind, lv)
                if isinstance(v, Term) or (is_const(v) and v is not None):
                    return lv
                return lv

            def termof(v):
                if isinstance(v, HTensor):
                    return self.cell_term(v)
                if isinstance(v, HList):
                    return self.list_term(v)
                if isinstance(v, HDict):
                    return v.sym if v.sym is not None else T("dict", *sum([[self.as_term(k), self.as_term(x)] for k, x in v.items.items()], []))
                if v is UNDEF:
                    return T("undef")
                return self.as_term(v)
            for j, (i, k, n) in enumerate(changed):
                v = getv(i, k, n, base[0])
                inits.append(termof(v))
                lv = T("lv", depth, j, ty=ty_of(v) if not isinstance(v, (HTensor, HList, HDict, Ref)) else None)
                lvs.append(lv)
                setv(i, k, n, abstract(v, lv) if v is not UNDEF else lv)
            pre = st.snap()
            ctest = cond() if cond else None
            st.restore(pre)
            base2 = st.snap()
            base_save = base
            after = None
            loop["breaks"], loop["conts"] = [], []
            try:
                once()
                after = st.snap()
            except Dead:
                pass
            outs = loop["breaks"] + loop["conts"] + ([(after, None)] if after else [])
            if outs:
                self.merge_records(base2, outs)
                after = st.snap()
            del fr.returns[nret:]
            nexts = []
            if after is None:
                st.restore(base)
                return
            st.heap = after[0].copy()
            vals = []
            for j, (i, k, n) in enumerate(changed):
                v = getv(i, k, n, after[0])
                vals.append(v)
                nexts.append(termof(v))
            keep_new = {i: c for i, c in after[0].items() if i not in base[0] and i not in st.base}
            st.restore(base)
            for i, c in keep_new.items():
                st.heap[i] = c
            spec = T(*kind) if ctest is None else T(kind[0], ctest)
            tin, tnx = tuple(inits), tuple(nexts)
            for j, (i, k, n) in enumerate(changed):
                # common special case: list append in a for loop
                nx = nexts[j]
                if isinstance(nx, Term) and nx.op == "append" and nx.args[0] is lvs[j] and kind[0] == "for" \
                        and not self.mentions(nx.args[1], [l for l in lvs]):
                    r = T("mapcat", inits[j], nx.args[1], kind[1])
                else:
                    r = T("mu", depth, j, tin, tnx, spec)
                v = getv(i, k, n, base[0])
                sample = v if v is not UNDEF else vals[j]
                setv(i, k, n, abstract(sample, r))
            return
        finally:
            self.loop_depth -= 1
            fr.loops.pop()

    def mentions(self, t, lvs):
        ids = {l.id for l in lvs}
        return any(x.id in ids for x in walk(t))

    def x_ExprStmt(self, s, fr):
        self.eval(s.value, fr)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.opaque("expr " + type(e).__name__)
        return m(e, fr)

    def eval_cond(self, e, fr):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return t_not(self.eval_cond(e.operand, fr))
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)

            def rest(i):
                c = self.eval_cond(e.values[i], fr)
                d = self.decide(c)
                if i == len(e.values) - 1:
                    return c if d is None else d
                if conj:
                    if d is False:
                        return False
                    if d is True:
                        return rest(i + 1)
                    r = self.fork(c, lambda: rest(i + 1), lambda: False)
                    return t_and(c, r.args[1] if isinstance(r, Term) and r.op == "ite" and r.args[0] is c else r) if not isinstance(r, bool) else (c if r else False)
                if d is True:
                    return True
                if d is False:
                    return rest(i + 1)
                r = self.fork(c, lambda: True, lambda: rest(i + 1))
                return r
            r = rest(0)
            return self.as_cond(r)
        return self.truth(self.eval(e, fr))

    def as_cond(self, r):
        if isinstance(r, Term) and r.op == "ite":
            c, a, b = r.args
            if b is False:
                return t_and(c, a)
            if a is True:
                return t_or(c, b)
        return r

    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, Phi):
            a, b = self.truth(v.a), self.truth(v.b)
            return t_ite(v.cond, a, b) if not (isinstance(a, bool) and a is b) else a
        if v is None or isinstance(v, (bool, int, float, str, tuple, bytes)):
            return bool(v)
        if isinstance(v, Term):
            if v.ty == "bool":
                return v
            if v.ty in ("int", "float"):
                return t_not(t_eq(v, 0))
            return T("truth", v, ty="bool")
        if isinstance(v, Ref):
            h = self.st.get(v)
            if isinstance(h, HList):
                if h.items is not None:
                    return len(h.items) > 0
                return T("truth", h.sym, ty="bool")
            if isinstance(h, HDict):
                if h.sym is None:
                    return len(h.items) > 0
                return T("truth", h.sym, ty="bool")
            if isinstance(h, HTensor):
                t = self.cell_term(h)
                if h.dtype == "crypt":
                    self.raise_exc("RuntimeError", "Cannot evaluate CrypTensors to boolean values")
                return T("truth", t, ty="bool") if not isinstance(t, (int, bool, float)) else bool(t)
            if isinstance(h, HInst):
                for n in ("__bool__", "__len__"):
                    f = self.class_lookup(h.cls, n) if h.cls else None
                    if isinstance(f, FuncV):
                        r = self.call(BoundV(v, f), [], {}, (self.frames[-1] if self.frames else None))
                        return self.truth(r)
                return True
        if isinstance(v, NativeObj):
            f = getattr(v, "truth", None)
            return f(self) if f else True
        return True

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.get_name(fr, self.mangle(e.id, fr) if False else e.id)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.eval_elts(e.elts, fr))

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                it = self.try_iter(v)
                if it is None:
                    out.append(T("star", self.as_term(v)))
                else:
                    out.extend(it)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return self.new_list(self.eval_elts(e.elts, fr))

    def new_list(self, items):
        return self.st.new(HList(tuple(items)))

    def e_Set(self, e, fr):
        items = self.eval_elts(e.elts, fr)
        return self.st.new(HDict({self.key(x): (x, True) for x in items}, "set"))

    def key(self, v):
        """hashable dict key of an abstract value"""
        v = self.resolve(v)
        if isinstance(v, tuple):
            return tuple(self.key(x) for x in v)
        if isinstance(v, Ref):
            h = self.st.get(v)
            if isinstance(h, HDict) and h.kind in ("set", "frozenset") and h.sym is None:
                return ("frozenset", frozenset(h.items))
            return v
        if isinstance(v, SliceV):
            return v.key()
        return v

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.resolve(self.eval(v, fr))
                if isinstance(o, Ref) and isinstance(self.st.get(o), HDict) and self.st.get(o).sym is None:
                    d.update(self.st.get(o).items)
                else:
                    self.note("** of unknown mapping")
                continue
            kk = self.eval(k, fr)
            d[self.key(kk)] = (kk, self.eval(v, fr))
        return self.st.new(HDict(d))

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.resolve(self.eval(v.value, fr))
                if is_const(x) and not v.format_spec:
                    parts.append(repr(x) if v.conversion == 114 else str(x))
                else:
                    parts.append(T("fmt", self.as_term(x), ty="str"))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return T("strcat", *parts, ty="str")

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getattr(o, self.mangle(e.attr, fr))

    def mangle(self, name, fr):
        return name

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        i = self.eval_index(e.slice, fr)
        return self.getitem(o, i)

    def eval_index(self, s, fr):
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.eval(x, fr)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, fr):
        return self.eval(e.value, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_IfExp(self, e, fr):
        c = self.eval_cond(e.test, fr)
        return self.fork(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def e_BoolOp(self, e, fr):
        conj = isinstance(e.op, ast.And)

        def rest(i):
            v = self.eval(e.values[i], fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if conj:
                r = self.fork(c, lambda: rest(i + 1), lambda: v)
            else:
                r = self.fork(c, lambda: v, lambda: rest(i + 1))
            if isinstance(r, Term) and r.op == "ite" and ty_of(v) == "bool":
                return self.as_cond(T("ite", r.args[0], r.args[1], False, ty="bool") if conj and r.args[2] is v
                                    else r)
            return r
        return rest(0)

    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            return t_not(self.truth(self.eval(e.operand, fr)))
        v = self.eval(e.operand, fr)
        return self.unop(type(e.op).__name__, v)

    def unop(self, op, v):
        def go(v):
            if isinstance(v, (int, float)):
                return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
            m = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[op]
            if isinstance(v, Ref):
                h = self.st.get(v)
                if isinstance(h, HTensor):
                    return self.tensor_method(v, m, [], {})
                if isinstance(h, HInst):
                    return self.call(self.getattr(v, m, dunder=True), [], {}, (self.frames[-1] if self.frames else None))
            if op == "USub":
                return s_neg(self.as_term(v))
            if op == "UAdd":
                return v
            return T("invert", self.as_term(v), ty=ty_of(v))
        return self.lift(v, go)

    BIN = {"Add": ("__add__", "__radd__", "__iadd__"), "Sub": ("__sub__", "__rsub__", "__isub__"),
           "Mult": ("__mul__", "__rmul__", "__imul__"), "Div": ("__truediv__", "__rtruediv__", "__itruediv__"),
           "FloorDiv": ("__floordiv__", "__rfloordiv__", "__ifloordiv__"), "Mod": ("__mod__", "__rmod__", "__imod__"),
           "Pow": ("__pow__", "__rpow__", "__ipow__"), "MatMult": ("__matmul__", "__rmatmul__", "__imatmul__"),
           "BitXor": ("__xor__", "__rxor__", "__ixor__"), "BitAnd": ("__and__", "__rand__", "__iand__"),
           "BitOr": ("__or__", "__ror__", "__ior__"), "LShift": ("__lshift__", "__rlshift__", "__ilshift__"),
           "RShift": ("__rshift__", "__rrshift__", "__irshift__")}

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b, inplace=False):
        def go(a):
            return self.lift(b, lambda b: self.binop2(op, a, b, inplace))
        return self.lift(a, go)

    def kind(self, v):
        if isinstance(v, Ref):
            h = self.st.get(v)
            if isinstance(h, HTensor):
                return "tensor"
            if isinstance(h, HInst):
                return "inst"
            if isinstance(h, HList):
                return "list"
            if isinstance(h, HDict):
                return "dict"
        if isinstance(v, tuple):
            return "tuple"
        return "scalar"

    def inst_method(self, v, name):
        h = self.st.get(v)
        f = self.class_lookup(h.cls, name) if h.cls else None
        return f

    def binop2(self, op, a, b, inplace):
        n, rn, inn = self.BIN[op]
        ka, kb = self.kind(a), self.kind(b)
        if ka == "inst":
            if inplace and self.inst_method(a, inn) is not None:
                return self.call(self.getattr(a, inn, dunder=True), [b], {}, (self.frames[-1] if self.frames else None))
            if self.inst_method(a, n) is not None:
                return self.call(self.getattr(a, n, dunder=True), [b], {}, (self.frames[-1] if self.frames else None))
        if kb == "inst" and ka != "inst":
            if self.inst_method(b, rn) is not None:
                return self.call(self.getattr(b, rn, dunder=True), [a], {}, (self.frames[-1] if self.frames else None))
        if ka == "tensor":
            if kb == "tensor" and self.st.get(b).dtype == "crypt" and self.st.get(a).dtype != "crypt":
                return self.tensor_method(b, rn, [a], {})
            return self.tensor_method(a, inn if inplace else n, [b], {})
        if kb == "tensor":
            return self.tensor_method(b, rn, [a], {})
        if ka == "list":
            la = self.st.get(a)
            if op == "Add" and kb in ("list", "tuple"):
                ib = self.try_iter(b)
                if la.items is not None and ib is not None:
                    if inplace:
                        self.st.put(a, HList(la.items + tuple(ib)))
                        return a
                    return self.new_list(la.items + tuple(ib))
                t = T("lconcat", self.list_term(la), self.as_term(b))
                if inplace:
                    self.st.put(a, HList(None, t))
                    return a
                return self.st.new(HList(None, t))
            if op == "Mult" and la.items is not None and isinstance(b, int):
                return self.new_list(la.items * b)
            if op == "Mult" and la.items is not None:
                return self.st.new(HList(None, T("lrepeat", self.as_term(tuple(la.items)), self.as_term(b))))
        if kb == "list" and op == "Mult" and isinstance(a, int):
            return self.new_list(self.st.get(b).items * a)
        if ka == "tuple" and kb == "tuple" and op == "Add":
            return a + b
        if ka == "tuple" and op == "Mult" and isinstance(b, int):
            return a * b
        if ka == "dict" and kb == "dict":
            x, y = self.st.get(a), self.st.get(b)
            if x.sym is None and y.sym is None:
                if op == "BitOr":
                    return self.st.new(HDict({**x.items, **y.items}, x.kind))
                if op == "BitAnd":
                    return self.st.new(HDict({k: v for k, v in x.items.items() if k in y.items}, x.kind))
                if op == "Sub":
                    return self.st.new(HDict({k: v for k, v in x.items.items() if k not in y.items}, x.kind))
        if op == "Mod" and isinstance(a, str):
            if is_const(b):
                try:
                    return a % b
                except Exception:
                    return a
            return T("strfmt", a, self.as_term(b), ty="str")
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if (ty_of(a) == "str" or ty_of(b) == "str") and op == "Add":
            return T("strcat", self.as_term(a), self.as_term(b), ty="str")
        return self.scalar_bin(op, a, b)

    def scalar_bin(self, op, a, b):
        a, b = self.as_term(a), self.as_term(b)
        if isnum(a) and isnum(b):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b,
                        "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b,
                        "BitXor": lambda: a ^ b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                        "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
            except ZeroDivisionError:
                self.raise_exc("ZeroDivisionError", "")
            except Exception:
                pass
        if op == "Add":
            return s_add(a, b)
        if op == "Sub":
            return s_sub(a, b)
        if op == "Mult":
            return s_mul(a, b)
        if op == "Div":
            if isnum(b) and b == 1:
                return a
            return T("div", a, b, ty="float")
        if op == "FloorDiv":
            if isnum(b) and b == 1:
                return a
            return T("floordiv", a, b, ty=num_ty(a, b))
        if op == "Mod":
            return T("mod", a, b, ty=num_ty(a, b))
        if op == "Pow":
            if isinstance(b, int) and b == 1:
                return a
            return T("pow", a, b, ty=num_ty(a, b))
        if op in ("BitAnd", "BitOr") and ty_of(a) == "bool" and ty_of(b) == "bool":
            return t_and(a, b) if op == "BitAnd" else t_or(a, b)
        return T({"BitXor": "xor", "BitAnd": "band", "BitOr": "bor", "LShift": "lshift", "RShift": "rshift",
                  "MatMult": "matmul"}[op], a, b, ty=num_ty(a, b))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            res = t_and(res, self.truth(c))
            left = right
        return res

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else t_not(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else t_not(r)
        if isinstance(a, Phi):
            x, y = (lambda: self.compare(op, a.a, b)), (lambda: self.compare(op, a.b, b))
            return self.fork(a.cond, x, y)
        if isinstance(b, Phi):
            return self.fork(b.cond, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        m = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
        rm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}[op]
        ka, kb = self.kind(a), self.kind(b)
        if ka == "inst" and self.inst_method(a, m) is not None:
            return self.call(self.getattr(a, m, dunder=True), [b], {}, (self.frames[-1] if self.frames else None))
        if kb == "inst" and self.inst_method(b, rm) is not None:
            return self.call(self.getattr(b, rm, dunder=True), [a], {}, (self.frames[-1] if self.frames else None))
        if ka == "tensor":
            return self.tensor_method(a, m, [b], {})
        if kb == "tensor":
            return self.tensor_method(b, rm, [a], {})
        if op in ("Eq", "NotEq"):
            r = self.eq(a, b)
            return r if op == "Eq" else t_not(r)
        x, y = self.as_term(a), self.as_term(b)
        if isinstance(x, (str, tuple)) and isinstance(y, (str, tuple)) and is_const(x) and is_const(y):
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
        if op == "Lt":
            return t_lt(x, y)
        if op == "Gt":
            return t_lt(y, x)
        if op == "LtE":
            return t_not(t_lt(y, x))
        return t_not(t_lt(x, y))

    def eq(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, (ClassV, FuncV, ModV, ExtV)) or isinstance(b, (ClassV, FuncV, ModV, ExtV)):
            if isinstance(a, Term) or isinstance(b, Term):
                return T("eq", self.as_term(a), self.as_term(b), ty="bool")
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a is b:
                return True
            x, y = self.st.get(a), self.st.get(b)
            if isinstance(x, HList) and isinstance(y, HList) and x.items is not None and y.items is not None:
                return self.eq(tuple(x.items), tuple(y.items))
            if isinstance(x, HInst) or isinstance(y, HInst):
                return False
            if isinstance(x, HDict) and isinstance(y, HDict) and x.sym is None and y.sym is None and \
                    not any(isinstance(q, (Term, Ref)) for q in (*x.items, *y.items)):
                if set(x.items) != set(y.items):
                    return False
                r = True
                if x.kind != "set":
                    for q in x.items:
                        u, w = (z[1] if isinstance(z, tuple) else z for z in (x.items[q], y.items[q]))
                        r = t_and(r, self.truth(self.eq(u, w)))
                return r
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Ref) and isinstance(b, Ref):
                return T("eq", self.as_term(a), self.as_term(b), ty="bool")
            o, r = (b, a) if isinstance(a, Ref) else (a, b)
            h = self.st.get(r)
            if is_const(o) and (o is None or isinstance(o, str) or isinstance(h, (HInst,))):
                return False
            if isinstance(h, HList) and isinstance(o, tuple):
                return False
            if isinstance(h, HList) and not isinstance(o, Term):
                return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = t_and(r, self.truth(self.eq(x, y)))
            return r
        if isinstance(a, NativeObj) or isinstance(b, NativeObj):
            if isinstance(a, NativeObj) and hasattr(a, "eq"):
                return a.eq(self, b)
            return a is b
        x, y = self.as_term(a), self.as_term(b)
        if isinstance(x, tuple) != isinstance(y, tuple) and not (isinstance(x, Term) or isinstance(y, Term)):
            return False
        return t_eq(x, y)

    def is_(self, a, b):
        if isinstance(a, Phi):
            return t_ite(a.cond, self.is_(self.resolve(a.a), b), self.is_(self.resolve(a.b), b))
        if isinstance(b, Phi):
            return t_ite(b.cond, self.is_(a, self.resolve(b.a)), self.is_(a, self.resolve(b.b)))
        if a is b:
            return True
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Term):
                if o.op == "ite":
                    return t_ite(o.args[0], self.is_(o.args[1], None), self.is_(o.args[2], None))
                if o.ty is not None and o.ty != "opt":
                    return False
                return T("isnone", o, ty="bool")
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            o = b if isinstance(a, bool) else a
            if isinstance(o, Term):
                v = a if isinstance(a, bool) else b
                if o.ty == "bool":
                    return o if v else t_not(o)
                return T("eq", o, v, ty="bool")
            return False
        if isinstance(a, Term) or isinstance(b, Term):
            return T("is", self.as_term(a), self.as_term(b), ty="bool")
        if is_const(a) and is_const(b):
            return a == b and type(a) is type(b)
        return a is b

    def contains(self, c, x):
        c, x = self.resolve(c), self.resolve(x)
        if isinstance(c, Phi):
            return self.fork(c.cond, lambda: self.contains(c.a, x), lambda: self.contains(c.b, x))
        if isinstance(x, Phi):
            return self.fork(x.cond, lambda: self.contains(c, x.a), lambda: self.contains(c, x.b))
        if isinstance(c, NativeObj) and hasattr(c, "contains"):
            return c.contains(self, x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, ModV) or isinstance(c, ExtV):
            return T("contains", self.as_term(c), self.as_term(x), ty="bool")
        if isinstance(c, Ref) and isinstance(self.st.get(c), HDict) and self.st.get(c).sym is None:
            d = self.st.get(c)
            k = self.key(x)
            if k in d.items:
                v = d.items[k]
                v = v[1] if isinstance(v, tuple) else v
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    return v.cond if v.b is UNDEF else t_not(v.cond)
                return True
            if isinstance(k, Term) or any(isinstance(q, Term) for q in d.items):
                r = False
                for q in d.items:
                    r = t_or(r, self.truth(self.eq(q, x)))
                return r
            return False
        if isinstance(c, Ref) and isinstance(self.st.get(c), HInst):
            f = self.inst_method(c, "__contains__")
            if f is not None:
                return self.call(BoundV(c, f), [x], {}, (self.frames[-1] if self.frames else None))
        it = self.try_iter(c)
        if it is not None:
            r = False
            for q in it:
                e = self.is_(q, x) if isinstance(q, Ref) and isinstance(x, Ref) else self.eq(q, x)
                r = t_or(r, self.truth(e))
            return r
        return T("contains", self.as_term(c), self.as_term(x), ty="bool")

    # comprehension
    def comp(self, gens, fr, leaf):
        """unrolled evaluation; returns list or None when a generator is symbolic"""
        out = []
        env = self.st.new(HEnv({}, fr.env))
        cfr = Frame(env, fr.module, fr.func, fr.pc_base)
        cfr.lineno = getattr(fr, "lineno", 0)
        if hasattr(fr, "class_being_defined"):
            pass
        cfr.qualprefix = getattr(fr, "qualprefix", "")
        cfr.comp_parent = fr
        cfr.self_cls = fr.self_cls

        def go(i):
            if i == len(gens):
                out.append(leaf(cfr))
                return True
            g = gens[i]
            it = self.resolve(self.eval(g.iter, cfr if i else fr))
            items = self.try_iter(it)
            if items is None:
                return (it, i)
            for x in items:
                self.assign(g.target, x, cfr)
                conds = True
                for c in g.ifs:
                    cc = self.eval_cond(c, cfr)
                    d = self.decide(cc)
                    if d is False:
                        conds = False
                        break
                    if d is None:
                        conds = t_and(conds, cc)
                if conds is False:
                    continue
                if conds is not True:
                    # element present under a condition
                    n = len(out)
                    self.fork(conds, lambda: go(i + 1), lambda: None)
                    if len(out) > n:
                        out[-1] = ("__cond__", conds, out[-1])
                    continue
                r = go(i + 1)
                if r is not True:
                    return r
            return True
        self.frames.append(cfr)
        try:
            r = go(0)
            if r is True:
                return out, None
            it, i = r
            g = gens[i]
            seq = self.iter_term(it)
            self.loop_depth += 0
            self.assign(g.target, self.iter_elem(it, seq), cfr)
            conds = True
            for c in g.ifs:
                conds = t_and(conds, self.truth(self.eval(c, cfr)))
            v = leaf(cfr)
            return None, (seq, conds, v)
        finally:
            self.frames.pop()

    def comp_list(self, gens, fr, elt):
        out, s = self.comp(gens, fr, lambda f: self.eval(elt, f))
        if out is not None:
            if any(isinstance(x, tuple) and len(x) == 3 and x[0] == "__cond__" for x in out):
                t = self.as_term(())
                t = T("list")
                for x in out:
                    if isinstance(x, tuple) and len(x) == 3 and x[0] == "__cond__":
                        t = T("appendif", t, x[1], self.as_term(x[2]))
                    else:
                        t = T("append", t, self.as_term(x))
                return self.st.new(HList(None, t))
            return self.new_list(out)
        seq, conds, v = s
        e = self.as_term(v)
        return self.st.new(HList(None, T("mapcat", T("list"), e, seq) if conds is True else
                                 T("mapcatif", T("list"), conds, e, seq)))

    def e_ListComp(self, e, fr):
        return self.comp_list(e.generators, fr, e.elt)

    def e_GeneratorExp(self, e, fr):
        return self.comp_list(e.generators, fr, e.elt)

    def e_SetComp(self, e, fr):
        l = self.comp_list(e.generators, fr, e.elt)
        h = self.st.get(l)
        if h.items is None:
            return self.st.new(HDict({}, "set", h.sym))
        return self.st.new(HDict({self.key(x): (x, True) for x in h.items}, "set"))

    def e_DictComp(self, e, fr):
        out, s = self.comp(e.generators, fr, lambda f: (self.eval(e.key, f), self.eval(e.value, f)))
        if out is not None:
            d = {}
            for x in out:
                if len(x) == 3:
                    self.note("conditional dict comprehension")
                    x = x[2]
                d[self.key(x[0])] = (x[0], x[1])
            return self.st.new(HDict(d))
        seq, conds, v = s
        return self.st.new(HDict({}, "dict", T("mapdict", self.as_term(v), seq, conds)))

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while getattr(f, "comp_parent", None):
            f = f.comp_parent
        if f.on_yield is None:
            return self.opaque("yield")
        return f.on_yield(v)

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        it = self.try_iter(v)
        if it is None or fr.on_yield is None:
            return self.opaque("yield from")
        for x in it:
            fr.on_yield(x)
        return None

    def e_Await(self, e, fr):
        return self.eval(e.value, fr)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while getattr(f, "comp_parent", None):
                f = f.comp_parent
            cls = f.func.cls
            env = self.st.get(f.env)
            first = f.func.node.args.args[0].arg if f.func.node.args.args else None
            return SuperV(cls, env.vars.get(first))
        fn = self.eval(e.func, fr)
        args = self.eval_elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.resolve(self.eval(k.value, fr))
                if isinstance(o, Ref) and isinstance(self.st.get(o), HDict) and self.st.get(o).sym is None:
                    for kk, vv in self.st.get(o).items.items():
                        kwargs[kk] = vv[1] if isinstance(vv, tuple) else vv
                else:
                    kwargs["**"] = o
                    self.note("call with unknown **kwargs")
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        fr.lineno = e.lineno
        return self.call(fn, args, kwargs, fr)

    def call(self, fn, args, kwargs, fr=None):
        fr = fr or (self.frames[-1] if self.frames else None)
        fn = self.resolve(fn)
        if isinstance(fn, Phi):
            return self.fork(fn.cond, lambda: self.call(fn.a, args, kwargs, fr),
                             lambda: self.call(fn.b, args, kwargs, fr))
        if isinstance(fn, BuiltinV):
            return fn.fn(self, args, kwargs)
        if isinstance(fn, BoundV):
            f = fn.func
            if isinstance(f, FuncV):
                return self.call_func(f, [fn.self_] + list(args), kwargs)
            if isinstance(f, BuiltinV):
                return f.fn(self, [fn.self_] + list(args), kwargs)
            return self.call(f, [fn.self_] + list(args), kwargs, fr)
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, ExtV):
            return self.ext_call(fn, args, kwargs)
        if isinstance(fn, PartialV):
            return self.call(fn.func, list(fn.args) + list(args), {**fn.kwargs, **kwargs}, fr)
        if isinstance(fn, NativeObj):
            return fn.call(self, args, kwargs)
        if isinstance(fn, StaticV):
            return self.call(fn.f, args, kwargs, fr)
        if isinstance(fn, Ref):
            h = self.st.get(fn)
            if isinstance(h, HInst) and h.cls is not None:
                f = self.class_lookup(h.cls, "__call__")
                if f is not None:
                    return self.call(BoundV(fn, f), args, kwargs, fr)
        if isinstance(fn, Term):
            targs = [self.as_term(a) for a in args] + [T("kw", k, self.as_term(v)) for k, v in sorted(kwargs.items())]
            h = self.params.get("call_hook")
            if h:
                r = h(self, fn, args, kwargs)
                if r is not None:
                    return r
            return T("apply", fn, *targs)
        if fn is None:
            self.raise_exc("TypeError", "None is not callable")
        return self.opaque("call of %r" % (fn,))

    def instantiate(self, cls, args, kwargs):
        if cls.qual in self.overrides:
            return self.call(self.overrides[cls.qual], args, kwargs)
        if cls.is_enum:
            for k, v in self.st.get(cls.ref).attrs.items():
                if isinstance(v, Ref) and isinstance(self.st.get(v), HInst) and args:
                    if self.st.get(v).attrs.get("value") == args[0]:
                        return v
            return self.opaque("enum")
        if any(isinstance(b, ExtV) and b.name.split(".")[-1] in EXC for b in cls.mro):
            return self.st.new(HInst(cls, {"__exc__": cls.name, "args": tuple(args)}))
        new = self.class_lookup(cls, "__new__")
        if isinstance(new, StaticV):
            new = new.f
        if isinstance(new, FuncV):
            r = self.call_func(new, [cls] + list(args), kwargs)
        else:
            ext = [b.name for b in cls.mro if isinstance(b, ExtV)]
            if any(x in ("builtins.dict", "collections.OrderedDict") for x in ext):
                r = self.st.new(HDict({}))
                return r
            r = self.st.new(HInst(cls, {}))
        if isinstance(r, Ref) and isinstance(self.st.get(r), HInst) and self.st.get(r).cls is cls:
            init = self.class_lookup(cls, "__init__")
            if init is not None:
                self.call(BoundV(r, init), args, kwargs)
        return r

    def call_func(self, f, args, kwargs, on_yield=None):
        ov = self.overrides.get(f.qual)
        if ov is not None and not getattr(self, "_no_override", None) == f.qual:
            return self.call(ov, args, kwargs)
        if f.is_cm and on_yield is None:
            return CMV(f, list(args), dict(kwargs))
        if len(self.frames) > MAXDEPTH:
            raise AnalysisLimit("depth of calls at " + f.qual)
        rec = sum(1 for fr in self.frames if fr.func is not None and fr.func.node is f.node)
        if rec > 40:
            raise AnalysisLimit("recursion of " + f.qual)
        self.trace.append(f.qual)
        collected = None
        if f.is_gen and on_yield is None:
            collected = []
            on_yield = lambda v: (collected.append(v), None)[1]
        env = self.bind(f, args, kwargs)
        st = self.st
        fr = Frame(env, f.module, f, len(st.pc))
        fr.qualprefix = ""
        fr.on_yield = on_yield
        self.frames.append(fr)
        base = st.snap()
        try:
            body = f.node.body
            if isinstance(f.node, ast.Lambda):
                return self.eval(body, fr)
            try:
                self.exec_block(body, fr)
                fr.returns.append((st.snap(), None))
            except Dead:
                pass
        finally:
            self.frames.pop()
        if not fr.returns:
            raise Dead
        if len(fr.returns) == 1:
            st.restore(fr.returns[0][0])
            v = fr.returns[0][1]
        else:
            v = self.merge_records(base, fr.returns)
        if len(st.pc) > len(base[2]) and len(fr.returns) > 1:
            pass
        if collected is not None:
            return self.new_list(collected)
        return v

    def bind(self, f, args, kwargs):
        a = f.node.args
        vars = {}
        names = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        args = list(args)
        # a single symbolic star argument
        pos = args[: len(names)]
        rest = args[len(names):]
        for n, v in zip(names, pos):
            vars[n] = v
        kw = dict(kwargs)
        unknown_kw = kw.pop("**", None)
        for n in names[len(pos):]:
            if n in kw:
                vars[n] = kw.pop(n)
        for n in names[: len(pos)]:
            if n in kw:
                self.raise_exc("TypeError", "multiple values for argument %s in %s" % (n, f.qual))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vars:
                j = i - (len(names) - nd)
                if j >= 0:
                    vars[n] = f.defaults[j]
                else:
                    self.raise_exc("TypeError", "missing argument %s of %s" % (n, f.qual))
        if a.vararg:
            vars[a.vararg.arg] = tuple(rest)
        elif rest:
            self.raise_exc("TypeError", "too many arguments for %s" % f.qual)
        for k, d in zip(a.kwonlyargs, f.kwdefaults):
            if k.arg in kw:
                vars[k.arg] = kw.pop(k.arg)
            elif d is not None:
                vars[k.arg] = d[0]
            else:
                self.raise_exc("TypeError", "missing kw argument")
        if a.kwarg:
            vars[a.kwarg.arg] = self.st.new(HDict({k: (k, v) for k, v in kw.items()},
                                                  "dict", unknown_kw and T("dictplus", self.as_term(unknown_kw))))
        elif kw:
            self.raise_exc("TypeError", "unexpected keyword argument %s for %s" % (sorted(kw), f.qual))
        return self.st.new(HEnv(vars, f.env))

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name, after=None):
        if cls is None:
            return None
        skip = after is not None
        for c in cls.mro:
            if skip:
                if c is after:
                    skip = False
                continue
            if isinstance(c, ClassV):
                d = self.st.get(c.ref).attrs
                if name in d:
                    return d[name]
            elif isinstance(c, ExtV):
                r = self.ext_class_attr(c, name)
                if r is not None:
                    return r
        return None

    def bind_attr(self, obj, cls, v):
        if isinstance(v, FuncV):
            return BoundV(obj, v)
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassMV):
            return BoundV(cls, v.f)
        if isinstance(v, PropV):
            return self.call(v.fget, [obj], {})
        if isinstance(v, BuiltinV) and getattr(v, "method", False):
            return BoundV(obj, v)
        return v

    def getattr(self, o, name, default=NotImpl, dunder=False):
        o = self.resolve(o)
        if isinstance(o, Phi):
            return self.fork(o.cond, lambda: self.getattr(o.a, name, default),
                             lambda: self.getattr(o.b, name, default))
        r = self.getattr1(o, name, dunder)
        if r is UNDEF:
            if default is not NotImpl:
                return default
            self.raise_exc("AttributeError", "%s on %s" % (name, self.describe(o)))
        return self.resolve(r)

    def describe(self, o):
        if isinstance(o, Ref):
            h = self.st.get(o)
            if isinstance(h, HInst):
                return "instance of %s" % (h.cls.name if h.cls else "?")
            return type(h).__name__
        return repr(o)[:80]

    def getattr1(self, o, name, dunder=False):
        if isinstance(o, ModV):
            return self.mod_get(o, name)
        if isinstance(o, ExtV):
            return self.ext_attr(o, name)
        if isinstance(o, NativeObj):
            try:
                return o.getattr(self, name)
            except KeyError:
                return UNDEF
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            if name == "__dict__":
                return self.opaque("class dict")
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__module__":
                return o.module.name
            if o.meta is not None and isinstance(o.meta, ClassV) and not self.params.get("skip_meta"):
                ga = self.class_lookup(o.meta, "__getattribute__")
                if isinstance(ga, FuncV) and not name.startswith("__"):
                    return self.call(BoundV(o, ga), [name], {})
            return self.class_getattr(o, name)
        if isinstance(o, SuperV):
            obj = o.obj
            h = self.st.get(obj) if isinstance(obj, Ref) else None
            cls = h.cls if isinstance(h, HInst) else (obj if isinstance(obj, ClassV) else o.cls)
            v = self.class_lookup(cls, name, after=o.cls)
            if v is None:
                return self.object_attr(obj, name)
            return self.bind_attr(obj, cls, v)
        if isinstance(o, Ref):
            h = self.st.get(o)
            if isinstance(h, HInst):
                cls = h.cls
                if cls is not None:
                    ga = self.class_lookup(cls, "__getattribute__")
                    if isinstance(ga, FuncV) and not dunder and name not in ("__class__", "__dict__"):
                        hook = self.params.get("getattribute_hook")
                        if hook:
                            r = hook(self, o, name)
                            if r is not None:
                                return r
                        return self.call(BoundV(o, ga), [name], {})
                return self.raw_getattr(o, name)
            if isinstance(h, HTensor):
                return self.tensor_attr(o, name)
            if isinstance(h, HDict) and name in getattr(h.kind, "attrs", ()):
                return h.kind.attrs[name]
            if isinstance(h, (HList, HDict)):
                return self.container_attr(o, name)
        if isinstance(o, (FuncV, BoundV)):
            f = o.func if isinstance(o, BoundV) else o
            if name == "__name__" and hasattr(f, "name"):
                return f.name
            if name == "__self__" and isinstance(o, BoundV):
                return o.self_
            if name == "__func__":
                return f
            if isinstance(f, FuncV) and name in f.attrs:
                return f.attrs[name]
            return UNDEF
        if isinstance(o, PropV):
            if name == "setter":
                return BuiltinV("setter", lambda it, a, k: PropV(o.fget, a[0]))
            if name == "fget":
                return o.fget
            return UNDEF
        if isinstance(o, (tuple, str)) or is_const(o):
            return self.const_attr(o, name)
        if isinstance(o, SliceV):
            return {"start": o.lo, "stop": o.hi, "step": o.st}.get(name, UNDEF)
        if isinstance(o, Term):
            return self.term_attr(o, name)
        return UNDEF

    def class_getattr(self, o, name):
        v = self.class_lookup(o, name)
        if v is None:
            d = None
            for c in o.mro:
                if isinstance(c, ClassV) and name in self.st.get(c.ref).attrs:
                    return None
            if name in ("__getattribute__", "__setattr__", "__new__", "__init__", "__delattr__"):
                return self.object_attr(o, name)
            return UNDEF
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassMV):
            return BoundV(o, v.f)
        return v

    def raw_getattr(self, o, name):
        """object.__getattribute__"""
        h = self.st.get(o)
        cls = h.cls
        if name == "__class__":
            return cls
        if name == "__dict__":
            return InstDict(o)
        v = self.class_lookup(cls, name) if cls else None
        if isinstance(v, PropV):
            return self.call(v.fget, [o], {})
        if name in h.attrs:
            x = self.resolve(h.attrs[name])
            if x is not UNDEF:
                return x
        if v is not None:
            return self.bind_attr(o, cls, v)
        for c in (cls.mro if cls else []):
            if isinstance(c, ClassV) and name in self.st.get(c.ref).attrs:
                return None
        if cls is not None:
            ga = self.class_lookup(cls, "__getattr__")
            if isinstance(ga, FuncV):
                return self.call(BoundV(o, ga), [name], {})
        if name in ("__getattribute__", "__setattr__", "__init__", "__repr__", "__hash__"):
            return self.object_attr(o, name)
        return UNDEF

    def object_attr(self, obj, name):
        if name == "__init__":
            return BuiltinV("object.__init__", lambda it, a, k: None)
        if name == "__setattr__":
            return BuiltinV("object.__setattr__", lambda it, a, k: it.raw_setattr(obj, a[0], a[1]))
        if name == "__getattribute__":
            return BuiltinV("object.__getattribute__", lambda it, a, k: it.raw_or_raise(obj, a[0]))
        if name == "__new__":
            return BuiltinV("object.__new__", lambda it, a, k: it.st.new(HInst(a[0], {})))
        if name in ("__enter__", "__exit__", "__delattr__", "__dir__", "__repr__", "__hash__"):
            return BuiltinV("object." + name, lambda it, a, k: it.opaque("object." + name))
        return UNDEF

    def raw_or_raise(self, o, name):
        if isinstance(o, ClassV):
            r = self.class_getattr(o, name)
        elif isinstance(o, Ref) and isinstance(self.st.get(o), HInst):
            r = self.raw_getattr(o, name)
        else:
            r = self.getattr1(o, name, True)
        if r is UNDEF:
            self.raise_exc("AttributeError", "%s on %s" % (name, self.describe(o)))
        return r

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Phi):
            return self.fork(o.cond, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
        if isinstance(o, ModV):
            e = self.st.get(o.ref)
            self.st.put(o.ref, HEnv({**e.vars, name: v}, None))
            return
        if isinstance(o, ClassV):
            d = self.st.get(o.ref)
            self.st.put(o.ref, HInst(None, {**d.attrs, name: v}))
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, NativeObj):
            return o.setattr(self, name, v)
        if isinstance(o, Ref):
            h = self.st.get(o)
            if isinstance(h, HInst):
                cls = h.cls
                sa = self.class_lookup(cls, "__setattr__") if cls else None
                if isinstance(sa, FuncV):
                    self.call(BoundV(o, sa), [name, v], {})
                    return
                return self.raw_setattr(o, name, v)
            if isinstance(h, HTensor):
                return self.tensor_setattr(o, name, v)
            if isinstance(h, HDict) and h.kind == "dict":
                self.st.put(o, HDict(h.items, DKind("dict", {**getattr(h.kind, "attrs", {}), name: v}), h.sym, h.default))
                return
        self.note("setattr %s on %r" % (name, o))

    def raw_setattr(self, o, name, v):
        name = self.resolve(name)
        h = self.st.get(o)
        if isinstance(h, HTensor):
            return self.tensor_setattr(o, name, v)
        p = self.class_lookup(h.cls, name) if h.cls else None
        if isinstance(p, PropV) and p.fset is not None:
            self.call(p.fset, [o, v], {})
            return
        if not isinstance(name, str):
            self.note("setattr with unknown name")
            return
        h = self.st.get(o)
        self.st.put(o, HInst(h.cls, {**h.attrs, name: v}))

    # ------------------------------------------------------------ misc glue
    def new_tensor(self, term, dtype="any", base=None, meta=None):
        return self.st.new(HTensor(term, dtype, base, meta))

    def cell_term(self, h):
        """current term of a tensor cell (views read through their base)"""
        t = h.term
        if h.base is not None:
            ref, op, args = h.base
            bt = self.cell_term(self.st.get(ref))
            t = torchmodel.view_term(bt, op, args)
        return self.resolve(t)

    def tterm(self, ref):
        return self.cell_term(self.st.get(ref))

    def as_term(self, v):
        """term denoting the current value"""
        v = self.resolve(v)
        if isinstance(v, (Term,)) or v is None or isinstance(v, (int, float, str, bool, bytes, Fraction)):
            return v
        if isinstance(v, tuple):
            return tuple(self.as_term(x) for x in v)
        if isinstance(v, Ref):
            h = self.st.get(v)
            if isinstance(h, HTensor):
                return self.cell_term(h)
            if isinstance(h, HList):
                return self.list_term(h) if h.items is None else T("list", *[self.as_term(x) for x in h.items])
            if isinstance(h, HDict):
                if h.sym is not None:
                    return h.sym
                out = []
                for k, x in h.items.items():
                    x = x[1] if isinstance(x, tuple) and len(x) == 2 else x
                    out.append((self.as_term(k), self.as_term(x)))
                return T("dict", *[a for kv in out for a in kv])
            if isinstance(h, HInst):
                if h.cls is not None and h.cls.is_enum:
                    return T("enum", h.cls.name, h.attrs.get("name"))
                t = h.attrs.get("_tensor")
                if t is not None:
                    return T("obj", h.cls.name if h.cls else "?", self.as_term(t))
                return T("inst", h.cls.name if h.cls else "?", v.id)
            return T("ref", v.id)
        if isinstance(v, Phi):
            return t_ite(v.cond, self.as_term(v.a), self.as_term(v.b))
        if isinstance(v, ExtV):
            return T("ext", v.name)
        if isinstance(v, ClassV):
            return T("class", v.qual)
        if isinstance(v, FuncV):
            return T("func", v.qual, v.node.lineno)
        if isinstance(v, BuiltinV):
            return T("builtin", v.name)
        if isinstance(v, ModV):
            return T("module", v.name)
        if isinstance(v, SliceV):
            return T("slice", self.as_term(v.lo), self.as_term(v.hi), self.as_term(v.st))
        if isinstance(v, RangeV):
            return T("range", self.as_term(v.lo), self.as_term(v.hi), self.as_term(v.st), ty="range")
        if isinstance(v, BoundV):
            return T("bound", self.as_term(v.self_), self.as_term(v.func))
        if isinstance(v, NativeObj):
            return v.term(self) if hasattr(v, "term") else T("native", type(v).__name__)
        if v is Ellipsis:
            return T("ellipsis")
        if v is UNDEF:
            return T("undef")
        return T("value", repr(type(v).__name__))

    def try_iter(self, v):
        """python list of element values if the sequence is known, else None"""
        v = self.resolve(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RangeV):
            return None
        if isinstance(v, Ref):
            h = self.st.get(v)
            if isinstance(h, HList):
                if h.items is not None:
                    return list(h.items)
                return self.expand_list_term(h.sym)
            if isinstance(h, HDict) and h.sym is None:
                return [x[0] if isinstance(x, tuple) else k for k, x in h.items.items()]
            if isinstance(h, HTensor):
                n = torchmodel.leading_dim(self, v)
                if isinstance(n, int):
                    return [self.getitem(v, i) for i in range(n)]
                return None
            if isinstance(h, HInst) and h.cls is not None:
                f = self.class_lookup(h.cls, "__iter__")
                if isinstance(f, FuncV):
                    return self.try_iter(self.call(BoundV(v, f), [], {}))
                f = self.class_lookup(h.cls, "__len__")
                g = self.class_lookup(h.cls, "__getitem__")
                if isinstance(f, FuncV) and isinstance(g, FuncV):
                    n = self.call(BoundV(v, f), [], {})
                    if isinstance(n, int):
                        return [self.call(BoundV(v, g), [i], {}) for i in range(n)]
        if isinstance(v, ClassV) and v.is_enum:
            return [x for x in self.st.get(v.ref).attrs.values() if isinstance(x, Ref)]
        if isinstance(v, NativeObj) and hasattr(v, "iter"):
            return v.iter(self)
        return None

    def expand_list_term(self, t):
        if isinstance(t, Term) and t.op == "list":
            return None if any(True for _ in ()) else [self.wrap(a) for a in t.args]
        return None

    def wrap(self, t):
        return t

    def getitem(self, o, i):
        o = self.resolve(o)
        i = self.resolve(i)
        if isinstance(o, Phi):
            return self.fork(o.cond, lambda: self.getitem(o.a, i), lambda: self.getitem(o.b, i))
        if isinstance(i, Phi):
            return self.fork(i.cond, lambda: self.getitem(o, i.a), lambda: self.getitem(o, i.b))
        if isinstance(o, NativeObj):
            return o.getitem(self, i)
        if isinstance(o, (tuple, str)):
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    self.raise_exc("IndexError", "")
            if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.st)):
                return o[slice(i.lo, i.hi, i.st)]
            if isinstance(i, SliceV):
                return T("getslice", self.as_term(o), self.as_term(i))
            return T("item", self.as_term(o), self.as_term(i))
        if isinstance(o, Ref):
            h = self.st.get(o)
            if isinstance(h, HList):
                if h.items is not None:
                    if isinstance(i, bool) or isinstance(i, int):
                        try:
                            return self.resolve(h.items[i])
                        except IndexError:
                            self.raise_exc("IndexError", "list index")
                    if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.st)):
                        return self.new_list(h.items[slice(i.lo, i.hi, i.st)])
                if isinstance(i, SliceV):
                    return self.st.new(HList(None, T("getslice", self.as_term(o), self.as_term(i))))
                e = T("item", self.as_term(o), self.as_term(i))
                hk = self.params.get("elem_hook")
                if hk:
                    r = hk(self, o, e)
                    if r is not None:
                        return r
                return e
            if isinstance(h, HDict):
                k = self.key(i)
                if k in h.items:
                    x = h.items[k]
                    x = self.resolve(x[1] if isinstance(x, tuple) else x)
                    return x
                if h.sym is None and not isinstance(k, Term) and not any(isinstance(q, Term) for q in h.items):
                    if h.default is not None:
                        v = self.call(h.default, [], {})
                        self.setitem(o, i, v)
                        return v
                    self.raise_exc("KeyError", str(k))
                if isinstance(k, Term) and h.sym is None and h.items and not any(
                        isinstance(q, Term) for q in h.items):
                    # gated lookup over known keys
                    items = list(h.items.items())
                    res = NotImpl
                    for q, x in reversed(items):
                        x = x[1] if isinstance(x, tuple) else x
                        if res is NotImpl:
                            res = x
                        else:
                            res = self.merge_value(t_eq(k, self.as_term(q)), x, res)
                    return res
                return T("item", self.as_term(o), self.as_term(i))
            if isinstance(h, HTensor):
                return self.tensor_method(o, "__getitem__", [i], {})
            if isinstance(h, HInst):
                f = self.getattr(o, "__getitem__")
                return self.call(f, [i], {})
        if isinstance(o, ClassV) and o.is_enum:
            return self.getattr(o, i)
        if isinstance(o, ExtV):
            return T("item", self.as_term(o), self.as_term(i))
        ti, to = self.as_term(i), self.as_term(o)
        if isinstance(to, Term) and to.ty == "size":
            if isinstance(i, SliceV):
                return T("getslice", to, ti, ty="size")
            return T("dimsize", to, ti, ty="int")
        if isinstance(to, Term) and to.op == "list" and isinstance(i, int) and -len(to.args) <= i < len(to.args):
            return to.args[i]
        return T("item", to, ti)

    def setitem(self, o, i, v):
        o = self.resolve(o)
        i = self.resolve(i)
        if isinstance(o, Phi):
            return self.fork(o.cond, lambda: self.setitem(o.a, i, v), lambda: self.setitem(o.b, i, v))
        if isinstance(o, NativeObj):
            return o.setitem(self, i, v)
        if isinstance(o, Ref):
            h = self.st.get(o)
            if isinstance(h, HList):
                if h.items is not None and isinstance(i, int):
                    l = list(h.items)
                    try:
                        l[i] = v
                    except IndexError:
                        self.raise_exc("IndexError", "")
                    self.st.put(o, HList(tuple(l)))
                    return
                self.st.put(o, HList(None, T("listset", self.as_term(o), self.as_term(i), self.as_term(v))))
                return
            if isinstance(h, HDict):
                k = self.key(i)
                self.st.put(o, HDict({**h.items, k: (i, v)}, h.kind, h.sym, h.default))
                return
            if isinstance(h, HTensor):
                return self.tensor_method(o, "__setitem__", [i, v], {})
            if isinstance(h, HInst):
                return self.call(self.getattr(o, "__setitem__"), [i, v], {})
        self.note("setitem on %r" % (o,))

    def delitem(self, o, i):
        o = self.resolve(o)
        if isinstance(o, Ref):
            h = self.st.get(o)
            if isinstance(h, HDict):
                k = self.key(i)
                self.st.put(o, HDict({q: v for q, v in h.items.items() if q != k}, h.kind, h.sym, h.default))
                return
            if isinstance(h, HList) and h.items is not None and isinstance(i, int):
                l = list(h.items)
                del l[i]
                self.st.put(o, HList(tuple(l)))
                return
            if isinstance(h, HInst):
                f = self.inst_method(o, "__delitem__")
                if f is not None:
                    return self.call(BoundV(o, f), [i], {})
        if isinstance(o, NativeObj) and hasattr(o, "delitem"):
            return o.delitem(self, i)
        self.note("delitem")


EXC = {"Exception", "BaseException", "ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError",
       "AttributeError", "NotImplementedError", "AssertionError", "ImportError", "StopIteration", "OSError",
       "ModuleNotFoundError", "NameError", "UnpicklingError", "Warning", "DeprecationWarning", "UserWarning",
       "ZeroDivisionError", "FileNotFoundError", "RuntimeWarning", "KeyboardInterrupt", "SystemExit"}


class InstDict(NativeObj):
    """obj.__dict__"""

    def __init__(self, ref):
        self.ref = ref

    def getitem(self, it, i):
        h = it.st.get(self.ref)
        if i in h.attrs:
            return h.attrs[i]
        it.raise_exc("KeyError", str(i))

    def setitem(self, it, i, v):
        h = it.st.get(self.ref)
        it.st.put(self.ref, HInst(h.cls, {**h.attrs, i: v}))

    def contains(self, it, x):
        return x in it.st.get(self.ref).attrs

    def iter(self, it):
        return list(it.st.get(self.ref).attrs)

    def delitem(self, it, i):
        h = it.st.get(self.ref)
        it.st.put(self.ref, HInst(h.cls, {k: v for k, v in h.attrs.items() if k != i}))

    def getattr(self, it, name):
        if name == "get":
            return BuiltinV("get", lambda t, a, k: t.st.get(self.ref).attrs.get(a[0], a[1] if len(a) > 1 else None))
        if name == "items":
            return BuiltinV("items", lambda t, a, k: t.new_list([(n, v) for n, v in t.st.get(self.ref).attrs.items()]))
        if name == "keys":
            return BuiltinV("keys", lambda t, a, k: t.new_list(list(t.st.get(self.ref).attrs)))
        if name == "values":
            return BuiltinV("values", lambda t, a, k: t.new_list(list(t.st.get(self.ref).attrs.values())))
        if name == "update":
            def upd(t, a, k):
                for key in t.try_iter(a[0]) or []:
                    self.setitem(t, key, t.getitem(a[0], key))
            return BuiltinV("update", upd)
        raise KeyError(name)


def has_yield(node):
    """does this function contain a yield of its own"""
    r = getattr(node, "has_yield_", None)
    if r is None:
        r = node.has_yield_ = has_yield1(node)
    return r


def has_yield1(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False
