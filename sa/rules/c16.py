"""Configuration: scopes of overrides, and the settings the code reads."""
import ast
import os
from .base import *
from .c15 import source
from ..models import load_yaml, World
from .. import torchmodel as tm
from ..values import *

MINIMUM = 25
ROOT = os.environ.get("SA_ROOT", "/repo")


# ------------------------------------------------------------------ model of the configuration library
class Node(NativeObj):
    """omegaconf.DictConfig: mutable nested mapping with attribute access"""

    def __init__(self, ref):
        self.ref = ref

    @staticmethod
    def make(it, d):
        return Node(it.st.new(HInst(None, {k: Node.make(it, v) if isinstance(v, dict) else v for k, v in d.items()})))

    def attrs(self, it):
        return it.st.get(self.ref).attrs

    def getattr(self, it, name):
        a = self.attrs(it)
        if name in a:
            return a[name]
        if name in ("items", "keys", "values"):
            return BuiltinV(name, lambda i, x, k: i.new_list([(q, v) if name == "items" else q if name == "keys" else v for q, v in a.items()]))
        if name == "get":
            return BuiltinV(name, lambda i, x, k: a.get(x[0], x[1] if len(x) > 1 else None))
        if name == "copy":
            return BuiltinV(name, lambda i, x, k: self.deepcopy(i))
        it.raise_exc("AttributeError", "configuration key %s" % name)

    def setattr(self, it, name, v):
        it.st.put(self.ref, HInst(None, {**self.attrs(it), name: box(it, v)}))

    def getitem(self, it, i):
        a = self.attrs(it)
        if i in a:
            return a[i]
        it.raise_exc("KeyError", "configuration key %s" % i)

    def setitem(self, it, i, v):
        self.setattr(it, i, v)

    def contains(self, it, i):
        return i in self.attrs(it)

    def deepcopy(self, it):
        return Node(it.st.new(HInst(None, {k: v.deepcopy(it) if isinstance(v, Node) else v for k, v in self.attrs(it).items()})))

    def term(self, it):
        return T("cfgnode", *[T("kv", k, v.term(it) if isinstance(v, Node) else it.as_term(v)) for k, v in sorted(self.attrs(it).items())])


def box(it, v):
    v = it.resolve(v)
    if isinstance(v, Ref) and isinstance(it.st.get(v), HDict):
        return Node.make(it, pydict(it, v))
    return v


def pydict(it, v):
    h = it.st.get(v)
    out = {}
    for q, x in h.items.items():
        k, w = x if isinstance(x, tuple) else (q, x)
        w = it.resolve(w)
        out[k] = pydict(it, w) if isinstance(w, Ref) and isinstance(it.st.get(w), HDict) else w
    return out


def merge_into(it, a, b):
    for k, v in b.attrs(it).items():
        old = a.attrs(it).get(k)
        if isinstance(old, Node) and isinstance(v, Node):
            merge_into(it, old, v)
        else:
            a.setattr(it, k, v.deepcopy(it) if isinstance(v, Node) else v)


def need(v):
    if not isinstance(v, Node):
        raise Undecided("configuration object %r" % (v,))
    return v


def f_create(it, a, k):
    v = it.resolve(a[0]) if a else k.get("obj")
    if isinstance(v, Node):
        return v.deepcopy(it)
    if isinstance(v, Ref) and isinstance(it.st.get(v), HDict):
        return Node.make(it, pydict(it, v))
    raise Undecided("OmegaConf.create of %r" % (v,))


def f_merge(it, a, k):
    out = need(it.resolve(a[0])).deepcopy(it)
    for x in a[1:]:
        merge_into(it, out, f_create(it, [x], {}) if not isinstance(it.resolve(x), Node) else it.resolve(x))
    return out


def put(it, node, key, v):
    ks = key.split(".")
    for q in ks[:-1]:
        nxt = node.attrs(it).get(q)
        if not isinstance(nxt, Node):
            nxt = Node.make(it, {})
            node.setattr(it, q, nxt)
        node = nxt
    node.setattr(it, ks[-1], v)


def f_update(it, a, k):
    key = it.resolve(a[1])
    if not isinstance(key, str):
        raise Undecided("key of OmegaConf.update")
    put(it, need(it.resolve(a[0])), key, it.resolve(a[2]) if len(a) > 2 else it.resolve(k.get("value")))


def yaml_scalar(s):
    if s in ("", "~", "null", "Null", "NULL"):
        return None
    if s.lower() in ("true", "yes", "on"):
        return True
    if s.lower() in ("false", "no", "off"):
        return False
    for f in (int, float):
        try:
            return f(s)
        except ValueError:
            pass
    return s


def f_dotlist(it, a, k):
    xs = it.try_iter(a[0])
    out = Node.make(it, {})
    for x in xs or []:
        x = it.resolve(x)
        if not isinstance(x, str):
            raise Undecided("text of a configuration override")
        key, _, v = x.partition("=")
        put(it, out, key, yaml_scalar(v.strip()))
    if xs is None:
        raise Undecided("overrides of unknown length")
    return out


def f_copy(it, a, k):
    v = it.resolve(a[0])
    return v.deepcopy(it) if isinstance(v, Node) else tm.EXT["copy.deepcopy"](it, a, k)


def f_load(it, a, k):
    def nest(items):
        out = {}
        for q, v in items.items():
            d = out
            ks = q.split(".")
            for x in ks[:-1]:
                d = d.setdefault(x, {})
            d[ks[-1]] = v
        return out

    def conv(d):
        return it.st.new(HDict({q: (q, conv(v) if isinstance(v, dict) else v) for q, v in d.items()}))
    return conv(nest(load_yaml(os.path.join(ROOT, "configs/default.yaml"))))


def f_update_method(it, a, k):
    raise Undecided("configuration library function")


MODEL = {"create": f_create, "merge": f_merge, "unsafe_merge": f_merge, "update": f_update, "from_dotlist": f_dotlist,
         "set_struct": lambda it, a, k: None, "set_readonly": lambda it, a, k: None,
         "is_config": lambda it, a, k: isinstance(it.resolve(a[0]), Node)}
EXTRA = {"omegaconf.OmegaConf." + n: f for n, f in MODEL.items()}
EXTRA.update({"copy.deepcopy": f_copy, "copy.copy": f_copy, "yaml.safe_load": f_load, "yaml.load": f_load})


HEAD = """
from crypten.config.config import CrypTenConfig
from omegaconf import OmegaConf

def program():
    c = CrypTenConfig()
"""

D = load_yaml(os.path.join(ROOT, "configs/default.yaml"))
G = lambda k: D.get(k)


def programs():
    """(label, body, expected)"""
    P, E, B = "mpc.protocol", "functions.exp_iterations", "functions.reciprocal_all_pos"
    out = []

    def a(label, body, want):
        out.append((label, body, want))
    for k in sorted(D):
        a("read of %s" % k, "return [c.%s, c['%s'], getattr(c, '%s')]" % (k, k, k), [D[k]] * 3)
    a("override of one setting", "with c.temp_override({'%s': 'other'}):\n    r = [c.%s, c['%s'], c.%s]\nreturn r + [c.%s, c.%s]" % (P, P, P, E, P, E),
      ["other", "other", G(E), G(P), G(E)])
    a("every setting survives an override", "with c.temp_override({'%s': 'other'}):\n    r = [%s]\nreturn r + [%s]" % (P, ", ".join("c." + k for k in sorted(D)), ", ".join("c." + k for k in sorted(D))),
      [D[k] if k != P else "other" for k in sorted(D)] + [D[k] for k in sorted(D)])
    a("override of several settings", "with c.temp_override({'%s': 'other', '%s': 77, '%s': True}):\n    r = [c.%s, c.%s, c.%s]\nreturn r + [c.%s, c.%s, c.%s]" % (P, E, B, P, E, B, P, E, B),
      ["other", 77, True, G(P), G(E), G(B)])
    for v in (None, True, False, 5, 0, -3, 0.25, "pairwise", "a b"):
        a("override with the value %r" % (v,), "with c.temp_override({'functions.reciprocal_initial': %r}):\n    r = [c.functions.reciprocal_initial]\nreturn r + [c.functions.reciprocal_initial]" % (v,), [v, G("functions.reciprocal_initial")])
        a("assignment of the value %r" % (v,), "c['functions.max_method'] = %r\nreturn [c.functions.max_method, c['functions.max_method'], c.%s, c.%s]" % (v, E, P), [v, v, G(E), G(P)])
    a("nested overrides of the same setting", """
r = []
with c.temp_override({'%(E)s': 1}):
    r.append(c.%(E)s)
    with c.temp_override({'%(E)s': 2}):
        r.append(c.%(E)s)
        with c.temp_override({'%(E)s': 3}):
            r.append(c.%(E)s)
        r.append(c.%(E)s)
    r.append(c.%(E)s)
    with c.temp_override({'%(E)s': 4}):
        r.append(c.%(E)s)
    r.append(c.%(E)s)
return r + [c.%(E)s]""" % {"E": E}, [1, 2, 3, 2, 1, 4, 1, G(E)])
    a("nested overrides of different settings", """
r = []
with c.temp_override({'%(E)s': 1}):
    with c.temp_override({'%(P)s': 'other'}):
        r += [c.%(E)s, c.%(P)s]
    r += [c.%(E)s, c.%(P)s]
return r + [c.%(E)s, c.%(P)s]""" % {"E": E, "P": P}, [1, "other", 1, G(P), G(E), G(P)])
    a("scope left by an exception", """
r = []
try:
    with c.temp_override({'%(E)s': 1}):
        r.append(c.%(E)s)
        raise ValueError('x')
except ValueError:
    r.append(c.%(E)s)
return r + [c.%(E)s]""" % {"E": E}, [1, G(E), G(E)])
    a("nested scopes left by an exception", """
r = []
with c.temp_override({'%(E)s': 1}):
    try:
        with c.temp_override({'%(E)s': 2, '%(P)s': 'other'}):
            with c.temp_override({'%(E)s': 3}):
                raise KeyError('x')
    except KeyError:
        r += [c.%(E)s, c.%(P)s]
    r += [c.%(E)s]
return r + [c.%(E)s, c.%(P)s]""" % {"E": E, "P": P}, [1, G(P), 1, G(E), G(P)])
    a("exceptions pass through the scope", """
try:
    with c.temp_override({'%(E)s': 1}):
        raise ValueError('x')
    return ['swallowed']
except ValueError:
    return ['raised']""" % {"E": E}, ["raised"])
    a("scope left by return, break and continue", """
r = []
def f():
    with c.temp_override({'%(E)s': 1}):
        return c.%(E)s
r.append(f())
r.append(c.%(E)s)
for i in range(3):
    with c.temp_override({'%(E)s': i}):
        if i == 0:
            continue
        r.append(c.%(E)s)
        if i == 1:
            break
return r + [c.%(E)s]""" % {"E": E}, [1, G(E), 1, G(E)])
    a("assignments inside a scope end with it", """
with c.temp_override({'%(E)s': 1}):
    c['%(P)s'] = 'other'
    c['%(E)s'] = 9
    c.functions.max_method = 'x'
    r = [c.%(P)s, c.%(E)s, c.functions.max_method]
return r + [c.%(P)s, c.%(E)s, c.functions.max_method]""" % {"E": E, "P": P}, ["other", 9, "x", G(P), G(E), G("functions.max_method")])
    a("assignments before a scope survive it", """
c['%(P)s'] = 'mine'
c.functions.max_method = 'x'
with c.temp_override({'%(E)s': 1, '%(P)s': 'other'}):
    r = [c.%(P)s, c.functions.max_method]
return r + [c.%(P)s, c.functions.max_method, c.%(E)s]""" % {"E": E, "P": P}, ["other", "x", "mine", "x", G(E)])
    a("the mapping of overrides is not modified", "d = {'%s': 1, '%s': None}\nwith c.temp_override(d):\n    pass\nreturn [len(d), d['%s'], d['%s']]" % (E, B, E, B), [2, 1, None])
    a("overrides one after the other", "r = []\nfor v in (1, 2):\n    with c.temp_override({'%s': v}):\n        r.append(c.%s)\nwith c.temp_override({'%s': 'other'}):\n    r.append(c.%s)\nreturn r + [c.%s]" % (E, E, P, E, P), [1, 2, G(E), G(P)])
    for k in ("nope", "functions.nope", "mpc.protcol"):
        a("reading the unknown setting %s fails" % k, "try:\n    c.%s\n    return ['read']\nexcept AttributeError:\n    return ['failed']" % k, ["failed"])
        a("reading the unknown setting %s by index fails" % k, "try:\n    c['%s']\n    return ['read']\nexcept (AttributeError, KeyError):\n    return ['failed']" % k, ["failed"])
    a("set_config takes the settings of another configuration", "d = CrypTenConfig()\nd['%s'] = 55\nc.set_config(d)\nr = [c.%s, c.%s]\nc.set_config(OmegaConf.create({'mpc': {'protocol': 'z'}}))\nreturn r + [c.%s]" % (E, E, P, P), [55, G(P), "z"])
    a("load_config restores the defaults", "c['%s'] = 55\nc['%s'] = 'other'\nc.load_config(None)\nreturn [c.%s, c.%s]" % (E, P, E, P), [G(E), G(P)])
    a("independent configurations", "d = CrypTenConfig()\nwith c.temp_override({'%(E)s': 1}):\n    r = [d.%(E)s]\n    d['%(E)s'] = 7\nreturn r + [c.%(E)s, d.%(E)s]" % {"E": E}, [G(E), G(E), 7])
    return out


def run_program(chk, label, body, want):
    import textwrap
    text = HEAD + textwrap.indent(body.strip("\n"), "    ") + "\n"
    w = World.get(1, native_cfg=False)
    saved = {k: tm.EXT.get(k) for k in EXTRA}
    tm.EXT.update(EXTRA)
    try:
        def fn(it, r):
            v = call_fn(it, text)
            xs = it.try_iter(v)
            if xs is None:
                raise Undecided("result of the program")
            return [it.resolve(x) for x in xs]
        runs = w.run(fn)
    finally:
        for k, v in saved.items():
            if v is None:
                tm.EXT.pop(k, None)
            else:
                tm.EXT[k] = v
    chk.saw(runs)
    live(runs, label)
    got = runs[0].value
    for i, (g, e) in enumerate(zip(got, want)):
        if isinstance(g, (Term, Node, Phi)) or isinstance(g, Ref):
            raise Undecided("value %r" % (g,))
        if g != e or type(g) is not type(e):
            raise Violation("%s: value %d is %r instead of %r" % (label, i, g, e))
    if len(got) != len(want):
        raise Violation("%s: %d values instead of %d" % (label, len(got), len(want)))


def call_fn(it, text):
    return it.call(it.mod_get(source(it, text), "program"), [], {})


# ------------------------------------------------------------------ settings read or overridden by the code
def config_names(tree):
    """names bound to the configuration object in a module"""
    out = set()
    for s in ast.walk(tree):
        if isinstance(s, ast.ImportFrom) and s.module and (s.module.split(".")[-1] in ("config", "crypten") or s.level):
            for a in s.names:
                if a.name == "cfg":
                    out.add(a.asname or a.name)
    return out


def is_cfg(e, names):
    if isinstance(e, ast.Name):
        return e.id in names
    return isinstance(e, ast.Attribute) and e.attr == "cfg" and (isinstance(e.value, ast.Name) and e.value.id in ("crypten", "config") or
                                                                  isinstance(e.value, ast.Attribute) and e.value.attr == "config")


METHODS = {"temp_override", "load_config", "set_config", "config", "get_config"}


def key_uses(path, tree):
    """(line, key or None, how) of every use of the configuration object"""
    names = config_names(tree)
    parent = {}
    for p in ast.walk(tree):
        for ch in ast.iter_child_nodes(p):
            parent[ch] = p
    consts = {}
    for s in ast.walk(tree):       # dictionaries bound once to a name
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            consts.setdefault(s.targets[0].id, []).append(s.value)
    for e in ast.walk(tree):
        if not is_cfg(e, names):
            continue
        chain, cur = [], e
        while isinstance(parent.get(cur), ast.Attribute):
            cur = parent[cur]
            chain.append(cur.attr)
        if chain and chain[-1] in METHODS and len(chain) == 1:
            if chain[0] == "temp_override" and isinstance(parent.get(cur), ast.Call):
                c = parent[cur]
                d = c.args[0] if c.args else c.keywords[0].value if c.keywords else None
                ds = [d]
                if isinstance(d, ast.Name):
                    ds = consts.get(d.id, [None])
                for d in ds:
                    if isinstance(d, ast.Dict):
                        for k in d.keys:
                            yield (e.lineno, k.value if isinstance(k, ast.Constant) else None, "overrides")
                    else:
                        yield (e.lineno, None, "overrides")
            continue
        up = parent.get(cur)
        if isinstance(up, ast.Subscript) and up.value is cur:
            k = up.slice
            yield (e.lineno, ".".join(chain + [k.value]) if isinstance(k, ast.Constant) and isinstance(k.value, str) else None, "reads")
        elif chain:
            if chain[0] == "config":
                chain = chain[1:]
            if chain:
                yield (e.lineno, ".".join(chain), "assigns" if isinstance(getattr(cur, "ctx", None), ast.Store) else "reads")


def run(chk):
    chk.rule("R1", "programs over the configuration class, interpreted with a model of the configuration library, see the overriding value inside a scope and the previous one after every exit")
    chk.rule("R2", "every setting the package reads, assigns or overrides is defined in configs/default.yaml")
    for label, body, want in programs():
        chk.ob("R1", label, lambda label=label, body=body, want=want: run_program(chk, label, body, want))
    prefixes = {k for k in D} | {".".join(k.split(".")[:i]) for k in D for i in range(1, k.count(".") + 1)}
    prog = program(ROOT)
    for mod, (path, tree, _) in sorted(prog.files.items()):
        rel = os.path.relpath(path, ROOT)
        if rel.endswith("config/config.py"):
            continue
        for line, key, how in key_uses(path, tree):
            def f(rel=rel, line=line, key=key, how=how):
                if key is None:
                    raise Undecided("computed key")
                if key not in prefixes:
                    raise Violation("%s:%d %s the setting %s, which configs/default.yaml does not define" % (rel, line, how, key))
            chk.ob("R2", "%s %s %s" % (rel, how, key), f)
