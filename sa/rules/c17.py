"""Objects received from other parties are decoded by the restricted decoder only."""
import ast
import os
from .base import *
from .. import torchmodel as tm
from ..interp import Interp
from ..values import *

MINIMUM = 60
ROOT = os.environ.get("SA_ROOT", "/repo")

# what a pickle can name and must never get
DANGEROUS = [("builtins", "eval"), ("builtins", "exec"), ("builtins", "getattr"), ("builtins", "compile"), ("builtins", "__import__"),
             ("builtins", "open"), ("builtins", "print"), ("builtins", "map"), ("builtins", "apply"), ("__builtin__", "eval"), ("os", "system"), ("posix", "system"),
             ("nt", "system"), ("os", "popen"), ("subprocess", "Popen"), ("subprocess", "call"), ("subprocess", "check_output"), ("sys", "exit"),
             ("importlib", "import_module"), ("runpy", "run_path"), ("pickle", "loads"), ("pickle", "Unpickler"), ("_pickle", "loads"), ("marshal", "loads"),
             ("shutil", "rmtree"), ("ctypes", "CDLL"), ("functools", "partial"), ("functools", "reduce"), ("operator", "attrgetter"),
             ("operator", "methodcaller"), ("types", "FunctionType"), ("types", "CodeType"), ("code", "interact"), ("pty", "spawn"), ("timeit", "timeit"),
             ("torch", "load"), ("torch.serialization", "load"), ("torch.serialization", "_legacy_load"), ("torch.serialization", "_load"),
             ("torch.jit", "load"), ("torch.hub", "load"), ("torch.utils.cpp_extension", "load"), ("torch.storage", "os"), ("torch", "os.system"),
             ("torch.storage", "_load_from_bytes.__globals__"), ("numpy", "load"), ("numpy.core.multiarray", "_reconstruct"),
             ("crypten.common.serial", "_safe_legacy_load"), ("crypten.common.serial", "register_safe_class"), ("crypten", "load"),
             ("torch.nn.modules.module", "Module"), ("torch.fx.graph_module", "reduce_graph_module"), ("torch.nn.modules.linear", "NonDynamicallyQuantizableLinear"),
             ("torch._utils", "_rebuild_tensor"), ("torch._dynamo", "optimize"), ("test", "Evil"), ("", "eval"), ("builtins", ""), ("__main__", "Evil")]
# variations of a listed name
VARIANTS = [("builtins", "set.__class__"), ("builtins", "set.__init__"), ("builtins", "settings"), ("builtins", "Set"), ("xbuiltins", "set"), ("builtins ", "set"),
            ("collections", "OrderedDict.fromkeys"), ("collections", "OrderedDictX"), ("torch", "SizeX"), ("torch", "Size.__reduce__"),
            ("torch.nn.modules.linear", "Linear.__init__"), ("torch.nn.modules.linear", "Linear.__init__.__globals__"), ("torch.nn.modules.linear", "LinearEvil"),
            ("torch.nn.modules.linear", "init"), ("torch.nn.modules.linear", "Linea"), ("torch.nn.modules.loss", "BCELoss.forward"),
            ("evil.torch.nn.modules.linear", "Linear"), ("torch._utils", "_rebuild_parameter_evil"), ("torch._utils", "_import_dotted_name"),
            ("torch._utils", "_rebuild_parameter.__globals__"), ("torch._C", "_cuda_init"), ("torch.storage", "_load_from_bytesX"), ("os", "set"),
            ("subprocess", "OrderedDict"), ("evil", "Linear"), ("evil", "torch.Size")]
BAD_PARTS = {"os", "posix", "nt", "sys", "subprocess", "importlib", "runpy", "pickle", "_pickle", "marshal", "shutil", "ctypes", "functools", "operator", "types",
             "code", "codeop", "codecs", "pty", "timeit", "hub", "jit", "serialization", "cpp_extension", "inspect", "io", "socket", "threading", "multiprocessing",
             "tempfile", "pathlib", "builtins", "__builtins__", "__globals__", "__class__", "__subclasses__", "__reduce__", "__init__", "_load_from_bytes",
             "cloudpickle", "dill", "joblib", "webbrowser", "platform", "pdb", "bdb", "cProfile", "profile", "trace", "doctest", "unittest", "asyncio",
             "signal", "gc", "atexit", "zipimport", "pkgutil", "pydoc", "imp", "multiprocess", "fx", "package", "_dynamo", "onnx"}
SAFE_BUILTINS = {"set", "frozenset", "list", "dict", "tuple", "int", "float", "bool", "complex", "str", "bytes", "bytearray", "slice", "range", "object"}
SAFE_COLLECTIONS = {"OrderedDict", "defaultdict", "deque", "Counter"}
SAFE_TORCH_FUNCS = {"_rebuild_tensor_v2", "_rebuild_tensor_v3", "_rebuild_parameter", "_rebuild_parameter_with_state", "_rebuild_tensor", "_rebuild_qtensor",
                    "_rebuild_sparse_tensor", "_rebuild_device_tensor_from_numpy", "device"}


def harmless(name):
    """'safe' | 'unsafe' | None (unknown) for a library object"""
    parts = name.split(".")
    if parts[0] == "builtins":
        return "safe" if len(parts) == 2 and parts[1] in SAFE_BUILTINS else "unsafe"
    if any(p in BAD_PARTS for p in parts):
        return "unsafe"
    if parts[0] == "collections":
        return "safe" if len(parts) == 2 and parts[1] in SAFE_COLLECTIONS else None
    if parts[0] == "torch":
        last = parts[-1]
        if last in SAFE_TORCH_FUNCS:
            return "safe"
        if parts[1:2] in (["load"], ["compile"], ["save"]):
            return "unsafe"
        if last[0].isupper() or last.startswith("_") and last[1:2].isupper():
            return "safe"          # a class of the library: constructing it runs the library's own initialiser
        if last in ("float", "double", "half", "long", "int", "short", "bool", "uint8", "int8", "int16", "int32", "int64", "float16", "float32", "float64", "bfloat16", "strided"):
            return "safe"
        return None
    return None


# ------------------------------------------------------------------ model of the decoders
UNRESTRICTED = ["pickle.load", "pickle.loads", "pickle.Unpickler", "_pickle.load", "_pickle.loads", "_pickle.Unpickler", "marshal.load", "marshal.loads", "dill.load", "dill.loads",
                "cloudpickle.load", "cloudpickle.loads", "shelve.open", "torch.load", "torch.serialization.load", "torch.jit.load", "torch.storage._load_from_bytes",
                "joblib.load", "numpy.load", "yaml.load", "yaml.unsafe_load", "yaml.full_load", "jsonpickle.decode", "builtins.eval", "builtins.exec", "builtins.compile",
                "builtins.__import__", "importlib.import_module", "os.system", "os.popen", "subprocess.run", "subprocess.Popen", "subprocess.call", "subprocess.check_output",
                "pandas.read_pickle", "torch.hub.load", "ast.literal_eval.x"]


class Probe:
    """one decoding: which name the stream asks for, what it got"""
    cur = None

    def __init__(self, module, name, inner=None, result=None):
        self.module, self.name, self.inner, self.result = module, name, inner, result
        self.got, self.unrestricted, self.decoded = [], [], 0


class Stub(NativeObj):
    """a decoded object"""

    def __init__(self, kind, attrs):
        self.kind, self.attrs = kind, attrs

    def getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name](it)
        raise KeyError(name)

    def isinstance(self, it, cn):
        n = cn if isinstance(cn, str) else getattr(cn, "name", "")
        if n.split(".")[-1] == "Module":
            return self.kind == "module"
        if n.split(".")[-1] == "Tensor":
            return self.kind == "tensor"
        if n.split(".")[-1] == "Parameter":
            return False
        return False

    def setattr(self, it, name, v):
        pass

    def term(self, it):
        return T("decoded", self.kind)


def u_load(it, a, k):
    """pickle.Unpickler.load of the instance a[0]: asks find_class for the probed name"""
    p = Probe.cur
    p.decoded += 1
    self_ = a[0]
    inner = p.inner if p.decoded > 1 else None
    mod, name = inner or (p.module, p.name)
    fc = it.getattr(self_, "find_class")
    v = it.call(fc, [mod, name], {})
    p.got.append((mod, name, v))
    if p.inner and p.decoded == 1:
        v = it.call(v, ["bytes of the sender"], {})
    if p.result is not None and p.decoded == 1:
        return p.result
    return v


def u_find(it, a, k):
    """pickle.Unpickler.find_class: imports anything"""
    Probe.cur.unrestricted.append("the unrestricted find_class, at %s" % it.where())
    return ExtV("%s.%s" % (it.resolve(a[-2]), it.resolve(a[-1])))


def method(fn, name):
    b = BuiltinV(name, fn)
    b.method = True
    return b


def class_attr(orig):
    def f(it, c, name):
        if c.name in ("pickle.Unpickler", "_pickle.Unpickler", "pickle._Unpickler"):
            if name == "load":
                return method(u_load, "Unpickler.load")
            if name == "find_class":
                return method(u_find, "Unpickler.find_class")
            if name == "__init__":
                return method(lambda it, a, k: None, "Unpickler.__init__")
        return orig(it, c, name)
    return f


def unrestricted(name):
    def f(it, a, k):
        p = Probe.cur
        if p is not None:
            p.unrestricted.append("%s, at %s" % (name, it.where()))
        return T("unrestricted", name)
    return f


def legacy_load(it, a, k):
    """torch.serialization._legacy_load / _load: decode with the given pickle module (by its Unpickler, or by its load function)"""
    pm = it.resolve(k.get("pickle_module", a[2] if len(a) > 2 else None))
    p = Probe.cur
    if pm is None or isinstance(pm, ExtV):
        p.unrestricted.append("%s, at %s" % ("torch.serialization with " + (pm.name if pm else "pickle"), it.where()))
        return T("unrestricted", "legacy_load")
    u = it.getattr(pm, "Unpickler")
    if isinstance(u, ExtV):
        p.unrestricted.append("torch.serialization with %s, at %s" % (u.name, it.where()))
        return T("unrestricted", "legacy_load")
    if p.via == "load":
        return it.call(it.getattr(pm, "load"), [a[0]], {})
    inst = it.call(u, [a[0]], {})
    return it.call(it.getattr(inst, "load"), [], {})


def is_tensor(orig):
    def f(it, a, k):
        v = it.resolve(a[0])
        if isinstance(v, Stub):
            return v.kind == "tensor"
        return orig(it, a, k)
    return f


class DecoderModel:
    def __enter__(self):
        self.saved = {}
        for n in UNRESTRICTED:
            self.put(n, unrestricted(n))
        for n in ("torch.serialization._legacy_load", "torch.serialization._load"):
            self.put(n, legacy_load)
        self.put("torch.is_tensor", is_tensor(tm.EXT["torch.is_tensor"]))
        for n in ("broadcast", "irecv", "recv", "isend", "send"):
            self.put("torch.distributed." + n, lambda it, a, k: Wait())
        self.put("torch.distributed.is_initialized", lambda it, a, k: True)
        self.old = Interp.ext_class_attr if "ext_class_attr" in Interp.__dict__ else None
        tm_attr = World.get(1).its[0].__class__.ext_class_attr
        self.old = tm_attr
        Interp.ext_class_attr = class_attr(tm_attr)

    def put(self, n, f):
        self.saved[n] = tm.EXT.get(n)
        tm.EXT[n] = f

    def __exit__(self, *a):
        for n, f in self.saved.items():
            if f is None:
                tm.EXT.pop(n, None)
            else:
                tm.EXT[n] = f
        Interp.ext_class_attr = self.old
        Probe.cur = None


class Wait(NativeObj):
    def getattr(self, it, name):
        if name == "wait":
            return BuiltinV("wait", lambda i, a, k: None)
        raise KeyError(name)


def receivers():
    """(label, call) of the functions that turn received bytes into objects"""
    def comm(it, rank):
        m = it.import_module("crypten.communicator.distributed_communicator")
        cls = it.mod_get(m, "DistributedCommunicator")
        if not isinstance(cls, ClassV):
            raise AnchorLost("DistributedCommunicator")
        return it.st.new(HInst(cls, {"rank": rank, "world_size": 2, "main_group": T("group", "main"), "ttp_group": T("group", "ttp"), "_name": "p"}))

    def recv(it):
        return it.call(it.getattr(comm(it, 0), "recv_obj"), [1], {})

    def recv_group(it):
        return it.call(it.getattr(comm(it, 0), "recv_obj"), [1], {"group": T("group", "ttp")})

    def bcast(it):
        return it.call(it.getattr(comm(it, 0), "broadcast_obj"), [None, 1], {})

    def bcast_group(it):
        return it.call(it.getattr(comm(it, 0), "broadcast_obj"), [None, 1], {"group": T("group", "ttp")})

    def loads(it):
        m = it.import_module("crypten.common.serial")
        f = it.mod_get(m, "restricted_loads")
        if f is UNDEF:
            raise AnchorLost("restricted_loads")
        return it.call(f, ["bytes"], {})
    return [("recv_obj", recv), ("recv_obj in a group", recv_group), ("broadcast_obj", bcast), ("broadcast_obj in a group", bcast_group), ("restricted_loads", loads)]


def decode(chk, call, probe, via="unpickler", before=None, expect=None):
    """one abstract decoding of a stream; (returned normally, raises)"""
    w = World.get(1)
    probe.via = via
    with DecoderModel():
        def fn(it, r):
            if before:
                before(it)
            Probe.cur = probe
            probe.got, probe.unrestricted, probe.decoded = [], [], 0
            return call(it)
        runs = w.run(fn)
    chk.saw(runs)
    rr = runs[0]
    if probe.unrestricted:
        raise Violation("received bytes reach %s" % probe.unrestricted[0])
    return rr


def describe(v):
    return repr(v)[:80]


def refused(chk, label, call, module, name, via="unpickler", inner=None, before=None):
    p = Probe(module, name, inner)
    rr = decode(chk, call, p, via, before)
    want = 1 if inner is None else 2
    if p.decoded < want:
        if rr.died and p.decoded == 0:
            raise Undecided("no decoding: %s" % (rr.raises[-1][1:] if rr.raises else "",))
        raise Undecided("%d decodings" % p.decoded)
    bad = [g for g in p.got if (g[0], g[1]) == (inner or (module, name))]
    if bad:
        raise Violation("%s: a received stream naming %s.%s gets %s" % (label, module if inner is None else inner[0], name if inner is None else inner[1], describe(bad[0][2])))
    if not rr.died:
        raise Undecided("the decoding of an unlisted name continues")


def table_names(it):
    """names the decoder accepts: the string keys of every mapping reachable from the decoder class"""
    m = it.import_module("crypten.common.serial")
    out = []
    cls = it.mod_get(m, "RestrictedUnpickler")
    places = [it.st.get(cls.ref).attrs] if isinstance(cls, ClassV) else []
    places.append({k: it.mod_get(m, k) for k in list(it.st.get(m.ref).vars if isinstance(it.st.get(m.ref), HEnv) else it.st.get(m.ref).attrs)})
    for attrs in places:
        for v in attrs.values():
            v = it.resolve(v)
            h = it.st.get(v) if isinstance(v, Ref) else None
            if isinstance(h, HDict):
                ks = [q for q in h.items if isinstance(q, str)]
            elif isinstance(h, HList):
                ks = [it.resolve(x) for x in h.items or [] if isinstance(it.resolve(x), str)]
            elif isinstance(v, (tuple, frozenset, set)):
                ks = [x for x in v if isinstance(x, str)]
            else:
                continue
            out += [q for q in ks if q not in out and "." in q]
    return out


def entry_safe(chk, label, call, cname):
    """what the decoder hands out for an accepted name cannot run code of the sender"""
    module, _, name = cname.rpartition(".")
    p = Probe(module, name)
    decode(chk, call, p)
    for m, n, v in p.got:
        if isinstance(v, ExtV):
            h = harmless(v.name)
            if h == "unsafe":
                raise Violation("%s: the decoder hands out %s for the name %s" % (label, v.name, cname))
            if h is None:
                raise Undecided("unknown library object %s" % v.name)
        elif isinstance(v, FuncV):
            for via in ("unpickler", "load"):
                for inner in (("builtins", "eval"), ("os", "system"), ("torch", "load"), ("torch.nn.modules.linear", "init")):
                    refused(chk, "%s via %s" % (label, cname), call, module, name, via, inner)
        elif isinstance(v, BuiltinV):
            if harmless("builtins." + v.name) == "unsafe" and "." not in v.name:
                raise Violation("%s: the decoder hands out the builtin %s for the name %s" % (label, v.name, cname))
        elif isinstance(v, ClassV):
            pass
        else:
            raise Undecided("entry %r" % (v,))


# ------------------------------------------------------------------ hooks
def hooked(where):
    full = lambda it: it.st.new(HDict({1: (1, T("hook"))}, "OrderedDict"))
    none = lambda it: it.st.new(HDict({}, "OrderedDict"))

    def par(h):
        return Stub("tensor", {"_backward_hooks": full if h else none})
    t = Stub("tensor", {"_backward_hooks": full if where == "tensor" else none})
    sub = Stub("module", {"_backward_hooks": full if where == "submodule" else none})
    low = Stub("module", {"_backward_hooks": full if where == "nested submodule" else none})
    m = Stub("module", {"_backward_hooks": full if where == "module" else none})
    ps = [par(False), par(where == "parameter")]
    m.attrs["parameters"] = lambda it: BuiltinV("parameters", lambda i, a, k: i.new_list(list(ps)))
    m.attrs["named_parameters"] = lambda it: BuiltinV("named_parameters", lambda i, a, k: i.new_list([("a", ps[0]), ("b", ps[1])]))
    m.attrs["modules"] = lambda it: BuiltinV("modules", lambda i, a, k: i.new_list([m, sub, low]))
    m.attrs["named_modules"] = lambda it: BuiltinV("named_modules", lambda i, a, k: i.new_list([("", m), ("s", sub), ("s.t", low)]))
    m.attrs["children"] = lambda it: BuiltinV("children", lambda i, a, k: i.new_list([sub]))
    sub.attrs["parameters"] = lambda it: BuiltinV("parameters", lambda i, a, k: i.new_list(list(ps)))
    sub.attrs["modules"] = lambda it: BuiltinV("modules", lambda i, a, k: i.new_list([sub, low]))
    sub.attrs["children"] = lambda it: BuiltinV("children", lambda i, a, k: i.new_list([low]))
    low.attrs["parameters"] = lambda it: BuiltinV("parameters", lambda i, a, k: i.new_list([]))
    low.attrs["modules"] = lambda it: BuiltinV("modules", lambda i, a, k: i.new_list([low]))
    low.attrs["children"] = lambda it: BuiltinV("children", lambda i, a, k: i.new_list([]))
    return t if where in ("tensor", "clean tensor") else m


def hook_rule(chk, label, call, where):
    p = Probe("torch.nn.modules.linear", "Linear", None, hooked(where))
    rr = decode(chk, call, p)
    if p.decoded != 1:
        raise Undecided("no decoding")
    if where.startswith("clean"):
        if rr.died:
            if all(explicit_raise(r) for r in rr.raises):
                raise Violation("%s: an object without hooks is refused: %s" % (label, rr.raises[-1][1:]))
            raise Undecided("analysis ends with %s" % (rr.raises[-1][1:],))
        return
    if not rr.died and not rr.raises:
        raise Violation("%s: a received object whose %s carries a hook is accepted" % (label, where))
    if not rr.died:
        raise Undecided("partial refusal")


# ------------------------------------------------------------------ decoders reached by received data (whole package)
RECEIVE = {"recv", "irecv", "recv_obj", "broadcast", "broadcast_obj", "gather", "all_gather", "scatter", "all_gather_object", "broadcast_object_list", "gather_object",
           "tobytes", "frombuffer"}
RECV_OBJECT = {"recv", "irecv", "recv_obj", "broadcast_obj", "gather", "all_gather", "scatter", "all_gather_object", "broadcast_object_list", "gather_object"}


def dotted(e, imports):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(imports.get(e.id, e.id))
        return ".".join(reversed(parts))
    return None


def imports_of(tree):
    out = {}
    for s in ast.walk(tree):
        if isinstance(s, ast.Import):
            for a in s.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(s, ast.ImportFrom) and s.module:
            for a in s.names:
                out[a.asname or a.name] = s.module + "." + a.name
    return out


SINKS = {n for n in UNRESTRICTED if not n.startswith("builtins.")} | {"eval", "exec", "torch.distributed.broadcast_object_list", "torch.distributed.all_gather_object",
                                                                       "torch.distributed.gather_object", "torch.distributed.recv_object_list", "torch.distributed.scatter_object_list",
                                                                       "numpy.load", "pickle.Unpickler"}
OBJECT_COLLECTIVES = {s for s in SINKS if s.startswith("torch.distributed.")}


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def own_nodes(fn):
    """nodes of a function without those of functions defined inside it"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def tainted_names(fn, params=()):
    """names that may hold data received from other parties"""
    taint = set(params)

    def source(e):
        return any(isinstance(c, ast.Call) and (isinstance(c.func, ast.Attribute) and c.func.attr in RECV_OBJECT) for c in ast.walk(e))
    nodes = list(own_nodes(fn))
    for c in nodes:       # buffers filled by a receive
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("recv", "irecv", "broadcast", "all_gather", "gather", "scatter"):
            for x in list(c.args) + [q.value for q in c.keywords]:
                taint |= names_in(x) - {"self"}
    for _ in range(20):
        before = len(taint)
        for n in nodes:
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None:
                if source(n.value) or names_in(n.value) & taint:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        taint |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and x.id != "self"}
            elif isinstance(n, ast.For) and (source(n.iter) or names_in(n.iter) & taint):
                taint |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            elif isinstance(n, ast.withitem) and n.optional_vars is not None and (source(n.context_expr) or names_in(n.context_expr) & taint):
                taint |= names_in(n.optional_vars)
        if len(taint) == before:
            break
    return taint, source


def sites(files):
    """(file, function, line, decoder, argument expressions)"""
    out = []
    for mod, (path, tree, _) in sorted(files.items()):
        imp = imports_of(tree)
        for fn in functions(tree):
            for c in own_nodes(fn):
                if isinstance(c, ast.Call):
                    d = dotted(c.func, imp)
                    if d in ("torch.distributed.distributed_c10d",):
                        continue
                    if d in SINKS and not (d in ("eval", "exec") and isinstance(c.func, ast.Attribute)):
                        out.append((mod, path, tree, fn, c, d))
    return out


def flow_rule(files, mod, fn, call, sink):
    if sink in OBJECT_COLLECTIVES:
        raise Violation("%s decodes received bytes without restriction, in %s.%s line %d" % (sink, mod, fn.name, call.lineno))
    args = list(call.args) + [k.value for k in call.keywords]
    taint, source = tainted_names(fn)
    if any(names_in(a) & taint or source(a) for a in args):
        raise Violation("%s is applied to data received from another party, in %s.%s line %d" % (sink, mod, fn.name, call.lineno))
    params = [a.arg for a in fn.args.args]
    used = [p for p in params if any(p in names_in(a) for a in args)]
    if not used:
        return
    # callers hand in received data?
    for m2, (path, tree, _) in sorted(files.items()):
        for g in functions(tree):
            t2 = None
            for c in own_nodes(g):
                if isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and c.func.id == fn.name or isinstance(c.func, ast.Attribute) and c.func.attr == fn.name and fn.name != "load"):
                    if t2 is None:
                        t2, s2 = tainted_names(g)
                    off = 1 if params[:1] in (["self"], ["cls"]) and isinstance(c.func, ast.Attribute) else 0
                    for i, x in enumerate(c.args):
                        if i + off < len(params) and params[i + off] in used and (names_in(x) & t2 or s2(x)):
                            raise Violation("%s is applied to data received from another party: %s.%s line %d passes it to %s.%s" % (sink, m2, g.name, c.lineno, mod, fn.name))
                    for kw in c.keywords:
                        if kw.arg in used and (names_in(kw.value) & t2 or s2(kw.value)):
                            raise Violation("%s is applied to data received from another party: %s.%s line %d passes it to %s.%s" % (sink, m2, g.name, c.lineno, mod, fn.name))


def run(chk):
    chk.rule("R1", "every function that turns received bytes into objects decodes them with the restricted decoder only, and the decoder refuses every name that is not listed")
    chk.rule("R2", "what the decoder hands out for each listed name is a plain type or a function that itself decodes with the restricted decoder only")
    chk.rule("R3", "only types can be registered as safe, and registering one admits that name alone")
    chk.rule("R4", "received objects carrying backward hooks are refused, objects without are accepted")
    chk.rule("R5", "no unrestricted decoder of the package is applied to data received from another party")
    rec = receivers()
    for label, call in rec:
        for module, name in DANGEROUS + VARIANTS:
            chk.ob("R1", "%s refuses %s.%s" % (label, module, name), lambda call=call, label=label, module=module, name=name: refused(chk, label, call, module, name))
    w = World.get(1)
    it = w.its[0]
    it.st.restore(it.base_snap)
    try:
        names = table_names(it)
    except Exception as e:
        names = []
    for cname in names:
        chk.ob("R2", "entry %s" % cname, lambda cname=cname: entry_safe(chk, "restricted_loads", rec[-1][1], cname))
    chk.ob("R2", "stored tensors are decoded with restriction", lambda: [refused(chk, "restricted_loads", rec[-1][1], "torch.storage", "_load_from_bytes", via, inner)
                                                                           for via in ("unpickler", "load") for inner in DANGEROUS[:12]])

    def register(v):
        def before(it):
            m = it.import_module("crypten.common.serial")
            it.call(it.mod_get(m, "register_safe_class"), [v(it)], {})
        return before
    for nm in ("os.system", "subprocess.call", "torch.load", "math.sin"):
        def f(nm=nm):
            func = lambda it: FuncLike(nm)
            p = Probe(nm.rpartition(".")[0], nm.rpartition(".")[2])
            rr = decode(chk, rec[-1][1], p, before=register(func))
            if p.got:
                raise Violation("the function %s can be registered as a safe class and is handed out to received streams" % nm)
            if not rr.died:
                raise Undecided("registering a function goes on")
        chk.ob("R3", "registering the function %s" % nm, f)
    for where in ("tensor", "module", "submodule", "nested submodule", "parameter", "clean tensor", "clean module"):
        for label, call in (rec[0], rec[2], rec[4]):
            chk.ob("R4", "%s: %s" % (label, where), lambda where=where, label=label, call=call: hook_rule(chk, label, call, where))
    files = program(ROOT).files
    for mod, path, tree, fn, call, sink in sites(files):
        chk.ob("R5", "%s in %s.%s" % (sink, mod, fn.name), lambda mod=mod, fn=fn, call=call, sink=sink: flow_rule(files, mod, fn, call, sink))


class FuncLike(NativeObj):
    """a function, not a type"""

    def __init__(self, name):
        self.name = name

    def getattr(self, it, name):
        if name in ("__name__", "__qualname__"):
            return self.name.rpartition(".")[2]
        if name == "__module__":
            return self.name.rpartition(".")[0]
        raise KeyError(name)

    def isinstance(self, it, cn):
        return False

    def term(self, it):
        return T("function", self.name)
