"""Abstract models of the environment of the analysed code: configuration, communicator, generators;
and World: one abstract run of the same code per party."""
import os
from .terms import *
from .values import *
from . import torchmodel as tm
from .interp import Program, Interp, Dead, AnalysisLimit
from .evalq import Ctx, Undecided, SpecError, arr, num, val, Fr, same, emap, wrap64
from .bits import BV, BDD
import numpy as np


# ------------------------------------------------------------------ configuration
def load_yaml(path):
    """the small subset of YAML used by the configuration files"""
    out = {}
    stack = [(-1, "")]
    with open(path) as f:
        for line in f:
            s = line.split("#")[0].rstrip()
            if not s.strip():
                continue
            ind = len(s) - len(s.lstrip())
            k, _, v = s.strip().partition(":")
            while stack and stack[-1][0] >= ind:
                stack.pop()
            full = (stack[-1][1] + "." if stack and stack[-1][1] else "") + k.strip()
            v = v.strip()
            if v == "":
                stack.append((ind, full))
            else:
                if v[0] in "\"'":
                    c = v[1:-1]
                elif v in ("True", "true"):
                    c = True
                elif v in ("False", "false"):
                    c = False
                elif v in ("null", "None", "~"):
                    c = None
                else:
                    try:
                        c = int(v)
                    except ValueError:
                        try:
                            c = float(v)
                        except ValueError:
                            c = v
                out[full] = c
    return out


class CfgNode(NativeObj):
    def __init__(self, world_cfg, path=""):
        self.c, self.path = world_cfg, path

    def full(self, name):
        return (self.path + "." if self.path else "") + name

    def cell(self, it):
        return it.cfgref

    def read(self, it, f):
        d = it.st.get(it.cfgref)
        it.cfg_reads.add(f)
        if f in d.attrs:
            return d.attrs[f]
        return UNDEF

    def getattr(self, it, name):
        f = self.full(name)
        v = self.read(it, f)
        if v is not UNDEF:
            return v
        d = it.st.get(it.cfgref)
        if any(k.startswith(f + ".") for k in d.attrs):
            return CfgNode(self.c, f)
        if not self.path:
            if name == "temp_override":
                return BuiltinV("temp_override", lambda i, a, k: TempOverride(self, a, k))
            if name == "set_config":
                return BuiltinV("set_config", lambda i, a, k: None)
            if name == "load_config":
                return BuiltinV("load_config", lambda i, a, k: None)
            if name == "config":
                return self
            if name == "get_config":
                return BuiltinV("get_config", lambda i, a, k: self)
        it.events.append({"kind": "cfg_missing", "key": f, "where": it.where() if it.frames else "?"})
        it.raise_exc("AttributeError", "configuration key %s" % f)

    def setattr(self, it, name, v):
        f = self.full(name)
        d = it.st.get(it.cfgref)
        if f not in d.attrs:
            it.events.append({"kind": "cfg_missing", "key": f, "where": it.where() if it.frames else "?"})
        it.st.put(it.cfgref, HInst(None, {**d.attrs, f: v}))

    def getitem(self, it, i):
        return self.getattr(it, i)

    def term(self, it):
        return T("cfg", self.path)


class TempOverride(NativeObj):
    """behaviour of CrypTenConfig.temp_override (checked separately against its source)"""

    def __init__(self, node, a, k):
        self.node, self.a, self.k = node, a, k

    def enter(self, it):
        d = it.resolve(self.a[0]) if self.a else it.resolve(self.k.get("override_dict"))
        self_saved = it.st.get(it.cfgref).attrs
        h = it.st.get(d) if isinstance(d, Ref) else None
        if isinstance(h, HDict):
            items = [(k if isinstance(k, str) else v[0], v[1] if isinstance(v, tuple) else v) for k, v in h.items.items()]
            for k, v in items:
                if k not in self_saved:
                    it.events.append({"kind": "cfg_missing", "key": k, "where": it.where()})
                    it.raise_exc("ConfigKeyError", "configuration key %s" % k)
            it.st.put(it.cfgref, HInst(None, {**self_saved, **dict(items)}))
        else:
            it.note("temp_override with unknown mapping")
        return self_saved

    def exit(self, it, saved):
        it.st.put(it.cfgref, HInst(None, saved))

    def getattr(self, it, name):
        raise KeyError(name)


# ------------------------------------------------------------------ generators
class Gen(NativeObj):
    def __init__(self, gid, role=None):
        self.gid, self.role = gid, role

    def term(self, it):
        return T("gen", *self.gid)

    def getattr(self, it, name):
        if name == "manual_seed":
            def f(i, a, k):
                i.events.append({"kind": "seed", "gen": self.gid, "seed": i.as_term(a[0]), "where": i.where()})
                return self
            return BuiltinV("manual_seed", f)
        if name in ("seed", "initial_seed"):
            return BuiltinV(name, lambda i, a, k: T("gen.seed", *self.gid, ty="int"))
        if name == "get_state":
            return BuiltinV(name, lambda i, a, k: T("gen.state", *self.gid))
        if name == "set_state":
            return BuiltinV(name, lambda i, a, k: None)
        if name == "device":
            return tm.DEVICE
        raise KeyError(name)


class GenByDevice(NativeObj):
    def __init__(self, gid, role=None):
        self.gid, self.role = gid, role

    def getitem(self, it, i):
        return Gen(self.gid, self.role)

    def setitem(self, it, i, v):
        it.note("generator replaced")

    def getattr(self, it, name):
        if name == "get":
            return BuiltinV("get", lambda i, a, k: Gen(self.gid, self.role))
        if name == "keys":
            return BuiltinV("keys", lambda i, a, k: (tm.DEVICE,))
        if name == "values":
            return BuiltinV("values", lambda i, a, k: (Gen(self.gid, self.role),))
        if name == "items":
            return BuiltinV("items", lambda i, a, k: ((tm.DEVICE, Gen(self.gid, self.role)),))
        raise KeyError(name)

    def contains(self, it, x):
        return True

    def iter(self, it):
        return [tm.DEVICE]


class Generators(NativeObj):
    def __init__(self, rank, n):
        self.rank, self.n = rank, n

    def gid(self, name):
        return {"prev": ("pair", self.rank), "next": ("pair", (self.rank + 1) % self.n), "local": ("local", self.rank),
                "global": ("global",)}.get(name)

    def getitem(self, it, i):
        g = self.gid(it.resolve(i))
        if g is None:
            it.raise_exc("KeyError", "generator %s" % (i,))
        return GenByDevice(g, it.resolve(i))

    def getattr(self, it, name):
        if name == "get":
            return BuiltinV("get", lambda i, a, k: self.getitem(i, a[0]))
        if name == "keys":
            return BuiltinV("keys", lambda i, a, k: ("prev", "next", "local", "global"))
        if name == "values":
            return BuiltinV("values", lambda i, a, k: tuple(self.getitem(i, x) for x in ("prev", "next", "local", "global")))
        if name == "items":
            return BuiltinV("items", lambda i, a, k: tuple((x, self.getitem(i, x)) for x in ("prev", "next", "local", "global")))
        raise KeyError(name)

    def setitem(self, it, i, v):
        it.note("generator table replaced")

    def contains(self, it, x):
        return it.resolve(x) in ("prev", "next", "local", "global")

    def iter(self, it):
        return ["prev", "next", "local", "global"]


# ------------------------------------------------------------------ communicator
class Req(NativeObj):
    def __init__(self, kind, comm, apply=None, seq=None, buf=None, sent=None):
        self.kind, self.comm, self.apply, self.seq, self.buf, self.sent = kind, comm, apply, seq, buf, sent

    def getattr(self, it, name):
        if name == "wait":
            def w(i, a, k):
                dirty = self.kind == "isend" and i.as_term(self.buf) is not self.sent
                i.events.append({"kind": "wait", "seq": self.seq, "where": i.where(), "pc": i.st.pc, "dirty": dirty, "op": self.kind})
                if self.apply:
                    self.apply(i)
                return None
            return BuiltinV("wait", w)
        if name == "is_completed":
            return BuiltinV("is_completed", lambda i, a, k: True)
        raise KeyError(name)


class Comm(NativeObj):
    """communication primitives as events; received data are 'comm' terms resolved over all parties"""

    def __init__(self, rank, n):
        self.rank, self.n = rank, n

    def count(self, it, key):
        d = it.st.get(it.sysref)
        k = d.attrs.get(key, 0)
        if not isinstance(k, int):
            it.note("communication under a data-dependent branch")
            k = it.fresh("commx") + 10000
        it.st.put(it.sysref, HInst(None, {**d.attrs, key: k + 1}))
        return k

    def emit(self, it, op, payload, key="coll", **kw):
        k = self.count(it, key)
        shapes = [tm.shape_of(p) if isinstance(p, Term) else () for p in payload]
        ev = {"kind": "comm", "op": op, "payload": payload, "chan": key, "k": k, "shapes": shapes, "where": it.where(),
              "pc": it.st.pc, "rank": self.rank, "stack": [f.func.qual for f in it.frames if f.func]}
        ev.update(kw)
        it.events.append(ev)
        return k

    def result(self, it, key, k, j, shape, dtype):
        return it.new_tensor(T("comm", self.rank, (key, k), j, shape), dtype)

    def dt(self, it, v):
        return tm.dtype_of(it, v) or "long"

    def getattr(self, it, name):
        m = getattr(self, "m_" + name, None)
        if m is None:
            if name in ("ttp_group", "ttp_comm_group", "main_group"):
                return T("group", name)
            raise KeyError(name)
        return BuiltinV("comm." + name, lambda i, a, k: m(i, *[i.resolve(x) for x in a], **{q: i.resolve(z) for q, z in k.items()}))

    def m_get_rank(self, it):
        return self.rank

    def m_get_world_size(self, it):
        return self.n

    def m_get_ttp_rank(self, it):
        return self.n

    def m_barrier(self, it):
        self.emit(it, "barrier", [])

    def m_set_verbosity(self, it, *a):
        return None

    def m_log_communication(self, it, *a, **k):
        return None

    def _list(self, it, x):
        xs = it.try_iter(x)
        return list(xs) if xs is not None else None

    def m_all_reduce(self, it, input, op=None, batched=False):
        return self._reduce(it, "all_reduce", input, None, op, batched)

    def m_reduce(self, it, input, dst, op=None, batched=False):
        return self._reduce(it, "reduce", input, dst, op, batched)

    def _reduce(self, it, name, input, dst, op, batched):
        opn = "SUM" if op is None else (op.name.split(".")[-1] if isinstance(op, ExtV) else str(op))
        if batched is True:
            xs = self._list(it, input)
            if xs is None:
                return it.opaque("batched reduce of unknown list")
            ts = [it.as_term(x) for x in xs]
            k = self.emit(it, name, ts, root=dst, rop=opn)
            return it.new_list([self.result(it, "coll", k, j, tm.shape_of(t), self.dt(it, x)) for j, (t, x) in enumerate(zip(ts, xs))])
        t = it.as_term(input)
        k = self.emit(it, name, [t], root=dst, rop=opn)
        return self.result(it, "coll", k, 0, tm.shape_of(t), self.dt(it, input))

    def m_broadcast(self, it, input, src, group=None):
        t = it.as_term(input)
        key = "coll" if group is None else repr(group)
        if it.kind(input) in ("list", "tuple"):
            xs = self._list(it, input)
            ts = [it.as_term(x) for x in xs]
            k = self.emit(it, "broadcast", ts, key, root=src)
            for j, (x, tt) in enumerate(zip(xs, ts)):
                it.write_cell(x, T("comm", self.rank, (key, k), j, tm.shape_of(tt)))
            return input
        k = self.emit(it, "broadcast", [t], key, root=src)
        it.write_cell(input, T("comm", self.rank, (key, k), 0, tm.shape_of(t)))
        return input

    def m_broadcast_obj(self, it, obj, src, group=None):
        t = it.as_term(obj)
        key = "coll" if group is None else repr(group)
        k = self.emit(it, "broadcast_obj", [t], key, root=src, obj=obj)
        h = it.params.get("broadcast_obj_hook")
        if h is not None:
            r = h(it, self, obj, src, k)
            if r is not None:
                return r[0]
        if isinstance(src, int) and src == self.rank:
            return obj
        return T("comm", self.rank, (key, k), 0, ())

    def m_gather(self, it, tensor, dst, group=None, async_op=False):
        t = it.as_term(tensor)
        k = self.emit(it, "gather", [t], root=dst)
        if isinstance(dst, int) and dst != self.rank:
            return it.new_list([None])
        return it.new_list([self.result(it, "coll", k, q, tm.shape_of(t), self.dt(it, tensor)) for q in range(self.n)])

    def m_all_gather(self, it, tensor, group=None, async_op=False):
        t = it.as_term(tensor)
        k = self.emit(it, "all_gather", [t])
        return it.new_list([self.result(it, "coll", k, q, tm.shape_of(t), self.dt(it, tensor)) for q in range(self.n)])

    def m_scatter(self, it, scatter_list, src, size=None, device=None):
        if src == self.rank:
            xs = self._list(it, scatter_list)
            ts = [it.as_term(x) for x in xs]
            k = self.emit(it, "scatter", ts, root=src)
            return self.result(it, "coll", k, 0, tm.shape_of(ts[self.rank]), "long")
        k = self.emit(it, "scatter", [], root=src)
        sz = size if isinstance(size, tuple) else (it.as_term(size) if size is not None else ())
        return self.result(it, "coll", k, 0, sz, "long")

    # point to point
    def m_send(self, it, tensor, dst):
        self.emit(it, "send", [it.as_term(tensor)], "p2p:%s>%s" % (self.rank, dst), dst=dst)

    def m_recv(self, it, tensor, src=None):
        key = "p2p:%s>%s" % (src, self.rank)
        t = it.as_term(tensor)
        k = self.emit(it, "recv", [], key, src=src, shape=tm.shape_of(t))
        # the distributed backend receives into a copy
        return self.result(it, key, k, 0, tm.shape_of(t), self.dt(it, tensor))

    def m_isend(self, it, tensor, dst):
        k = self.emit(it, "isend", [it.as_term(tensor)], "p2p:%s>%s" % (self.rank, dst), dst=dst)
        seq = ("p2p:%s>%s" % (self.rank, dst), k)
        ev = it.events[-1]
        ev["buf"] = tensor
        return Req("isend", self, None, seq, tensor, ev["payload"][0])

    def m_irecv(self, it, tensor, src=None):
        key = "p2p:%s>%s" % (src, self.rank)
        t = it.as_term(tensor)
        k = self.emit(it, "irecv", [], key, src=src, shape=tm.shape_of(t))
        # content is undefined until the request is waited for
        it.write_cell(tensor, bcpend(T("pending", self.rank, key, k), tm.shape_of(t)))
        ref = tensor

        def ap(i):
            i.write_cell(ref, T("comm", self.rank, (key, k), 0, tm.shape_of(t)))
        return Req("irecv", self, ap, (key, k))

    def m_send_obj(self, it, obj, dst, group=None):
        self.emit(it, "send_obj", [it.as_term(obj)], "obj:%s>%s" % (self.rank, dst), dst=dst, obj=obj)

    def m_recv_obj(self, it, src, group=None):
        key = "obj:%s>%s" % (src, self.rank)
        k = self.emit(it, "recv_obj", [], key, src=src)
        h = it.params.get("recv_obj_hook")
        if h is not None:
            r = h(it, self, src, k)
            if r is not None:
                return r[0]
        return T("comm", self.rank, (key, k), 0, ())


def _dist(name):
    def f(it, a, k):
        a = [it.resolve(x) for x in a]
        k = {q: it.resolve(v) for q, v in k.items()}
        h = it.overrides.get("dist." + name)
        if h is not None:
            return it.call(h, a, k)
        t = a[0] if a else k.get("tensor")
        if name in ("isend", "send"):
            r = it.comm.m_isend(it, t, a[1] if len(a) > 1 else k.get("dst"))
            return r if name == "isend" else None
        if name in ("irecv", "recv"):
            r = it.comm.m_irecv(it, t, a[1] if len(a) > 1 else k.get("src"))
            if name == "recv":
                r.apply(it)
                return None
            return r
        if name == "barrier":
            it.events.append({"kind": "barrier", "where": it.where()})
            return None
    return f


for _n in ("isend", "irecv", "send", "recv", "barrier"):
    tm.EXT["torch.distributed." + _n] = _dist(_n)


def bcpend(t, sh):
    return T("bcto", t, sh)


# ------------------------------------------------------------------ worlds
class RankRun:
    """result of one abstract run at one party"""

    def __init__(self, it, value, died, raises):
        self.it, self.value, self.died, self.raises = it, value, died, raises
        self.events = list(it.events)
        self.notes = list(it.notes)
        self.trace = list(it.trace)
        self.snap = it.st.snap()


_PROG = None


def program(root=os.environ.get("SA_ROOT", "/repo")):
    global _PROG
    if _PROG is None:
        _PROG = Program(root)
    return _PROG


class World:
    """N parties running the same code on corresponding data."""

    cache = {}

    def __init__(self, n=2, cfg=None, root=os.environ.get("SA_ROOT", "/repo"), native_cfg=True, native_comm=True, params=None, server=False, native_gen=True):
        self.n = n
        self.root = root
        self.prog = program(root)
        self.defaults = load_yaml(os.path.join(root, "configs/default.yaml"))
        self.its = []
        for r in range(n + (1 if server else 0)):
            it = Interp(self.prog, params)
            it.rank, it.n = r, n
            it.params["rank"], it.params["world_size"] = r, n
            it.cfg_reads = set()
            it.cfgref = it.st.new(HInst(None, {**self.defaults, **(cfg or {})}))
            it.sysref = it.st.new(HInst(None, {}))
            it.rng_draw = lambda *a, it=it: rng_draw(it, *a)
            c = Comm(r, n)
            it.comm = c
            if native_cfg:
                it.overrides["crypten.config.cfg"] = CfgNode(None)
                it.overrides["crypten.cfg"] = it.overrides["crypten.config.cfg"]
            if native_comm:
                it.overrides["crypten.communicator.get"] = BuiltinV("comm.get", lambda i, a, k, c=c: c)
                it.overrides["crypten.communicator.is_initialized"] = BuiltinV("comm.is_initialized", lambda i, a, k: True)
                if native_gen:
                    it.overrides["crypten.generators"] = Generators(r, n)
            it.load_all()
            it.base_snap = it.st.snap()
            it.load_notes = list(it.notes)
            self.its.append(it)

    @classmethod
    def get(cls, n=2, **kw):
        key = (n,) + tuple(sorted(kw.items()))
        if key not in cls.cache:
            cls.cache[key] = cls(n, **kw)
        return cls.cache[key]

    def run(self, fn, cfg=None, params=None, overrides=None, ranks=None):
        """fn(it, rank) -> abstract value, for every party; returns list of RankRun"""
        out = []
        for it in self.its if ranks is None else [self.its[r] for r in ranks]:
            it.st.restore(it.base_snap)
            it.events, it.raises, it.notes, it.trace = [], [], [], []
            it.handlers, it.frames = [], []
            it.counters = {}
            it.steps = 0
            if cfg:
                d = it.st.get(it.cfgref)
                it.st.put(it.cfgref, HInst(None, {**d.attrs, **cfg}))
            oldp, oldo = dict(it.params), dict(it.overrides)
            it.params.update(params or {})
            it.overrides.update(overrides or {})
            died = False
            v = None
            it.live_roots = None
            try:
                v = fn(it, it.rank)
            except Dead:
                died = True
            except AnalysisLimit as e:
                it.notes.append("limit: %s" % e)
                it.params, it.overrides = oldp, oldo
                raise Undecided("analysis bound")
            rr = RankRun(it, v, died, list(it.raises))
            it.params, it.overrides = oldp, oldo
            out.append(rr)
        return out


def rng_draw(it, fn, gen, size, lo, hi, a, k):
    gen = it.resolve(gen)
    if isinstance(gen, Gen):
        gid = gen.gid
    elif isinstance(gen, tm.GenV):
        gid = ("seeded", gen.seed) if gen.seed is not None else ("unseeded", it.rank, gen.name)
    elif gen is None:
        gid = ("default", it.rank)
    else:
        gid = ("other", repr(it.as_term(gen)))
    # two generator objects with the same seed (one party: previous = next) advance independently
    key = "rng:" + repr(gid) + str(getattr(gen, "role", "")) + (str(gen.name) if isinstance(gen, tm.GenV) else "")
    d = it.st.get(it.sysref)
    n = d.attrs.get(key, 0)
    if not isinstance(n, int):
        n = it.fresh("rngx") + 10000
    it.st.put(it.sysref, HInst(None, {**d.attrs, key: n + 1}))
    it.events.append({"kind": "rng", "fn": fn, "gen": gid, "size": size, "lo": lo, "hi": hi, "n": n, "where": it.where(),
                      "stack": [f.func.qual for f in it.frames if f.func], "pc": it.st.pc})
    extra = [it.as_term(x) for x in a] if fn in ("torch.normal", "torch.bernoulli") else []
    t = T("rand", T("gen", *gid), size, n, fn, lo, hi, *extra)
    return it.new_tensor(t, tm.dt_of_ext(k.get("dtype")) or ("long" if fn in ("torch.randint", "torch.randperm") else "float"))


# ------------------------------------------------------------------ evaluation of runs
def event_table(runs):
    tab = {}
    for rr in runs:
        for e in rr.events:
            if e["kind"] == "comm":
                tab.setdefault((rr.it.rank, e["chan"], e["k"]), e)
    return tab


def comm_eval(tab, n):
    def f(c, t):
        rank, (key, k), j, _ = t.args
        me = tab.get((rank, key, k))
        if me is None:
            raise Undecided("communication not found")
        if not key.startswith("p2p") and not key.startswith("obj") and key != "coll":
            e = tab.get((me["root"], key, k))
            if me["op"] not in ("broadcast", "broadcast_obj") or e is None or e["op"] != me["op"]:
                raise SpecError("group communication without counterpart (%s)" % me["where"])
            return c.eval(e["payload"][j])
        if key.startswith("p2p") or key.startswith("obj"):
            src = int(key.split(":")[1].split(">")[0])
            e = tab.get((src, key, k))
            if e is None or not e["op"].replace("i", "").startswith("send"):
                raise SpecError("receive without matching send (%s)" % me["where"])
            return c.eval(e["payload"][0])
        evs = []
        for q in range(n):
            e = tab.get((q, key, k))
            if e is None or e["op"] != me["op"]:
                raise SpecError("parties %d and %d disagree on communication %s" % (rank, q, me["where"]))
            evs.append(e)
        op = me["op"]
        if op in ("all_reduce", "reduce"):
            if op == "reduce" and me["root"] != rank:
                raise Undecided("reduced value read by a party other than its destination")
            vals = [arr(c.eval(e["payload"][j])) for e in evs]
            return c.combine(vals, me["rop"], c)
        if op in ("broadcast", "broadcast_obj"):
            return c.eval(evs[me["root"]]["payload"][j])
        if op in ("gather", "all_gather"):
            return c.eval(evs[j]["payload"][0])
        if op == "scatter":
            return c.eval(evs[me["root"]]["payload"][rank])
        raise Undecided("communication " + op)
    return f


def combine_q(vals, rop, c=None):
    if rop == "SUM":
        r = vals[0]
        for v in vals[1:]:
            if v.shape != r.shape:
                raise SpecError("parties reduce different shapes")
            r = arr(r + v)
        if c is not None and c.ring:
            r = emap(wrap64, r)
        return arr(r)
    if rop == "BXOR":
        r = vals[0]
        for v in vals[1:]:
            r = emap(xor1, r, v)
        return arr(r)
    raise Undecided("reduction " + rop)


def xor1(x, y):
    if isinstance(x, BV):
        return x.bitop("xor", y)
    if isinstance(y, BV):
        return y.bitop("xor", x)
    return Fr(int(num(x)) ^ int(num(y)))


def ctx_for(runs, point=0, env=None, exact=True, extra=None, ring=False):
    n = len(runs)
    ex = {"comm": comm_eval(event_table(runs), n)}
    ex.update(extra or {})
    c = Ctx(point, env, None, exact, ex)
    c.combine = combine_q
    c.ring = ring
    if ring:
        c.exact = False
    return c


# ------------------------------------------------------------------ inputs
def tsym(name, shape, dtype="float", rank=None):
    """name of a tensor symbol with a fixed shape"""
    b = "%s<%s>%s" % (name, ",".join(map(str, shape)), dtype[0])
    tm.SHAPES[b] = tuple(shape)
    tm.DTYPES[b] = dtype
    return sym(b if rank is None else "%s@%d" % (b, rank))


def new_sym_tensor(it, name, shape, dtype="float", rank=None):
    return it.new_tensor(tsym(name, shape, dtype, rank), dtype)


def cls(it, qual):
    m, c = qual.rsplit(".", 1)
    v = it.mod_get(it.import_module(m), c)
    if v is UNDEF:
        raise AnchorLost(qual)
    return it.resolve(v)


class AnchorLost(Exception):
    pass


def call(it, f, *a, **k):
    return it.call(f, list(a), dict(k))


def method(it, o, name, *a, **k):
    return it.call(it.getattr(o, name, dunder=name.startswith("__")), list(a), dict(k))


AST = "crypten.mpc.primitives.arithmetic.ArithmeticSharedTensor"
BST = "crypten.mpc.primitives.binary.BinarySharedTensor"


def arith(it, name, shape, precision=None):
    """an arithmetic sharing whose share at this party is an unconstrained symbol"""
    c = cls(it, AST)
    return call(it, it.getattr(c, "from_shares"), new_sym_tensor(it, name, shape, "long", it.rank), precision=precision)


def share_term(it, o):
    return it.as_term(it.getattr(o, "share"))


def scale_of(it, o):
    return it.as_term(it.getattr(it.getattr(o, "encoder"), "scale"))
