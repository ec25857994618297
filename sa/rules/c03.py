"""Correlated randomness is never used twice."""
from .common import *
from ..terms import walk
from .c08 import TFP, TTP, CLIENT, SERVER, Dealer, provider, shares_of, triple, square, binary, wraps, b2a

MINIMUM = 10


class Files:
    """abstract file system for the cache files: path term -> deep copy of the saved object"""

    def __init__(self):
        self.d = {}

    def overrides(self):
        def key(it, p):
            return repr(it.as_term(p))

        def save(it, a, k):
            obj, f = (list(a) + [k.get("f")])[:2]
            self.d[key(it, f)] = tm.deep(it, it.resolve(obj), {})

        def load(it, a, k):
            f = a[0] if a else k.get("f")
            if key(it, f) not in self.d:
                it.raise_exc("FileNotFoundError", "load")
            return tm.deep(it, self.d[key(it, f)], {})

        def exists(it, a, k):
            return key(it, a[0]) in self.d

        def remove(it, a, k):
            if key(it, a[0]) not in self.d:
                it.raise_exc("FileNotFoundError", "remove")
            del self.d[key(it, a[0])]
        return {"torch.save": BuiltinV("save", save), "torch.load": BuiltinV("load", load),
                "os.path.exists": BuiltinV("exists", exists), "os.path.isfile": BuiltinV("exists", exists), "os.remove": BuiltinV("remove", remove),
                "os.unlink": BuiltinV("remove", remove)}


def draws(t):
    """random draws occurring in a value graph"""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "rand":
            out.add(x.id)      # the generator argument is not part of the draw
            continue
        if x.op == "comm" and not x.args[1][0].startswith(("coll", "p2p", "obj")):
            out.add(x.id)
        todo.extend(a for y in x.args for a in (y if isinstance(y, tuple) else (y,)))
    return out


class Prov:
    def __init__(self, it, q):
        self.it, self.p = it, provider(it, q)
        self.served = []

    def __getattr__(self, name):
        def f(*a, **k):
            return method(self.it, self.p, name, *a, **k)
        return f

    def req(self, s):
        v = method(self.it, self.p, s.name, *s.args, **s.kw)
        self.served.append((s, shares_of(self.it, v)))

    def cached(self):
        """number of tuples waiting in the cache"""
        d = self.it.resolve(self.it.getattr(self.p, "tuple_cache"))
        h = self.it.st.get(d)
        return sum(len(self.it.try_iter(x[1] if isinstance(x, tuple) else x)) for x in h.items.values())


mul = lambda a, b: a * b
mm = lambda a, b: np.matmul(a, b)
KINDS = {"mul": lambda: triple("mul", (2, 2), (2, 2), mul), "matmul": lambda: triple("matmul", (2, 2), (2, 2), mm), "square": lambda: square((2, 2)),
         "AND": lambda: binary((2, 2), (2, 2)), "wraps": lambda: wraps((2, 2)), "B2A": lambda: b2a((2, 2)),
         "B2A4": lambda: b2a((4,)), "conv": lambda: triple("conv1d", (1, 1, 3), (1, 1, 2), None, padding=1)}


def scenario_list():
    out = {}

    def sc(name):
        def d(f):
            out[name] = f
            return f
        return d

    def warm(p, ks):
        p.trace(True)
        for k in ks:
            p.req(KINDS[k]())
        p.trace(False)

    @sc("uncached requests")
    def _(p):
        for k in ("mul", "mul", "square", "square", "AND", "AND", "wraps", "wraps", "B2A", "B2A"):
            p.req(KINDS[k]())
    for kk in (("mul",), ("square",), ("AND",), ("wraps",), ("B2A",), ("mul", "matmul"), ("mul", "mul", "square"), ("conv",), ("B2A", "B2A4")):
        @sc("trace, fill, compute: " + ",".join(kk))
        def _(p, kk=kk):
            warm(p, kk)
            p.fill_cache()
            for k in kk:
                p.req(KINDS[k]())

        @sc("cache exhausted: " + ",".join(kk))
        def _(p, kk=kk):
            warm(p, kk)
            p.fill_cache()
            for k in kk + kk + kk:
                p.req(KINDS[k]())

    @sc("fill twice")
    def _(p):
        warm(p, ("mul", "square"))
        p.fill_cache()
        p.fill_cache()
        for k in ("mul", "square", "mul", "square", "mul"):
            p.req(KINDS[k]())

    @sc("requests not in the cache")
    def _(p):
        warm(p, ("mul",))
        p.fill_cache()
        for k in ("square", "mul", "matmul", "AND", "mul"):
            p.req(KINDS[k]())

    @sc("tracing while a filled cache exists")
    def _(p):
        warm(p, ("mul",))
        p.fill_cache()
        warm(p, ("mul",))
        p.req(KINDS["mul"]())
        p.req(KINDS["mul"]())

    @sc("save, compute, load, compute")
    def _(p):
        warm(p, ("mul", "square"))
        p.fill_cache()
        p.save_cache()
        p.req(KINDS["mul"]())
        p.load_cache()
        for k in ("mul", "square", "mul"):
            p.req(KINDS[k]())

    @sc("load twice")
    def _(p):
        warm(p, ("mul", "square"))
        p.fill_cache()
        p.save_cache()
        p.load_cache()
        p.req(KINDS["mul"]())
        p.load_cache()
        for k in ("mul", "square", "mul", "square"):
            p.req(KINDS[k]())

    @sc("save, load at another place")
    def _(p):
        warm(p, ("mul", "B2A"))
        p.fill_cache()
        p.save_cache(filepath="/x")
        p.req(KINDS["B2A"]())
        p.load_cache(filepath="/x")
        for k in ("mul", "B2A", "B2A"):
            p.req(KINDS[k]())

    @sc("use partly, save, load")
    def _(p):
        warm(p, ("mul", "mul", "AND"))
        p.fill_cache()
        p.req(KINDS["mul"]())
        p.save_cache()
        p.load_cache()
        for k in ("mul", "AND", "mul", "AND"):
            p.req(KINDS[k]())

    @sc("trace once twice")
    def _(p):
        p.trace_once()
        p.req(KINDS["mul"]())
        p.trace_once()
        p.fill_cache()
        p.req(KINDS["mul"]())
        p.req(KINDS["mul"]())
    return out


def run_scenario(chk, rule, q, n, name, f):
    lab = "%s n=%d %s" % ("TFP" if q == TFP else "TTP", n, name)

    def ob():
        served = {}
        ov = Files().overrides()
        d = None
        if q == TFP:
            w = World.get(n)
        else:
            w = World.get(n, server=True)
            d = Dealer(w)

        def fn(it, r):
            for k, v in Files().overrides().items():
                it.overrides[k] = v
            if d is not None:
                if r == 0:
                    it.params["recv_obj_hook"] = d.client_hook
                call(it, it.getattr(cls(it, CLIENT), "_init"))
            p = Prov(it, q)
            f(p)
            return p.served
        runs = w.run(fn, ranks=list(range(n)))
        allr = runs + ([d.run] if d is not None and d.run is not None else [])
        for rr in runs:
            if rr.died:
                if not rr.raises or not definite(rr.raises[-1]):
                    raise Undecided("%s: analysis ends with %s" % (lab, [x[1:] for x in rr.raises][-1:]))
                raise Violation("%s: fails at party %d: %s" % (lab, rr.it.rank, [x[1:] for x in rr.raises][-1:]))
            if rr.raises:
                raise Undecided("%s: may fail: %s" % (lab, rr.raises[-1][1:]))
        chk.saw(allr)
        # the same random draw never occurs in two served tuples
        for r, rr in enumerate(runs):
            seen = {}
            for j, (s, recs) in enumerate(rr.value):
                ds = set()
                for rec in recs:
                    ds |= draws(rec[1])
                if not ds:
                    raise Undecided("tuple without randomness")
                for x in ds:
                    if x in seen:
                        raise Violation("%s: party %d is served the same randomness for request %d (%s) and request %d (%s)" % (
                            lab, r, seen[x], rr.value[seen[x]][0].label, j, s.label))
                    seen[x] = j
        # and every served tuple is a valid correlation of the requested kind
        c = ctx_for(allr, 0, ring=True)
        for j in range(len(runs[0].value)):
            s = runs[0].value[j][0]
            if "conv" in s.label:
                continue
            parts = [rr.value[j][1] for rr in runs]
            sh = [[arr(c.eval(x[i][1])) for x in parts] for i in range(len(parts[0]))]
            e = s.check(c, sh)
            if e:
                raise Violation("%s: request %d (%s) is served an invalid tuple: %s" % (lab, j, s.label, e))
    chk.ob(rule, lab, ob)


def run(chk):
    chk.rule("R1", "for every history of tracing, filling, saving, loading and requests (abstract heap with abstract files), no random draw "
                   "occurs in two served tuples and no request fails")
    chk.rule("R2", "every tuple served from the cache is a valid correlation of the requested kind, with the trusted third party too")
    for name, f in scenario_list().items():
        for n in (2, 3) if chk.thorough else (2,):
            run_scenario(chk, "R1", TFP, n, name, f)
        run_scenario(chk, "R2", TTP, 2, name, f)
