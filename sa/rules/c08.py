"""Providers deliver valid correlations and dealer and parties stay in step."""
from .common import *
from ..evalq import conv_nd, convt_nd, tup

MINIMUM = 25
TFP = "crypten.mpc.provider.tfp_provider.TrustedFirstParty"
TTP = "crypten.mpc.provider.ttp_provider.TrustedThirdParty"
CLIENT = "crypten.mpc.provider.ttp_provider.TTPClient"
SERVER = "crypten.mpc.provider.ttp_provider.TTPServer"


def export(it, v):
    """plain Python image of a transmitted object"""
    v = it.resolve(v)
    if isinstance(v, Ref):
        h = it.st.get(v)
        if isinstance(h, HDict):
            return ("dict", {k: export(it, x[1] if isinstance(x, tuple) else x) for k, x in h.items.items()})
        if isinstance(h, HList) and h.items is not None:
            return ("list", [export(it, x) for x in h.items])
        raise Undecided("transmitted object")
    if isinstance(v, tuple):
        return ("tuple", [export(it, x) for x in v])
    if v is None or isinstance(v, (str, int, float, bool)):
        return ("c", v)
    if isinstance(v, Term):
        return ("c", v)
    raise Undecided("transmitted object %r" % (v,))


def imp(it, e):
    k, v = e
    if k == "dict":
        return it.st.new(HDict({q: (q, imp(it, x)) for q, x in v.items()}))
    if k == "list":
        return it.new_list([imp(it, x) for x in v])
    if k == "tuple":
        return tuple(imp(it, x) for x in v)
    return v


class Dealer:
    """analyses TTPServer's dispatch loop on the list of requests made so far"""

    def __init__(self, w, cfg=None):
        self.w, self.msgs, self.run, self.cfg = w, [], None, cfg

    def serve(self):
        n = self.w.n
        msgs = list(self.msgs)

        def fn(it, r):
            box = [0]

            def hook(i, comm, src, k):
                j = box[0]
                box[0] += 1
                if j < len(msgs):
                    return (imp(i, msgs[j]),)
                return ("terminate",)
            it.params["recv_obj_hook"] = hook
            call(it, cls(it, SERVER))
            return None
        self.run = self.w.run(fn, ranks=[n], cfg=self.cfg)[0]
        live([self.run], "TTPServer")
        return self.run

    def client_hook(self, it, comm, src, k):
        ev = [e for e in it.events if e["kind"] == "comm" and e["op"] == "send_obj" and e["dst"] == it.n]
        if not ev:
            raise SpecError("party waits for the dealer without a request")
        self.msgs = [export(it, e["obj"]) for e in ev]
        run = self.serve()
        rep = [e for e in run.events if e["kind"] == "comm" and e["op"] == "send_obj" and e["dst"] == it.rank]
        j = len([e for e in it.events if e["kind"] == "comm" and e["op"] == "recv_obj"]) - 1
        if len(rep) != len(self.msgs):
            raise SpecError("dealer answers %d of %d requests" % (len(rep), len(self.msgs)))
        return (imp(it, export(run.it, rep[j]["obj"])),)


def provider(it, q):
    return call(it, cls(it, q))


def conv(o):
    def f(a, b):
        n = a.ndim - 2
        st, pd, dl = tup(o.get("stride", 1), n), tup(o.get("padding", 0), n), tup(o.get("dilation", 1), n)
        return conv_nd(a, b, st, pd, dl, o.get("groups", 1), n)
    return f


def convt(o):
    def f(a, b):
        n = a.ndim - 2
        st, pd, dl = tup(o.get("stride", 1), n), tup(o.get("padding", 0), n), tup(o.get("dilation", 1), n)
        return convt_nd(a, b, st, pd, dl, o.get("groups", 1), tup(o.get("output_padding", 0), n), n)
    return f


def wrap_count(vs):
    """number of times the integer sum of signed 64-bit values leaves the ring"""
    tot = sum(int(num(v)) for v in vs)
    red = int(wrap64(Fr(tot)))
    return Fr((tot - red) // 2 ** 64)


class Req8:
    def __init__(self, label, name, args, kw, check):
        self.label, self.name, self.args, self.kw, self.check = label, name, args, kw, check


def triple(op, s0, s1, f, **o):
    def chk(c, sh):
        a, b, cc = sh
        A, B_, C = tot(a), tot(b), tot(cc)
        if A.shape != s0 or B_.shape != s1:
            return "factors have shapes %s, %s instead of %s, %s" % (A.shape, B_.shape, s0, s1)
        return cmp_nested(C, emap(wrap64, arr(f(A, B_))))
    return Req8("%s%s%s%s" % (op, s0, s1, o or ""), "generate_additive_triple", (s0, s1, op), o, chk)


def tot(vs):
    return emap(wrap64, arr(sum(vs)))


def square(s):
    return Req8("square%s" % (s,), "square", (s,), {}, lambda c, sh: "shape" if tot(sh[0]).shape != s else cmp_nested(tot(sh[1]), emap(wrap64, arr(tot(sh[0]) ** 2))))


def binary(s0, s1):
    def chk(c, sh):
        A, B_, C = [xor_all(x) for x in sh]
        if A.shape != s0 or B_.shape != s1:
            return "factors have shapes %s, %s" % (A.shape, B_.shape)
        A, B_ = np.broadcast_arrays(A, B_)
        return cmp_nested(C, emap(lambda x, y: wrap64(Fr(int(x) & int(y))), A, B_))
    return Req8("AND%s%s" % (s0, s1), "generate_binary_triple", (s0, s1), {}, chk)


def wraps(s):
    def chk(c, sh):
        if sh[0][0].shape != s:
            return "shape %s" % (sh[0][0].shape,)
        want = emap(lambda *v: wrap_count(v), *sh[0])
        return cmp_nested(tot(sh[1]), want)
    return Req8("wraps%s" % (s,), "wrap_rng", (s,), {}, chk)


def b2a(s):
    def chk(c, sh):
        a, b = tot(sh[0]), xor_all(sh[1])
        if a.shape != s:
            return "shape %s" % (a.shape,)
        if any(num(x) not in (0, 1) for x in b.reshape(-1)):
            return "not a single bit"
        return cmp_nested(a, b)
    return Req8("B2A%s" % (s,), "B2A_rng", (s,), {}, chk)


def scripts(thorough):
    mm = lambda a, b: np.matmul(a, b)
    mul = lambda a, b: a * b
    sq = [
        [triple("mul", (2, 3), (2, 3), mul)],
        [triple("mul", (2, 3), (3,), mul)],
        [triple("mul", (), (2,), mul)],
        [triple("matmul", (2, 3), (3, 4), mm)],
        [triple("matmul", (2, 2, 3), (3, 1), mm)],
        [triple("conv1d", (1, 2, 5), (2, 2, 3), conv({"stride": 2, "padding": 1}), stride=2, padding=1)],
        [triple("conv2d", (1, 2, 4, 4), (2, 1, 2, 2), conv({"groups": 2, "dilation": 2}), groups=2, dilation=2)],
        [triple("conv_transpose1d", (1, 2, 3), (2, 1, 2), convt({"stride": 2}), stride=2)],
        [triple("conv_transpose2d", (1, 2, 2, 2), (2, 1, 2, 2), convt({"padding": 1}), padding=1)],
        [square((2, 3))], [square(())], [binary((2, 3), (2, 3))], [binary((2, 3), (3,))], [binary((1, 3), (2, 1))],
        [wraps((5,))], [wraps((2, 2))], [b2a((8,))], [b2a((2, 3))],
        # sequences: dealer and parties stay aligned
        [triple("mul", (2,), (2,), mul), square((3,)), binary((2,), (2,)), wraps((3,)), b2a((4,)), triple("matmul", (2, 2), (2, 1), mm)],
        [b2a((4,)), wraps((2,)), binary((3,), (1,)), triple("conv1d", (1, 1, 4), (1, 1, 2), conv({})), square((2,)), b2a((2,))],
        [wraps((3,)), wraps((3,)), square((2, 2)), triple("mul", (2, 2), (1, 2), mul), binary((2, 1), (1, 2)), square((2,))],
    ]
    return sq


def shares_of(it, v):
    xs = it.try_iter(v)
    if xs is None:
        raise Undecided("provider result")
    return [collect(it, x) for x in xs]


def script_runs(q, n, script, cfg=None):
    """(runs of the parties, runs of the parties and the dealer)"""
    if q == TFP:
        w = World.get(n)

        def fn(it, r):
            p = provider(it, q)
            return [shares_of(it, method(it, p, s.name, *s.args, **s.kw)) for s in script]
        runs = w.run(fn, cfg=cfg)
        return runs, runs
    w = World.get(n, server=True)
    d = Dealer(w)

    def fn(it, r):
        if r == 0:
            it.params["recv_obj_hook"] = d.client_hook
        call(it, it.getattr(cls(it, CLIENT), "_init"))
        p = provider(it, q)
        return [shares_of(it, method(it, p, s.name, *s.args, **s.kw)) for s in script]
    runs = w.run(fn, ranks=list(range(n)), cfg=cfg)
    if d.run is None:
        raise Undecided("no request reaches the dealer")
    return runs, runs + [d.run]


def run_script(chk, rule, q, n, script, cfg=None):
    lab = "%s n=%d %s" % ("TFP" if q == TFP else "TTP", n, "; ".join(r.label for r in script))

    def f():
        runs, allr = script_runs(q, n, script, cfg)
        live(runs, lab)
        chk.saw(allr)
        for p in range(4 if any(s.name == "wrap_rng" for s in script) else 2):
            c = ctx_for(allr, p, ring=True)
            c.nparties = n
            for j, s in enumerate(script):
                parts = [rr.value[j] for rr in runs]
                if len({len(x) for x in parts}) != 1:
                    raise Violation("%s: parties receive different numbers of tensors" % lab)
                sh = []
                for i in range(len(parts[0])):
                    vs = [arr(c.eval(x[i][1])) for x in parts]
                    if len({v.shape for v in vs}) != 1:
                        raise Violation("%s: request %d: parties hold shares of different shapes %s" % (lab, j, [v.shape for v in vs]))
                    for x in parts:
                        if x[i][0] == "arith" and num(c.scalar(x[i][2])) != 1:
                            raise Violation("%s: request %d: tuple element carries a fixed-point scale" % (lab, j))
                    sh.append(vs)
                e = s.check(c, sh)
                if e:
                    raise Violation("%s: request %d (%s) is not a valid correlation: %s" % (lab, j, s.label, e))
    chk.ob(rule, lab, f)


def run(chk):
    chk.rule("R1", "trusted first party: combined tuple satisfies its relation in the 64-bit ring for every request")
    chk.rule("R2", "trusted third party: parties' draws and the dealer's draws come from generators with the same seed at the same position, "
                   "size and range, so that the combined tuple satisfies its relation, for single requests and sequences of requests")
    for n in (1, 2, 3, 4) if chk.thorough else (1, 2, 3):
        for s in scripts(chk.thorough):
            run_script(chk, "R1", TFP, n, s)
            if n > 1:
                run_script(chk, "R2", TTP, n, s)
