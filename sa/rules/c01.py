"""Everything exchanged inside a protocol is hidden by a fresh one-time mask."""
from .common import *
from ..views import *

MINIMUM = 40


def secret_names(ops):
    out = []
    for o in ops:
        if o.kind == "list":
            out += secret_names(o.value)
        elif o.kind in ("priv", "bin"):
            out.append("%s<%s>l@0" % (o.name, ",".join(map(str, o.shape))))
    return out


def hidden(chk, rule, case, n, bits):
    lab = "%s n=%d" % (case.label, n)

    def f():
        runs = run_case(case, n)
        live(runs, lab)
        chk.saw(runs)
        env = ring_env(case.ops, n, 0, case.bound)
        r = hiding(runs, n, env, secret_names(case.ops), bits)
        if isinstance(r, tuple):
            o, e = r
            raise Violation("%s: %s at %s: %s" % (lab, o.op, o.where, e))
        chk.count("openings tested", r)
    chk.ob(rule, lab, f)


def sharings(ops):
    out = []
    for o in ops:
        if o.kind == "list":
            out += sharings(o.value)
        elif o.kind in ("priv", "bin"):
            out.append(("%s<%s>l" % (o.name, ",".join(map(str, o.shape))), o.kind == "bin"))
    return out


def viewed(chk, rule, case, n, bits):
    for j in range(n):
        lab = "%s n=%d, view of party %d" % (case.label, n, j)

        def f(j=j, lab=lab):
            runs = run_case(case, n)
            live(runs, lab)
            chk.saw(runs)
            r = party_view(runs, n, ring_env(case.ops, n, 0, case.bound), sharings(case.ops), j, bits)
            if isinstance(r, str):
                raise Violation("%s: %s" % (lab, r))
            chk.count("openings tested", r)
        chk.ob(rule, lab, f)


def chains():
    """several protocol runs on each other's results"""
    out = []
    for cfg, nm in (({}, "beaver"), ({"mpc.protocol": "replicated"}, "replicated")):
        for p in (0, 16):
            X, Y = P("x", (2,), p), P("y", (2,), p)
            A, B_ = P("a", (2, 2), p), P("b", (2, 2), p)
            progs = {
                "mul, mul": ([X, Y], lambda it, x, y: method(it, method(it, x, "mul", y), "mul", x)),
                "square, square": ([X], lambda it, x: method(it, method(it, x, "square"), "square")),
                "square, mul": ([X, Y], lambda it, x, y: method(it, method(it, x, "square"), "mul", y)),
                "mul, square": ([X, Y], lambda it, x, y: method(it, method(it, x, "mul", y), "square")),
                "matmul, matmul": ([A, B_], lambda it, x, y: method(it, method(it, x, "matmul", y), "matmul", x)),
                "mul, public division, mul": ([X, Y], lambda it, x, y: method(it, method(it, method(it, x, "mul", y), "div", 3), "mul", y)),
            }
            for k, (ops, do) in progs.items():
                out.append(Case("chain(%s, precision %d) [%s]" % (k, p, nm), ops, do, None, ns=(3,) if cfg else (2, 3), cfg=cfg, wraps0=False, bound=20))
        X, Y = B("x", (2,)), B("y", (2,))
        progs = {
            "and, and": ([X, Y], lambda it, x, y: method(it, method(it, x, "__and__", y), "__and__", x)),
            "and, or": ([X, Y], lambda it, x, y: method(it, method(it, x, "__and__", y), "__or__", y)),
            "add": ([X, Y], lambda it, x, y: method(it, x, "__add__", y)),
            "less than": ([X, Y], lambda it, x, y: method(it, x, "lt", y)),
        }
        for k, (ops, do) in progs.items():
            out.append(Case("chain(%s) [%s]" % (k, nm), ops, do, None, ns=(3,) if cfg else (2, 3), cfg=cfg, kind="bin", wraps0=False))
    return out


def run(chk):
    chk.rule("R1", "arithmetic protocols: for every opening, the entries that depend on a secret are hidden by draws that appear in no earlier "
                   "opening (full rank of their mask matrix over GF(2)), or jointly with the openings sharing its draws")
    chk.rule("R2", "bitwise protocols and conversions: the same")
    chk.rule("R3", "replicated protocol: what each party receives, with the shares of the others unknown, determines no combination of the secrets")
    for c in ac.private_cases() + ac.public_cases():
        c.wraps0 = False
        if "replicated" in c.label:
            viewed(chk, "R3", c, 3, (0, 63))
            continue
        for n in (2, 3):
            if n in c.ns:
                hidden(chk, "R1", c, n, (0, 63))
    for c in bcs.binary_cases() + bcs.conversion_cases():
        for n in (2, 3):
            if n in c.ns:
                hidden(chk, "R2", c, n, (0, 1, 40))
    chk.rule("R4", "programs that feed protocol results into further protocols: the same criteria")
    for c in chains():
        bits = (0, 63) if c.kind != "bin" else (0, 17)
        for n in c.ns:
            (viewed if "replicated" in c.label else hidden)(chk, "R4", c, n, bits)
