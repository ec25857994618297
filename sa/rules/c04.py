"""Generators are seeded from secret entropy; masks and shares are drawn from secret generators over the full range."""
from .common import *
from ..terms import walk
from .c08 import TFP, TTP, SERVER, script_runs, scripts

MINIMUM = 20
KEYS = ("prev", "next", "local", "global")


def seeds_of(it):
    """seed of every generator stored in crypten.generators, as value graphs"""
    g = it.resolve(it.mod_get(it.import_module("crypten"), "generators"))
    out = {}
    for k in KEYS:
        d = it.getitem(g, k)
        h = it.st.get(d)
        vs = [it.resolve(x[1] if isinstance(x, tuple) else x) for x in h.items.values()]
        if not vs:
            raise Violation("no %s generator is created" % k)
        for v in vs:
            if not isinstance(v, tm.GenV):
                raise Undecided("generator object")
            if v.seed is None:
                raise Violation("the %s generator is never seeded" % k)
        out[k] = [v.seed for v in vs]
    return out


def entropy(runs):
    return [e["term"] for rr in runs for e in rr.events if e["kind"] == "entropy"]


def evalall(runs, terms, env):
    c = ctx_for(runs, 0, env, ring=True)
    return [num(c.scalar(t)) if not isinstance(t, list) else [num(x) for x in t] for t in terms]


def flat_eval(c, t):
    v = c.eval(t)
    return tuple(num(x) for x in arr(v).reshape(-1)) if not isinstance(v, (tuple, list)) else tuple(flat_eval(c, x) for x in v)


def base_env(ent):
    return {"ur:%d:%d" % t.args[:2]: h64("seedbase", t.args[0], t.args[1]) for t in ent}


def check_seeds(runs, seeds, where, shared_global=True):
    """seeds: per rank dict key -> terms.  Matching, secrecy and width of the seeds."""
    n = len(runs)
    ent = entropy(runs)
    if not ent:
        raise Violation("%s: no operating-system entropy is read" % where)
    env = base_env(ent)
    base = ctx_for(runs, 0, env, ring=True)
    val = [{k: [num(base.scalar(t)) for t in ts] for k, ts in s.items()} for s in seeds]
    for r in range(n):
        for k in KEYS:
            if len(set(val[r][k])) != 1:
                raise Violation("%s: the %s generators of party %d are seeded differently on different devices" % (where, k, r))
        if val[r]["prev"][0] != val[(r - 1) % n]["next"][0]:
            raise Violation("%s: party %d's previous-neighbour generator does not share the seed of party %d's next-neighbour generator" % (where, r, (r - 1) % n))
        if val[r]["global"][0] != val[0]["global"][0]:
            raise Violation("%s: parties 0 and %d have different global seeds" % (where, r))
    # dependence of every seed on every entropy byte
    dep = {}
    for t in ent:
        key = "ur:%d:%d" % t.args[:2]
        nbytes = int(t.args[2])
        for b in range(nbytes):
            e2 = dict(env)
            e2[key] = env[key] ^ (0xFF << (8 * b)) if b else env[key] ^ 0xFF
            c2 = ctx_for(runs, 0, e2, ring=True)
            for r in range(n):
                for k in KEYS:
                    if num(c2.scalar(seeds[r][k][0])) != val[r][k][0]:
                        dep.setdefault((r, k), {}).setdefault((t.args[0], key), set()).add(b)
    for r in range(n):
        for k in KEYS:
            d = dep.get((r, k), {})
            if sum(len(x) for x in d.values()) < 8:
                raise Violation("%s: the %s seed of party %d depends on %d bytes of entropy" % (where, k, r, sum(len(x) for x in d.values())))
    src = {(r, k): {x[1] for x in dep[(r, k)]} for r in range(n) for k in KEYS}
    for r in range(n):
        for k in ("next", "local"):
            own = {x[0] for x in dep[(r, k)]}
            if own != {r}:
                raise Violation("%s: the %s seed of party %d comes from entropy of parties %s" % (where, k, r, sorted(own)))
        for k2 in ("next", "global"):
            if src[(r, "local")] & src[(r, k2)]:
                raise Violation("%s: party %d's local and %s generators share their entropy" % (where, r, k2))
        if src[(r, "next")] & src[(r, "global")]:
            raise Violation("%s: party %d's pairwise and global generators share their entropy" % (where, r))
    # what is transmitted
    for rr in runs:
        for e in rr.events:
            if e["kind"] != "comm":
                continue
            for p in e["payload"]:
                v0 = flat_eval(base, p)
                for t in ent:
                    key = "ur:%d:%d" % t.args[:2]
                    e2 = dict(env)
                    e2[key] = env[key] ^ 0x5A5A5A5A5A5A5A5A
                    if flat_eval(ctx_for(runs, 0, e2, ring=True), p) == v0:
                        continue
                    for r in range(n):
                        if key in src[(r, "local")]:
                            raise Violation("%s: party %d's private seed is transmitted (%s)" % (where, r, e["where"]))
                        if key in src[(r, "next")]:
                            to = e.get("dst")
                            if not e["chan"].startswith("p2p") or to != (r + 1) % n:
                                raise Violation("%s: the seed shared by parties %d and %d is transmitted to %s (%s)" % (
                                    where, r, (r + 1) % n, "everybody" if to is None else "party %s" % to, e["where"]))


def p2p_dst(runs):
    for rr in runs:
        for e in rr.events:
            if e["kind"] == "comm" and e["chan"].startswith("p2p"):
                e["dst"] = int(e["chan"].split(">")[1].split(":")[0])


def setup(chk, n):
    def ob():
        w = World.get(n, native_gen=False)

        def fn(it, r):
            call(it, it.mod_get(it.import_module("crypten"), "_setup_prng"))
            return seeds_of(it)
        runs = live(w.run(fn), "_setup_prng")
        chk.saw(runs)
        p2p_dst(runs)
        check_seeds(runs, [rr.value for rr in runs], "_setup_prng with %d parties" % n)
    chk.ob("R1", "crypten._setup_prng n=%d" % n, ob)


def manual(chk, n):
    def on():
        w = World.get(n, native_gen=False)

        def fn(it, r):
            m = it.import_module("crypten")
            call(it, it.mod_get(m, "_setup_prng"))
            call(it, it.mod_get(m, "manual_seed"), sym("nx%d" % r, "int"), sym("lo%d" % r, "int"), sym("gl%d" % r, "int"))
            return seeds_of(it)
        runs = live(w.run(fn, cfg={"debug.debug_mode": True}), "manual_seed")
        chk.saw(runs)
        env = {}
        for r in range(n):
            env.update({"nx%d" % r: Fr(101 + r), "lo%d" % r: Fr(201 + r), "gl%d" % r: Fr(301 + r)})
        c = ctx_for(runs, 0, env, ring=True)
        for r in range(n):
            want = {"prev": 101 + (r - 1) % n, "next": 101 + r, "local": 201 + r, "global": 301}
            for k in KEYS:
                for t in runs[r].value[k]:
                    if num(c.scalar(t)) != want[k]:
                        raise Violation("manual_seed with %d parties: the %s generator of party %d gets the wrong seed" % (n, k, r))
    chk.ob("R2", "crypten.manual_seed in debug mode n=%d" % n, on)

    def off():
        w = World.get(n, native_gen=False)

        def fn(it, r):
            m = it.import_module("crypten")
            call(it, it.mod_get(m, "_setup_prng"))
            call(it, it.mod_get(m, "manual_seed"), 1, 2, 3)
        runs = w.run(fn, cfg={"debug.debug_mode": False})
        chk.saw(runs)
        for rr in runs:
            if not rr.died:
                raise Violation("manual_seed is accepted outside the debug mode: all randomness becomes reproducible")
            if not explicit_raise(rr.raises[-1]):
                raise Undecided("manual_seed: %s" % (rr.raises[-1],))
    chk.ob("R2", "crypten.manual_seed outside debug mode n=%d" % n, off)


def ttp(chk, n):
    def ob():
        w = World.get(n, server=True)

        def fn(it, r):
            if r == n:
                o = it.st.new(HInst(cls(it, SERVER), {}))
                it.setattr(o, "ttp_group", T("group", "ttp_group"))
                method(it, o, "_setup_generators")
                gs = it.try_iter(it.getattr(o, "generators"))
                return [it.resolve(g).seed for g in gs]
        runs = w.run(fn)
        live(runs, "TTPServer._setup_generators")
        chk.saw(runs)
        seeds = runs[n].value
        if len(seeds) != n or any(s is None for s in seeds):
            raise Violation("the dealer does not seed one generator per party")
        ent = entropy(runs)
        env = base_env(ent)
        base = ctx_for(runs, 0, env, ring=True)
        for i, s in enumerate(seeds):
            d = set()
            for t in ent:
                key = "ur:%d:%d" % t.args[:2]
                for b in range(int(t.args[2])):
                    if num(ctx_for(runs, 0, {**env, key: env[key] ^ (0xFF << 8 * b)}, ring=True).scalar(s)) != num(base.scalar(s)):
                        d.add((key, b))
            if len(d) < 8:
                raise Violation("the dealer's generator for party %d depends on %d bytes of operating-system entropy" % (i, len(d)))
            seeds[i] = (s, {k for k, _ in d})
        for i in range(n):
            for j in range(i):
                if seeds[i][1] & seeds[j][1]:
                    raise Violation("the dealer's generators for parties %d and %d share their entropy" % (j, i))
        p2p_dst(runs)
        for e in runs[n].events:
            if e["kind"] == "comm":
                for p in e["payload"]:
                    for i in range(n):
                        for k in seeds[i][1]:
                            if flat_eval(ctx_for(runs, 0, {**env, k: env[k] ^ 0x5A5A5A5A5A}, ring=True), p) != flat_eval(base, p) and \
                                    (not e["chan"].startswith("p2p") or e.get("dst") != i):
                                raise Violation("the dealer sends the seed of party %d to party %s" % (i, e.get("dst", "all")))
    chk.ob("R1", "TTPServer._setup_generators n=%d" % n, ob)


FULL = (-2 ** 63, 2 ** 63 - 1)


def secret_gen(g):
    return isinstance(g, tuple) and g[0] in ("local", "pair", "seeded")


def check_draws(lab, runs, bits=()):
    cnt = 0
    for rr in runs:
        for e in rr.events:
            if e["kind"] != "rng":
                continue
            cnt += 1
            if not secret_gen(e["gen"]):
                raise Violation("%s: party %d draws secret randomness from %s (%s)" % (
                    lab, rr.it.rank, {"global": "the generator shared by all parties", "default": "the default generator"}.get(
                        e["gen"][0], "a generator that is not seeded secretly"), e["where"]))
            lo, hi = e["lo"], e["hi"]
            if isinstance(lo, int) and isinstance(hi, int):
                if lo == -2 ** 63 and hi >= 2 ** 63 - 1:
                    continue
                if lo == 0 and any(hi == 2 ** b for b in bits):
                    continue
                raise Violation("%s: party %d draws from [%d, %d) instead of the whole range (%s)" % (lab, rr.it.rank, lo, hi, e["where"]))
            raise Undecided("%s: draw of unknown range at %s" % (lab, e["where"]))
    return cnt


def draws_of_cases(chk):
    import re
    groups = {}
    for c in ac.public_cases() + ac.private_cases() + bcs.binary_cases() + bcs.conversion_cases():
        groups.setdefault(re.split(r"[ (]", c.label)[0], []).append(c)
    for g, cs in sorted(groups.items()):
        def ob(cs=cs, g=g):
            tot = 0
            for case in cs:
                for n in case.ns:
                    if n < 2:
                        continue
                    runs = run_case(case, n)
                    if any(rr.died for rr in runs):
                        continue
                    chk.saw(runs)
                    tot += check_draws("%s n=%d" % (case.label, n), runs, (1,) if "B2A(" in case.label else ())
            chk.count("random draws classified", tot)
        chk.ob("R3", "operations %s (%d cases)" % (g, len(cs)), ob)


def rng_helpers(chk):
    def kbit(b):
        def ob():
            w = World.get(2)

            def fn(it, r):
                return call(it, it.mod_get(it.import_module("crypten.common.rng"), "generate_kbit_random_tensor"), (3,), bitlength=b)
            runs = live(w.run(fn), "generate_kbit_random_tensor")
            chk.saw(runs)
            check_range(chk, runs, b)
        chk.ob("R4", "generate_kbit_random_tensor %d bits" % b, ob)

    def check_range(chk, runs, b):
        for rr in runs:
            ev = [e for e in rr.events if e["kind"] == "rng"]
            if len(ev) != 1:
                raise Undecided("%d draws" % len(ev))
            e = ev[0]
            if e["gen"] != ("local", rr.it.rank):
                raise Violation("party %d's private random value is drawn from %s" % (rr.it.rank, e["gen"],))
            want = FULL if b == 64 else (0, 2 ** b)
            if (e["lo"], e["hi"]) != want and not (b == 64 and e["lo"] == -2 ** 63 and e["hi"] in (2 ** 63 - 1, 2 ** 63)):
                raise Violation("%d random bits are drawn from [%s, %s)" % (b, e["lo"], e["hi"]))
            t = rr.it.as_term(rr.value)
            if not isinstance(t, Term) or t.op != "rand":
                c = ctx_for(runs, 0, ring=True)
                v = [int(num(x)) for x in arr(c.eval(t)).reshape(-1)]
                if any(x >> b for x in v) and b < 64:
                    raise Violation("%d-bit random value out of range" % b)
    for b in (1, 2, 3, 7, 8, 16, 31, 32, 33, 62, 63, 64):
        kbit(b)

    def ring():
        w = World.get(2)

        def fn(it, r):
            return call(it, it.mod_get(it.import_module("crypten.common.rng"), "generate_random_ring_element"), (3,))
        runs = live(w.run(fn), "generate_random_ring_element")
        chk.saw(runs)
        check_range(chk, runs, 64)
    chk.ob("R4", "generate_random_ring_element", ring)


def provider_draws(chk, n):
    for q in (TFP, TTP):
        for sc in scripts(False):
            lab = "%s n=%d %s" % (q.rsplit(".", 1)[1], n, "; ".join(x.label for x in sc))

            def ob(q=q, sc=sc, lab=lab):
                runs, allr = script_runs(q, n, sc)
                live(runs, lab)
                chk.saw(allr)
                chk.count("random draws classified", check_draws(lab, allr, (1,) if "B2A" in lab else ()))
                if q == TTP:
                    # a party's share must come from the generator it shares with the dealer, its own
                    own = {}
                    for rr in runs:
                        for e in rr.events:
                            if e["kind"] == "rng" and e["gen"][0] == "seeded":
                                own.setdefault(repr(e["gen"][1]), set()).add(rr.it.rank)
                    if len(own) < n or any(len(x) > 1 for x in own.values()):
                        raise Violation("%s: parties share their generators" % lab)
            chk.ob("R3", lab, ob)


def sharing_draws(chk):
    from .shares import MPCT
    S = (2, 3)

    def pub(it, r):
        return new_sym_tensor(it, "u", S, "float", r)

    def pt(it, name):
        return it.getattr(it.mod_get(it.import_module("crypten.mpc.ptype"), "ptype"), name)
    makers = {
        "ArithmeticSharedTensor(x, src=%d)": lambda it, r, s: call(it, cls(it, AST), pub(it, r), src=s),
        "ArithmeticSharedTensor(x, src=%d, precision=4)": lambda it, r, s: call(it, cls(it, AST), pub(it, r), precision=4, src=s),
        "BinarySharedTensor(x, src=%d)": lambda it, r, s: call(it, cls(it, BST), pub(it, r), src=s),
        "MPCTensor(x, src=%d)": lambda it, r, s: call(it, cls(it, MPCT), pub(it, r), src=s),
        "MPCTensor(x, binary, src=%d)": lambda it, r, s: call(it, cls(it, MPCT), pub(it, r), ptype=pt(it, "binary"), src=s),
        "crypten.cryptensor(x, src=%d)": lambda it, r, s: call(it, it.mod_get(it.import_module("crypten"), "cryptensor"), pub(it, r), src=s),
        "ArithmeticSharedTensor(None, size, src=%d)": lambda it, r, s: call(it, cls(it, AST), pub(it, r) if r == s else None, size=S, src=s),
        "ArithmeticSharedTensor.PRZS %d": lambda it, r, s: call(it, it.getattr(cls(it, AST), "PRZS"), S),
        "BinarySharedTensor.PRZS %d": lambda it, r, s: call(it, it.getattr(cls(it, BST), "PRZS"), S),
    }
    for lab, f in makers.items():
        for n in (2, 3, 4):
            for src in range(n):
                if "PRZS" in lab and src:
                    continue

                def ob(lab=lab % src, f=f, n=n, src=src):
                    w = World.get(n)
                    runs = live(w.run(lambda it, r: f(it, r, src)), lab)
                    chk.saw(runs)
                    k = check_draws(lab, runs)
                    chk.count("random draws classified", k)
                    for rr in runs:
                        used = {e["gen"] for e in rr.events if e["kind"] == "rng"}
                        if ("pair", rr.it.rank) not in used or ("pair", (rr.it.rank + 1) % n) not in used:
                            raise Violation("%s: the share of party %d is not masked with both of its pairwise generators" % (lab, rr.it.rank))
                chk.ob("R5", "%s n=%d" % (lab % src, n), ob)


def run(chk):
    chk.rule("R1", "every generator is seeded with at least 8 bytes of operating-system entropy of its own, neighbours agree on their pairwise "
                   "seed, and a seed is only ever transmitted to the one party that shares it")
    chk.rule("R2", "user-supplied seeds are used as given in debug mode and rejected otherwise")
    chk.rule("R3", "every random draw of a protocol comes from the party's private or pairwise generator and covers the whole ring")
    chk.rule("R4", "random values of b bits cover exactly b bits")
    for n in (1, 2, 3, 4, 5) if chk.thorough else (1, 2, 3, 4):
        setup(chk, n)
        manual(chk, n)
        if n >= 2:
            ttp(chk, n)
    chk.rule("R5", "every fresh sharing masks each party's share with full-range draws from both of its pairwise generators")
    sharing_draws(chk)
    rng_helpers(chk)
    for n in (2, 3):
        provider_draws(chk, n)
    draws_of_cases(chk)
