"""What parties see: openings of a set of runs and the hiding test on them."""
from .models import *
from .evalq import *
from .terms import walk


class Opening:
    def __init__(self, key, k, op, to, terms, where, stack, ranks):
        self.key, self.k, self.op, self.to, self.terms, self.where, self.stack, self.ranks = key, k, op, to, terms, where, stack, ranks


def openings(runs, n):
    """every transfer as the list of values its receivers see (reductions: the combined value)"""
    tab = event_table(runs)
    out, done = [], set()
    for rr in runs:
        for pos, e in enumerate(rr.events):
            if e["kind"] != "comm" or (e["chan"], e["k"]) in done:
                continue
            key, k, op = e["chan"], e["k"], e["op"]
            if key.startswith("p2p") or key.startswith("obj"):
                if not e["op"].replace("i", "").startswith("send"):
                    continue
                done.add((key, k))
                dst = int(key.split(">")[1].split(":")[0])
                out.append(Opening(key, k, op, {dst}, [(p, None) for p in e["payload"]], e["where"], e["stack"], pos))
                continue
            done.add((key, k))
            everybody = set(range(n))
            r0 = rr.it.rank
            if op in ("all_reduce", "reduce"):
                root = e.get("root")
                viewer = root if op == "reduce" and isinstance(root, int) else r0
                if (viewer, key, k) not in tab:
                    raise Undecided("reduction towards party %s" % (root,))
                ts = [(T("comm", viewer, (key, k), j, sh), None) for j, sh in enumerate(e["shapes"])]
                out.append(Opening(key, k, op, everybody if op == "all_reduce" else {root}, ts, e["where"], e["stack"], pos))
            elif op in ("gather", "all_gather"):
                ts = []
                for q in range(n):
                    x = tab.get((q, key, k))
                    if x is None:
                        raise SpecError("party %d does not take part in %s" % (q, e["where"]))
                    ts += [(p, q) for p in x["payload"]]
                out.append(Opening(key, k, op, everybody if op == "all_gather" else {e.get("root")}, ts, e["where"], e["stack"], pos))
            elif op in ("broadcast", "broadcast_obj", "scatter", "scatter_obj"):
                x = tab.get((e.get("root"), key, k))
                if x is None:
                    raise SpecError("sender does not take part in %s" % e["where"])
                out.append(Opening(key, k, op, everybody, [(p, e.get("root")) for p in x["payload"]], e["where"], e["stack"], pos))
    out.sort(key=lambda o: o.ranks)
    return out


class Graph:
    """draws occurring in a value, following transfers"""

    def __init__(self, runs, n):
        self.tab, self.n = event_table(runs), n

    def links(self, t):
        """terms a transfer term stands for"""
        rank, (key, k), j, _ = t.args
        me = self.tab.get((rank, key, k))
        if me is None:
            return []
        if key.startswith("p2p") or key.startswith("obj"):
            e = self.tab.get((int(key.split(":")[1].split(">")[0]), key, k))
            return list(e["payload"]) if e else []
        r = []
        for q in range(self.n):
            e = self.tab.get((q, key, k))
            if e:
                r += e["payload"]
        return r

    def reach(self, ts, seen=None):
        seen = {} if seen is None else seen
        stack = list(ts)
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
            elif isinstance(x, Term) and x.id not in seen:
                seen[x.id] = x
                if x.op == "comm":
                    stack.extend(self.links(x))
                else:
                    stack.extend(x.args)
        return seen

    def untouched(self, ts, hit):
        """ids of reachable terms that do not depend on terms with id in hit"""
        memo = {}
        todo = list(ts)
        while todo:
            x = todo[-1]
            if isinstance(x, tuple):
                todo.pop()
                todo.extend(y for y in x if isinstance(y, (Term, tuple)))
                continue
            if not isinstance(x, Term) or x.id in memo:
                todo.pop()
                continue
            if x.id in hit:
                memo[x.id] = True
                todo.pop()
                continue
            ch = []

            def add(y):
                if isinstance(y, Term):
                    ch.append(y)
                elif isinstance(y, tuple):
                    for z in y:
                        add(z)
            for y in (self.links(x) if x.op == "comm" else x.args):
                add(y)
            un = [y for y in ch if y.id not in memo]
            if un:
                todo.extend(un)
                continue
            memo[x.id] = any(memo[y.id] for y in ch)
            todo.pop()
        return {i for i, v in memo.items() if not v}


def rank2(rows):
    """rank over GF(2) of integers used as bit vectors"""
    piv = {}
    r = 0
    for v in rows:
        while v:
            h = v.bit_length() - 1
            if h in piv:
                v ^= piv[h]
            else:
                piv[h] = v
                r += 1
                break
    return r


class Hiding:
    """runs: parties (and dealer); env(point) -> environment; secrets: names of the share symbols that receive changes"""

    def __init__(self, runs, n, env, secrets):
        self.runs, self.n, self.env, self.secrets = runs, n, env, secrets
        self.g = Graph(runs, n)
        self.base = ctx_for(runs, 0, env, ring=True)

    def rows(self, c, o):
        out = []
        for t, _ in o.terms:
            v = c.eval(t)
            if isinstance(v, (tuple, list)) or v is None or isinstance(v, str):
                raise Undecided("transferred value at %s" % o.where)
            for x in arr(v).reshape(-1):
                x = num(x)
                if not isinstance(x, Fr) or x.denominator != 1:
                    raise Undecided("transferred value at %s" % o.where)
                out.append(int(x) & (2 ** 64 - 1))
        return out

    def ctx(self, os, rands, hit, env=None):
        c = ctx_for(self.runs, 0, env or self.env, ring=True)
        c.rands = rands or {}
        keep = self.g.untouched([t for o in os for t, _ in o.terms], hit)
        m = self.base.memo
        c.memo = {i: m[i] for i in keep if i in m}
        return c

    def shift(self, bit, j=None, one=None):
        """environment with a bit of some entries of the secrets flipped (in the first share)"""
        env, n = dict(self.env), 0
        for b in self.secrets:
            v = env[b].copy()
            w = v.reshape(-1)
            for i in range(w.size):
                if (one is None and (h64("sc", b, i, j) >> 9) & 1) or n == one:
                    w[i] = wrap64(Fr(int(num(w[i])) ^ (1 << bit)))
                n += 1
            env[b] = w.reshape(v.shape)
        return env, n

    def sens(self, os, base, bit, **k):
        env, _ = self.shift(bit, **k)
        c = self.ctx(os, None, self.symids(os), env)
        v = [r for o in os for r in self.rows(c, o)]
        return [(x ^ y) >> bit & 1 for x, y in zip(base, v)]

    def symids(self, os):
        r = self.g.reach([t for o in os for t, _ in o.terms])
        return {i for i, t in r.items() if t.op == "sym" and t.args[0] in self.secrets}

    def masks(self, draws, bit):
        """draws that can change at a bit, with their base values"""
        out = []
        for d in draws:
            a = d.args
            lo, hi = (a[4], a[5]) if len(a) > 5 else (None, None)
            if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo and hi <= 2 ** bit:
                continue
            out.append((d, arr(self.base.eval(d))))
        return out

    def perturb(self, ms, bit, j):
        """pseudo-random set of entries of the draws flipped at a bit"""
        out = {}
        for d, v in ms:
            w = v.copy().reshape(-1)
            for i in range(v.size):
                if (h64("pt", repr(d.args[0]), repr(d.args[2]), i, j) >> 7) & 1:
                    w[i] = wrap64(Fr(int(num(w[i])) ^ (1 << bit)))
            out[(repr(d.args[0]), repr(d.args[2]))] = w.reshape(v.shape)
        return out

    def test(self, os, draws, bit, extra=40):
        """None or an explanation: some combination of the opened values of os is independent of the draws but not of the secrets"""
        base = [r for o in os for r in self.rows(self.base, o)]
        S = [self.sens(os, base, bit, j=j) for j in range(6)]
        if not any(any(s) for s in S):
            return None
        M = []
        ms = self.masks(draws, bit)
        hit = {d.id for d in draws}
        sec = [i for i in range(len(base)) if any(s[i] for s in S)]
        need = len(sec)

        for j in range(need + extra if ms else 0):
            c = self.ctx(os, self.perturb(ms, bit, j), hit)
            v = [r for o in os for r in self.rows(c, o)]
            M.append(sum(((base[i] ^ v[i]) >> bit & 1) << q for q, i in enumerate(sec)))
            if rank2(M) == need:
                return None
        S = [self.sens(os, base, bit, one=j) for j in range(self.shift(bit, one=-1)[1])]
        SV = [sum(s[i] << j for j, i in enumerate(sec)) for s in S]
        # rows not depending on the secrets may carry masks too: joint criterion over all rows
        rm = rank2(M)
        if rank2(M + SV) == rm:
            return None
        # a combination of rows that no mask reaches but the secret does
        return "an opened value depends on the secret but not on any fresh mask"


def hiding(runs, n, env, secrets, bits, chk=None):
    h = Hiding(runs, n, env, secrets)
    ops = [o for o in openings(runs, n) if o.terms]
    seen = {}
    cnt = 0
    prev = []
    for o in ops:
        r = h.g.reach([t for t, _ in o.terms])
        dr = {i: t for i, t in r.items() if t.op == "rand"}
        fresh = [t for i, t in dr.items() if i not in seen]
        for bit in bits:
            e = h.test([o], fresh, bit)
            if e:
                # masks may be shared with an earlier opening of the same value: test them together
                rel = [p for p, pd in prev if pd & set(dr)] + [o]
                alld = {}
                for p in rel:
                    for i, t in h.g.reach([t for t, _ in p.terms]).items():
                        if t.op == "rand":
                            alld[i] = t
                e = h.test(rel, list(alld.values()), bit)
                if e:
                    return o, e
        cnt += 1
        prev.append((o, set(dr)))
        seen.update(dr)
    return cnt


def party_view(runs, n, env, names, j, bits, tries=24):
    """joint test of everything party j receives: shares of the other parties and all draws count as unknown.
    names: (base symbol, binary?) of every secret sharing."""
    h = Hiding(runs, n, env, [])
    os = [o for o in openings(runs, n) if o.terms and j in o.to]
    if not os:
        return 0
    r = h.g.reach([t for o in os for t, _ in o.terms])
    draws = [t for t in r.values() if t.op == "rand"]
    base = [x for o in os for x in h.rows(h.base, o)]
    others = [q for q in range(n) if q != j]

    def delta(e, b, binary, q, i, bit, sgn):
        v = e["%s@%d" % (b, q)]
        w = v.copy().reshape(-1)
        x = int(num(w[i]))
        w[i] = wrap64(Fr(x ^ (1 << bit) if binary else x + sgn * (1 << bit)))
        return {**e, "%s@%d" % (b, q): w.reshape(v.shape)}

    def vec(e, rands, bit):
        c = ctx_for(runs, 0, e, ring=True)
        c.rands = rands or {}
        v = [x for o in os for x in h.rows(c, o)]
        return sum(((x ^ y) >> bit & 1) << q for q, (x, y) in enumerate(zip(base, v)))
    for bit in bits:
        M, S = [], []
        for b, binary in names:
            cnt = env["%s@0" % b].size
            for i in range(cnt):
                S.append(vec(delta(env, b, binary, others[0], i, bit, 1), None, bit))
                for p, q in zip(others, others[1:]):
                    M.append(vec(delta(delta(env, b, binary, p, i, bit, 1), b, binary, q, i, bit, -1), None, bit))
        if not any(S):
            continue
        ms = h.masks(draws, bit)
        for t in range(len(base) + tries if ms else 0):
            M.append(vec(env, h.perturb(ms, bit, t), bit))
        if rank2(M) != rank2(M + S):
            return "a combination of the values received by party %d depends on the secret alone" % j
    return len(os)
