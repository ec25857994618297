"""All parties perform the same sequence of communications; asynchronous transfers are waited for."""
from .common import *
from ..terms import walk
from .c08 import TFP, TTP, script_runs, scripts

MINIMUM = 60
GROUP = ("coll",)


def norm(c, sh, p=None):
    if isinstance(sh, tuple) and all(isinstance(x, int) for x in sh):
        return sh
    try:
        return tuple(int(num(x)) for x in c.ints(sh))
    except Undecided:
        if p is None:
            raise
        return arr(c.eval(p)).shape


def sig(e, c):
    return (e["op"], len(e["payload"]) if e["op"] not in ("scatter", "broadcast_obj") else None,
            tuple(norm(c, x, p) for x, p in zip(e["shapes"], e["payload"])) if e["op"] not in ("scatter", "broadcast_obj", "gather_obj") else None, e.get("root"), e.get("rop"))


def show(e):
    return "%s%s (%s)" % (e["op"], "" if e.get("root") is None else " root %s" % e["root"], e["where"])


class View:
    def __init__(self, rr, events):
        self.it, self.events, self.value = rr.it, events, rr.value


def unconditional(e):
    return e.get("pc") is None or e["pc"] is True or isinstance(e["pc"], tuple) and not e["pc"] or not e["pc"]


def private_part(pc):
    """part of a condition that is known to one party only"""
    todo, seen = [pc], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, Term) and x.id not in seen:
            seen.add(x.id)
            if x.op == "sym" and "@" in str(x.args[0]):
                return "the party's own share %s" % x.args[0]
            if x.op == "rand" and "global" not in repr(x.args[0]):
                return "the party's own random values"
            if x.op == "comm":
                if x.args[1][0] != "coll":
                    return "a value received by one party"
                continue
            todo.extend(x.args)
    return None


def aligned(lab, runs):
    """conditions of communications are interpreted at several points; the same ones must hold at every party"""
    if all(unconditional(e) for rr in runs for e in rr.events if e["kind"] in ("comm", "wait")):
        return aligned1(lab, runs, ctx_for(runs, 0, ring=True))
    cnt = 0
    for rr in runs:
        for e in rr.events:
            if e["kind"] == "comm" and not unconditional(e):
                x = private_part(e["pc"])
                if x:
                    raise Violation("%s: whether party %d performs %s depends on %s" % (lab, rr.it.rank, show(e), x))
    for p in range(4):
        c = ctx_for(runs, p, ring=True)
        vs = []
        for rr in runs:
            evs = []
            for e in rr.events:
                if e["kind"] in ("comm", "wait") and not unconditional(e):
                    pc = e["pc"]
                    ok = all(bool(c.eval(T("truth", x)) if isinstance(x, Term) else x) for x in (pc if isinstance(pc, tuple) else (pc,)))
                    if not ok:
                        continue
                evs.append(e)
            vs.append(View(rr, evs))
        cnt += aligned1(lab, vs, c)
    return cnt


def aligned1(lab, runs, c):
    """number of communications; Violation when the parties' sequences differ"""
    per = {rr.it.rank: [e for e in rr.events if e["kind"] == "comm"] for rr in runs}
    last = None
    for r, evs in per.items():
        # the dealer's loop ends with the analysis' own termination message
        if r == runs[0].it.n and evs and evs[-1]["op"] == "recv_obj":
            last = evs.pop()
    cnt = 0
    groups = {e["chan"] for evs in per.values() for e in evs if not e["chan"].startswith(("p2p", "obj"))}
    for g in sorted(groups):
        seqs = {r: [e for e in evs if e["chan"] == g] for r, evs in per.items()}
        members = [r for r in seqs if seqs[r]] if g != "coll" else [rr.it.rank for rr in runs if rr.it.rank < rr.it.n]
        a = seqs[members[0]]
        for r in members[1:]:
            b = seqs[r]
            for i in range(max(len(a), len(b))):
                if i >= len(a) or i >= len(b):
                    e = (a if i < len(a) else b)[i]
                    q = (members[0], r)[i >= len(a)]
                    raise Violation("%s: party %d performs %s, which party %d never does" % (lab, q, show(e), r if q == members[0] else members[0]))
                if sig(a[i], c) != sig(b[i], c):
                    raise Violation("%s: communication %d differs: party %d performs %s of %s, party %d performs %s of %s" % (
                        lab, i, members[0], show(a[i]), a[i]["shapes"], r, show(b[i]), b[i]["shapes"]))
        cnt += len(a)
    chans = {e["chan"] for evs in per.values() for e in evs if e["chan"].startswith(("p2p", "obj"))}
    for ch in chans:
        src, dst = (int(x) for x in ch.split(":")[1].split(">"))
        if src not in per or dst not in per:
            continue
        s = [e for e in per[src] if e["chan"] == ch and "send" in e["op"]]
        d = [e for e in per[dst] if e["chan"] == ch and "recv" in e["op"]]
        if len(s) != len(d):
            e = (s + d)[0]
            raise Violation("%s: party %d sends %d messages to party %d, which receives %d (%s)" % (lab, src, len(s), dst, len(d), e["where"]))
        for x, y in zip(s, d):
            if ch.startswith("p2p") and norm(c, x["shapes"][0], x["payload"][0]) != norm(c, y["shape"]):
                raise Violation("%s: message of shape %s received as %s (%s)" % (lab, x["shapes"][0], y["shape"], y["where"]))
        cnt += len(s)
    for r, evs in per.items():
        waits = {}
        rr = [x for x in runs if x.it.rank == r][0]
        for e in rr.events:
            if e["kind"] == "wait":
                waits[e["seq"], e["op"]] = e
                if e.get("dirty"):
                    raise Violation("%s: party %d changes a buffer that is still being sent (%s)" % (lab, r, e["where"]))
        for e in evs:
            if e["op"] in ("isend", "irecv") and ((e["chan"], e["k"]), e["op"]) not in waits:
                raise Violation("%s: party %d never waits for its %s (%s)" % (lab, r, e["op"], e["where"]))
    schedule(lab, runs, last)
    return cnt


def schedule(lab, runs, last):
    """rendezvous execution of the event sequences: some order completes all of them"""
    seq = {rr.it.rank: [e for e in rr.events if e["kind"] in ("comm", "wait") and e is not last] for rr in runs}
    pos = {r: 0 for r in seq}
    posted = {}      # (chan, k) -> set of posted ends

    def ready(r):
        e = seq[r][pos[r]]
        if e["kind"] == "wait":
            ch, k = e["seq"]
            return e["op"] == "isend" or "send" in posted.get((ch, k), ())
        ch, k, op = e["chan"], e["k"], e["op"]
        if op in ("isend", "irecv", "send_obj"):
            return True
        if op == "send":
            # may be synchronous: completes when the receiver stands at (or has posted) the receive
            d = int(ch.split(">")[1])
            if d not in seq:
                return True
            if "recv" in posted.get((ch, k), ()):
                return True
            return pos[d] < len(seq[d]) and seq[d][pos[d]].get("chan") == ch and seq[d][pos[d]].get("k") == k
        if op in ("recv", "recv_obj"):
            s = int(ch.split(":")[1].split(">")[0])
            return s not in seq or "send" in posted.get((ch, k), ()) or (
                pos[s] < len(seq[s]) and seq[s][pos[s]].get("chan") == ch and seq[s][pos[s]].get("k") == k)
        members = [q for q in seq if any(x.get("chan") == ch for x in seq[q] if x["kind"] == "comm")]
        return all(pos[q] < len(seq[q]) and seq[q][pos[q]].get("chan") == ch and seq[q][pos[q]].get("k") == k or
                   any(x["kind"] == "comm" and x["chan"] == ch and x["k"] == k for x in seq[q][:pos[q]]) for q in members)
    while True:
        moved = False
        for r in seq:
            while pos[r] < len(seq[r]) and ready(r):
                e = seq[r][pos[r]]
                if e["kind"] == "comm":
                    posted.setdefault((e["chan"], e["k"]), set()).add("send" if "send" in e["op"] else "recv" if "recv" in e["op"] else "all")
                pos[r] += 1
                moved = True
        if not moved:
            break
    st = [r for r in seq if pos[r] < len(seq[r])]
    if st:
        raise Violation("%s: the parties wait for each other: %s" % (lab, "; ".join("party %d at %s" % (
            r, seq[r][pos[r]]["where"]) for r in st)))


def pending(lab, runs):
    for rr in runs:
        v = rr.value["value"] if isinstance(rr.value, dict) else None

        def go(rec):
            if isinstance(rec, (list, tuple)):
                for x in rec:
                    go(x)
            elif isinstance(rec, Term):
                for t in walk(rec):
                    if t.op == "pending":
                        raise Violation("%s: the result of party %d uses a buffer before its transfer is waited for" % (lab, rr.it.rank))
        go(v)


def cases(chk):
    cs = ac.private_cases() + ac.public_cases() + ac.precision_cases() + ac.join_cases() + bcs.binary_cases() + bcs.circuit_cases() + bcs.conversion_cases()
    cs += at_mpc(ac.private_cases(), ns=(2, 3))
    return cs


def run(chk):
    chk.rule("R1", "protocol runs: the collective communications of all parties agree in order, kind, shapes, root and reduction; every "
                   "point-to-point send has its receive of the same shape; every asynchronous transfer is waited for, and its buffer is "
                   "neither changed nor used before; the sequences can be executed without mutual waiting")
    for case in cases(chk):
        for n in case.ns:
            if n < 2:
                continue
            lab = "%s n=%d" % (case.label, n)

            def f(case=case, n=n, lab=lab):
                runs = run_case(case, n)
                live(runs, lab)
                chk.saw(runs)
                chk.count("communications matched", aligned(lab, runs))
                pending(lab, runs)
            chk.ob("R1", lab, f)
    for q in (TFP, TTP):
        for sc in scripts(False):
            for n in (2, 3):
                lab = "%s n=%d %s" % (q.rsplit(".", 1)[1], n, "; ".join(x.label for x in sc))

                def f(q=q, sc=sc, n=n, lab=lab):
                    runs, allr = script_runs(q, n, sc)
                    live(runs, lab)
                    chk.saw(allr)
                    chk.count("communications matched", aligned(lab, allr))
                chk.ob("R2", lab, f)
    chk.rule("R2", "providers: the same for the parties and the dealer")
