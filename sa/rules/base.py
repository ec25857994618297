"""Obligations, results, evidence."""
import contextlib
import hashlib
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback

from ..models import *
from ..evalq import Undecided, SpecError


class Violation(Exception):
    pass


class Late(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    """time bound of one obligation (only in the main thread of a process, where signals are available)"""
    def late(*_):
        raise Late()
    try:
        old = signal.signal(signal.SIGALRM, late)
    except ValueError:
        yield
        return
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Check:
    def __init__(self, pid, thorough=False):
        self.deadline = time.time() + (3000 if thorough else 720)
        self.per = 600 if thorough else 100
        self.pid = pid
        self.thorough = thorough
        self.results = []          # (rule, construct, status, detail)
        self.functions = set()
        self.t0 = time.time()
        self.assumptions = []
        self.rules = {}
        self.todo = []
        self.counts = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, construct, fn):
        """fn() -> None when the obligation holds; raises Violation/SpecError, Undecided, AnchorLost.  Run by execute()."""
        self.todo.append((rule, construct, fn))

    def count(self, what, k):
        self.counts[what] = self.counts.get(what, 0) + k

    def attempt(self, rule, construct, fn):
        left = self.deadline - time.time()
        if left < 1:
            return (rule, construct, "undecided", "time bound of the analysis")
        try:
            with limit(min(left, self.per)):
                fn()
            return (rule, construct, "ok", "")
        except Late:
            return (rule, construct, "undecided", "time bound of the analysis")
        except (Violation, SpecError) as e:
            return (rule, construct, "violation", str(e))
        except Undecided as e:
            return (rule, construct, "undecided", str(e))
        except AnchorLost as e:
            return (rule, construct, "lost", str(e))
        except RecursionError:
            return (rule, construct, "undecided", "recursion bound of the analysis")
        except Exception as e:      # a construct the analysis does not model
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            return (rule, construct, "undecided", "analysis: %s: %s" % (type(e).__name__, e))

    def execute(self):
        """the collected obligations, in several processes; results in the order of collection"""
        todo, self.todo = self.todo, []
        jobs = min(int(os.environ.get("SA_JOBS", "0") or 0) or len(os.sched_getaffinity(0)), 8, len(todo))
        out = {}
        if jobs > 1:
            program()
            ctx = multiprocessing.get_context("fork")
            nxt = ctx.Value("q", 0)
            pipes = []
            for _ in range(jobs):
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        for x, _ in pipes:
                            os.close(x)
                        self.functions, self.counts, res = set(), {}, {}
                        while True:
                            with nxt.get_lock():
                                i = nxt.value
                                nxt.value += 1
                            if i >= len(todo):
                                break
                            res[i] = self.attempt(*todo[i])
                        with os.fdopen(w, "wb") as f:
                            pickle.dump((res, self.functions, self.counts), f)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                pipes.append((r, pid))
            for r, pid in pipes:
                with os.fdopen(r, "rb") as f:
                    data = f.read()
                os.waitpid(pid, 0)
                try:
                    res, fs, cs = pickle.loads(data)
                except Exception:
                    continue
                out.update(res)
                self.functions |= fs
                for k, v in cs.items():
                    self.count(k, v)
        for i, t in enumerate(todo):
            self.results.append(out[i] if i in out else self.attempt(*t))

    def saw(self, runs):
        for r in runs:
            self.functions.update(r.trace)

    def finding(self, rule, construct, detail):
        self.results.append((rule, construct, "violation", detail))

    def okay(self, rule, construct):
        self.results.append((rule, construct, "ok", ""))


def explicit_raise(r):
    return r[2].endswith(" explicit") or " explicit" in r[2]


def definite(r):
    """the raised exception is certain to occur in the code (not a gap of the model)"""
    return explicit_raise(r) or r[1] in ("IndexError", "KeyError", "ZeroDivisionError", "FileNotFoundError") or \
        r[1] == "AttributeError" and r[2].rsplit(" on ", 1)[-1] in ("HList", "HDict", "None") or \
        r[1] == "TypeError" and "argument" in r[2]


def live(runs, what="call"):
    """every party completes the call"""
    for rr in runs:
        if rr.died:
            ex = [r for r in rr.raises]
            if ex and all(definite(r) for r in ex):
                raise Violation("%s always fails at party %d: %s at %s" % (what, rr.it.rank, ex[-1][1], ex[-1][2].split(" ")[0]))
            raise Undecided("%s: analysis ends with %s" % (what, [r[1:] for r in ex[-2:]]))
    return runs


def known_findings(path=None):
    path = path or os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def finish(chk, minimum):
    res = chk.results
    viol = [r for r in res if r[2] == "violation"]
    lost = [r for r in res if r[2] == "lost"]
    und = [r for r in res if r[2] == "undecided"]
    ok = [r for r in res if r[2] == "ok"]
    known = [k for k in known_findings() if k.get("status") == "known" and k.get("property") == chk.pid]
    kf, new = [], []
    for v in viol:
        m = [k for k in known if k["rule"] == v[0] and k["construct"] == v[1]]
        (kf if m else new).append((v, m))
    verif = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    evd = os.path.join(verif, "evidence")
    os.makedirs(evd, exist_ok=True)
    ev = {
        "property": chk.pid,
        "tier": "thorough" if chk.thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo/crypten: each obligation is an entry point of the source whose value "
                           "graph, effects or call paths were derived from the syntax tree and compared with the rule.",
            "rules": chk.rules,
            "obligations_total": len(res),
            "obligations_discharged": len(ok),
            "obligations_undecided": len(und),
            "undecided": ["%s %s: %s" % (r[0], r[1], r[3]) for r in und + lost][:200],
            "violated": [{"rule": v[0], "construct": v[1], "detail": v[3]} for v, _ in new],
            "samples": ["%s %s" % (r[0], r[1]) for r in ok][::max(1, len(ok) // 25)],
            "functions_analysed": len(chk.functions),
            "functions": sorted(chk.functions)[:400],
        },
        "wall_s": round(time.time() - chk.t0, 2),
        "assumptions": chk.assumptions + ["%d %s" % (v, k) for k, v in sorted(chk.counts.items())],
        "violations": len(new),
    }
    with open(os.path.join(evd, chk.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v, m in kf:
        print("KNOWN-FINDING: property=%s %s %s: %s" % (chk.pid, v[0], v[1], v[3]))
    print("%s: %d obligations, %d hold, %d undecided, %d violated (%d known), %d functions analysed, %.1fs" % (
        chk.pid, len(res), len(ok), len(und), len(viol), len(kf), len(chk.functions), time.time() - chk.t0))
    if os.environ.get("SA_VERBOSE"):
        for r in und:
            print("  undecided", r[0], r[1], r[3][:300])
    if new:
        p = os.path.join(evd, chk.pid + ".violations.txt")
        with open(p, "w") as f:
            for v, _ in new:
                f.write("rule %s\n  %s\n  construct: %s\n  %s\n" % (v[0], chk.rules.get(v[0], ""), v[1], v[3]))
        for v, _ in new[:20]:
            print("  %s %s: %s" % (v[0], v[1], v[3][:400]))
        print("VIOLATION property=%s replay=%s" % (chk.pid, p))
        return 1
    if lost and len(ok) < minimum:
        print("analysis broken: anchors not found: %s" % [r[3] for r in lost])
        return 2
    if len(ok) < minimum:
        print("analysis broken: only %d obligations discharged, %d expected" % (len(ok), minimum))
        return 2
    return 0
