"""Multiplication protocols compute the true product."""
from .common import *
from ..bits import *

MINIMUM = 80


def run(chk):
    chk.rule("R1", "every product protocol: combined result shares = product of the combined operand shares, for every protocol, "
                   "option and number of parties (value graphs, random interpretation over the rationals; provider tuples from source)")
    chk.rule("R2", "bitwise AND of two sharings over 64-bit words; single bit conversion")
    chk.rule("R3", "the same through the user-facing tensor type")
    pc = ac.private_cases()
    bc_ = pick(bcs.binary_cases(), lambda c: "and" in c.label.lower() and "private" in c.label)
    conv = pick(bcs.conversion_cases(), lambda c: "bits=1," in c.label or "bits=2," in c.label)
    if chk.thorough:
        more_parties(pc, (4,))
        more_parties(bc_, (4,))
    value_obligations(chk, "R1", pc)
    value_obligations(chk, "R2", bc_ + conv, ring=True)
    value_obligations(chk, "R3", at_mpc(ac.private_cases(), ns=(2, 3) if chk.thorough else (2,)))
    # ring interpretation: 64-bit wrap-around and share truncation with more than two parties
    chk.rule("R4", "products of fixed-point sharings over the 64-bit ring with uniformly random shares are right up to the "
                   "rounding of one truncation")
    rc = pick(ac.private_cases(), lambda c: any(c.label.startswith("arithmetic." + x) for x in (
        "mul(same", "square [", "matmul(2d", "conv2d(plain", "conv_transpose1d(plain", "square(unscaled")))
    for c in rc:
        c.wraps0 = False
        c.tol = Fr(1, 1000)
        c.bound = 20
        c.points = 4 if chk.thorough else 2
        c.label += " ring"
    value_obligations(chk, "R4", rc, ring=True)
    chk.rule("R5", "with active security a product of honest parties is right and the triple check accepts it")
    chk.rule("R6", "with active security a triple that does not multiply out is rejected, whichever of the two is wrong")
    chk.rule("R7", "the replicated protocol refuses a number of parties it cannot serve")
    kinds = ("mul(same", "mul(broadcast)", "mul(scalar)", "mul(shape (4,)", "matmul(2d", "matmul(vector", "matmul(batched", "conv1d(plain", "conv1d(all", "conv2d(stride", "conv2d(groups",
             "conv_transpose1d(stride", "conv_transpose2d(plain")
    for case in [c for c in ac.private_cases() if c.cfg["mpc.protocol"] == "beaver" and any(c.label.startswith("arithmetic." + x) for x in kinds)]:
        case.cfg = {**case.cfg, "mpc.active_security": True}
        case.wraps0 = False
        case.tol, case.bound, case.points = Fr(1, 1000), 20, 1
        for n in (2, 3):
            chk.ob("R5", "%s n=%d" % (case.label, n), lambda case=case, n=n: honest(chk, case, n))
        if any(x in case.label for x in ("mul(same", "matmul(2d", "conv2d(stride", "conv_transpose1d")):
            for which in (0, 1):
                chk.ob("R6", "%s, %s triple wrong" % (case.label, ("multiplied", "sacrificed")[which]), lambda case=case, which=which: cheat(chk, case, which))
    for n in (2, 4, 5):
        for op, lab in (("mul", "mul(same"), ("mul of integers", "mul(unscaled, shape (4,)"), ("square of integers", "square(unscaled, shape (4,)"), ("matmul", "matmul(2d"), ("conv1d", "conv1d(plain")):
            case = [c for c in ac.private_cases() if c.cfg["mpc.protocol"] == "replicated" and c.label.startswith("arithmetic." + lab)]
            for case in case[:1]:
                chk.ob("R7", "%s n=%d" % (op, n), lambda case=case, n=n: too_many(chk, case, n))
        for case in [c for c in bc_ if c.cfg and c.cfg.get("mpc.protocol") == "replicated"]:
            chk.ob("R7", "%s n=%d" % (case.label, n), lambda case=case, n=n: too_many(chk, case, n, True))


def rejected(c, runs):
    """whether the parties raise under the values of c"""
    out = []
    for rr in runs:
        bad = rr.died
        for r in rr.raises:
            v = c.eval(r[0])
            v = np.asarray(v).reshape(-1)
            if any(val(num(x)) for x in v):
                bad = True
        out.append(bad)
    return out


def honest(chk, case, n):
    runs = run_case(case, n)
    chk.saw(runs)
    check_value(case, n, runs, ring=True)
    c = ctx_for(runs, 0, ring_env(case.ops, n, 0, case.bound), ring=True)
    if any(rejected(c, runs)):
        raise Violation("%s with %d parties: the triple check rejects honest triples" % (case.label, n))


def cheat(chk, case, which):
    """one share of the product of one triple is off by one"""
    key = "crypten.mpc.get_default_provider"

    class P(NativeObj):
        def __init__(self, real):
            self.real = real

        def getattr(self, it, name):
            f = it.getattr(self.real, name)
            if name != "generate_additive_triple":
                return f

            def g(i, a, k):
                out = i.resolve(i.call(f, a, k))
                nth = i.counters.get("triples", 0)
                i.counters["triples"] = nth + 1
                if nth == which and i.rank == 0:
                    sh = i.resolve(i.getattr(i.resolve(out[2]), "share"))
                    i.tensor_method(sh, "add_", [1], {})
                return out
            return BuiltinV("triple", g)

    def prov(it, a, k):
        ov = it.overrides.pop(key)
        try:
            return P(it.call(it.mod_get(it.import_module("crypten.mpc"), "get_default_provider"), [], {}))
        finally:
            it.overrides[key] = ov
    runs = run_case(case, 2, {key: BuiltinV("provider", prov)})
    chk.saw(runs)
    if not any(rr.it.counters.get("triples") for rr in runs):
        raise Undecided("no triple drawn")
    c = ctx_for(runs, 0, ring_env(case.ops, 2, 0, case.bound), ring=True)
    if not all(rejected(c, runs)):
        raise Violation("%s: a product share that is off by one goes unnoticed" % case.label)


def too_many(chk, case, n, ring=False):
    runs = run_case(case, n)
    chk.saw(runs)
    if all(rr.died for rr in runs):
        return
    check_value(case, n, runs, ring)
