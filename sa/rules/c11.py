"""Binary circuits and sharing conversions preserve the value for all 64 bits."""
from .common import *
from ..bits import *

MINIMUM = 60

REF = {"add": lambda x, y: x + y, "eq": lambda x, y: x.eqw(y), "ne": lambda x, y: x.eqw(y).notw(), "lt": lambda x, y: x.ltw(y),
       "gt": lambda x, y: y.ltw(x), "le": lambda x, y: y.ltw(x).notw(), "ge": lambda x, y: x.ltw(y).notw()}


def one(v):
    return np.array([v], dtype=object)


def bdd_circuit(chk, rule, op, pub=False):
    lab = "binary.%s(%s) all 64-bit operands" % (op, "public" if pub else "private")

    def f():
        X, Y = B("bx", (1,)), (U("bu", (1,), "long") if pub else B("by", (1,)))
        case = Case("binary." + op, [X, Y], M(op), None, kind="bin", wraps0=False)
        runs = run_case(case, 1)
        chk.saw(runs)
        live(runs, lab)
        m = BDD()
        x = BV(m, [m.var(3 * i) for i in range(64)])
        y = BV(m, [m.var(3 * i + 1) for i in range(64)])
        c = ctx_for(runs, 0, {"bx<1>l@0": one(x), ("bu<1>l" if pub else "by<1>l@0"): one(y)}, ring=True)
        got = value_of(c, runs, [r.value["value"] for r in runs])
        g = np.asarray(got).reshape(-1)[0]
        if not isinstance(g, BV):
            g = BV.const(m, int(num(g))) if hasattr(BV, "const") else g
        if not (g == REF[op](x, y)):
            raise Violation("%s: the circuit is not the word operation (decision diagrams differ)" % lab)
    chk.ob(rule, lab, f)


def run(chk):
    chk.rule("R1", "per-bit decision diagrams: for all 2^128 operand pairs the single-share circuit of add/eq/ne/lt/le/gt/ge equals the "
                   "two's complement word operation (AND over shares is the product rule of C07)")
    chk.rule("R2", "bitwise operators, shifts, inversion, selection on sharings with any number of parties: word patterns covering every "
                   "bit position, random shares (random interpretation over 64-bit words)")
    chk.rule("R3", "circuits on sharings of several parties")
    chk.rule("R4", "conversion between arithmetic and bitwise sharing keeps the (low bits of the) value, for every number of bits")
    for op in REF:
        bdd_circuit(chk, "R1", op)
        bdd_circuit(chk, "R1", op, True)
    bc_ = bcs.binary_cases()
    value_obligations(chk, "R2", bc_, ring=True)
    cc, vc = bcs.circuit_cases(chk.thorough), bcs.conversion_cases(chk.thorough)
    if chk.thorough:
        more_parties(cc, (4,))
        more_parties(vc, (4,))
    value_obligations(chk, "R3", cc, ring=True)
    value_obligations(chk, "R4", vc, ring=True)
