"""Public operands count exactly once."""
from .common import *

MINIMUM = 200


def run(chk):
    chk.rule("R1", "for every operation combining a sharing with a public operand, the combination of the parties' results "
                   "equals the plaintext operation on the combined operands (value graphs of all parties, random interpretation)")
    chk.rule("R2", "the same for bitwise sharings over 64-bit words")
    chk.rule("R3", "the same through the user-facing tensor type")
    pub = ac.public_cases()
    bpub = pick(bcs.binary_cases(), lambda c: any(o.kind in ("pub", "const", "index") for o in c.ops) or "invert" in c.label)
    if chk.thorough:
        more_parties(pub, (4,))
        more_parties(bpub, (4,))
    value_obligations(chk, "R1", pub)
    value_obligations(chk, "R2", bpub, ring=True)
    value_obligations(chk, "R3", at_mpc(ac.public_cases(), ns=(2, 3) if chk.thorough else (2,)))
