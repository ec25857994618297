"""Structural operations act like on plaintext."""
from .common import *

MINIMUM = 150


def run(chk):
    chk.rule("R1", "structural operation on an arithmetic sharing = same operation on the plaintext, scale kept")
    chk.rule("R2", "structural operation on a bitwise sharing = same operation on the plaintext")
    chk.rule("R3", "the same through the user-facing tensor type, for both sharing types")
    ns = (1, 2, 3) if chk.thorough else None
    value_obligations(chk, "R1", ac.structural_cases() + ac.join_cases(), ns=ns)
    value_obligations(chk, "R2", bcs.bst_structural(), ring=True, ns=ns)
    value_obligations(chk, "R3", at_mpc(ac.structural_cases() + ac.join_cases(cq=MPCT), ns=(2,)))
    value_obligations(chk, "R3", at_mpc(ac.structural_cases(B, "binary") + ac.join_cases(B, "binary", MPCT), ns=(2,)), ring=True)
