"""Out-of-place operations leave their operands alone; in-place ones modify and return the receiver."""
from .common import *
from . import c10, c14, c18, c19
from .prog import untouched_obligations

MINIMUM = 300


def run(chk):
    chk.rule("R1", "after an out-of-place operation on arithmetic sharings every operand (sharing, public tensor, list) has its "
                   "old contents; after an in-place operation the receiver holds the result and is returned")
    chk.rule("R2", "the same for bitwise sharings")
    chk.rule("R3", "the same through the user-facing tensor type")
    chk.rule("R4", "comparisons, selections, maxima, pooling, approximations, losses, and the forward and backward pass of every differentiable function leave every operand, "
                   "and the gradient passed in, with their old contents")
    allc = lambda: ac.public_cases() + ac.private_cases() + ac.precision_cases() + ac.structural_cases() + ac.join_cases()
    unchanged_obligations(chk, "R1", allc(), ns=(1, 2, 3) if chk.thorough else (2,))
    unchanged_obligations(chk, "R2", bcs.binary_cases() + bcs.circuit_cases() + bcs.bst_structural(), ring=True, ns=(2,))
    m = ac.public_cases() + ac.private_cases() + pick(ac.precision_cases(), lambda c: "encode" not in c.label) + \
        ac.structural_cases() + ac.join_cases(cq=MPCT)
    unchanged_obligations(chk, "R3", at_mpc(m, ns=(2,)))
    grads = c14.structural() + c14.arithmetic() + c14.nonlinear() + c14.windows() + c14.losses() + c14.composed()
    untouched_obligations(chk, "R4", grads)
    untouched_obligations(chk, "R4", c10.comparisons() + c10.unary() + c10.selection() + c18.series() +
                          (c19.extremes(chk) + c19.max_pools(chk) + c19.adaptives(chk))[::1 if chk.thorough else 5])
