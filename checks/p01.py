"""Abstract interpretation of every operation on differentiation numbers (run-time
and fixed derivative counts, nested numbers; all operand orders and in-place
forms) with symbolic values and derivatives: the closed form of derivative i of the
result is compared with the chain rule applied to the operands' closed forms."""
from ad import *

TECHNIQUE = 'value-flow analysis of each operation to closed-form expressions, compared with the chain rule'
NOTE = ('Sound for the modelled C++ subset under exact real arithmetic; run-time derivative counts are symbolic. '
        'Closed forms equal by normal form or, where reported, by identity testing of the formulas at '
        '40-digit precision inside the domain of the function. Trusts clang front end, exporter, engine.')


def cases(ctx):
    ctx.assumptions += ['exact real arithmetic', 'operands inside the domain of differentiability']
    return cases_ops(False)
