"""Abstract interpretation of every operation on differentiation numbers (run-time
and fixed derivative counts, nested numbers; all operand orders and in-place
forms) with symbolic operands: the closed form of the value carried by the result
is compared with the plain operation on the operands' values."""
from ad import *

TECHNIQUE = 'value-flow analysis of each operation to closed-form expressions'
NOTE = ('Sound for the modelled C++ subset under exact real arithmetic. Closed forms equal by normal form or, where '
        'reported, by identity testing of the formulas at 40-digit precision inside the domain of the function. '
        'Trusts clang front end, exporter, engine.')


def cases(ctx):
    ctx.assumptions += ['exact real arithmetic', 'operands inside the domain of the function']
    return cases_ops(True)
