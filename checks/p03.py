"""Abstract interpretation of the eighteen comparison forms (six operators; number
with number, number with scalar, scalar with number) for run-time, fixed and nested
numbers: the derived condition is compared with the comparison of the values."""
from ad import *

TECHNIQUE = 'value-flow analysis of the comparison operators to conditions on the operands'
NOTE = ('Sound for the modelled C++ subset over the reals (NaN excluded). Conditions equal by normal form or, where '
        'reported, by identity testing including ties. Trusts clang front end, exporter, engine.')


def cases(ctx):
    ctx.assumptions += ['no NaN operands']
    out = []
    for kind in KINDS:
        for op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            for form in ('aa', 'as', 'sa'):
                out.append(('%s %s %s' % (kind, op, form),
                            lambda c, kind=kind, op=op, form=form: compare_op(c, kind, op, form)))
    return out
