"""Guard-dominance analysis of the binary operations on numbers with run-time
derivative counts: with two independent symbolic counts, the union of the assertion
guards must cover every pair of unequal counts, and behind those guards every
derivative index must lie inside both lists; with equal counts (assertions on and
off) every derivative index of every operation lies inside its list."""
from ad import *

TECHNIQUE = 'value-flow analysis with symbolic derivative counts; assertion-guard coverage and index obligations'
NOTE = ('Sound for the modelled C++ subset. A violation names a pair of counts for which no assertion fires or an '
        'index leaves its list. Trusts clang front end, exporter, engine.')


def unequal(c, op, form, A=DYN):
    b = Bed(c)
    b.m2 = b.size('m2', 0)
    b.m = b.size('m1', 0)
    Sc = KINDS['dynamic'][1]
    x, y = b.number(A, 'a', S.ZERO if op == 'powa' else None), b.number(A, 'b', m=b.m2)
    s = b.number(Sc, 's')
    b.start()
    f = b.probe('%s_%s' % (op, form), A)
    b.call(f, None, [x, y, s])
    con = '%s (%s) of numbers with m1 and m2 derivatives' % (op, form)
    stop = S.c_or(*[e['guard'] for e in b.it.events if e['kind'] == 'assert'])
    w = sat(c_and(c_not(eq0(P.of(b.m) - P.of(b.m2))), c_not(stop)))
    rule = 'unequal derivative counts are rejected'
    if w == 'unk':
        c.add(rule, con, b.where(f), 'undecided', b.why())
    elif w:
        c.add(rule, con, b.where(f), 'violated', 'no assertion fires for %s' % w)
    else:
        c.add(rule, con, b.where(f), 'holds', 'assertions fire for %s' % short(stop))
    w = sat(c_and(eq0(P.of(b.m) - P.of(b.m2)), stop))
    rule = 'equal derivative counts are accepted'
    if w == 'unk':
        c.add(rule, con, b.where(f), 'undecided', b.why())
    elif w:
        c.add(rule, con, b.where(f), 'violated', 'an assertion fires for %s' % w)
    else:
        c.add(rule, con, b.where(f), 'holds')
    obligations(b, con, 'derivative indices stay inside both lists')


def inrange(c, kind, op, form, flags):
    b = Bed(c, flags)
    A, Sc = KINDS[kind]
    lo, hi = (S.ZERO, None) if op in POS else (P.of(-1), S.ONE) if op in UNIT else (None, None)
    b.m = b.size('m', 0)
    x, y, s = b.number(A, 'a', lo, hi), b.number(A, 'b'), b.number(Sc, 's')
    b.start()
    f = b.probe('%s_%s' % (op, form), A)
    b.call(f, None, [x, y, s])
    con = '%s number, %s (%s)%s' % (kind, op, form, ', NDEBUG' if flags else '')
    n = len([o for o in b.it.obs if o['kind'] == 'bounds'])
    c.count('index obligations', n)
    obligations(b, con, 'derivative indices stay inside the list')
    if not n:
        c.add('derivative indices stay inside the list', con, b.where(f), 'holds', 'no indexed access')


def cases(ctx):
    out = []
    for op in BI:
        for form in ('aa', 'ia'):
            out.append(('%s %s unequal' % (op, form), lambda c, op=op, form=form: unequal(c, op, form)))
    out.append(('powa unequal', lambda c: unequal(c, 'powa', 'f')))
    for fl in ((), ('-DNDEBUG',)):
        for kind in KINDS:
            for op in BI:
                for form in ('aa', 'as', 'sa', 'ia', 'is', 'self'):
                    out.append(('%s %s %s %s' % (kind, op, form, fl), lambda c, a=(kind, op, form, fl): inrange(c, *a)))
            for op in list(UN) + ['pows', 'powa']:
                out.append(('%s %s %s' % (kind, op, fl), lambda c, a=(kind, op, 'f', fl): inrange(c, *a)))
            for op in ('assign', 'value', 'derivs', 'count', 'default'):
                out.append(('%s %s %s' % (kind, op, fl), lambda c, a=(kind, op, 'v', fl): inrange(c, *a)))
    return out
