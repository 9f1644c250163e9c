"""Abstract interpretation of OrderElevateAlongParametricDimension over symbolic
degrees and control points (the in-place backwards sweep is summarised as an
array recurrence); degrees and control points of the elevated spline are compared
with the degree elevation formula, whose right-hand side represents the same
function."""
from kern import *
from alg import Alg
from p17 import judge

TECHNIQUE = 'value-flow analysis of order elevation to closed forms (array recurrences summarised)'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic and no overflow of index types; closed forms equal '
        'by normal form or, where reported, by identity testing of the formulas. Trusts clang front end, exporter, '
        'engine.')


def run(c, dim, pt, e, sc='double', probe='poly'):
    b = Bench(c, probe)
    k, a, ns = b.poly(dim, pt, sc=sc)
    b.start()
    f = b.p.find('OrderElevateAlongParametricDimension', rec=k.rec)
    con = '%s::OrderElevateAlongParametricDimension(%d)' % (k.rec, e)
    r = b.call(f, a, [P.of(e)])
    c.add('returns the elevated spline itself', con, b.where(f), 'holds' if r == a else 'violated', repr(r))
    dg, pts = degrees(b.it, k, a), points(b.it, k, a)
    for d in range(dim):
        b.equal('degree of the elevated dimension grows by one, others stay', '%s degree %d' % (con, d), f,
                dg.e[d], P.of(ns[d]) - (0 if d == e else 1))
    nn = [P.of(n) + (1 if d == e else 0) for d, n in enumerate(ns)]
    b.equal('number of control points fits the degrees', con, f, pts.ln, prod(nn))
    js = idx_syms(nn)
    n = P.of(ns[e])
    j = P.of(js[e])

    def want(i):
        lo = [P.of(x) for x in js]
        lo[e] = j - 1
        up = [P.of(x) for x in js]
        # j/(deg+1) A[j-1] + (1 - j/(deg+1)) A[j], ends alone
        mid = j / n * arr('A', i, flat(ns, lo)) + (1 - j / n) * arr('A', i, flat(ns, up))
        return ite(eq0(j), arr('A', i, flat(ns, up)), ite(eq0(j - n), arr('A', i, flat(ns, lo)), mid))
    b.equal_leaves('control points = degree elevation formula', con, f, cread(pts.c, flat(nn, js)),
                   [want(i) for i in range(ncomp(pt))])
    b.clean('terminates without error', con, f)


def rational(c, dim, pt, e):
    """numerator and weight function are both raised: the quotient stays (the polynomial
    elevation enters by its contract, the cases above)"""
    b = Alg(c, 'rational')
    k, a, ns = make_rat(b, dim, pt)
    f = b.p.find('OrderElevateAlongParametricDimension', rec=k.rec)
    con = '%s::OrderElevateAlongParametricDimension(%d)' % (k.rec, e)
    b.start()
    r = b.call(f, a, [P.of(e)])
    c.add('returns the elevated spline itself', con, b.where(f), 'holds' if r == a else 'violated', repr(r))
    us = [P.of(Sym('u%d' % d, 'real')) for d in range(dim)]
    z = [S.ZERO] * dim
    V = lambda nm, j: fn('val', (nm, j) + tuple(z) + tuple(us))
    judge(b, con, f, a, [V('A', j) / V('W', 0) for j in range(ncomp(pt))], us, 'the quotient is unchanged')
    for q, part in zip(b.parts(a), ('numerator', 'weight function')):
        for d, n in enumerate(b.degs(q)):
            b.equal('degree of the elevated dimension grows by one, others stay',
                    '%s %s degree %d' % (con, part, d), f, n, P.of(ns[d]) + (1 if d == e else 0))
    b.clean('terminates without error', con, f)


def cases(ctx):
    return [('%dD %s along %d' % (d, q, e), lambda c, d=d, q=q, e=e: run(c, d, q, e))
            for d in (1, 2, 3) for q in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[d] for e in range(d)] + [
        ('rational %dD %s along %d' % (d, q, e), lambda c, d=d, q=q, e=e: rational(c, d, q, e))
        for d in (1, 2, 3) for q in ('double', 'Point<2,double>') for e in range(d)]
