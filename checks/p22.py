"""Abstract interpretation of the corner and unit-cube queries over symbolic
degrees, control points and positive weights: each component of a corner is
compared with the maximum / minimum reduction over the whole control net
(weighted control point over weight for rational splines), the unit-cube test
with the conjunction of the two closed bounds over all components."""
from fractions import Fraction
from kern import *

TECHNIQUE = 'value-flow analysis; running maxima and minima are summarised as reductions over the index range'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic (no NaN); closed forms equal by normal form or, '
        'where reported, by identity testing of the formulas at values around the bounds. Dimensions one to '
        'three. Trusts clang front end, exporter, engine.')
POOL = [Fraction(x) for x in ('0', '1', '1/2', '0', '1', '1/3', '2/3', '-1/7', '8/7')]
POOL1 = [Fraction(x) for x in ('0', '1', '1/2', '1/3', '3/4')]


def run(c, rat, dim, pt):
    b = Bench(c, 'rational' if rat else 'poly')
    k, a, ns = make_rat(b, dim, pt) if rat else b.poly(dim, pt)
    N = prod([P.of(n) for n in ns])
    n = ncomp(pt)
    b.start()
    z = Sym('z', 'int', 0, N - 1)

    def cp(i):
        v = arr('A', i, P.of(z))
        return v * S.inv(arr('W', 0, P.of(z))) if rat else v
    pw = []
    ext = {op: [S.Reduce(op, z, S.ZERO, N - 1, cp(i)) for i in range(n)] for op in ('max', 'min')}
    for nm, op in (('MaximumCorner', 'max'), ('MinimumCorner', 'min')):
        f = b.p.find(nm, rec=k.rec)
        r = b.it.rv(b.call(f, a, []))
        for q, (g, w) in enumerate(zip(tleaves(r), ext[op])):
            b.equal('component = %s over all control points' % op, '%s::%s component %d' % (k.rec, nm, q), f, g, w)
        b.clean('terminates without error', '%s::%s' % (k.rec, nm), f)
    f = b.p.find('FitsIntoUnitCube', rec=k.rec)
    r = b.it.rv(b.call(f, a, []))
    want = c_and(*[ge0(m) for m in ext['min']], *[ge0(1 - m) for m in ext['max']])
    con = '%s::FitsIntoUnitCube' % k.rec
    rule = 'true exactly when all coordinates lie in the closed unit interval'
    pools = [POOL, POOL1, 8 * POOL1 + POOL[-2:]]
    v = None
    for i, pool in enumerate(pools):
        n0 = len(c.obs)
        v = b.equal(rule, con, f, r, want, tries=120, pool=pool, sizemax=2)
        if v == 'violated' or i == len(pools) - 1:
            break
        del c.obs[n0:]
    b.clean('terminates without error', con, f)


def cases(ctx):
    return [('%dD %s %s' % (dim, pt, 'rational' if rat else 'polynomial'),
             lambda c, r=rat, d=dim, q=pt: run(c, r, d, q))
            for dim in (1, 2, 3) for pt in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[dim]
            for rat in (False, True)]
