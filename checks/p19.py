"""Homogeneity analysis: every result of a rational operation is derived as a closed
form in the homogeneous coordinates of its operands (value-flow analysis, polynomial
kernels as functions); multiplying all homogeneous coordinates of one operand by a
symbolic non-zero constant must not change it."""
from kern import *
import alg
import p17
import p18
from alg import Alg, NoDen

TECHNIQUE = 'value-flow analysis to closed forms, then a symbolic scaling (projective invariance) test of each form'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic with non-zero weight functions; polynomial kernels '
        'enter by contract (their own checks), index- and corner operations are derived in full. Closed forms equal '
        'by normal form or, where reported, by identity testing of the formulas. Derivative orders enumerated as for '
        'P18. Trusts clang front end, exporter, engine.')
RULE = 'unchanged when all homogeneous coordinates of an operand are scaled'
FACTOR = P.of(Sym('c', 'real'))


def scaled(x, names):
    """closed form after multiplying the named coordinates by the constant"""
    def h(args, *_):
        return None

    def f(name):
        def g(args, *_):
            x = fn(name, tuple(args))
            return x * FACTOR if args[0] in names else x
        return g
    return S.map_fns(x, {'val': f('val'), 'arr': f('arr')})


def coordinates(x):
    return {a.args[0] for a in S.all_atoms(x) if a.k == 'fn' and a.name in ('val', 'arr')}


class Scale:
    """judges the derived form against its own scaled version"""
    shared = False          # operands that have the same weight function are scaled together

    def equal(self, rule, construct, f, got, want, assume=(), **kw):
        if rule.startswith(('the operand', 'one entry', 'numerator and weight', 'entries are')) \
                or 'operand' in construct or 'UnweightedBasis' in construct or 'BasisFunctionContributions' in construct:
            return
        if 'from polynomial' in construct:          # weight one by construction: nothing to scale
            return
        names = coordinates(got) if not isinstance(got, Cond) else coordinates(ite(got, S.ONE, S.ZERO))
        first = {'A', 'W'}
        if '(equal weights)' in construct:
            first |= {'B'}
        if 'from points and weights' in construct:
            first = {'W'}
        if names & {'A', 'W'}:
            Bench.equal(self, RULE, construct + ', first operand', f, scaled(got, first), got, assume)
        if 'V' in names:
            Bench.equal(self, RULE, construct + ', second operand', f, scaled(got, {'B', 'V'}), got, assume)

    def clean(self, *a, **k):
        pass


class ScaleAlg(Scale, Alg):
    pass


class ScaleBench(Scale, Bench):
    pass


def wrap(f):
    """case of P17 or P18 judged by scaling"""
    def g(c):
        saved = p17.Alg, p18.Alg
        p17.Alg = p18.Alg = ScaleAlg
        try:
            f(c)
        finally:
            p17.Alg, p18.Alg = saved
    return g


def direct(c, dim, pt):
    """control points, corners and the unit-cube test"""
    n = ncomp(pt)
    b0 = Bench(c, 'rational')
    rec = ratname(dim, pt)
    nf = len([f for f in b0.p.find('ControlPoint', rec=rec, many=True) if f.get('body') is not None])
    import p07
    for q in range(nf):
        b = ScaleBench(c, 'rational')
        k, a, ns = make_rat(b, dim, pt)
        b.start()
        js = idx_syms(ns)
        f = [f for f in b.p.find('ControlPoint', rec=rec, many=True) if f.get('body') is not None][q]
        v = p07.call_acc(b, k, f, a, js, 'ControlPoint')
        v = b.it.load(v) if isinstance(v, Ref) else v
        for i, g in enumerate(tleaves(v)):
            b.equal(RULE, '%s::ControlPoint (%s) component %d' % (rec, p07.overload(b, f), i), f, g, g)
    for nm in ('MaximumCorner', 'MinimumCorner', 'FitsIntoUnitCube'):
        b = ScaleBench(c, 'rational')
        k, a, ns = make_rat(b, dim, pt)
        b.start()
        f = b.p.find(nm, rec=rec)
        r = b.it.rv(b.call(f, a, []))
        for i, g in enumerate([r] if isinstance(r, Cond) else tleaves(r)):
            kw = dict(tries=120, sizemax=2)
            b.equal(RULE, '%s::%s component %d' % (rec, nm, i), f, c2p(g) if isinstance(g, Cond) else g, g)


def pieces(c, dim, pt):
    """splitting and elevation"""
    n = ncomp(pt)
    rec = ratname(dim, pt)
    for d in range(dim):
        b = ScaleAlg(c, 'rational')
        k, a, ns = make_rat(b, dim, pt)
        us = [P.of(Sym('u%d' % i, 'real')) for i in range(dim)]
        f = [g for g in b.p.find('SplitAtPosition', rec=rec, many=True)
             if not b.p.shortty(b.p.strip(g['params'][0]['type'])).startswith('vector<')][0]
        t = P.of(Sym('t', 'real', 0, 1))
        b.start()
        v = b.it.rv(b.call(f, a, [t, P.of(d)]))
        for i in range(2):
            r = b.it.new(cread(v.c, P.of(i)), k.t, 'piece')
            nu, w, _, _ = p17.quot(b, r, us)
            for j, x in enumerate(nu):
                b.equal(RULE, '%s::SplitAtPosition(%d) piece %d component %d' % (rec, d, i, j), f, x * S.inv(w), x)
        b = ScaleAlg(c, 'rational')
        k, a, ns = make_rat(b, dim, pt)
        f = b.p.find('OrderElevateAlongParametricDimension', rec=rec)
        b.start()
        b.call(f, a, [P.of(d)])
        nu, w, _, _ = p17.quot(b, a, us)
        for j, x in enumerate(nu):
            b.equal(RULE, '%s::OrderElevate(%d) component %d' % (rec, d, j), f, x * S.inv(w), x)


def cases(ctx):
    out = []
    own = ('P08', 'P09', 'P10', 'P13', 'P14', 'P11', 'binomials')
    for m in (p17, p18):
        for n, f in m.cases(ctx):
            if n.startswith(own) or n.endswith('equality of weight functions') or 'polynomial both' in n:
                continue
            out.append((m.__name__.upper() + ' ' + n, wrap(f)))
    for dim in (1, 2, 3):
        for pt in p17.PTS + EXTRA[dim]:
            h = '%dD %s ' % (dim, pt)
            out.append((h + 'control points', lambda c, a=(dim, pt): direct(c, *a)))
            out.append((h + 'pieces', lambda c, a=(dim, pt): pieces(c, *a)))
    return out
