"""Abstract interpretation of Evaluate and ForwardEvaluate over symbolic degrees, control points and
parameters: every loop is summarised (scalar evolution of the counters, closed
form of the de Casteljau stencil), and the derived closed form is compared with
the tensor-product Bernstein sum of the definition."""
from kern import *

TECHNIQUE = 'value-flow analysis of evaluation to closed forms over symbolic degrees'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic and no overflow of index types; closed forms equal '
        'by normal form or, where reported, by identity testing of the formulas. Trusts clang front end, exporter, '
        'engine.')

RULE = 'value of the returned expression = Bernstein sum over the control net'


def evaluate(c, probe, dim, pt, variadic, name='Evaluate'):
    b = Bench(c, probe)
    k, a, ns = b.poly(dim, pt)
    us = [b.real('u%d' % d) for d in range(dim)]
    b.start()
    fs = b.p.find(name, rec=k.rec, many=True)
    f = [g for g in fs if (b.p.shortty(g['params'][0]['type']).startswith('Point')) != variadic]
    if len(f) != 1:
        raise NoFun(name)
    f = f[0]
    args = [P.of(u) for u in us] if variadic else [b.coords(k, us)]
    r = b.it.rv(b.call(f, a, args))
    con = '%s::%s(%s)' % (k.rec, name, 'scalars' if variadic else 'point')
    b.equal_leaves(RULE, con, f, r, [value(ns, us, lambda js, i=i: arr('A', i, flat(ns, js)))
                                     for i in range(ncomp(pt))])
    b.clean('terminates without error', con, f)


def cases(ctx):
    out = []
    for dim in (1, 2, 3):
        for pt in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[dim]:
            for v in (False, True):
                out.append(('%dD %s %s' % (dim, pt, 'variadic' if v else 'point'),
                            lambda c, d=dim, q=pt, v=v: evaluate(c, 'poly', d, q, v)))
                out.append(('%dD %s explicit %s' % (dim, pt, 'variadic' if v else 'point'),
                            lambda c, d=dim, q=pt, v=v: evaluate(c, 'poly', d, q, v, 'ForwardEvaluate')))
    return out + lemmas(ctx, 'binomials')
