"""Abstract interpretation of DerivativeWRTParametricDimension over symbolic
degrees, control points and order vectors; degrees and control points of the
returned spline are compared with the scaled iterated differences."""
from kern import *

TECHNIQUE = 'value-flow analysis of the derivative spline to closed forms over symbolic degrees and orders'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic and no overflow of index types; closed forms equal '
        'by normal form or, where reported, by identity testing of the formulas. Trusts clang front end, exporter, '
        'engine.')


def run(c, dim, pt, ks, fam):
    b = Bench(c, 'poly')
    k, a, ns = b.poly(dim, pt, 'A', [n for n, o in fam])
    b.start()
    ords = [o for n, o in fam]
    con = '%s::DerivativeWRTParametricDimension for orders %s' % (k.rec, ','.join(
        {'0': 'zero', 'in': 'up to the degree', 'above': 'above the degree'}[x] for x in ks))
    f = b.p.find('DerivativeWRTParametricDimension', rec=k.rec)
    od = b.param(k, 'DerivativeWRTParametricDimension', 0, ords)
    v = b.call(f, a, [od])
    r = v if isinstance(v, Ref) else b.it.new(v, k.t, 'result')
    dg, pts = degrees(b.it, k, r), points(b.it, k, r)
    rn = [x + 1 for x in dg.e]
    q = Sym('q', 'int', 0, None)
    if 'above' in ks:
        q = Sym('q', 'int', 0, prod(rn) - 1)
        b.equal('number of control points fits the degrees', con, f, pts.ln, prod(rn))
        b.equal_leaves('control points vanish', con, f, cread(pts.c, P.of(q)), zeros(ncomp(pt)))
    else:
        for d in range(dim):
            b.equal('degree lowered by the order', con + ' degree %d' % d, f, rn[d], P.of(ns[d]) - ords[d])
        b.equal('number of control points fits the degrees', con, f, pts.ln, prod(rn))
        nn = [P.of(n) - o for n, o in zip(ns, ords)]
        js = idx_syms(nn)

        def want(i):
            ls = [Sym('l%d' % d, 'int', 0, o) for d, o in enumerate(ords)]
            t = arr('A', i, flat(ns, [P.of(j) + P.of(l) for j, l in zip(js, ls)]))
            for n, o, l in zip(ns, ords, ls):
                t = t * signpow(o - P.of(l)) * binom(o, P.of(l))
            t = sum_over(ls, t)
            for n, o in zip(ns, ords):
                t = t * falling(P.of(n) - 1, o)
            return t
        b.equal_leaves('control points = scaled iterated differences', con, f,
                       cread(pts.c, flat(nn, js)), [want(i) for i in range(ncomp(pt))])
    b.clean('terminates without error', con, f)


def cases(ctx):
    out = []
    for dim in (1, 2, 3):
        for pt in ('double', 'Point<3,double>') + EXTRA[dim] if dim < 3 else ('double',):
            for ks, fam in order_cases(dim):
                out.append(('%dD %s %s' % (dim, pt, '/'.join(ks)),
                            lambda c, d=dim, q=pt, k=ks, f=fam: run(c, d, q, k, f)))
    out += lemmas(ctx, 'binomials')
    return out
