"""Abstract interpretation of the basis-function algorithms (BernsteinPolynomial,
RecursiveCombine, ForwardEvaluate, EvaluateDerivative) over symbolic degrees,
parameters and derivative orders; the derived closed forms are compared with the
Bernstein polynomials and with their derivatives written in the monomial basis."""
from kern import *

TECHNIQUE = 'value-flow analysis of the basis-function algorithms to closed forms over symbolic degrees and orders'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic and no overflow of index types; closed forms equal '
        'by normal form or, where reported, by identity testing of the formulas. Trusts clang front end, exporter, '
        'engine.')


def pick(b, k, name, variadic):
    fs = b.p.find(name, rec=k.rec, many=True)
    f = [g for g in fs if (b.p.shortty(g['params'][0]['type']).startswith('Point')) != variadic]
    if len(f) != 1:
        raise NoFun(name)
    return f[0]


def args(b, k, us, variadic):
    return [P.of(u) for u in us] if variadic else [b.coords(k, us)]


def combined(c, dim, pt, variadic):
    b = Bench(c, 'poly')
    k, a, ns = b.poly(dim, pt)
    us = [b.real('u%d' % d) for d in range(dim)]
    b.start()
    ctx = '%s::%s(%s)' % (k.rec, '%s', 'scalars' if variadic else 'point')
    f = pick(b, k, 'BasisFunctions', variadic)
    r = b.it.rv(b.call(f, a, args(b, k, us, variadic)))
    b.equal('number of basis functions = number of control points', ctx % 'BasisFunctions', f, r.ln,
            prod(map(P.of, ns)))
    js = idx_syms(ns)
    w = S.ONE
    for n, j, u in zip(ns, js, us):
        w = w * bernstein(P.of(n) - 1, j, u)
    b.equal('entry at a control point index = product of Bernstein polynomials', ctx % 'BasisFunctions', f,
            at(r, flat(ns, js))[0], w)
    f = pick(b, k, 'BasisFunctionContributions', variadic)
    r = b.it.rv(b.call(f, a, args(b, k, us, variadic)))
    for d in range(dim):
        b.equal('number of contributions = degree + 1', ctx % 'BasisFunctionContributions', f, r.e[d].ln,
                P.of(ns[d]))
        b.equal('contribution = Bernstein polynomial', ctx % 'BasisFunctionContributions', f,
                at(r.e[d], P.of(js[d]))[0], bernstein(P.of(ns[d]) - 1, js[d], us[d]))
    f = pick(b, k, 'ForwardEvaluate', variadic)
    r = b.it.rv(b.call(f, a, args(b, k, us, variadic)))
    b.equal_leaves('value of the returned expression = Bernstein sum over the control net',
                   ctx % 'ForwardEvaluate', f, r,
                   [value(ns, us, lambda js, i=i: arr('A', i, flat(ns, js))) for i in range(ncomp(pt))])
    b.clean('terminates without error', ctx % 'basis functions', f)


def derivatives(c, dim, pt, ks, fam):
    b = Bench(c, 'poly')
    k, a, ns = b.poly(dim, pt, 'A', [n for n, o in fam])
    us = [b.real('u%d' % d) for d in range(dim)]
    b.start()
    ords = [o for n, o in fam]
    con = '%s::%s for orders %s' % (k.rec, '%s', ','.join(
        {'0': 'zero', 'in': 'up to the degree', 'above': 'above the degree'}[x] for x in ks))
    js = idx_syms(ns)
    fac = [dbernstein(P.of(n) - 1, j, u, o) if x != 'above' else S.ZERO
           for n, j, u, o, x in zip(ns, js, us, ords, ks)]
    f = b.p.find('BasisFunctionsDerivativeContributions', rec=k.rec)
    od = lambda: b.param(k, 'BasisFunctionsDerivativeContributions', 1, ords)
    r = b.it.rv(b.call(f, a, [b.coords(k, us), od()]))
    for d in range(dim):
        b.equal('number of contributions = degree + 1', con % 'BasisFunctionsDerivativeContributions', f,
                r.e[d].ln, P.of(ns[d]))
        b.equal('contribution = derivative of the Bernstein polynomial',
                con % 'BasisFunctionsDerivativeContributions', f, at(r.e[d], P.of(js[d]))[0], fac[d])
    if dim > 1 and b.case.ctx.tier == 'quick' and dim == 3 and sum(x == 'in' for x in ks) > 2:
        return
    f = b.p.find('BasisFunctionsDerivatives', rec=k.rec)
    r = b.it.rv(b.call(f, a, [b.coords(k, us), od()]))
    b.equal('number of basis functions = number of control points', con % 'BasisFunctionsDerivatives', f, r.ln,
            prod(map(P.of, ns)))
    b.equal('entry = product of the derivatives of the Bernstein polynomials',
            con % 'BasisFunctionsDerivatives', f, at(r, flat(ns, js))[0], prod(fac))
    f = b.p.find('EvaluateDerivative', rec=k.rec)
    r = b.it.rv(b.call(f, a, [b.coords(k, us), od()]))

    def want(i):
        ss = idx_syms(ns, 's')
        w = arr('A', i, flat(ns, ss))
        for n, j, u, o, x in zip(ns, ss, us, ords, ks):
            w = w * (dbernstein(P.of(n) - 1, j, u, o) if x != 'above' else S.ZERO)
        return sum_over(ss, w)
    b.equal_leaves('value of the returned expression = derivative of the Bernstein sum',
                   con % 'EvaluateDerivative', f, r, [want(i) for i in range(ncomp(pt))])
    b.clean('terminates without error', con % 'derivatives', f)


def cases(ctx):
    out = []
    for dim in (1, 2, 3):
        for pt in ('double', 'Point<3,double>') + EXTRA[dim]:
            for v in (False, True):
                out.append(('%dD %s basis %s' % (dim, pt, v),
                            lambda c, d=dim, q=pt, v=v: combined(c, d, q, v)))
        for ks, fam in order_cases(dim):
            out.append(('%dD derivatives %s' % (dim, '/'.join(ks)),
                        lambda c, d=dim, k=ks, f=fam: derivatives(c, d, 'double' if d != 2 else
                                                                  'Point<2,double>', k, f)))
    out += lemmas(ctx, 'binomials')
    return out
