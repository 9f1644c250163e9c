"""Abstract interpretation of rational evaluation, basis functions, point
derivatives and the derivative spline over abstract polynomial splines: each
result is a closed form in the values (and partial derivatives) of numerator and
weight function and is compared with the quotient respectively its symbolically
differentiated form."""
from kern import *
from alg import Alg, NoDen, dquot, dpoly
from p06 import members
from p17 import quot, judge

TECHNIQUE = 'abstract interpretation over a function domain (spline algebra), symbolic degrees; derivative orders enumerated up to a bound'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic with non-zero weight functions; evaluation, basis '
        'functions, derivatives, products of polynomial splines enter by contract (P08-P14). Degrees are symbolic; '
        'derivative orders are enumerated (up to three per dimension in 1D, two in 2D, one or two in 3D). Closed '
        'forms equal by normal form or, where reported, by identity testing. Trusts clang front end, exporter, engine.')


def coords(b, dim):
    us = [P.of(Sym('u%d' % d, 'real')) for d in range(dim)]
    t = b.typeof('Point<%d,double>' % dim)
    return us, b.it.new(tbuild(b.it.zero(t), iter(us)), t, 'u')


def V(nm, i, us, k=None):
    return fn('val', (nm, i) + tuple(P.of(x) for x in (k or [0] * len(us))) + tuple(us))


def overloads(b, name, rec, dim):
    """(function, takes the coordinates separately)"""
    out = []
    for f in b.p.find(name, rec=rec, many=True):
        if f.get('body') is None:
            continue
        ps = [b.p.shortty(b.p.strip(q['type'])) for q in f['params']]
        if ps[:1] == ['Point<%d,double>' % dim]:
            out.append((f, False))
        elif ps == ['double'] * dim:
            out.append((f, True))
    if not out:
        raise NoFun(name)
    return out


def vals(b, dim, pt, name, how):
    n = ncomp(pt)
    N0 = len(overloads(Bench(b, 'rational'), name, ratname(dim, pt), dim))
    for i in range(N0):
        a = Alg(b, 'rational')
        if how == 'splines':
            k, r, ns = make_rat(a, dim, pt)
        elif how == 'polynomial':
            kp, q, ns = a.poly(dim, pt, 'A')
            k = a.kit(ratname(dim, pt))
            r = k.construct([q], lambda ps: len(ps) == 1 and ps[0].startswith('BezierSpline<'))
        us, u = coords(a, dim)
        f, sep = overloads(a, name, k.rec, dim)[i]
        W = V('W', 0, us) if how == 'splines' else S.ONE
        args = [a.it.new(x, a.p.strip(q['type']), 'u') if a.p.types[q['type']]['k'] in ('ref', 'rref') else x
                for x, q in zip(us, f['params'])] if sep else [u]
        a.start()
        v = a.it.rv(a.call(f, r, args))
        con = '%s::%s(%s) of a spline from %s' % (k.rec, name, 'coordinates' if sep else 'point', how)
        if name in ('Evaluate', 'ForwardEvaluate'):
            if name == 'ForwardEvaluate':
                want = basis_quot(a, ns, us, n, how)
            else:
                want = [V('A', j, us) * S.inv(W) for j in range(n)]
            a.equal_leaves('value = numerator / weight function', con, f, v, want)
        elif name in ('BasisFunctions', 'UnweightedBasisFunctions'):
            N = prod([P.of(x) for x in ns])
            t = Sym('t', 'int', 0, N - 1)
            a.equal('one entry per control point', con, f, v.ln, N)
            den = weight_sum(a, ns, us, how)
            want = a.basis(P.of(t), us, [S.ZERO] * dim, [P.of(x) for x in ns]) * S.inv(den)
            if name == 'BasisFunctions' and how == 'splines':
                want = want * arr('W', 0, P.of(t))
            a.equal_leaves('entry = %sBernstein product / weight function' % (
                'weight * ' if name == 'BasisFunctions' else ''), con, f, cread(v.c, P.of(t)), [want])
        else:
            # the factors per dimension are those of the polynomial spline
            kp, q, _ = Bench.poly(a, dim, pt, 'Z', ns)
            g = [h for h, s in overloads(a, name, kp.rec, dim) if not s][0]
            w = a.it.rv(a.it.call(g, q, [u]))
            for d in range(dim):
                x, y = v.e[d], w.e[d]
                t = Sym('t', 'int', 0, P.of(ns[d]) - 1)
                a.equal('one entry per basis function', '%s dimension %d' % (con, d), f, x.ln, P.of(ns[d]))
                a.equal_leaves('entries are the Bernstein polynomials', '%s dimension %d' % (con, d), f,
                               cread(x.c, P.of(t)), [bernstein(P.of(ns[d]) - 1, P.of(t), us[d])])
        a.clean('terminates without error', con, f)


def weight_sum(a, ns, us, how, k=None):
    N = prod([P.of(x) for x in ns])
    q = Sym('s', 'int', S.ZERO, N - 1)
    bq = a.basis(P.of(q), us, k or [S.ZERO] * len(us), [P.of(x) for x in ns])
    return Sum(q, S.ZERO, N - 1, bq * arr('W', 0, P.of(q)) if how == 'splines' else bq)


def basis_quot(a, ns, us, n, how):
    N = prod([P.of(x) for x in ns])
    den = weight_sum(a, ns, us, how)
    out = []
    for j in range(n):
        q = Sym('s', 'int', S.ZERO, N - 1)
        bq = a.basis(P.of(q), us, [S.ZERO] * len(us), [P.of(x) for x in ns])
        out.append(Sum(q, S.ZERO, N - 1, bq * arr('A', j, P.of(q))) * S.inv(den))
    return out


def constructed(c, dim, pt):
    """evaluation of a spline made from control points and weights"""
    a = Alg(c, 'rational')
    k = a.kit(ratname(dim, pt))
    ns = ncoef(dim)
    f = k.ctor(lambda ps: len(ps) == 3)
    r = a.it.new(a.it.zero(k.t, True), k.t, 'spline')
    N = prod([P.of(n) for n in ns])
    args = [a.it.new(ArrV([P.of(n) - 1 for n in ns]), a.p.strip(f['params'][0]['type']))]
    for i, nm in ((1, 'C'), (2, 'W')):
        vt = a.p.strip(f['params'][i]['type'])
        ety = a.p.recs[a.p.types[vt]['rec']]['targs'][0]['t']
        args.append(a.it.new(symbolic_points(a.it, ety, nm, N), vt, nm))
    a.call(f, r, args)
    us, u = coords(a, dim)
    g = overloads(a, 'ForwardEvaluate', k.rec, dim)[0][0]
    g = [h for h, s in overloads(a, 'ForwardEvaluate', k.rec, dim) if not s][0]
    a.start()
    v = a.it.rv(a.call(g, r, [u]))
    den = weight_sum(a, ns, us, 'splines')
    want = []
    for j in range(ncomp(pt)):
        q = Sym('s', 'int', S.ZERO, N - 1)
        bq = a.basis(P.of(q), us, [S.ZERO] * dim, [P.of(x) for x in ns])
        want.append(Sum(q, S.ZERO, N - 1, bq * arr('C', j, P.of(q)) * arr('W', 0, P.of(q))) * S.inv(den))
    a.equal_leaves('value = sum of weight * point * basis / sum of weight * basis',
                   '%s::ForwardEvaluate of a spline from points and weights' % k.rec, g, v, want)


def deriv(c, dim, pt, orders):
    a = Alg(c, 'rational')
    k, r, ns = make_rat(a, dim, pt)
    us, u = coords(a, dim)
    f = a.p.find('EvaluateDerivative', rec=k.rec)
    a.start()
    v = a.it.rv(a.call(f, r, [u, a.param(k, 'EvaluateDerivative', 1, orders)]))
    con = '%s::EvaluateDerivative order %s' % (k.rec, ','.join(map(str, orders)))
    want = [dquot(V('A', j, us), V('W', 0, us), orders, us) for j in range(ncomp(pt))]
    a.equal_leaves('value = mixed derivative of numerator / weight function', con, f, v, want)
    a.clean('terminates without error', con, f)


def bderiv(c, dim, pt, orders):
    a = Alg(c, 'rational')
    k, r, ns = make_rat(a, dim, pt)
    us, u = coords(a, dim)
    f = a.p.find('BasisFunctionsDerivatives', rec=k.rec)
    a.start()
    v = a.it.rv(a.call(f, r, [u, a.param(k, 'BasisFunctionsDerivatives', 1, orders)]))
    con = '%s::BasisFunctionsDerivatives order %s' % (k.rec, ','.join(map(str, orders)))
    N = prod([P.of(x) for x in ns])
    t = Sym('t', 'int', 0, N - 1)
    # derivative of (basis t * weight t) / weight function in terms of values ...
    w = dquot(V('N', 0, us), V('D', 0, us), orders, us)
    nn = [P.of(x) for x in ns]

    def value(args, at):
        ks = [P.of(x) for x in args[2:2 + dim]]
        if args[0] == 'N':
            return a.basis(P.of(t), us, ks, nn) * arr('W', 0, P.of(t))
        return weight_sum(a, ns, us, 'splines', ks)
    # ... which are the basis function and the weighted sum of all of them
    w = S.map_fns(w, {'val': value})
    a.equal('one entry per control point', con, f, v.ln, N)
    a.equal_leaves('entry = mixed derivative of the rational basis function', con, f, cread(v.c, P.of(t)), [w])
    a.clean('terminates without error', con, f)


def dspline(c, dim, pt, orders, low):
    a = Alg(c, 'rational')
    # along a derived dimension: constant, or of degree one and more
    fam = [P.of(Sym('n%d' % d, 'int', 1, None)) if not o else P.of(1) if l else
           P.of(Sym('r%d' % d, 'int', 0, None)) + 2 for d, (o, l) in enumerate(zip(orders, low))]
    k, r, ns = make_rat(a, dim, pt, ns=fam)
    us = [P.of(Sym('u%d' % d, 'real')) for d in range(dim)]
    f = a.p.find('DerivativeWRTParametricDimension', rec=k.rec)
    a.start()
    v = a.call(f, r, [a.param(k, 'DerivativeWRTParametricDimension', 0, orders)])
    ref = v if isinstance(v, Ref) else a.it.new(v, k.t, 'result')
    con = '%s::DerivativeWRTParametricDimension order %s%s' % (
        k.rec, ','.join(map(str, orders)), ' of a constant' if any(low) else '')
    judge(a, con, f, ref, [dquot(V('A', j, us), V('W', 0, us), orders, us) for j in range(ncomp(pt))], us,
          'derivative spline = mixed derivative of the quotient')
    nu, w, dn, dw = quot(a, ref, us)
    for d in range(dim):
        a.equal('numerator and weight function have the same degrees', '%s degree %d' % (con, d), f, dn[d], dw[d])
    same_operand(a, con, f, r, us, ncomp(pt))
    a.clean('terminates without error', con, f)


def same_operand(a, con, f, r, us, n):
    nu, w, _, _ = quot(a, r, us)
    for j in range(n):
        a.equal('the operand is unchanged', '%s numerator %d' % (con, j), f, nu[j], V('A', j, us))
    a.equal('the operand is unchanged', con + ' weight', f, w, V('W', 0, us))


ORDERS = {1: [(0,), (1,), (2,), (3,), (4,)], 2: [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (2, 2)],
          3: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1), (2, 0, 0),
              (0, 2, 0), (0, 0, 2), (2, 0, 1), (0, 1, 2)]}


def cases(ctx):
    out = []
    for dim in (1, 2, 3):
        for pt in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[dim]:
            h = '%dD %s ' % (dim, pt)
            for nm in ('Evaluate', 'ForwardEvaluate', 'BasisFunctions', 'UnweightedBasisFunctions',
                       'BasisFunctionContributions'):
                for how in ('splines', 'polynomial'):
                    out.append((h + nm + ' ' + how, lambda c, a=(dim, pt, nm, how): vals(c, *a)))
            out.append((h + 'from points and weights', lambda c, a=(dim, pt): constructed(c, *a)))
            for o in ORDERS[dim]:
                n = h + 'order %s ' % ','.join(map(str, o))
                out.append((n + 'point derivative', lambda c, a=(dim, pt, o): deriv(c, *a)))
                if pt != 'Point<3,double>':
                    out.append((n + 'basis derivative', lambda c, a=(dim, pt, o): bderiv(c, *a)))
                if sum(o) <= 2:
                    for low in itertools.product(*[(0, 1) if x else (0,) for x in o]):
                        out.append((n + 'derivative spline' + (' of a constant' if any(low) else ''),
                                    lambda c, a=(dim, pt, o, low): dspline(c, *a)))
    out += lemmas(ctx, 'p08', 'p09', 'p10', 'p14', 'binomials')
    return out
