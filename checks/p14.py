"""Abstract interpretation of the spline product over symbolic degrees and control
points: degrees of the result and the closed form of its control points are
compared with the Bernstein product formula
   c_k = sum_{i+j=k} C(m,i) C(n,j) / C(m+n,k) a_i b_j  per dimension,
for every combination of scalar- and point-valued operands."""
from kern import *
from alg import Alg, NoDen

TECHNIQUE = 'value-flow analysis of the product recursion to closed forms over symbolic degrees'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic and no overflow of index types; closed forms equal '
        'by normal form or, where reported, by identity testing of the formulas. Trusts clang front end, exporter, '
        'engine.')


def product(c, probe, dim, pl, pr):
    b = Bench(c, probe)
    b.it.indices = False
    k, a, ns = b.poly(dim, pl, 'A')
    k2, s, ms = b.poly(dim, pr, 'B')
    b.start()
    f = [g for g in b.p.find('operator*', rec=k.rec, many=True)
         if b.p.shortty(b.p.strip(g['params'][0]['type'])) == k2.rec]
    if not f:
        raise NoFun('product %s * %s' % (k.rec, k2.rec))
    f = f[0]
    con = '%s * %s' % (k.rec, k2.rec)
    v = b.call(f, a, [s])
    pt = 'double' if pl == pr else pl if pl != 'double' else pr
    kr = b.kit(polyname(dim, pt))
    r = v if isinstance(v, Ref) else b.it.new(v, kr.t, 'result')
    dg, pts = degrees(b.it, kr, r), points(b.it, kr, r)
    for d in range(dim):
        b.equal('degree = sum of the degrees', con + ' degree %d' % d, f, dg.e[d], P.of(ns[d]) + P.of(ms[d]) - 2)
    qs = [P.of(n) + P.of(m) - 1 for n, m in zip(ns, ms)]
    b.equal('number of control points fits the degrees', con, f, pts.ln, prod(qs))
    ks = idx_syms(qs, 'k')
    is_ = []
    for d in range(dim):
        n, m, kk = P.of(ns[d]), P.of(ms[d]), P.of(ks[d])
        is_.append(Sym('i%d' % d, 'int', fmax(S.ZERO, kk - m + 1), fmin(kk, n - 1)))
    w = S.ONE
    for n, m, kk, i in zip(ns, ms, ks, is_):
        n, m, kk, i = P.of(n) - 1, P.of(m) - 1, P.of(kk), P.of(i)
        w = w * binom(n, i) * binom(m, kk - i) * S.inv(binom(n + m, kk))
    ia, ib = flat(ns, is_), flat(ms, [P.of(x) - P.of(y) for x, y in zip(ks, is_)])
    if pl == pr:
        ab = S.ZERO
        for q in range(ncomp(pl)):
            ab = ab + arr('A', q, ia) * arr('B', q, ib)
        abs_ = [ab]
    elif pl == 'double':
        abs_ = [arr('A', 0, ia) * arr('B', q, ib) for q in range(ncomp(pr))]
    else:
        abs_ = [arr('A', q, ia) * arr('B', 0, ib) for q in range(ncomp(pl))]
    b.equal_leaves('control points = Bernstein product formula', con, f, cread(pts.c, flat(qs, ks)),
                   [sum_over(is_, x * w) for x in abs_])
    # operands unchanged
    t = Sym('t', 'int', 0, prod([P.of(n) for n in ns]) - 1)
    b.equal_leaves('the left operand is unchanged', con, f, cread(points(b.it, k, a).c, P.of(t)),
                   [arr('A', q, P.of(t)) for q in range(ncomp(pl))])
    b.clean('terminates without error', con, f)


def powers(c, dim, kind):
    """square-and-multiply, by induction on the exponent"""
    b = Alg(c, 'poly', raw={'RaisePower'})
    k, a, ns = b.poly(dim, 'double', 'A')
    q = P.of(b.size('q', 1))
    e = {'0': P.of(0), '1': P.of(1), 'even': q * 2, 'odd': q * 2 + 1}[kind]
    us = [P.of(b.real('u%d' % d)) for d in range(dim)]
    f = b.p.find('RaisePower', rec=k.rec)
    b.start()
    con = '%s::RaisePower, exponent %s' % (k.rec, kind)
    v = b.call(f, a, [e])
    for arg, facts, loc in b.recursions:
        g = c_and(*facts, c_not(c_and(ge0(e - 1 - arg), ge0(arg))))
        w = sat(g, tuple(b.assume), seed=c.ctx.seed)
        rule = 'the exponent gets smaller with every recursion'
        if w is None:
            c.add(rule, con, loc, 'holds', 'exponent %r after %r' % (arg, e))
        else:
            c.add(rule, con, loc, 'undecided' if w == 'unk' else 'violated', 'exponent %r after %r: %s' % (arg, e, w))
    r = v if isinstance(v, Ref) else b.it.new(v, k.t, 'result')
    try:
        vs, dg = [x.val(us, [0] * dim) for x in b.den(r)], b.degs(r)
    except NoDen as ex:
        raise Unsup('no function meaning: %s' % ex)
    V = fn('val', ('A', 0) + (P.of(0),) * dim + tuple(us))
    b.equal('represents the pointwise power', con, f, vs[0], power(V, e))
    for d in range(dim):
        b.equal('degree = degree times exponent', con + ' degree %d' % d, f, dg[d], (P.of(ns[d]) - 1) * e + 1)
    t = Sym('t', 'int', 0, prod([P.of(n) for n in ns]) - 1)
    b.equal_leaves('the operand is unchanged', con, f, cread(points(b.it, k, a).c, P.of(t)), [arr('A', 0, P.of(t))])
    b.clean('terminates without error', con, f)


def cases(ctx):
    out = []
    for dim in (1, 2, 3):
        out.append(('%dD scalar * scalar' % dim, lambda c, d=dim: product(c, 'poly', d, 'double', 'double')))
        pt = 'Point<3,double>' if dim == 3 else 'Point<2,double>'
        for l, r in (('double', pt), (pt, 'double'), (pt, pt)):
            out.append(('%dD %s * %s' % (dim, l, r),
                        lambda c, d=dim, l=l, r=r: product(c, 'compose', d, l, r)))
    for dim in (1, 2, 3):
        for kind in ('0', '1', 'even', 'odd'):
            out.append(('%dD power %s' % (dim, kind), lambda c, a=(dim, kind): powers(c, *a)))
    out += lemmas(ctx, 'binomials')
    return out
