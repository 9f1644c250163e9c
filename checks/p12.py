"""Abstract interpretation of SplitAtPosition over symbolic degrees, control
points, split position and dimension: degrees of both parts and the closed forms
of their control points are compared with the de Casteljau subdivision.  Lists of
positions and rational splines are interpreted over the spline algebra, where the
single polynomial split enters by that contract: piece i has to be the function on
the interval between the positions i-1 and i."""
from kern import *
from alg import Alg, NoDen
from p17 import judge

TECHNIQUE = 'value-flow analysis of the subdivision stencil to closed forms over symbolic degrees'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic and no overflow of index types; closed forms equal '
        'by normal form or, where reported, by identity testing of the formulas. Trusts clang front end, exporter, '
        'engine.')


def scalar(c, dim, pt, e):
    b = Bench(c, 'poly')
    k, a, ns = b.poly(dim, pt)
    s = b.real('s', S.ZERO, S.ONE)
    b.assume = [gt0(P.of(s)), gt0(1 - P.of(s))]
    b.start()
    f = [g for g in b.p.find('SplitAtPosition', rec=k.rec, many=True)
         if b.p.shortty(b.p.strip(g['params'][0]['type'])) == 'double'][0]
    con = '%s::SplitAtPosition(position, %d)' % (k.rec, e)
    v = b.it.rv(b.call(f, a, [P.of(s), P.of(e)]))
    if not isinstance(v, VecV):
        raise Unsup('result of split')
    b.equal('two parts are returned', con, f, v.ln, P.of(2))
    n = P.of(ns[e])
    js = idx_syms(ns)
    for part in (0, 1):
        o = cread(v.c, P.of(part))
        r = b.it.new(o, k.t, 'part')
        dg, pts = degrees(b.it, k, r), points(b.it, k, r)
        cn = '%s part %d' % (con, part)
        for d in range(dim):
            b.equal('parts have the degrees of the spline', cn, f, dg.e[d], P.of(ns[d]) - 1)
        b.equal('number of control points', cn, f, pts.ln, prod([P.of(x) for x in ns]))
        j = P.of(js[e])
        l = Sym('l', 'int', 0, j if part == 0 else n - 1 - j)
        if part == 0:
            # sum_l B(j,l,s) a_l
            w = binom(j, l) * power(P.of(s), P.of(l)) * power(1 - P.of(s), j - P.of(l))
            src = P.of(l)
        else:
            m = n - 1 - j
            w = binom(m, l) * power(P.of(s), P.of(l)) * power(1 - P.of(s), m - P.of(l))
            src = j + P.of(l)
        idx = flat(ns, [src if d == e else P.of(js[d]) for d in range(dim)])
        b.equal_leaves('control points = de Casteljau subdivision', cn, f, cread(pts.c, flat(ns, js)),
                       [sum_over([l], w * arr('A', q, idx)) for q in range(ncomp(pt))])
    b.clean('terminates without error', con, f)


def pieces(c, rat, dim, pt, e, L, named=True):
    """L positions (None: the overload for one position); not named: the dimension is left out"""
    b = Alg(c, 'rational' if rat else 'poly')
    k, a, ns = make_rat(b, dim, pt) if rat else b.poly(dim, pt)
    ts = [P.of(b.real('t%d' % i, S.ZERO, S.ONE)) for i in range(1 if L is None else L)]
    ends = [S.ZERO] + ts + [S.ONE]
    facts = [gt0(y - x) for x, y in zip(ends, ends[1:])]
    b.assume = facts
    f = [g for g in b.p.find('SplitAtPosition', rec=k.rec, many=True)
         if b.p.shortty(b.p.strip(g['params'][0]['type'])).startswith('vector<') == (L is not None)][0]
    con = '%s::SplitAtPosition(%s, %d)' % (k.rec, 'position' if L is None else '%d positions' % L, e)
    if L is None:
        arg = ts[0]
    else:
        t = b.p.strip(f['params'][0]['type'])
        arg = b.it.new(VecV(P.of(L), c_list(ts), b.p.recs[b.p.types[t]['rec']]['targs'][0]['t']), t, 'list')
    for g in facts:
        CTX.push(g)
    b.start()
    if named:
        v = b.it.rv(b.call(f, a, [arg, P.of(e)]))
    else:
        con += ' without the dimension'
        w = b.p.find('SplitDefault' if L is None else 'SplitsDefault')
        v = b.it.rv(b.call(w, None, [a, arg if L is not None else b.it.new(arg, b.p.strip(w['params'][1]['type']), 'x')]))
    if not isinstance(v, VecV):
        raise Unsup('result of split')
    b.equal('one piece more than positions', con, f, v.ln, P.of(len(ts) + 1))
    us = [P.of(Sym('u%d' % d, 'real')) for d in range(dim)]
    z = [S.ZERO] * dim
    for i in range(len(ts) + 1):
        at = list(us)
        at[e] = ends[i] + us[e] * (ends[i + 1] - ends[i])
        V = lambda nm, j: fn('val', (nm, j) + tuple(z) + tuple(at))
        ref = b.it.new(cread(v.c, P.of(i)), k.t, 'piece')
        cn = '%s piece %d' % (con, i)
        rule = 'piece = the function between two positions'
        if rat:
            judge(b, cn, f, ref, [V('A', j) / V('W', 0) for j in range(ncomp(pt))], us, rule)
            dgs = b.degs(b.parts(ref)[0]), b.degs(b.parts(ref)[1])
        else:
            try:
                fs = b.den(ref)
            except NoDen as x:
                raise Unsup('no function meaning: %s' % x)
            for j, x in enumerate(fs):
                b.equal(rule, cn + ('' if len(fs) == 1 else ' component %d' % j), f, x.val(us, [0] * dim), V('A', j))
            dgs = b.degs(ref),
        for dg in dgs:
            for d in range(dim):
                b.equal('parts have the degrees of the spline', '%s dimension %d' % (cn, d), f, dg[d], P.of(ns[d]))
    b.clean('terminates without error', con, f)


def cases(ctx):
    out = []
    for rat in (False, True):
        for dim in (1, 2, 3):
            for pt in ('double', 'Point<2,double>'):
                for e in range(dim):
                    for L in ((None, 0, 1, 2, 3) if rat else (0, 1, 2, 3)):
                        h = '%s %dD %s along %d at %s' % ('rational' if rat else 'polynomial', dim, pt, e,
                                                          'a position' if L is None else '%d positions' % L)
                        out.append((h, lambda c, a=(rat, dim, pt, e, L): pieces(c, *a)))
        for L in (None, 1, 2):
            out.append(('%s 2D double at %s, dimension not named' % ('rational' if rat else 'polynomial',
                                                                    'a position' if L is None else '%d positions' % L),
                        lambda c, a=(rat, 2, 'double', 0, L, False): pieces(c, *a)))
    return out + single_cases(ctx)


def single_cases(ctx):
    out = []
    for dim in (1, 2, 3):
        for pt in ('double', 'Point<2,double>'):
            for e in range(dim):
                out.append(('%dD %s along %d' % (dim, pt, e), lambda c, d=dim, q=pt, e=e: scalar(c, d, q, e)))
    return out
