"""Abstract interpretation of copying, moving, assigning and comparing splines and
points: what the target holds afterwards, what the source holds, and what changing
one of them does to the other, over symbolic degrees and contents."""
from kern import *
from p05 import storage
from p06 import members

TECHNIQUE = 'value-flow analysis (abstract interpretation with closed forms, loops summarised) of copies, assignments and comparisons'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic; closed forms equal by normal form or, where '
        'reported, by identity testing of the formulas. Standard containers are values (their copies are deep). '
        'Trusts clang front end, exporter, engine.')
KINDS = ('copied', 'moved', 'assigned', 'moveassigned', 'chained')


def make(b, rat, dim, pt, nm, ns=None):
    return make_rat(b, dim, pt, nm, nm + 'w', ns) if rat else b.poly(dim, pt, nm, ns)


def holds(b, rat, k, ref, con, f, ns, pt, nm, rule):
    """degrees, contents and storage of the object behind ref are those of the operand nm"""
    N = prod([P.of(n) for n in ns])
    t = Sym('t', 'int', 0, N - 1)
    parts = [(ref, k, nm, ncomp(pt), '')]
    if rat:
        (n, kn), (w, kw) = members(b, k, ref)
        parts = [(n, kn, nm, ncomp(pt), ' (weighted control points)'), (w, kw, nm + 'w', 1, ' (weights)')]
    for r, kk, name, m, what in parts:
        dg = degrees(b.it, kk, r)
        for d, n in enumerate(ns):
            b.equal(rule + ': degrees', '%s degree %d%s' % (con, d, what), f, dg.e[d], P.of(n) - 1)
        ps = points(b.it, kk, r)
        b.equal(rule + ': number of control points', con + what, f, ps.ln, N)
        b.equal_leaves(rule + ': control points', con + what, f, cread(ps.c, P.of(t)),
                       [arr(name, i, P.of(t)) for i in range(m)])
        storage(b, kk, r, con + what, f, ns)


def copies(c, rat, dim, pt, kind, rel):
    b = Bench(c, 'rational' if rat else 'poly')
    k, a, ns = make(b, rat, dim, pt, 'A')
    f = b.p.find(kind, rec='Copies<%s>' % k.rec)
    con = '%s %s, target of %s' % (k.rec, kind, rel)
    if kind == 'itself':
        b.start()
        b.call(f, None, [a])
        holds(b, rat, k, a, '%s assigned to itself' % k.rec, f, ns, pt, 'A', 'the object is unchanged')
        b.clean('terminates without error', con, f)
        return
    args, m = [a], None
    if kind not in ('copied', 'moved'):
        ms = {'other degrees': None, 'the same degrees': ns, 'permuted degrees': list(reversed(ns))}[rel]
        k, m, ms = make(b, rat, dim, pt, 'B', ms)
        args = [m, a]
    else:
        con = '%s %s' % (k.rec, kind)
    b.start()
    v = b.call(f, None, args)
    got = [(con, m)] if m is not None else []
    if v is not None:
        got.append((con + ', result', v if isinstance(v, Ref) else b.it.new(v, k.t, 'result')))
    for cn, r in got:
        holds(b, rat, k, r, cn, f, ns, pt, 'A', 'holds what the source held')
    if not kind.startswith('move'):
        holds(b, rat, k, a, con + ', source', f, ns, pt, 'A', 'the source is unchanged')
        # the two objects share nothing: new degrees of one leave the other alone
        g = b.p.find('OrderElevateAlongParametricDimension', rec=k.rec)
        b.call(g, got[-1][1], [P.of(0)])
        holds(b, rat, k, a, con + ', source after the copy was elevated', g, ns, pt, 'A', 'the source is unchanged')
    b.clean('terminates without error', con, f)


def independent(c, rat, dim, pt):
    """changing the source leaves the copy alone"""
    for kind in 'copied', 'assigned':
        b = Bench(c, 'rational' if rat else 'poly')
        k, a, ns = make(b, rat, dim, pt, 'A')
        f = b.p.find(kind, rec='Copies<%s>' % k.rec)
        if kind == 'copied':
            v = b.call(f, None, [a])
            r = v if isinstance(v, Ref) else b.it.new(v, k.t, 'result')
        else:
            k, r, _ = make(b, rat, dim, pt, 'B')
            b.call(f, None, [r, a])
        g = b.p.find('UpdateDegrees', rec=k.rec)
        b.call(g, a, [b.param(k, 'UpdateDegrees', 0, [P.of(m) - 1 for m in ncoef(dim, 'm')])])
        holds(b, rat, k, r, '%s %s, after the source got new degrees' % (k.rec, kind), f, ns, pt, 'A',
              'the copy keeps what the source held')


def equality(c, dim, pt):
    """two splines compare equal exactly when degrees and all control points do"""
    n = ncomp(pt)
    for mode in ('same degrees', 'different degrees', 'permuted degrees', 'same object content', 'itself'):
        b = Bench(c, 'poly')
        k, a, ns = b.poly(dim, pt, 'A')
        f = b.p.find('equal', rec='Copies<%s>' % k.rec)
        if mode == 'permuted degrees' and dim == 1:
            continue
        if mode == 'itself':
            s, ms = a, ns
        else:
            k, s, ms = b.poly(dim, pt, 'A' if mode == 'same object content' else 'B',
                              {'different degrees': None, 'permuted degrees': list(reversed(ns))}.get(mode, ns))
        b.start()
        v = b.it.rv(b.call(f, None, [a, s]))
        N = prod([P.of(x) for x in ns])
        deg = c_and(*[eq0(P.of(x) - P.of(y)) for x, y in zip(ns, ms)])
        if mode in ('same object content', 'itself'):
            want = S.TRUE
        else:
            q = Sym('q', 'int', S.ZERO, N - 1)
            d = c_and(*[eq0(arr('A', i, P.of(q)) - arr('B', i, P.of(q))) for i in range(n)])
            want = c_and(deg, eq0(Sum(q, S.ZERO, N - 1, ite(d, S.ZERO, S.ONE))))
        v = v if isinstance(v, Cond) else p2c(P.of(v))
        con = '%s == (%s)' % (k.rec, mode)
        b.equal('equal exactly when degrees and control points are', con, f, v, want,
                pool=[S.Fraction(1), S.Fraction(2)], sizemax=2)
        b.clean('terminates without error', con, f)


def pts(c, pt):
    for kind in KINDS + ('itself',):
        b = Bench(c, 'point')
        f = b.p.find(kind, rec='Copies<%s>' % pt)
        x, xs = b.point(pt, 'x')
        y, ys = b.point(pt, 'y')
        b.start()
        v = b.call(f, None, [x] if kind in ('copied', 'moved', 'itself') else [y, x])
        con = '%s %s' % (pt, kind)
        if v is not None:
            b.equal_leaves('holds what the source held', con + ', result', f, b.it.rv(v), xs)
        if kind in ('assigned', 'moveassigned', 'chained'):
            b.equal_leaves('holds what the source held', con, f, b.it.load(y), xs)
        if not kind.startswith('move'):
            b.equal_leaves('the source is unchanged', con, f, b.it.load(x), xs)
        b.clean('terminates without error', con, f)
    if 'Algo' in pt:
        return
    b = Bench(c, 'point')
    f = b.p.find('equal', rec='Copies<%s>' % pt)
    x, xs = b.point(pt, 'x')
    y, ys = b.point(pt, 'y')
    b.start()
    v = b.it.rv(b.call(f, None, [x, y]))
    v = v if isinstance(v, Cond) else p2c(P.of(v))
    b.equal('equal exactly when all components are', '%s ==' % pt, f, v,
            c_and(*[eq0(p - q) for p, q in zip(xs, ys)]), pool=[S.Fraction(1), S.Fraction(2)])


def cases(ctx):
    out = []
    for rat in False, True:
        for dim in (1, 2, 3):
            for pt in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[dim]:
                h = '%s %dD %s ' % ('rational' if rat else 'polynomial', dim, pt)
                for kind in KINDS:
                    rels = ['other degrees']
                    if kind not in ('copied', 'moved'):
                        rels += ['the same degrees'] + (['permuted degrees'] if dim > 1 else [])
                    for rel in rels:
                        out.append((h + kind + ' ' + rel,
                                    lambda c, a=(rat, dim, pt, kind, rel): copies(c, *a)))
                out.append((h + 'itself', lambda c, a=(rat, dim, pt, 'itself', 'itself'): copies(c, *a)))
                out.append((h + 'independence', lambda c, a=(rat, dim, pt): independent(c, *a)))
                if not rat:
                    out.append((h + 'equality', lambda c, d=dim, q=pt: equality(c, d, q)))
    for pt in ['Point<%d,double>' % n for n in (1, 2, 3, 4, 7)] + ['Point<2,AlgoDiffType<double,2>>']:
        out.append((pt, lambda c, q=pt: pts(c, q)))
    return out
