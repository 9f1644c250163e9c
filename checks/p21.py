"""Alias analysis of the in-place operations: each one is interpreted twice over
the same symbolic target, once with an argument that refers to part of the target
(all positions symbolic) and once with an independent copy of that argument; the
states the target is left in have to be the same closed forms."""
from kern import *
from alg import Alg, NoDen
import ad
from p06 import members

TECHNIQUE = 'alias-aware value-flow analysis: relational comparison of the aliased and the copied argument'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic; stores and loads go through one memory model, so '
        'an argument that refers into the target sees every write. Degrees, values and the aliased position are '
        'symbolic. Closed forms equal by normal form or, where reported, by identity testing. For += and -= of '
        'splines of the spline itself order elevation enters by its contract (P11). Trusts clang front end, '
        'exporter, engine.')
RULE = 'same result as with an independent copy of the argument'


def copied(b, ref, t):
    """independent object with the same value"""
    return b.it.new(b.it.load(ref), b.p.strip(t), 'copy')


def parts(b, ref, n):
    """references to the coordinates of a point or the number itself"""
    v = b.it.load(ref)
    if isinstance(v, P):
        return [ref]
    while isinstance(v, Obj):
        (key, sub), = v.f.items()
        ref, v = ref.sub(key), sub
    return [ref.sub(('a', P.of(i))) for i in range(n)]


def relate(c, con, run, f0=None):
    """run(alias) -> (bench, function, named leaves)"""
    b1, f, got = run(True)
    c1 = b1
    b2, _, want = run(False)
    if len(got) != len(want):
        c.add(RULE, con, b1.where(f), 'violated', 'shape of the result')
        return
    # the operands of both runs are the same: identify their symbols by name
    free = set().union(*[P.of(g).free for _, g in got])
    first = {x.name: x for x in free}
    if len(first) != len(free):
        raise Unsup('two symbols of one name')
    for (nm, g), (_, w) in zip(got, want):
        w = subst(P.of(w), {x: P.of(first[x.name]) for x in P.of(w).free if x.name in first})
        c1.equal(RULE, '%s: %s' % (con, nm), f, g, w)


def op(b, name, rec, first, nparams=1):
    """member function by type of its first parameter"""
    out = [f for f in b.p.find(name, rec=rec, many=True) if f.get('body') is not None
           and len(f['params']) == nparams and b.p.shortty(b.p.strip(f['params'][0]['type'])) == first]
    if not out:
        raise NoFun('%s(%s) of %s' % (name, first, rec))
    return out[0]


def pass_(b, f, i, ref):
    """argument i given as ref: copied if the parameter is a value"""
    t = f['params'][i]['type']
    return ref if b.p.types[t]['k'] in ('ref', 'rref') else copied(b, ref, t)


# ------------------------------------------------------------------ points ---
def pointop(c, n, what, comp):
    def run(alias):
        b = Bench(c, 'point')
        pt = 'Point<%d,double>' % n
        a, _ = b.point(pt, 'a')
        f = op(b, 'operator' + what, pt, pt if comp is None else 'double')
        src = a if comp is None else parts(b, a, n)[comp]
        b.start()
        arg = src if alias else copied(b, src, f['params'][0]['type'])
        b.call(f, a, [pass_(b, f, 0, arg)])
        return b, f, [('coordinate %d' % i, x) for i, x in enumerate(tleaves(b.it.load(a)))]
    relate(c, 'Point<%d,double> %s %s' % (n, what, 'itself' if comp is None else 'its coordinate %d' % comp), run)


# ----------------------------------------------------------------- splines ---
def observe(b, k, ref, pt, con):
    """degrees, number of control points and every control point"""
    out = []
    dg, pts = degrees(b.it, k, ref), points(b.it, k, ref)
    out += [('%s degree %d' % (con, i), x) for i, x in enumerate(dg.e)]
    out.append(('%s number of control points' % con, pts.ln))
    t = Sym('t of ' + con, 'int', 0, P.of(pts.ln) - 1)
    out += [('%s control point component %d' % (con, i), x) for i, x in enumerate(tleaves(cread(pts.c, P.of(t))))]
    return out


def observed(b, k, ref, pt, rat):
    if not rat:
        return observe(b, k, ref, pt, 'the spline')
    (n, kn), (w, kw) = members(b, k, ref)
    return observe(b, kn, n, pt, 'the numerator') + observe(b, kw, w, 'double', 'the weight function')


def operand(b, rat, dim, pt):
    return make_rat(b, dim, pt) if rat else b.poly(dim, pt)


def net(b, k, ref, name):
    """reference to a control point list of the spline, by the library's accessor"""
    for f in b.p.find(name, rec=k.rec, many=True):
        t = b.p.types[f['ret']]
        if t['k'] in ('ref', 'rref') and f.get('body') is not None:
            r = b.it.call(f, ref, [])
            if isinstance(r, Ref):
                return r
    raise NoFun('%s of %s' % (name, k.rec))


def position(ns, where, nm='j'):
    N = prod([P.of(n) for n in ns])
    return {'any': P.of(Sym(nm, 'int', 0, N - 1)), 'first': S.ZERO, 'last': N - 1}[where]


def shift(c, rat, dim, pt, what, lst, where, comp):
    """+=, -= with a control point, *= with a number out of the spline"""
    def run(alias):
        b = Bench(c, 'rational' if rat else 'poly')
        k, a, ns = operand(b, rat, dim, pt)
        e = net(b, k, a, lst).sub(('a', position(ns, where)))
        if comp is not None:
            e = parts(b, e, ncomp(pt))[comp]
        f = op(b, 'operator' + what, k.rec, 'double' if what == '*=' else pt)
        b.start()
        arg = e if alias else copied(b, e, f['params'][0]['type'])
        b.call(f, a, [pass_(b, f, 0, arg)])
        return b, f, observed(b, k, a, pt, rat)
    rec = (ratname if rat else polyname)(dim, pt)
    relate(c, '%s %s %s of %s()[%s]' % (rec, what, 'the entry' if comp is None else 'coordinate %d' % comp, lst, where),
           run)


def transpose(c, dim, pt, w0, w1):
    """TransposeAndScale with one or both arguments out of the spline"""
    def run(alias):
        b = Bench(c, 'poly')
        k, a, ns = b.poly(dim, pt)
        f = op(b, 'TransposeAndScale', k.rec, pt, 2)
        refs = []
        for i, w in enumerate((w0, w1)):
            if w == 'other':
                r, _ = b.point(pt, 'p%d' % i) if pt != 'double' else (b.it.new(P.of(b.real('p%d' % i)), b.typeof('double'), 'p'), 0)
            else:
                r = net(b, k, a, 'GetControlPoints').sub(('a', position(ns, w, 'j%d' % i)))
                if not alias:
                    r = copied(b, r, f['params'][i]['type'])
            refs.append(r)
        b.start()
        b.call(f, a, [pass_(b, f, i, r) for i, r in enumerate(refs)])
        return b, f, observe(b, k, a, pt, 'the spline')
    relate(c, '%s::TransposeAndScale(%s, %s)' % (polyname(dim, pt), *[
        'a point' if w == 'other' else 'its %s control point' % w for w in (w0, w1)]), run)


def update(c, rat, dim, pt):
    """UpdateDegrees with the spline's own degrees"""
    def run(alias):
        b = Bench(c, 'rational' if rat else 'poly')
        k, a, ns = operand(b, rat, dim, pt)
        g = [h for h in b.p.find('GetDegrees', rec=k.rec, many=True) if h.get('body') is not None
             and b.p.types[h['ret']]['k'] in ('ref', 'rref')]
        if not g:
            raise NoFun('GetDegrees by reference')
        e = b.it.call(g[0], a, [])
        f = b.p.find('UpdateDegrees', rec=k.rec)
        b.start()
        arg = e if alias else copied(b, e, f['params'][0]['type'])
        b.call(f, a, [pass_(b, f, 0, arg)])
        return b, f, observed(b, k, a, pt, rat)
    relate(c, '%s::UpdateDegrees(GetDegrees())' % (ratname if rat else polyname)(dim, pt), run)


def elevate(c, rat, dim, pt, e):
    """elevation along a dimension read from the spline's own degrees"""
    def run(alias):
        b = Bench(c, 'rational' if rat else 'poly')
        ns = ncoef(dim)
        # the entry that names the dimension: a degree whose value is e
        ns[0] = P.of(e + 1)
        k, a, ns = make_rat(b, dim, pt, ns=ns) if rat else b.poly(dim, pt, 'A', ns)
        g = [h for h in b.p.find('GetDegrees', rec=k.rec, many=True) if h.get('body') is not None
             and b.p.types[h['ret']]['k'] in ('ref', 'rref')]
        r = b.it.call(g[0], a, []).sub(('a', S.ZERO))
        f = b.p.find('OrderElevateAlongParametricDimension', rec=k.rec)
        b.start()
        arg = r if alias else copied(b, r, f['params'][0]['type'])
        b.call(f, a, [pass_(b, f, 0, arg)])
        return b, f, observed(b, k, a, pt, rat)
    relate(c, '%s::OrderElevateAlongParametricDimension(GetDegrees()[0]), %d' % (
        (ratname if rat else polyname)(dim, pt), e), run)


def selfop(c, rat, dim, pt, what):
    """+=, -= and = with the spline itself"""
    us = [P.of(Sym('u%d' % d, 'real')) for d in range(dim)]

    def run(alias):
        b = Alg(c, 'rational' if rat else 'poly', raw={'operator+', 'operator-', 'operator+=', 'operator-='})
        k, a, ns = operand(b, rat, dim, pt)
        b.start()
        f = op(b, 'operator' + what, k.rec, k.rec)
        arg = a if alias else copied(b, a, f['params'][0]['type'])
        b.call(f, a, [pass_(b, f, 0, arg)])
        out = []
        try:
            for nm, r in zip(('numerator', 'weight function'), b.parts(a) if rat else [a]):
                out += [('%s component %d' % (nm, i), x.val(us, [0] * dim)) for i, x in enumerate(b.den(r))]
                out += [('%s degree %d' % (nm, i), x - 1) for i, x in enumerate(b.degs(r))]
        except NoDen as e:
            raise Unsup('no function meaning: %s' % e)
        return b, f, out
    relate(c, '%s %s itself' % ((ratname if rat else polyname)(dim, pt), what), run)


# ------------------------------------------------- differentiation numbers ---
def number(c, kind, what):
    A, Sc = ad.KINDS[kind]

    def run(alias):
        b = ad.Bed(c)
        a = b.number(A, 'a')
        s = b.number(Sc, 's')
        bb = b.number(A, 'b')
        f = b.probe('%s_%s' % (what, 'ia' if what != 'assign' else 'v'), A)
        other = a if alias else copied(b, a, b.p.strip(f['params'][1]['type']))
        b.start()
        b.call(f, None, [a, other, s])
        out = []

        def walk(v, nm):
            if isinstance(v, P):
                out.append((nm, v))
                return
            walk(v.f['v_'], nm + ' value')
            d = v.f['d_']
            if isinstance(d, VecV):
                out.append((nm + ' number of derivatives', d.ln))
                walk(cread(d.c, P.of(ad.QI)), nm + ' derivative i')
            else:
                for i, x in enumerate(d.e):
                    walk(x, '%s derivative %d' % (nm, i))
        walk(b.it.load(a), 'the')
        b.assume.append(ge0(P.of(b.m) - 1 - P.of(ad.QI)))
        return b, f, out
    relate(c, '%s number, %s with itself' % (kind, what), run)


def cases(ctx):
    out = []
    for n in (1, 2, 3, 4, 7):
        for o in ('+=', '-='):
            out.append(('point %d %s itself' % (n, o), lambda c, a=(n, o, None): pointop(c, *a)))
        for o in ('*=', '/='):
            for i in range(n):
                out.append(('point %d %s coordinate %d' % (n, o, i), lambda c, a=(n, o, i): pointop(c, *a)))
    for rat in (False, True):
        for dim in (1, 2, 3):
            for pt in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[dim]:
                h = '%s %dD %s ' % ('rational' if rat else 'polynomial', dim, pt)
                lists = (('GetWeightedControlPoints', ncomp(pt)), ('GetWeights', None)) if rat else \
                    (('GetControlPoints', ncomp(pt)),)
                for w in ('any', 'first', 'last'):
                    for lst, n in lists:
                        if n is not None or pt == 'double':
                            for o in ('+=', '-='):
                                out.append((h + '%s %s %s' % (o, lst, w),
                                            lambda c, a=(rat, dim, pt, o, lst, w, None): shift(c, *a)))
                        for i in range(n) if n and pt != 'double' else (None,):
                            out.append((h + '*= %s %s %s' % (lst, w, i),
                                        lambda c, a=(rat, dim, pt, '*=', lst, w, i): shift(c, *a)))
                if not rat:
                    for w in (('any', 'other'), ('other', 'any'), ('first', 'last'), ('last', 'first'), ('any', 'any'),
                              ('first', 'first'), ('last', 'last')):
                        out.append((h + 'TransposeAndScale %s %s' % w, lambda c, a=(dim, pt) + w: transpose(c, *a)))
                out.append((h + 'UpdateDegrees', lambda c, a=(rat, dim, pt): update(c, *a)))
                for e in range(dim):
                    out.append((h + 'elevation %d' % e, lambda c, a=(rat, dim, pt, e): elevate(c, *a)))
                for o in ('+=', '-=', '='):
                    out.append((h + o + ' itself', lambda c, a=(rat, dim, pt, o): selfop(c, *a)))
    for kind in ad.KINDS:
        for o in ('add', 'sub', 'mul', 'div', 'assign'):
            out.append(('%s number %s' % (kind, o), lambda c, a=(kind, o): number(c, *a)))
    return out
