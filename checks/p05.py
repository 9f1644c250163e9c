"""Abstract interpretation of every constructor and degree-changing operation of
the polynomial spline over symbolic degrees: the stored number of control points,
the index strides and the container length are compared with products of
(degree + 1)."""
from kern import *
from alg import Alg
from p13 import RAW, family

TECHNIQUE = 'value-flow analysis (abstract interpretation with closed forms, loops summarised) of the storage fields'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic and no overflow of index types; closed forms equal '
        'by normal form or, where reported, by identity testing of the formulas. Trusts clang front end, exporter, '
        'engine.')


def storage(b, k, ref, con, f, ns, contents=True):
    """the storage invariant for the object behind ref, given its degrees + 1"""
    it = b.it
    o = it.load(ref)
    p = b.p
    fs = dict(o.f)
    N = prod(ns)
    g = p.find('GetNumberOfControlPoints', rec=k.rec)
    b.equal('number of control points = product of (degree + 1)', con, f,
            it.rv(it.call(g, ref, [])), N)
    if 'index_offsets' in fs:
        off = fs['index_offsets']
        for d, w in enumerate(offsets(ns)):
            b.equal('index strides = running products', '%s stride %d' % (con, d), f, off.e[d], w)
    if contents:
        b.equal('container length = number of control points', con, f, points(it, k, ref).ln, N)


def history(b, k, con, f, ref):
    """degrees as stored, then the invariant over them"""
    dg = degrees(b.it, k, ref)
    ns = [x + 1 for x in dg.e]
    storage(b, k, ref, con, f, ns)


def run(c, dim, pt):
    # constructor from degrees
    b = Bench(c, 'poly')
    k = b.kit(polyname(dim, pt))
    ns = ncoef(dim)
    ctor = k.ctor(lambda ps: len(ps) == 1 and ps[0].startswith('array<'))
    t = b.p.strip(ctor['params'][0]['type'])
    r = b.it.new(b.it.zero(k.t, True), k.t, 'spline')
    b.call(ctor, r, [b.it.new(ArrV([P.of(n) - 1 for n in ns]), t)])
    for d in range(dim):
        b.equal('constructor stores the degrees', '%s(degrees) %d' % (k.rec, d), ctor,
                degrees(b.it, k, r).e[d], P.of(ns[d]) - 1)
    storage(b, k, r, '%s(degrees)' % k.rec, ctor, ns)
    # update of degrees
    f = b.p.find('UpdateDegrees', rec=k.rec)
    ms = ncoef(dim, 'm')
    b.call(f, r, [b.param(k, 'UpdateDegrees', 0, [P.of(m) - 1 for m in ms])])
    for d in range(dim):
        b.equal('new degrees are stored', '%s::UpdateDegrees %d' % (k.rec, d), f,
                degrees(b.it, k, r).e[d], P.of(ms[d]) - 1)
    storage(b, k, r, '%s::UpdateDegrees' % k.rec, f, ms)
    # constructor from degrees and points
    b = Bench(c, 'poly')
    k, a, ns = b.poly(dim, pt)
    ctor = k.ctor(lambda ps: len(ps) == 2 and ps[1].startswith('vector<'))
    storage(b, k, a, '%s(degrees, points)' % k.rec, ctor, ns)
    # order elevation
    for e in range(dim):
        b = Bench(c, 'poly')
        k, a, ns = b.poly(dim, pt)
        f = b.p.find('OrderElevateAlongParametricDimension', rec=k.rec)
        b.call(f, a, [P.of(e)])
        storage(b, k, a, '%s::OrderElevateAlongParametricDimension(%d)' % (k.rec, e), f,
                [P.of(n) + (1 if d == e else 0) for d, n in enumerate(ns)])
    # assignment and copy
    for name, params in (('operator=', None),):
        for f in b.p.find('operator=', rec=k.rec, many=True):
            b = Bench(c, 'poly')
            k, a, ns = b.poly(dim, pt, 'A')
            k, s, ms = b.poly(dim, pt, 'B')
            b.call(f, s, [a])
            storage(b, k, s, '%s::operator=' % k.rec, f, ns)
    # product
    if pt == 'double':
        b = Bench(c, 'poly')
        k, a, ns = b.poly(dim, pt, 'A')
        k2, s, ms = b.poly(dim, pt, 'B')
        f = [g for g in b.p.find('operator*', rec=k.rec, many=True)
             if b.p.shortty(g['params'][0]['type']).startswith('BezierSpline<')]
        if f and dim < 3:
            r = b.call(f[0], a, [s])
            rr = r if isinstance(r, Ref) else b.it.new(r, k.t)
            storage(b, k, rr, '%s::operator*' % k.rec, f[0],
                    [P.of(n) + P.of(m) - 1 for n, m in zip(ns, ms)])
    # derivative
    if dim < 3:
        for ks, fam in order_cases(dim):
            b = Bench(c, 'poly')
            k, a, ns = b.poly(dim, pt, 'A', [n for n, o in fam])
            f = b.p.find('DerivativeWRTParametricDimension', rec=k.rec)
            r = b.call(f, a, [b.param(k, 'DerivativeWRTParametricDimension', 0, [o for n, o in fam])])
            rr = r if isinstance(r, Ref) else b.it.new(r, k.t)
            history(b, k, '%s::DerivativeWRTParametricDimension %s' % (k.rec, '/'.join(ks)), f, rr)


def fresh(c, dim, pt):
    """default, copy and move construction"""
    k = Bench(c, 'poly').kit(polyname(dim, pt))
    for f in k.it.p.funs:
        if not f.get('ctor') or f.get('rec') != k.r or f.get('body') is None:
            continue
        ps = [k.it.p.shortty(k.it.p.strip(q['type'])) for q in f['params']]
        if ps == [k.rec]:
            b = Bench(c, 'poly')
            k, a, ns = b.poly(dim, pt)
            r = b.it.new(b.it.zero(k.t, True), k.t, 'spline')
            b.start()
            b.call(f, r, [a])
            storage(b, k, r, '%s copied or moved' % k.rec, f, ns)
    # an object that was given nothing
    b = Bench(c, 'poly')
    k = b.kit(polyname(dim, pt))
    f = b.p.find('GetNumberOfControlPoints', rec=k.rec)
    mk = [g for g in b.p.funs if g.get('ctor') and g.get('rec') == k.r and not g['params']]
    r = b.it.new(b.it.zero(k.t, True), k.t, 'spline')
    if mk and mk[0].get('body') is not None:
        b.call(mk[0], r, [])
    con = '%s()' % k.rec
    b.equal('a default-constructed spline holds no control points', con, f, b.it.rv(b.it.call(f, r, [])), P.of(0))
    b.equal('a default-constructed spline holds no control points', con, f, points(b.it, k, r).ln, P.of(0))


def sums(c, dim, op, rel):
    """addition and subtraction raise the degrees of their operands"""
    b = Alg(c, 'poly', raw=RAW)
    ns, ms = family(rel)
    k, a, _ = b.poly(dim, 'double', 'A', ns)
    s = b.poly(dim, 'double', 'B', ms)[1]
    f = [g for g in b.p.find('operator' + op, rec=k.rec, many=True)
         if [b.p.shortty(b.p.strip(q['type'])) for q in g['params']] == [k.rec]]
    if not f:
        raise NoFun('operator%s of %s' % (op, k.rec))
    b.start()
    v = b.call(f[0], a, [s])
    con = '%s %s %s, degrees %s' % (k.rec, op, k.rec, ','.join(rel))
    N = [fmax(x, y) for x, y in zip(ns, ms)]
    if op.endswith('='):
        storage(b, k, a, con + ', target', f[0], N)
    else:
        storage(b, k, a, con + ', left operand', f[0], ns)
        r = v if isinstance(v, Ref) else b.it.new(v, b.p.strip(f[0]['ret']), 'result')
        storage(b, b.kit_of(r), r, con + ', result', f[0], N)
    storage(b, k, s, con + ', right operand', f[0], ms)


def split(c, dim, pt, e):
    b = Bench(c, 'poly')
    k, a, ns = b.poly(dim, pt)
    s = b.real('s', S.ZERO, S.ONE)
    b.assume = [gt0(P.of(s)), gt0(1 - P.of(s))]
    f = [g for g in b.p.find('SplitAtPosition', rec=k.rec, many=True)
         if b.p.shortty(b.p.strip(g['params'][0]['type'])) == 'double'][0]
    b.start()
    v = b.it.rv(b.call(f, a, [P.of(s), P.of(e)]))
    if not isinstance(v, VecV):
        raise Unsup('result of split')
    for part in 0, 1:
        storage(b, k, b.it.new(cread(v.c, P.of(part)), k.t, 'part'),
                '%s::SplitAtPosition(position, %d) part %d' % (k.rec, e, part), f, ns)


def extract(c, dim, pt):
    b = Bench(c, 'poly')
    k, a, ns = b.poly(dim, pt)
    f = b.p.find('ExtractDimension', rec=k.rec)
    b.start()
    for i in range(ncomp(pt)):
        v = b.call(f, a, [P.of(i)])
        r = v if isinstance(v, Ref) else b.it.new(v, b.p.strip(f['ret']), 'result')
        storage(b, b.kit(b.p.shortty(b.p.strip(f['ret']))), r, '%s::ExtractDimension(%d)' % (k.rec, i), f, ns)


def cases(ctx):
    out = [('%dD %s' % (d, q), lambda c, d=d, q=q: run(c, d, q))
            for d in (1, 2, 3) for q in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[d]]
    for d in (1, 2, 3):
        for q in ('double', 'Point<3,double>' if d == 3 else 'Point<2,double>'):
            out.append(('%dD %s construction' % (d, q), lambda c, d=d, q=q: fresh(c, d, q)))
            for e in range(d):
                out.append(('%dD %s split %d' % (d, q, e), lambda c, a=(d, q, e): split(c, *a)))
            if q != 'double':
                out.append(('%dD %s coordinate' % (d, q), lambda c, d=d, q=q: extract(c, d, q)))
        for op in '+', '-', '+=', '-=':
            for rel in itertools.product('=<>', repeat=d):
                if d < 3 or rel in (('<', '>', '='), ('<', '<', '>'), ('=', '=', '=')):
                    out.append(('%dD %s %s' % (d, op, ''.join(rel)),
                                lambda c, a=(d, op, rel): sums(c, *a)))
    out += lemmas(ctx, 'p11')
    return out
