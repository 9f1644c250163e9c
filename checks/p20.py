"""Abstract interpretation of the element-wise transformations (scaling, shifting,
negating, translate-and-scale, fitting into the unit cube, extracting a
coordinate) over symbolic degrees and control points: the closed form of control
point t of the result is compared with the affine map of control point t of the
operand, degrees and number of control points with those of the operand."""
from kern import *

TECHNIQUE = 'value-flow analysis of the element-wise loops to closed forms over symbolic degrees'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic; closed forms equal by normal form or, where '
        'reported, by identity testing of the formulas. Dimensions one to three, scalar- and point-valued. '
        'Trusts clang front end, exporter, engine.')


def ops(b, short, sig, rec=None):
    out = []
    for f in b.p.find(short, rec=rec, many=True):
        ps = [b.p.shortty(b.p.strip(q['type'])) for q in f['params']]
        if ps == sig and (rec is not None or f.get('rec') is None):
            out.append(f)
    if not out:
        raise NoFun('%s(%s)' % (short, ','.join(sig)))
    return out[0]


def scal(b, name):
    v = P.of(b.real(name))
    return v, [v]


def run(c, dim, pt, what):
    b = Bench(c, 'poly')
    k, a, ns = b.poly(dim, pt)
    N = prod([P.of(n) for n in ns])
    n = ncomp(pt)
    s = b.real('s')
    x, xs = b.point(pt, 'x') if pt != 'double' else scal(b, 'x0')
    y, ys = b.point(pt, 'y') if pt != 'double' else scal(b, 'y0')
    t = Sym('t', 'int', 0, N - 1)
    A = [arr('A', i, P.of(t)) for i in range(n)]
    b.start()
    R = k.rec
    inplace = False
    kk = k
    if what == '*=':
        f = ops(b, 'operator*=', ['double'], R)
        r, want, inplace = b.call(f, a, [P.of(s)]), [q * P.of(s) for q in A], True
    elif what == 'spline*scalar':
        f = ops(b, 'operator*', ['double'], R)
        r, want = b.call(f, a, [P.of(s)]), [q * P.of(s) for q in A]
    elif what == 'scalar*spline':
        f = ops(b, 'operator*', ['double', R])
        r, want = b.call(f, None, [P.of(s), a]), [q * P.of(s) for q in A]
    elif what == '+=':
        f = ops(b, 'operator+=', [pt], R)
        r, want, inplace = b.call(f, a, [x]), [q + z for q, z in zip(A, xs)], True
    elif what == '-=':
        f = ops(b, 'operator-=', [pt], R)
        r, want, inplace = b.call(f, a, [x]), [q - z for q, z in zip(A, xs)], True
    elif what == 'spline+point':
        f = ops(b, 'operator+', [pt], R)
        r, want = b.call(f, a, [x]), [q + z for q, z in zip(A, xs)]
    elif what == 'spline-point':
        f = ops(b, 'operator-', [pt], R)
        r, want = b.call(f, a, [x]), [q - z for q, z in zip(A, xs)]
    elif what == 'point+spline':
        f = ops(b, 'operator+', [pt, R])
        r, want = b.call(f, None, [x, a]), [q + z for q, z in zip(A, xs)]
    elif what == 'point-spline':
        f = ops(b, 'operator-', [pt, R])
        r, want = b.call(f, None, [x, a]), [z - q for q, z in zip(A, xs)]
    elif what == 'negation':
        f = ops(b, 'operator-', [], R)
        r, want = b.call(f, a, []), [-q for q in A]
    elif what == 'TransposeAndScale':
        f = ops(b, 'TransposeAndScale', [pt, pt], R)
        r, want, inplace = b.call(f, a, [x, y]), [(z + q) * w for q, z, w in zip(A, xs, ys)], True
    elif what == 'FitIntoUnitCube':
        f = ops(b, 'FitIntoUnitCube', [], R)
        r, inplace = b.call(f, a, []), True

        def ext(op, i):
            z = Sym('z', 'int', 1, N - 1)
            first = arr('A', i, 0)
            red = S.Reduce(op, z, S.ONE, N - 1, arr('A', i, P.of(z)))
            return (S.fmax if op == 'max' else S.fmin)(first, red)
        z = Sym('z', 'int', 0, N - 1)
        mx = [S.Reduce('max', z, S.ZERO, N - 1, arr('A', i, P.of(z))) for i in range(n)]
        mn = [S.Reduce('min', z, S.ZERO, N - 1, arr('A', i, P.of(z))) for i in range(n)]
        want = [(q - m) * S.inv(M - m) for q, m, M in zip(A, mn, mx)]
    elif what.startswith('ExtractDimension'):
        q = int(what[-1])
        f = ops(b, 'ExtractDimension', ['size_t'], R)
        r = b.call(f, a, [P.of(q)])
        want = [A[q]]
        kk = b.kit(polyname(dim, 'double'))
    con = '%s %s' % (R, what)
    ref = r if isinstance(r, Ref) else b.it.new(r, kk.t, 'result')
    targets = [('', ref)]
    if inplace:
        targets = [('', a), (' (returned reference)', ref)]
    for sfx, o in targets:
        pts = points(b.it, kk, o)
        dg = degrees(b.it, kk, o)
        for d in range(dim):
            b.equal('degrees are those of the operand', con + sfx, f, dg.e[d], P.of(ns[d]) - 1)
        b.equal('number of control points is that of the operand', con + sfx, f, pts.ln, N)
        b.equal_leaves('control point t = affine map of control point t', con + sfx, f,
                       cread(pts.c, P.of(t)), want)
    if not inplace:
        b.equal_leaves('the operand is unchanged', con, f, cread(points(b.it, k, a).c, P.of(t)), A)
    if what != 'FitIntoUnitCube':
        b.clean('terminates without error', con, f)


def cases(ctx):
    out = []
    for dim in (1, 2, 3):
        for pt in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[dim]:
            w = ['*=', 'spline*scalar', 'scalar*spline', '+=', '-=', 'spline+point', 'spline-point',
                 'point+spline', 'point-spline', 'negation', 'TransposeAndScale', 'FitIntoUnitCube']
            w += ['ExtractDimension %d' % i for i in range(ncomp(pt))]
            for x in w:
                out.append(('%dD %s %s' % (dim, pt, x), lambda c, d=dim, q=pt, x=x: run(c, d, q, x)))
    return out
