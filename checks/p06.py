"""Abstract interpretation of every constructor and mutating or result-producing
operation of the rational spline: the numerator spline and the weight-function
spline it leaves behind are compared with each other and with the storage
invariant (degrees, strides, number of control points, container length)."""
from kern import *
from alg import Alg
from p05 import storage

TECHNIQUE = 'value-flow analysis of the two member splines over symbolic degrees; polynomial operations by contract (P05)'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic; closed forms equal by normal form or, where '
        'reported, by identity testing of the formulas. Operations on the member splines enter with the storage '
        'contract that P05 decides. Trusts clang front end, exporter, engine.')


def members(b, k, ref):
    out = []
    for n in ('GetNumeratorSpline', 'GetWeightFunctionSpline'):
        f = b.p.find(n, rec=k.rec)
        v = b.it.call(f, ref, [])
        if not isinstance(v, Ref):
            v = b.it.new(v, b.p.strip(f['ret']), 'member')
        out.append((v, b.kit(b.p.recname(b.it.load(v).rec))))
    return out


def congruent(b, k, ref, con, f, ns=None):
    (n, kn), (w, kw) = members(b, k, ref)
    dn, dw = degrees(b.it, kn, n), degrees(b.it, kw, w)
    for d in range(len(dn.e)):
        b.equal('numerator and weight function have the same degrees', '%s degree %d' % (con, d), f, dn.e[d], dw.e[d])
        if ns is not None:
            b.equal('degrees are the requested ones', '%s degree %d' % (con, d), f, dn.e[d], P.of(ns[d]) - 1)
    one = [x + 1 for x in dn.e]
    storage(b, kn, n, con + ' (numerator)', f, one)
    storage(b, kw, w, con + ' (weight function)', f, one)
    asserts(b, con, f)


def asserts(b, con, f):
    """the library's own consistency assertions never fire"""
    bad, unk, n = [], [], 0
    for o in b.it.obs:
        if o['kind'] != 'assert':
            continue
        n += 1
        if o['ok']:
            continue
        w = sat(c_and(*o['facts'], c_not(o['cond'])), tuple(b.assume), seed=b.case.ctx.seed)
        if w == 'unk':
            unk.append(o['loc'])
        elif w:
            bad.append('%s, for %s' % (o['loc'], w))
    b.case.add('consistency assertions hold', con, b.where(f), 'violated' if bad else 'undecided' if unk else 'holds',
               '; '.join(bad[:2] or unk[:2]) or '%d assertions' % n)


def boxed(b, k, v):
    return v if isinstance(v, Ref) else b.it.new(v, k.t, 'result')


def ctors(c, dim, pt):
    rec = ratname(dim, pt)
    isp = lambda p: p.startswith('BezierSpline<')
    # from a polynomial spline
    b = Bench(c, 'rational')
    kp, a, ns = b.poly(dim, pt, 'A')
    k = b.kit(rec)
    f = k.ctor(lambda ps: len(ps) == 1 and isp(ps[0]))
    b.start()
    r = b.it.new(b.it.zero(k.t, True), k.t, 'spline')
    b.call(f, r, [a])
    congruent(b, k, r, '%s(polynomial spline)' % rec, f, ns)
    N = prod([P.of(n) for n in ns])
    t = Sym('t', 'int', 0, N - 1)
    (n, kn), (w, kw) = members(b, k, r)
    b.equal_leaves('weights are one', '%s(polynomial spline)' % rec, f, cread(points(b.it, kw, w).c, P.of(t)), [S.ONE])
    b.equal_leaves('control points are those of the polynomial spline', '%s(polynomial spline)' % rec, f,
                   cread(points(b.it, kn, n).c, P.of(t)), [arr('A', i, P.of(t)) for i in range(ncomp(pt))])
    b.clean('terminates without error', '%s(polynomial spline)' % rec, f)
    # from two splines
    b = Bench(c, 'rational')
    kp, a, ns = b.poly(dim, pt, 'A')
    ks, w, _ = b.poly(dim, 'double', 'W', ns)
    k = b.kit(rec)
    f = k.ctor(lambda ps: len(ps) == 2 and all(isp(p) for p in ps))
    b.start()
    r = b.it.new(b.it.zero(k.t, True), k.t, 'spline')
    b.call(f, r, [a, w])
    con = '%s(numerator, weight function)' % rec
    congruent(b, k, r, con, f, ns)
    whole(b, k, r, con, f, ns, pt, lambda i, t: arr('A', i, t), lambda t: arr('W', 0, t))
    b.clean('terminates without error', con, f)
    # from degrees
    b = Bench(c, 'rational')
    k = b.kit(rec)
    ns = ncoef(dim)
    f = k.ctor(lambda ps: len(ps) == 1 and ps[0].startswith('array<'))
    b.start()
    r = b.it.new(b.it.zero(k.t, True), k.t, 'spline')
    b.call(f, r, [b.it.new(ArrV([P.of(n) - 1 for n in ns]), b.p.strip(f['params'][0]['type']))])
    congruent(b, k, r, '%s(degrees)' % rec, f, ns)
    b.clean('terminates without error', '%s(degrees)' % rec, f)
    # new degrees, of the result of the constructor
    g = b.p.find('UpdateDegrees', rec=rec)
    for case in ('from degrees', 'from points and weights', 'same number of control points'):
        b = Bench(c, 'rational')
        ns = ncoef(dim)
        ms = ncoef(dim, 'm')
        k = b.kit(rec)
        if case == 'from degrees':
            r = b.it.new(b.it.zero(k.t, True), k.t, 'spline')
            b.it.call(f, r, [b.it.new(ArrV([P.of(n) - 1 for n in ns]), b.p.strip(f['params'][0]['type']))])
        else:
            k, r, _ = make_rat(b, dim, pt, ns=ns)
            if case.startswith('same'):
                ms = list(reversed(ns))
        b.start()
        b.call(g, r, [b.param(k, 'UpdateDegrees', 0, [P.of(m) - 1 for m in ms])])
        con = '%s::UpdateDegrees (%s)' % (rec, case)
        congruent(b, k, r, con, g, ms)
        b.clean('terminates without error', con, g)
    # from degrees, points and weights
    b = Bench(c, 'rational')
    k = b.kit(rec)
    ns = ncoef(dim)
    f = k.ctor(lambda ps: len(ps) == 3)
    r = b.it.new(b.it.zero(k.t, True), k.t, 'spline')
    N = prod([P.of(n) for n in ns])
    args = [b.it.new(ArrV([P.of(n) - 1 for n in ns]), b.p.strip(f['params'][0]['type']))]
    for i, nm in ((1, 'C'), (2, 'W')):
        vt = b.p.strip(f['params'][i]['type'])
        ety = b.p.recs[b.p.types[vt]['rec']]['targs'][0]['t']
        args.append(b.it.new(symbolic_points(b.it, ety, nm, N), vt, nm))
    b.start()
    b.call(f, r, args)
    con = '%s(degrees, points, weights)' % rec
    congruent(b, k, r, con, f, ns)
    whole(b, k, r, con, f, ns, pt, lambda i, t: arr('C', i, t) * arr('W', 0, t), lambda t: arr('W', 0, t))
    b.clean('terminates without error', con, f)
    # assignment and copy
    for g in [x for x in b.p.find('operator=', rec=rec, many=True)]:
        b = Bench(c, 'rational')
        k, a, ns = make_rat(b, dim, pt)
        k, s, ms = make_rat(b, dim, pt, 'B', 'V')
        b.start()
        b.call(g, s, [a])
        con = '%s::operator=' % rec
        congruent(b, k, s, con, g, ns)
        whole(b, k, s, con, g, ns, pt, lambda i, t: arr('A', i, t), lambda t: arr('W', 0, t))
    # getters
    b = Bench(c, 'rational')
    k, a, ns = make_rat(b, dim, pt)
    b.start()
    N = prod([P.of(n) for n in ns])
    for g in b.p.find('GetDegrees', rec=rec, many=True):
        v = b.it.rv(b.call(g, a, []))
        for d in range(dim):
            b.equal('degrees of the spline', '%s::GetDegrees %d' % (rec, d), g, v.e[d], P.of(ns[d]) - 1)
    for g in b.p.find('GetNumberOfControlPoints', rec=rec, many=True):
        b.equal('number of control points of the spline', '%s::GetNumberOfControlPoints' % rec, g,
                b.it.rv(b.call(g, a, [])), N)
    t = Sym('t', 'int', 0, N - 1)
    for nm, src, m in (('GetWeightedControlPoints', 'A', ncomp(pt)), ('GetWeights', 'W', 1)):
        for g in b.p.find(nm, rec=rec, many=True):
            if g.get('body') is None:
                continue
            v = b.it.rv(b.call(g, a, []))
            b.equal('length of the list', '%s::%s' % (rec, nm), g, v.ln, N)
            b.equal_leaves('entries of the list', '%s::%s' % (rec, nm), g, cread(v.c, P.of(t)),
                           [arr(src, i, P.of(t)) for i in range(m)])


def whole(b, k, ref, con, f, ns, pt, num, wei):
    N = prod([P.of(n) for n in ns])
    t = Sym('t', 'int', 0, N - 1)
    (n, kn), (w, kw) = members(b, k, ref)
    b.equal_leaves('weighted control points', con, f, cread(points(b.it, kn, n).c, P.of(t)),
                   [num(i, P.of(t)) for i in range(ncomp(pt))])
    b.equal_leaves('weights', con, f, cread(points(b.it, kw, w).c, P.of(t)), [wei(P.of(t))])


def ops(c, dim, pt, what):
    b = Alg(c, 'rational')
    k, a, ns = make_rat(b, dim, pt)
    rec = k.rec
    same = what.endswith('same weights')
    two = '(spline)' in what

    def other(q=pt):
        if same:
            kp, n, _ = b.poly(dim, q, 'B', ns)
            ks, w, _ = Bench.poly(b, dim, 'double', 'W', ns)
            kk = b.kit(ratname(dim, q))
            return kk, kk.construct([n, w], lambda ps: len(ps) == 2 and all(x.startswith('BezierSpline<') for x in ps))
        kk, s, ms = make_rat(b, dim, q, 'B', 'V')
        return kk, s
    short_ = what.split(' ')[0]
    arg = what.split(' ')[1].strip('()') if ' ' in what else ''
    if arg == 'spline':
        kk, s = other()
        args = [s]
    elif arg == 'scalar':
        args = [P.of(b.real('s'))]
    elif arg == 'point':
        args = [b.point(pt, 'x')[0] if pt != 'double' else P.of(b.real('x'))]
    elif arg.isdigit():
        args = [P.of(int(arg))]
    elif arg == 'split':
        u = Sym('p', 'real', S.ZERO, S.ONE)
        b.assume += [gt0(P.of(u)), gt0(1 - P.of(u))]
        args = [P.of(u), P.of(dim - 1)]
    elif arg == 'orders':
        args = [b.param(k, short_, 0, [1 if i == dim - 1 else 0 for i in range(dim)])]
    else:
        args = []
    cand = []
    for f in b.p.find(short_, rec=rec, many=True):
        ps = [b.p.shortty(b.p.strip(q['type'])) for q in f['params']]
        want = {'spline': [rec], 'scalar': ['double'], 'point': [pt], '': []}.get(arg)
        if want is not None and ps != want:
            continue
        if arg == 'split' and ps[0].startswith('vector'):
            continue
        cand.append(f)
    if not cand:
        raise NoFun('%s of %s' % (what, rec))
    f = cand[0]
    b.start()
    v = b.call(f, a, args)
    con = '%s::%s' % (rec, what)
    if arg == 'split':
        v = b.it.rv(v)
        for i in range(2):
            o = b.it.new(cread(v.c, P.of(i)), k.t, 'piece')
            congruent(b, k, o, '%s piece %d' % (con, i), f, ns)
        return
    if v is not None:
        r = v
        if not isinstance(v, Ref):
            r = b.it.new(v, b.p.strip(f['ret']), 'result')
        if b.p.recname(b.it.load(r).rec).startswith('Rational'):
            congruent(b, b.kit(b.p.recname(b.it.load(r).rec)), r, con, f)
    congruent(b, k, a, con + ' (target)', f)


def cases(ctx):
    out = []
    for dim in (1, 2, 3):
        for pt in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[dim]:
            n = '%dD %s' % (dim, pt)
            out.append((n + ' constructors', lambda c, d=dim, q=pt: ctors(c, d, q)))
            w = ['operator*= (scalar)', 'operator* (scalar)', 'operator+= (point)', 'operator-= (point)',
                 'operator+ (point)', 'operator- (point)', 'operator-', 'SplitAtPosition (split)',
                 'DerivativeWRTParametricDimension (orders)']
            for o in ('operator+', 'operator-', 'operator+=', 'operator-='):
                w += [o + ' (spline)', o + ' (spline) same weights']
            w += ['OrderElevateAlongParametricDimension (%d)' % i for i in range(dim)]
            if pt == 'double':
                w += ['operator* (spline)']
            for x in w:
                out.append(('%s %s' % (n, x), lambda c, d=dim, q=pt, x=x: ops(c, d, q, x)))
    return out
