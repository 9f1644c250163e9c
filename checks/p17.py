"""Abstract interpretation of the rational spline's arithmetic over abstract
polynomial splines: every result is read back through the library's accessors as
(numerator function, weight function) and its quotient is compared with the
pointwise operation on the quotients of the operands."""
from kern import *
from alg import Alg, NoDen
from p06 import members, boxed

TECHNIQUE = 'abstract interpretation over a function domain (spline algebra): polynomial kernels by contract, symbolic degrees'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic with non-zero weight functions; product, sum and '
        'equality of polynomial splines enter by contract (P13, P14). Closed forms equal by normal form or, where '
        'reported, by identity testing of the formulas. Trusts clang front end, exporter, engine.')


def quot(b, ref, us):
    try:
        return b.quotient(ref, us)
    except NoDen as e:
        raise Unsup('no function meaning: %s' % e)


def judge(b, con, f, ref, want, us, rule='quotient of the result = pointwise operation on the quotients'):
    nu, w, _, _ = quot(b, ref, us)
    if len(nu) != len(want):
        b.case.add(rule, con, b.where(f), 'violated', 'the result has %d components, not %d' % (len(nu), len(want)))
        return
    for i, (x, y) in enumerate(zip(nu, want)):
        c = con if len(want) == 1 else '%s component %d' % (con, i)
        b.equal(rule, c, f, x * S.inv(w), y)


def same(b, con, f, ref, name, wname, us, dim, n, rule):
    z = [0] * dim
    nu, w, dn, _ = quot(b, ref, us)
    v = lambda nm, i: fn('val', (nm, i) + tuple(P.of(0) for _ in z) + tuple(us))
    for i, x in enumerate(nu):
        b.equal(rule, '%s numerator %d' % (con, i), f, x, v(name, i))
    b.equal(rule, '%s weight' % con, f, w, v(wname, 0))


def find_op(b, short_, sig, rec):
    for f in b.p.find(short_, rec=rec, many=True):
        ps = [b.p.shortty(b.p.strip(q['type'])) for q in f['params']]
        if ps == sig and (rec is not None or f.get('rec') is None):
            return f
    raise NoFun('%s(%s)' % (short_, ','.join(sig)))


def run(c, dim, pl, what, pr=None, mode='different'):
    b = Alg(c, 'rational')
    k, a, ns = make_rat(b, dim, pl)
    us = [P.of(Sym('u%d' % d, 'real')) for d in range(dim)]
    z = [P.of(0)] * dim
    V = lambda nm, i: fn('val', (nm, i) + tuple(z) + tuple(us))
    n = ncomp(pl)
    A = [V('A', i) / V('W', 0) for i in range(n)]
    R = k.rec
    inplace = what.endswith('=')
    other = None
    if pr is not None:
        ms = {'different': None, 'equal weights': ns, 'same degrees': ns, 'itself': ns}[mode]
        if mode == 'itself':
            kr, s, B = k, a, A
        else:
            kp, nu, ms = b.poly(dim, pr, 'B', ms)
            if mode == 'equal weights':
                ks, w, _ = b.poly(dim, 'double', 'W', ns)
                wn = 'W'
            else:
                ks, w, _ = b.poly(dim, 'double', 'V', ms)
                wn = 'V'
            kr = b.kit(ratname(dim, pr))
            s = kr.construct([nu, w], lambda ps: len(ps) == 2 and all(q.startswith('BezierSpline<') for q in ps))
            B = [V('B', i) / V(wn, 0) for i in range(ncomp(pr))]
            other = (s, 'B', wn, ncomp(pr))
        op = what[0]
        f = find_op(b, 'operator' + what, [kr.rec], R)
        b.start()
        v = b.call(f, a, [s])
        if op == '*':
            if n == len(B):
                want = S.ZERO
                for x, y in zip(A, B):
                    want = want + x * y
                want = [want]
            else:
                want = [x * B[0] for x in A] if len(B) == 1 else [A[0] * y for y in B]
        else:
            want = [x + y if op == '+' else x - y for x, y in zip(A, B)]
        con = '%s %s %s (%s)' % (R, what, kr.rec, mode)
    elif what in ('*= scalar', 'spline * scalar', 'scalar * spline'):
        s = P.of(b.real('s'))
        if what.startswith('scalar'):
            f = find_op(b, 'operator*', ['double', R], None)
            args, this = [s, a], None
        else:
            f = find_op(b, 'operator*=' if '=' in what else 'operator*', ['double'], R)
            args, this = [s], a
        inplace = '=' in what
        b.start()
        v = b.call(f, this, args)
        want = [x * s for x in A]
        con = '%s: %s' % (R, what)
    elif what == '- spline':
        f = find_op(b, 'operator-', [], R)
        b.start()
        v = b.call(f, a, [])
        want = [-x for x in A]
        con = '%s: negation' % R
    else:
        x, xs = b.point(pl, 'x') if pl != 'double' else (P.of(b.real('x')),) * 2
        if pl == 'double':
            xs = [x]
        ops = {'+= point': ('operator+=', 1), '-= point': ('operator-=', -1), 'spline + point': ('operator+', 1),
               'spline - point': ('operator-', -1), 'point + spline': ('operator+', 1)}
        o, sg = ops[what]
        if what.startswith('point'):
            f = find_op(b, o, [pl, R], None)
            this, args = None, [x, a]
        else:
            f = find_op(b, o, [pl], R)
            this, args = a, [x]
        inplace = '=' in what
        b.start()
        v = b.call(f, this, args)
        want = [p + q * sg for p, q in zip(A, xs)]
        con = '%s: %s' % (R, what)
    refs = []
    if v is not None:
        refs.append((con, v if isinstance(v, Ref) else b.it.new(v, b.p.strip(f['ret']), 'result')))
    if inplace:
        refs.append((con + ', target', a))
    for cn, r in refs:
        judge(b, cn, f, r, want, us)
    if not inplace:
        same(b, con + ', left operand', f, a, 'A', 'W', us, dim, n, 'the operand is unchanged')
    if other:
        s, bn, wn, m = other
        same(b, con + ', right operand', f, s, bn, wn, us, dim, m, 'the operand is unchanged')
    b.clean('terminates without error', con, f)


def equality(c, dim):
    """two splines compare equal exactly when degrees and all control points do"""
    b = Bench(c, 'rational')
    f = [g for g in b.p.find('operator==', rec=polyname(dim), many=True)]
    if not f:
        raise NoFun('operator== of ' + polyname(dim))
    f = f[0]
    for mode in ('same degrees', 'different degrees', 'same object content'):
        b = Bench(c, 'rational')
        k, a, ns = b.poly(dim, 'double', 'A')
        k, s, ms = b.poly(dim, 'double', 'A' if mode == 'same object content' else 'B',
                          None if mode == 'different degrees' else ns)
        b.start()
        v = b.it.rv(b.call(f, a, [s]))
        N = prod([P.of(n) for n in ns])
        deg = c_and(*[eq0(P.of(x) - P.of(y)) for x, y in zip(ns, ms)])
        if mode == 'same object content':
            want = S.TRUE
        else:
            q = Sym('q', 'int', S.ZERO, N - 1)
            cnt = Sum(q, S.ZERO, N - 1, ite(eq0(arr('A', 0, P.of(q)) - arr('B', 0, P.of(q))), S.ZERO, S.ONE))
            want = c_and(deg, eq0(cnt))
        v = v if isinstance(v, Cond) else p2c(P.of(v))
        b.equal('equal exactly when degrees and control points are', '%s == (%s)' % (k.rec, mode), f, v, want,
                pool=[S.Fraction(1), S.Fraction(2)], sizemax=2)


def mixed(c, dim, pt, op, how):
    """operands made by the other constructors"""
    b = Alg(c, 'rational')
    us = [P.of(Sym('u%d' % d, 'real')) for d in range(dim)]
    z = [P.of(0)] * dim
    V = lambda nm, i: fn('val', (nm, i) + tuple(z) + tuple(us))
    n = ncomp(pt)
    k, a, ns = make_rat(b, dim, pt)
    A = [V('A', i) / V('W', 0) for i in range(n)]
    # a polynomial spline as a rational one
    kp, q, ms = b.poly(dim, pt, 'B')
    isp = lambda p: p.startswith('BezierSpline<')
    s = k.construct([q], lambda ps: len(ps) == 1 and isp(ps[0]))
    B = [V('B', i) for i in range(n)]
    if how == 'polynomial left':
        k, a, s, A, B = k, s, a, B, A
    elif how == 'polynomial both':
        kp, q2, ms2 = b.poly(dim, pt, 'C')
        a = k.construct([q2], lambda ps: len(ps) == 1 and isp(ps[0]))
        A = [V('C', i) for i in range(n)]
    f = find_op(b, 'operator' + op, [k.rec], k.rec)
    b.start()
    v = b.call(f, a, [s])
    if op == '*':
        want = S.ZERO
        for x, y in zip(A, B):
            want = want + x * y
        want = [want]
    else:
        want = [x + y if op[0] == '+' else x - y for x, y in zip(A, B)]
    r = v if isinstance(v, Ref) else b.it.new(v, b.p.strip(f['ret']), 'result')
    con = '%s %s (%s)' % (k.rec, op, how)
    judge(b, con, f, r, want, us)
    b.clean('terminates without error', con, f)


PTS = ('double', 'Point<2,double>', 'Point<3,double>')


def cases(ctx):
    out = []

    def add(nm, *a):
        out.append((nm, lambda c: run(c, *a)))
    for dim in (1, 2, 3):
        out.append(('%dD equality of weight functions' % dim, lambda c, d=dim: equality(c, d)))
        for pt in PTS + EXTRA[dim]:
            h = '%dD %s ' % (dim, pt)
            for w in ('*= scalar', 'spline * scalar', 'scalar * spline', '- spline', '+= point', '-= point',
                      'spline + point', 'spline - point', 'point + spline'):
                add(h + w, dim, pt, w)
            for o in '+', '-', '+=', '-=':
                for m in ('different', 'equal weights', 'same degrees') + (('itself',) if len(o) == 1 else ()):
                    add('%s%s %s' % (h, o, m), dim, pt, o, pt, m)
            for o in '+', '-', '+=', '-=', '*':
                for m in ('polynomial right', 'polynomial left', 'polynomial both'):
                    out.append(('%s%s %s' % (h, o, m), lambda c, a=(dim, pt, o, m): mixed(c, *a)))
            for m in ('different', 'equal weights', 'same degrees'):
                add('%s* itself type %s' % (h, m), dim, pt, '*', pt, m)
                if pt != 'double':
                    add('%s* scalar spline %s' % (h, m), dim, pt, '*', 'double', m)
                    add('scalar spline * %s %s' % (h, m), dim, 'double', '*', pt, m)
    out += lemmas(ctx, 'p13', 'p14', 'binomials')
    return out
