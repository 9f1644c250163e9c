"""Abstract interpretation of composition over abstract polynomial splines: the
result of every composition is read back as numerator and weight function and its
quotient is compared with the outer function at the quotient of the inner one; the
sensitivity to a control point (symbolic index) with the outer basis function
there."""
from kern import *
import alg
from alg import Alg, NoDen
from p17 import judge, quot

TECHNIQUE = 'abstract interpretation over a function domain (spline algebra), symbolic degrees and symbolic control point index'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic with non-zero weight functions. Closed forms equal by '
        'normal form or, where reported, by identity testing of the formulas. Trusts clang front end, exporter, engine.')

# outer dimension and value type, inner dimension and value type
COMBOS = [(1, 'double', 1, 'double'), (1, 'Point<2,double>', 1, 'double'), (1, 'Point<2,double>', 2, 'double'),
          (1, 'Point<2,double>', 1, 'Point<1,double>'), (2, 'double', 1, 'Point<2,double>'),
          (2, 'Point<2,double>', 2, 'Point<2,double>'), (2, 'Point<3,double>', 3, 'Point<2,double>'),
          (3, 'Point<3,double>', 1, 'Point<3,double>'), (3, 'Point<3,double>', 3, 'Point<3,double>')]


def entry(b, name, rec, arg):
    for f in b.p.find(name, rec=rec, many=True):
        ps = [b.p.shortty(b.p.strip(q['type'])) for q in f['params']]
        if f.get('body') is not None and ps == [arg]:
            return f
    raise NoFun('%s::%s(%s)' % (rec, name, arg))


HELPER = {'ComposeNumeratorHelper'}
# the helper's loops carry whole splines from one power to the next: it is analysed
# for these outer degrees (numbers of coefficients), inner degrees stay symbolic
BOUND = [(COMBOS[0], [[n] for n in range(1, 10)]), (COMBOS[1], [[1], [3], [6]]), (COMBOS[2], [[2], [5]]),
         (COMBOS[4], [[1, 1], [2, 1], [1, 3], [2, 3], [4, 2], [3, 3], [1, 7], [6, 1]]), (COMBOS[5], [[3, 2], [1, 4]]),
         (COMBOS[6], [[2, 2]]), (COMBOS[7], [[2, 2, 2], [1, 2, 3], [3, 1, 2], [2, 3, 1]]), (COMBOS[8], [[2, 1, 2]])]


def operands(c, combo, ro, ri, ns=None, flags=()):
    P_, pt, Q, ipt = combo
    b = Alg(c, 'compose', flags=flags, raw=HELPER if ns else ())
    b.weights = ('W', 'V')
    ns = [P.of(n) for n in ns] if ns else ncoef(P_, 'n')
    ms = ncoef(Q, 'm')
    if ro:
        k, a, _ = make_rat(b, P_, pt, 'A', 'W', ns)
    else:
        k, a, _ = b.poly(P_, pt, 'A', ns)
    if ri:
        ki, i, _ = make_rat(b, Q, ipt, 'B', 'V', ms)
    else:
        ki, i, _ = b.poly(Q, ipt, 'B', ms)
    us = [P.of(Sym('u%d' % d, 'real')) for d in range(Q)]
    V = lambda nm, j, at: fn('val', (nm, j) + tuple(S.ZERO for _ in at) + tuple(at))
    inner = [V('B', j, us) * (S.inv(V('V', 0, us)) if ri else S.ONE) for j in range(ncomp(ipt))]
    return b, k, a, ns, ki, i, ms, us, V, inner


def single(c, combo, ro, ri, ns=None):
    b, k, a, ns, ki, i, ms, us, V, inner = operands(c, combo, ro, ri, ns)
    f = entry(b, 'Compose', k.rec, ki.rec)
    b.start()
    v = b.call(f, a, [i])
    ref = v if isinstance(v, Ref) else b.it.new(v, b.p.strip(f['ret']), 'result')
    want = [V('A', j, inner) * (S.inv(V('W', 0, inner)) if ro else S.ONE) for j in range(ncomp(combo[1]))]
    con = '%s::Compose(%s)' % (k.rec, ki.rec)
    compare_result(b, con, f, ref, want, us, 'composition = outer function at the inner function')
    b.clean('terminates without error', con, f, fits(ms, ncomp(combo[3]), ri))


def compare_result(b, con, f, ref, want, us, rule):
    if b.kit_of(ref).rec.startswith('Rational'):
        return judge(b, con, f, ref, want, us, rule)
    try:
        fs = b.den(ref)
    except NoDen as e:
        raise Unsup('no function meaning: %s' % e)
    for j, (x, y) in enumerate(zip(fs, want)):
        b.equal(rule, con + ('' if len(want) == 1 else ' component %d' % j), f, x.val(us, [0] * len(us)), y)


def fits(ms, n, ri):
    """the inner function lies in the unit cube"""
    N = prod([P.of(m) for m in ms])
    z = Sym('z', 'int', 0, N - 1)
    out = []
    for i in range(n):
        v = arr('B', i, P.of(z)) * (S.inv(arr('V', 0, P.of(z))) if ri else S.ONE)
        out += [ge0(S.Reduce('min', z, S.ZERO, N - 1, v)), ge0(1 - S.Reduce('max', z, S.ZERO, N - 1, v))]
    return tuple(out)


def sensitivity(c, combo, ro, ri, ns=None):
    b, k, a, ns, ki, i, ms, us, V, inner = operands(c, combo, ro, ri, ns)
    f = entry(b, 'ComposeSensitivity', k.rec, ki.rec)
    b.start()
    v = b.it.rv(b.call(f, a, [i]))
    con = '%s::ComposeSensitivity(%s)' % (k.rec, ki.rec)
    N = prod([P.of(n) for n in ns])
    b.equal('one entry per control point of the outer function', con, f, v.ln, N)
    q = Sym('t', 'int', 0, N - 1)
    e = cread(v.c, P.of(q))
    ref = b.it.new(e, v.ety, 'entry')
    w = b.basis(P.of(q), inner, [S.ZERO] * combo[0], [P.of(n) for n in ns])
    if ro:
        w = w * arr('W', 0, P.of(q)) * S.inv(V('W', 0, inner))
    compare_result(b, con, f, ref, [w], us, 'sensitivity = derivative of the composition by the control point')
    b.clean('terminates without error', con, f, fits(ms, ncomp(combo[3]), ri))


def member(b, k, ms, ri, ipt, Q, q):
    """spline of a group with index q"""
    n = ncomp(ipt)

    def of(nm, m):
        return [GroupFun(nm, i, q) for i in range(m)]
    if not ri:
        return b.build(k.rec, of('B', n), ms, [q])
    nu = b.build(polyname(Q, ipt), of('B', n), ms, [q])
    w = b.build(polyname(Q), of('V', 1), ms, [q])
    return k.construct([nu, w], lambda ps: len(ps) == 2 and all(p.startswith('BezierSpline<') for p in ps))


class GroupFun(alg.Fun):
    """component i of function nm of the group member j"""

    def __init__(self, nm, i, j):
        self.nm, self.i, self.j = nm, i, j

    def val(self, us, k):
        return fn('val', (self.nm, self.i) + tuple(P.of(x) for x in k) + tuple(us) + (P.of(self.j),))


def group(c, combo, ri):
    P_, pt, Q, ipt = combo
    b = Alg(c, 'compose')
    ns, ms = ncoef(P_, 'n'), ncoef(Q, 'm')
    k, a, _ = b.poly(P_, pt, 'A', ns)
    ki = b.kit((ratname if ri else polyname)(Q, ipt))
    f = entry(b, 'Compose', k.rec, 'vector<%s>' % ki.rec)
    G = Sym('G', 'int', 0, None)
    q = Sym('q', 'int', 0, P.of(G) - 1)
    vt = b.p.strip(f['params'][0]['type'])
    r = b.it.new(VecV(P.of(G), Cnt(('lam', q, b.it.load(member(b, ki, ms, ri, ipt, Q, q)))), ki.t), vt, 'group')
    b.start()
    v = b.it.rv(b.call(f, a, [r]))
    con = '%s::Compose(vector of %s)' % (k.rec, ki.rec)
    b.equal('one result per member of the group', con, f, v.ln, P.of(G))
    g = Sym('g', 'int', 0, P.of(G) - 1)
    ref = b.it.new(cread(v.c, P.of(g)), v.ety, 'entry')
    us = [P.of(Sym('u%d' % d, 'real')) for d in range(Q)]
    V = lambda nm, j: fn('val', (nm, j) + tuple(S.ZERO for _ in us) + tuple(us) + (P.of(g),))
    inner = [V('B', j) * (S.inv(V('V', 0)) if ri else S.ONE) for j in range(ncomp(ipt))]
    want = [fn('val', ('A', j) + tuple(S.ZERO for _ in inner) + tuple(inner)) for j in range(ncomp(pt))]
    compare_result(b, con, f, ref, want, us, 'entry = outer function at that member of the group')


def cases(ctx):
    out = []
    for combo in COMBOS:
        for ro in (False, True):
            for ri in (False, True):
                h = '%s %dD %s of %s %dD %s ' % ('rational' if ro else 'polynomial', combo[0], combo[1],
                                                 'rational' if ri else 'polynomial', combo[2], combo[3])
                out.append((h + 'composition', lambda c, a=(combo, ro, ri): single(c, *a)))
                if not ro:
                    out.append((h + 'group', lambda c, a=(combo, ri): group(c, *a)))
                out.append((h + 'sensitivity', lambda c, a=(combo, ro, ri): sensitivity(c, *a)))
    for combo, nss in BOUND:
        for ns in nss:
            for ri in (False, True):
                h = 'coefficients %s of %dD %s, %s inner %dD %s ' % (
                    'x'.join(map(str, ns)), combo[0], combo[1], 'rational' if ri else 'polynomial', combo[2], combo[3])
                out.append((h + 'composition', lambda c, a=(combo, False, ri, ns): single(c, *a)))
                out.append((h + 'sensitivity', lambda c, a=(combo, False, ri, ns): sensitivity(c, *a)))
    out += [x for x in lemmas(ctx, 'p20') if 'ExtractDimension' in x[0]]
    return out + lemmas(ctx, 'p13', 'p14', 'binomials')
