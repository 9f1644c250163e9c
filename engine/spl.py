"""Symbolic splines: how inputs are set up and how results are inspected."""
import interp
from interp import *


def hook_logger(p, f):
    return f.get('rec') is not None and p.recs[f['rec']]['short'] == 'Logger'


def h_logger(it, fun, this, args, loc):
    if fun['short'] == 'TerminatingError':
        g = c_and(*it.pc[it.fstart():])
        it.frames[-1].throws.append(g)
        if it.record:
            it.events.append({'kind': 'throw', 'guard': it.guard_here(), 'loc': loc,
                              'fun': it.frames[-1].fun['name']})
        raise DeadCode()
    return None


def hook_choose(p, f):
    return f['short'] == 'choose' and f.get('rec') is not None \
        and p.recs[f['rec']]['short'] == 'FastBinomialCoefficient'


def h_choose(it, fun, this, args, loc):
    n, i = (it.rv(a) for a in args)
    it.ob('binomial', c_and(ge0(i), ge0(n - i)), loc, 'choose(%r, %r)' % (n, i))
    return binom(n, i)


STD_HOOKS = [(hook_logger, h_logger), (hook_choose, h_choose)]


def new_interp(prog, hooks=()):
    CTX.reset(0)
    CTX.cache = {}
    return Interp(prog, list(hooks) + STD_HOOKS)


class Kit:
    """operations on splines of one instantiation"""

    def __init__(self, it, rec):
        self.it, self.rec = it, rec
        p = it.p
        self.t = next(i for i, t in enumerate(p.types)
                      if t['k'] == 'rec' and p.recname(t['rec']) == rec and not t.get('const'))
        self.r = p.types[self.t]['rec']

    def ctor(self, pred):
        p = self.it.p
        out = [f for f in p.funs if f.get('ctor') and f.get('rec') == self.r and f.get('body')
               is not None and pred([p.shortty(q['type']) for q in f['params']])]
        if len(out) != 1:
            raise NoFun('constructor of %s (%d)' % (self.rec, len(out)))
        return out[0]

    def construct(self, args, pred):
        it = self.it
        r = it.new(it.zero(self.t, True), self.t, 'spline')
        it.call(self.ctor(pred), r, args)
        return r

    def call(self, name, this, args, **kw):
        it = self.it
        f = it.p.find(name, rec=self.rec, **kw)
        return it.call(f, this, args)

    def value(self, ref):
        return self.it.load(ref) if isinstance(ref, Ref) else ref


def ncoef(dim, name='n'):
    return [interp.size('%s%d' % (name, i), 1, None) for i in range(dim)]


def prod(xs):
    r = S.ONE
    for x in xs:
        r = r * x
    return r


def offsets(ns):
    o, out = S.ONE, []
    for n in ns:
        out.append(o)
        o = o * P.of(n)
    return out


def symbolic_points(it, ety, name, count, extra=()):
    """control points named A[comp](flat index)"""
    q = Sym('q', 'int', S.ZERO, None)
    tmpl = it.zero(ety)
    n = len(tleaves(tmpl))
    tree = tbuild(tmpl, iter([fn('arr', (name, i, P.of(q)) + tuple(extra)) for i in range(n)]))
    return VecV(count, Cnt(('lam', q, tree)), ety)


def make_poly(it, kit, dim, name='A', ns=None):
    """spline with symbolic degrees and control points, built by the library's
    own constructor"""
    ns = ns or ncoef(dim, 'n' + name)
    p = it.p
    f = kit.ctor(lambda ps: len(ps) == 2 and ps[1].startswith('vector<'))
    at = p.strip(f['params'][0]['type'])
    vt = p.strip(f['params'][1]['type'])
    deg = it.new(ArrV([P.of(n) - 1 for n in ns]), at, 'deg')
    ety = p.recs[p.types[vt]['rec']]['targs'][0]['t']
    pts = it.new(symbolic_points(it, ety, name, prod(map(P.of, ns))), vt, 'pts')
    r = it.new(it.zero(kit.t, True), kit.t, 'spline')
    it.call(f, r, [deg, pts])
    return r, ns


def arr(name, comp, idx):
    return fn('arr', (name, comp, P.of(idx)))


def degrees(it, kit, ref):
    f = [g for g in it.p.funs if g.get('short') == 'GetDegrees' and g.get('rec') == kit.r
         and g.get('body') is not None][0]
    return it.rv(it.call(f, ref, []))


def points(it, kit, ref):
    if interp.RESULTS is not None and isinstance(ref, Ref) and len(interp.RESULTS) < 40:
        try:
            interp.RESULTS.append((it, kit, it.load(ref)))
        except Unsup:
            pass
    f = [g for g in it.p.funs if g.get('short') == 'GetControlPoints' and g.get('rec') == kit.r
         and g.get('body') is not None][0]
    return it.rv(it.call(f, ref, []))


def make_rat(b, dim, pt='double', name='A', wname='W', ns=None, positive=True, sc='double'):
    """rational spline with symbolic weighted control points and weights"""
    it = b.it
    b.plain = True
    try:
        kp, a, ns = b.poly(dim, pt, name, ns, sc)
        ks, w, _ = b.poly(dim, sc, wname, ns, sc)
    finally:
        b.plain = False
    kr = b.kit('RationalBezierSpline<%d,%s,%s>' % (dim, pt, sc))
    r = kr.construct([a, w], lambda ps: len(ps) == 2 and all(p.startswith('BezierSpline<') for p in ps))
    r = b.taken(kr, r, ns, ('GetWeightedControlPoints', 'GetWeights'))
    return kr, r, ns
