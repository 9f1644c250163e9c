"""Guard analysis of the requests documented as errors: each operation is
interpreted over symbolic operands and arguments in every build configuration; the
condition under which it raises the terminating error (path conditions of all throw
sites) has to cover every invalid request, and an operation that only ever receives
invalid requests must not return at all."""
from kern import *
from alg import Alg
import p16
from p16 import CONFIGS, RULE, covered, returns, raised, logger_lemma

TECHNIQUE = 'abstract interpretation of guards: path conditions of the throw sites against the definition, per build configuration'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic (no NaN). Degrees, control points, positions and '
        'indices are symbolic; lists of split positions: length symbolic for unsorted lists and a bad first position, '
        'lengths one to four otherwise, the single split inside by contract. The error itself is the logger lemma '
        '(P27). Trusts clang front end, exporter, engine.')
POOL = [Fraction(x) for x in ('0', '1', '1/2', '0', '1', '1/3', '2/3', '-1/7', '8/7')]
POOL1 = [Fraction(x) for x in ('0', '1', '1/2', '1/3', '3/4')]
POOLS = [POOL, POOL1]


def operand(b, rat, dim, pt):
    return make_rat(b, dim, pt) if rat else b.poly(dim, pt)


def probe(rat):
    return 'rational' if rat else 'poly'


def tag(cfg):
    return ' with ' + cfg[0] if cfg[0] else ''


def inside(t):
    return c_and(gt0(P.of(t)), gt0(1 - P.of(t)))


def never(b, con, f, this, args):
    """the operation has to raise on everything"""
    if not returns(b, f, this, args):
        b.case.add(RULE, con, b.where(f), 'holds', 'never returns')
        return
    covered(b, con, f, S.TRUE, tries=60, sizemax=2)


def splitter(b, k, lst):
    for g in b.p.find('SplitAtPosition', rec=k.rec, many=True):
        if b.p.shortty(b.p.strip(g['params'][0]['type'])).startswith('vector<') == lst:
            return g
    raise NoFun('SplitAtPosition of ' + k.rec)


def single(c, rat, dim, pt, e, cfg):
    b = Bench(c, probe(rat), cfg[1])
    k, a, ns = operand(b, rat, dim, pt)
    s = b.real('s')
    f = splitter(b, k, False)
    b.start()
    con = '%s::SplitAtPosition(position, %d)%s' % (k.rec, e, tag(cfg))
    if not returns(b, f, a, [P.of(s), P.of(e)]):
        c.add(RULE, con, b.where(f), 'holds', 'never returns')
        return
    covered(b, con, f, c_not(inside(s)), pools=POOLS, tries=120, sizemax=2)


class Guarded(Alg):
    """the single split with its guard (the single-split cases of this check)"""

    def contract(self, it, sh, ps, rec, rt, this, args, fun):
        if sh == 'SplitAtPosition':
            t = P.of(it.rv(args[0]))
            it.frames[-1].throws.append(c_and(*(it.pc[it.fstart():] + [c_not(inside(t))])))
            ok = S.simp(inside(t))
            if ok.k == 'false':
                raise DeadCode()
            CTX.push(ok)
        return super().contract(it, sh, ps, rec, rt, this, args, fun)


def vec(b, f, ln, cont):
    t = b.p.strip(f['params'][0]['type'])
    return b.it.new(VecV(P.of(ln), cont, b.p.recs[b.p.types[t]['rec']]['targs'][0]['t']), t, 'list')


def some(b, rat, dim, pt):
    """operands of list splitting"""
    return operand(b, rat, dim, pt)


def listed(c, rat, dim, pt, L, cfg):
    b = Guarded(c, probe(rat), cfg[1])
    k, a, ns = some(b, rat, dim, pt)
    f = splitter(b, k, True)
    ts = [P.of(b.real('t%d' % i)) for i in range(L)]
    con = '%s::SplitAtPosition(%d positions, %d)%s' % (k.rec, L, dim - 1, tag(cfg))
    v = vec(b, f, L, c_list(ts))
    b.start()
    bad = c_or(*[c_not(inside(t)) for t in ts], *[gt0(x - y) for x, y in zip(ts, ts[1:])])
    if not returns(b, f, a, [v, P.of(dim - 1)]):
        c.add(RULE, con, b.where(f), 'holds', 'never returns')
        return
    covered(b, con, f, bad, pools=POOLS, tries=300, sizemax=2)


def anylist(c, rat, dim, pt, what, cfg):
    """lists of any length that are not sorted, or start outside the interval"""
    b = Guarded(c, probe(rat), cfg[1])
    k, a, ns = some(b, rat, dim, pt)
    f = splitter(b, k, True)
    L = P.of(Sym('L', 'int', 1, None))
    q = Sym('q', 'int', 0, L - 1)
    v = vec(b, f, L, Cnt(('lam', q, arr('T', 0, P.of(q)))))
    r = Sym('r', 'int', 1, L - 1)
    bad = {'unsorted': c_not(eq0(Sum(r, S.ONE, L - 1, ite(gt0(arr('T', 0, P.of(r) - 1) - arr('T', 0, P.of(r))),
                                                         S.ONE, S.ZERO)))),
           'first position too small': c_not(gt0(arr('T', 0, S.ZERO))),
           'first position too large': c_not(gt0(1 - arr('T', 0, S.ZERO)))}[what]
    con = '%s::SplitAtPosition(positions, %d), %s%s' % (k.rec, dim - 1, what, tag(cfg))
    b.start()
    m = CTX.mark()
    CTX.push(bad)
    try:
        back = returns(b, f, a, [v, P.of(dim - 1)])
    finally:
        CTX.reset(m)
    if not back:
        c.add(RULE, con, b.where(f), 'holds', 'never returns')
    else:
        covered(b, con, f, bad, pools=POOLS, tries=120)


def extract(c, rat, dim, pt, cfg):
    b = Bench(c, probe(rat), cfg[1])
    k, a, ns = operand(b, rat, dim, pt)
    f = b.p.find('ExtractDimension', rec=k.rec)
    e = P.of(Sym('e', 'int', 0, None)) + ncomp(pt)
    b.start()
    never(b, '%s::ExtractDimension(%d and above)%s' % (k.rec, ncomp(pt), tag(cfg)), f, a, [e])


def power_(c, dim, pt, cfg):
    b = Bench(c, 'poly', cfg[1])
    k, a, ns = operand(b, False, dim, pt)
    f = b.p.find('RaisePower', rec=k.rec)
    b.start()
    never(b, '%s::RaisePower%s' % (k.rec, tag(cfg)), f, a, [P.of(Sym('e', 'int', 0, None))])


def empty(c, rat, dim, pt, cfg):
    for nm in ('MaximumCorner', 'MinimumCorner'):
        b = Bench(c, probe(rat), cfg[1])
        k = b.kit((ratname if rat else polyname)(dim, pt))
        a = b.it.new(b.it.zero(k.t, True), k.t, 'spline')
        f = b.p.find(nm, rec=k.rec)
        b.start()
        never(b, '%s::%s of an empty spline%s' % (k.rec, nm, tag(cfg)), f, a, [])


def cases(ctx):
    out = []
    for cfg in CONFIGS:
        t = ' (%s)' % (cfg[0] or 'default')
        for rat in (False, True):
            for dim in (1, 2, 3):
                for pt in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[dim]:
                    h = '%s %dD %s ' % ('rational' if rat else 'polynomial', dim, pt)
                    a = (rat, dim, pt)
                    for e in range(dim):
                        out.append((h + 'split along %d' % e + t,
                                    lambda c, x=a + (e, cfg): single(c, *x)))
                    if pt not in ('Point<3,double>', 'Point<4,double>'):
                        for L in (1, 2, 3, 4):
                            out.append((h + 'split at %d' % L + t, lambda c, x=a + (L, cfg): listed(c, *x)))
                        for w in ('unsorted', 'first position too small', 'first position too large'):
                            out.append((h + 'split at a list, ' + w + t, lambda c, x=a + (w, cfg): anylist(c, *x)))
                    out.append((h + 'extract' + t, lambda c, x=a + (cfg,): extract(c, *x)))
                    out.append((h + 'empty' + t, lambda c, x=a + (cfg,): empty(c, *x)))
                    if not rat and pt != 'double':
                        out.append((h + 'power' + t, lambda c, x=a[1:] + (cfg,): power_(c, *x)))
    return out + [('P16: ' + n, f) for n, f in p16.cases(ctx)]
