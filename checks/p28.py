"""Value-flow analysis of the point operations (all components symbolic), of the
integer power (its recursive calls replaced by the induction hypothesis, with the
decrease of the exponent as obligation) and of the index sort (the ordering handed
to the standard sort is compared with the strict order of the values)."""
from kern import *
from interp import DeadCode
import ad

TECHNIQUE = 'value-flow analysis to closed forms; induction over recursive calls; contract of the standard sort'
NOTE = ('Exact arithmetic; machine overflow is outside the model. The standard sorting functions are taken at their '
        'contract (stable_sort keeps the order of equivalent elements, sort does not).')
STA = 'AlgoDiffType<double,2>'


def pts(c, n):
    for op in ('add', 'sub', 'neg', 'mulr', 'mull', 'div', 'addeq', 'subeq', 'muleq', 'diveq', 'dot', 'sqn',
               'chain', 'over', 'nrm'):
        b = Bench(c, 'point')
        pt = 'Point<%d,double>' % n
        f = b.p.find(op, rec='OpsD<%s>' % pt if op in ('over', 'nrm') else 'Ops<%s,double>' % pt)
        x, xs = b.point(pt, 'x')
        y, ys = b.point(pt, 'y')
        s = P.of(b.real('s'))
        b.start()
        args = {'neg': [x], 'mulr': [x, s], 'mull': [s, x], 'div': [x, s], 'muleq': [x, s], 'diveq': [x, s],
                'sqn': [x], 'nrm': [x], 'over': [s, x], 'chain': [x, y, s]}.get(op, [x, y])
        r = b.call(f, None, args)
        inv = power(s, P.of(-1))
        if op.endswith('eq'):
            r = b.it.load(x)
        r = b.it.rv(r)
        want = {'add': [p + q for p, q in zip(xs, ys)], 'sub': [p - q for p, q in zip(xs, ys)],
                'neg': [-p for p in xs], 'mulr': [p * s for p in xs], 'mull': [p * s for p in xs],
                'div': [p * inv for p in xs], 'over': [s * power(p, P.of(-1)) for p in xs],
                'dot': [sum([p * q for p, q in zip(xs, ys)], S.ZERO)],
                'sqn': [sum([p * p for p in xs], S.ZERO)],
                'nrm': [fn('sqrt', (sum([p * p for p in xs], S.ZERO),))],
                'chain': [(p + q) * s - p for p, q in zip(xs, ys)]}
        w = want.get(op) or want[{'addeq': 'add', 'subeq': 'sub', 'muleq': 'mulr', 'diveq': 'div'}[op]]
        con = '%s %s' % (pt, op)
        kw = {'tol': 1e-9}
        b.equal_leaves('acts on every component', con, f, r, w, mp=ad.MP, defined=True)
        # operands are left alone
        for nm, ref, ls in (('first', x, xs), ('second', y, ys)):
            if op.endswith('eq') and nm == 'first':
                continue
            for g, w in zip(tleaves(b.it.load(ref)), ls):
                if g != w:
                    c.add('operands are not changed', con, b.where(f), 'violated', '%s operand' % nm)
                    break
            else:
                c.add('operands are not changed', '%s %s operand' % (con, nm), b.where(f), 'holds')


def adpts(c):
    """points of differentiation numbers"""
    pt = 'Point<2,%s>' % STA
    rec = 'Ops<%s,%s>' % (pt, STA)

    def du(ls):
        return ad.Du(ls[0], list(ls[1:]))

    def flat_(d):
        return [d.v] + list(d.d)
    for op in ('add', 'sub', 'neg', 'mulr', 'mull', 'div', 'addeq', 'subeq', 'muleq', 'diveq', 'dot', 'sqn', 'chain'):
        b = Bench(c, 'point')
        f = b.p.find(op, rec=rec)
        x, xs = b.point(pt, 'x')
        y, ys = b.point(pt, 'y')
        s, ss = b.point(STA, 's')
        b.start()
        args = {'neg': [x], 'mulr': [x, s], 'mull': [s, x], 'div': [x, s], 'muleq': [x, s], 'diveq': [x, s],
                'sqn': [x], 'chain': [x, y, s]}.get(op, [x, y])
        r = b.call(f, None, args)
        if op.endswith('eq'):
            r = x
        r = b.it.rv(r)
        X, Y, s_ = [du(xs[:3]), du(xs[3:])], [du(ys[:3]), du(ys[3:])], du(ss)
        o = {'addeq': 'add', 'subeq': 'sub', 'muleq': 'mulr', 'diveq': 'div'}.get(op, op)
        if o == 'dot':
            w = [ad.add(ad.mul(X[0], Y[0]), ad.mul(X[1], Y[1]))]
        elif o == 'sqn':
            w = [ad.add(ad.mul(X[0], X[0]), ad.mul(X[1], X[1]))]
        else:
            g = {'add': lambda p, q: ad.add(p, q), 'sub': lambda p, q: ad.sub(p, q), 'neg': lambda p, q: ad.neg(p),
                 'mulr': lambda p, q: ad.mul(p, s_), 'mull': lambda p, q: ad.mul(p, s_),
                 'div': lambda p, q: ad.div(p, s_),
                 'chain': lambda p, q: ad.sub(ad.mul(ad.add(p, q), s_), p)}[o]
            w = [g(p, q) for p, q in zip(X, Y)]
        b.equal_leaves('acts on every component', '%s %s' % (pt, op), f, r, sum([flat_(z) for z in w], []))


def make(c):
    for n in (1, 2, 3):
        b = Bench(c, 'point')
        f = b.p.find('make%d' % n)
        xs = [P.of(b.real('x%d' % i)) for i in range(n)]
        r = b.it.rv(b.call(f, None, list(xs)))
        b.equal_leaves('components in the given order', 'Point<%d,double>(...)' % n, f, r, xs)
    b = Bench(c, 'point')
    f = b.p.find('mixdot')
    x, xs = b.point('Point<3,float>', 'x')
    y, ys = b.point('Point<3,double>', 'y')
    b.it.rounding = True
    r = b.it.rv(b.call(f, None, [x, y]))
    b.equal('inner product of mixed component types', 'Point<3,float> * Point<3,double>', f, r,
            sum([p * q for p, q in zip(xs, ys)], S.ZERO))


# ------------------------------------------------------------ integer power --
def ipow(c, ty):
    b = Bench(c, 'point')
    it = b.it
    it.rounding = True
    f = b.p.find('ipow', rec='Powers<%s>' % ty)
    base, e = Sym('base', 'int', 0 if ty in ('uint', 'size_t') else None, None), Sym('exponent', 'int', 0, None)
    calls = []

    def pred(p, g):
        return g['short'] == 'IntPower' and len(g['params']) == 2

    def hook(it2, g, this, args, loc):
        if not any(fr.fun is g for fr in it2.frames):
            return NotImplemented
        x, y = (it2.rv(a) for a in args)
        dec = c_and(ge0(y), ge0(P.of(e) - y - 1))
        w = sat(c_and(it2.guard_here(), c_not(dec)), sizemax=9)
        calls.append((y, w, loc))
        return power(x, y)
    it.hooks.insert(0, (pred, hook))
    r = it.rv(b.call(f, None, [P.of(base), P.of(e)]))
    g = b.p.find('IntPower', many=True)
    g = [h for h in g if b.p.shortty(b.p.strip(h['params'][0]['type'])) == ty][0]
    con = 'IntPower<%s>' % ty
    b.equal('base to the power (induction over the recursive calls)', con, g, r, power(P.of(base), P.of(e)), sizemax=40,
            tries=120)
    for y, w, loc in calls:
        if w is not None and w != 'unk':
            c.add('the exponent of a recursive call is smaller', con, loc, 'violated', '%r for %s' % (y, w))
        else:
            c.add('the exponent of a recursive call is smaller', con, loc, 'undecided' if w else 'holds', repr(y))
    b.clean('no error on non-negative exponents', con, g)


# --------------------------------------------------------------- index sort --
def isort(c, ty):
    b = Bench(c, 'point')
    it = b.it
    f = b.p.find('sorted', rec='Sorts<%s>' % ty)
    g = [h for h in b.p.find('IndexListSort', many=True)
         if b.p.shortty(b.p.strip(h['params'][0]['type'])) == 'vector<%s>' % ty][0]
    con = 'IndexListSort<%s>' % ty
    ety = b.typeof(ty)
    n = b.size('n', 0)
    q = Sym('q', 'int', 0, None)
    vt = b.p.strip(f['params'][0]['type'])
    srt = 'int' if ty in ('int', 'size_t', 'long') else 'real'

    def val(i):
        return fn('arr', ('v', 0, i), srt)
    v = it.new(VecV(P.of(n), Cnt(('lam', q, val(P.of(q)))), ety), vt, 'v')
    sorts = []

    def sorter(stable):
        def h(e):
            a = [it.rv(it.ev(x)) for x in e['a']]
            lo, hi = a[0], a[1]
            if not isinstance(lo, IterV) or not isinstance(hi, IterV) or lo.ref != hi.ref:
                raise Unsup('sort range')
            old = it.load(lo.ref)
            i1, i2 = Sym('i1', 'int', 0, P.of(n) - 1), Sym('i2', 'int', 0, P.of(n) - 1)
            if len(a) > 2:
                if not isinstance(a[2], Clo):
                    raise Unsup('comparison object')
                it.pending_env = a[2].env
                less = it.rv(it.call(it.p.funs[a[2].f], a[2].this, [P.of(i1), P.of(i2)], it.p.loc(e)))
                less = less if isinstance(less, Cond) else p2c(less)
            else:
                less = gt0(P.of(i2) - P.of(i1))
            sorts.append(dict(stable=stable, lo=lo.idx, hi=hi.idx, old=old, less=less, i1=i1, i2=i2, loc=it.p.loc(e),
                              guard=it.guard_here()))
            z = Sym('z', 'int', 0, None)
            it.store(lo.ref, VecV(old.ln, Cnt(('lam', z, fn('arr', ('perm%d' % len(sorts), 0, P.of(z)), 'int'))), old.ety))
            return None
        return h
    it.s_stable_sort, it.s_sort = sorter(True), sorter(False)
    b.start()
    r = it.rv(b.call(f, None, [v]))
    w = b.where(g)
    b.equal('one index per entry', con, g, r.ln, P.of(n))
    if len(sorts) != 1:
        c.add('indices are sorted by the values', con, w, 'undecided', '%d calls of a standard sort' % len(sorts))
        return
    s = sorts[0]
    b.equal('the whole list is sorted', con, s['loc'], s['hi'] - s['lo'], P.of(n))
    b.equal('the sort is always executed', con, s['loc'], ite(s['guard'], S.ONE, S.ZERO), S.ONE, [ge0(P.of(n) - 2)])
    t = Sym('t', 'int', 0, P.of(n) - 1)
    b.equal('the list starts as 0, 1, 2, ...', con, g, tleaves(cread(s['old'].c, P.of(t)))[0], P.of(t))
    i1, i2 = P.of(s['i1']), P.of(s['i2'])
    d = val(i2) - val(i1)
    rule = 'ordering = strict order of the values, ties in index order'
    apart = [c_not(eq0(i1 - i2))]
    less = ite(s['less'], S.ONE, S.ZERO)
    if s['stable']:
        # a tie may be left to the stable sort or broken by the index
        v1 = compare(less, ite(gt0(d), S.ONE, S.ZERO), apart, seed=1, sizemax=5, tries=80)
        v2 = compare(less, ite(c_or(gt0(d), c_and(eq0(d), gt0(i2 - i1))), S.ONE, S.ZERO), apart, seed=1, sizemax=5, tries=80)
        bad = v1 if v2.k == 'differs' else v2
        if 'differs' in (v1.k, v2.k) and not (v1.k == 'differs' and v2.k == 'differs'):
            bad = v2 if v1.k == 'differs' else v1
    else:
        bad = compare(less, ite(c_or(gt0(d), c_and(eq0(d), gt0(i2 - i1))), S.ONE, S.ZERO), apart, seed=1, sizemax=5, tries=80)
    k = {'proved': 'holds', 'tested': 'holds', 'differs': 'violated', 'unknown': 'undecided'}[bad.k]
    c.add(rule, con, s['loc'], k, '%s sort with ordering %s; %s' % ('stable' if s['stable'] else 'unstable',
                                                                   short(s['less']), bad.info if k != 'holds' else ''))
    z = Sym('t', 'int', 0, P.of(n) - 1)
    b.equal('the sorted list is returned', con, g, tleaves(cread(r.c, P.of(z)))[0],
            fn('arr', ('perm1', 0, P.of(z)), 'int'))


def cases(ctx):
    out = [('Point<%d>' % n, lambda c, n=n: pts(c, n)) for n in (1, 2, 3, 4, 7)]
    out.append(('points of numbers', adpts))
    out.append(('construction', make))
    out += [('IntPower %s' % t, lambda c, t=t: ipow(c, t)) for t in ('int', 'uint', 'long', 'size_t')]
    out += [('IndexListSort %s' % t, lambda c, t=t: isort(c, t)) for t in ('double', 'int')]
    return out
