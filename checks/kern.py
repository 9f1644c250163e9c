"""Shared parts of the checks that compare closed forms derived from the source
with the mathematical definition."""
import itertools
import random
import re
import time
from fractions import Fraction
import interp
from spl import *
import sym as S
from sym import compare, Valuation, Bad, has_unk

RECS = {'poly': 'poly', 'rat': 'rational'}


def polyname(dim, pt='double', sc='double'):
    return 'BezierSpline<%d,%s,%s>' % (dim, pt, sc)


def ratname(dim, pt='double', sc='double'):
    return 'RationalBezierSpline<%d,%s,%s>' % (dim, pt, sc)


def ncomp(pt):
    return int(pt[6:pt.index(',')]) if pt.startswith('Point<') else 1


# point types besides the common ones, by parametric dimension
EXTRA = {1: ('Point<1,double>',), 2: ('Point<4,double>',), 3: ()}
POINTS = {1: 'Point<1,double>', 2: 'Point<2,double>', 3: 'Point<3,double>'}


def sat(cond, assume=(), tries=60, seed=1, sizemax=3, most=None):
    """witness valuation of cond, None when none was found, 'unk' if unmodelled"""
    if cond.k == 'false':
        return None
    unk = any(has_unk(c) for c in (cond,) + tuple(assume))
    rng = random.Random(seed)
    for n in range(tries * 8):
        v = Valuation(rng, sizemax if n % 3 else 1)
        try:
            if all(v.cond(q) for q in assume) and v.cond(cond):
                return {k.name: str(x) for k, x in v.env.items() if k.k == 'sym'}
        except (Bad, ZeroDivisionError, OverflowError):
            continue
    from sym import basic_conds, boundaries
    for t in boundaries(ite(cond, S.ONE, S.ZERO), *[ite(q, S.ONE, S.ZERO) for q in assume]):
        for n in range(4):
            v = Valuation(rng, 2)
            try:
                v.aim(*t)
                if all(v.cond(q) for q in assume) and v.cond(cond):
                    return {k.name: str(x) for k, x in v.env.items() if k.k == 'sym'}
            except (Bad, ZeroDivisionError, OverflowError):
                continue
    t0 = time.time()
    for n in range(tries * 8):          # larger sizes, ends of ranges
        if time.time() - t0 > 1.5:
            break
        v = Valuation(rng, (10, 40, 300)[n % 3] if most is None else most)
        v.edge = True
        try:
            if all(v.cond(q) for q in assume) and v.cond(cond):
                return {k.name: str(x) for k, x in v.env.items() if k.k == 'sym'}
        except (Bad, ZeroDivisionError, OverflowError, RecursionError):
            continue
    return 'unk' if unk else None


WIDE = (0, 1, 2, 3, 8, 16, 20, 29, 64, 127, 128, 200, 255, 256, 257, 300, 512, 1000, 32768, 65535, 65536, 70000)


def widesat(cond, assume=(), tries=400, seed=1, time=6.0, most=None):
    """witness among large sizes"""
    import time as T
    rng = random.Random(seed)
    syms = []
    for c in (cond,) + tuple(assume):
        for a in S.all_atoms(c):
            if a.k == 'sym' and a.sort == 'int' and a not in syms:
                syms.append(a)
    t0 = T.time()
    for n in range(tries):
        if T.time() - t0 > time:
            break
        v = Valuation(rng, 2)
        try:
            for s in syms:
                if most:
                    w = rng.randint(most // 2 if n % 2 else 0, most)
                elif n < len(WIDE):
                    w = WIDE[n]
                elif n % 2:
                    w = rng.choice(WIDE[:9])
                else:
                    w = rng.choice(WIDE)
                if (s.lo is None or v.ev(s.lo) <= w) and (s.hi is None or v.ev(s.hi) >= w):
                    v.env.setdefault(s, Fraction(w))
            if all(v.cond(q) for q in assume) and v.cond(cond):
                return {k.name: str(x) for k, x in v.env.items() if k.k == 'sym' and k.sort == 'int'}
        except (Bad, ZeroDivisionError, OverflowError, RecursionError):
            continue
    return None


def lossy(it, assume=(), seed=1):
    """values that do not fit the 8 or 16 bit integer they are kept in, on inputs no assertion rejects"""
    bad, seen = [], set()
    stops = []
    for o in it.obs:
        if o['kind'] == 'assert' and not o['ok']:
            c = c_or(*[c_not(f) for f in o['facts']], o['cond'])
            if not has_unk(c):
                stops.append(c)
    for o in it.obs:
        if o['kind'] not in ('narrow', 'wide') or o['ok'] or o['loc'] in seen:
            continue
        g = c_and(*o['facts'], c_not(o['cond']))
        if has_unk(g):
            continue
        if o['kind'] == 'wide':
            # products and binomials: at sizes any table of the library covers
            w = widesat(g, tuple(assume) + tuple(stops), 60, seed, 2.0, 14)
        else:
            w = widesat(g, tuple(assume) + tuple(stops), seed=seed)
        if w is not None:
            seen.add(o['loc'])
            bad.append('%s loses its value at %s, e.g. for %s' % (o['what'], o['loc'], w))
    return bad


def obligations(b, con, rule, assume=(), ints=True):
    """every recorded index obligation; a violation needs a witness"""
    for w in lossy(b.it, tuple(b.assume) + tuple(assume), b.case.ctx.seed) if ints else ():
        b.case.add('integers keep their value', con, w.split(' at ')[1].split(',')[0], 'violated', w)
    by = {}
    for o in b.it.obs:
        if o['kind'] == 'bounds':
            by.setdefault(o['loc'], []).append(o)
    for loc, os_ in sorted(by.items()):
        bad = None
        for o in os_:
            if o['ok']:
                continue
            g = c_and(*o['facts'], c_not(o['cond']))
            w = sat(g, tuple(b.assume) + tuple(assume), seed=b.case.ctx.seed, sizemax=7)
            if w and (bad is None or w != 'unk'):
                bad = (w, o)
        if bad is None:
            b.case.add(rule, '%s at %s' % (con, loc), loc, 'holds', '%d accesses' % len(os_))
        elif bad[0] == 'unk':
            b.case.add(rule, '%s at %s' % (con, loc), loc, 'undecided', bad[1]['what'])
        else:
            b.case.add(rule, '%s at %s' % (con, loc), loc, 'violated', '%s, for %s' % (bad[1]['what'], bad[0]))


def refill(it, k, r, fresh, ns, getters):
    """new degrees and contents for an object, by the library's own operations"""
    p = it.p
    f = p.find('UpdateDegrees', rec=k.rec)
    t = p.strip(f['params'][0]['type'])
    if not same(degrees(it, k, r), degrees(it, k, fresh)):
        it.call(f, r, [it.new(ArrV([P.of(n) - 1 for n in ns]), t, 'deg')])
    for g in getters:
        fs = {bool(h.get('cst')): h for h in p.find(g, rec=k.rec, many=True)}
        to = it.call(fs[False], r, [])
        it.store(to, it.rv(it.call(fs[True], fresh, [])))
    return r


def same(a, b):
    """one value, as far as the normal form tells"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (P, Cond)):
        return a == b
    if isinstance(a, Obj):
        return set(a.f) == set(b.f) and all(same(a.f[x], b.f[x]) for x in a.f)
    if isinstance(a, ArrV):
        return len(a.e) == len(b.e) and all(same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, VecV):
        if a.ln != b.ln:
            return False
        if a.c is b.c or a.ln == S.ZERO:
            return True
        try:
            t = P.of(Sym('t', 'int', S.ZERO, a.ln - 1))
            return same(cread(a.c, t), cread(b.c, t))
        except Unsup:
            return False
    return False


_PLAIN = {}


def plain(p, k, dim, getters):
    """an object of the class is determined by its degrees and contents, whatever happened to it before"""
    key = (id(p), k.r)
    if key not in _PLAIN:
        _PLAIN[key] = True
        recs, todo = set(), [k.r]
        while todo:
            r = todo.pop()
            if r in recs or r is None:
                continue
            recs.add(r)
            for f in p.recs[r].get('fields', []):
                if f.get('mutable'):
                    _PLAIN[key] = False
                t = p.types[p.strip(f['type'])]
                if t['k'] == 'rec':
                    todo.append(t['rec'])
        if _PLAIN[key]:
            keep = (interp.OPERANDS, interp.RESULTS, interp.SIZES, interp.NSIZE)
            interp.OPERANDS, interp.RESULTS, interp.SIZES, interp.NSIZE = [], None, [], 0
            try:
                c = Nothing(p)
                b = Bench(c, None)
                xs = ncoef(dim, 'x')
                kk, x = build(b, k, dim, 'X', xs)
                for ns in (ncoef(dim, 'n'), xs):
                    _, y = build(b, k, dim, 'A', ns)
                    refill(b.it, kk, x, y, ns, getters)
                    _PLAIN[key] = _PLAIN[key] and same(b.it.load(x), b.it.load(y))
                    _, x = build(b, k, dim, 'X', xs)
            except (Unsup, NoFun, KeyError, DeadCode):
                pass
            finally:
                interp.OPERANDS, interp.RESULTS, interp.SIZES, interp.NSIZE = keep
    return _PLAIN[key]


class Nothing:
    """a case that collects nothing"""

    def __init__(self, p):
        self.p = p
        self.ctx = self
        self.seed = 1
        self.funs = set()

    def prog(self, *_):
        return self.p

    def add(self, *_):
        pass


def build(b, k, dim, name, ns):
    pt, sc = re.match(r'.*BezierSpline<\d+,(.*),(\w+|AlgoDiff.*)>$', k.rec).groups()
    b.plain = True
    try:
        if k.rec.startswith('Rational'):
            interp_k, r, _ = make_rat(b, dim, pt, name, name + 'w', ns, sc=sc)
        else:
            interp_k, r, _ = b.poly(dim, pt, name, ns, sc)
    finally:
        b.plain = False
    return interp_k, r


def left(sizes):
    """the operands as the calls of the case left them, over other inputs (of other sizes); None when
    the past cannot matter"""
    out, any_ = [], False
    for b, k, r, ns, getters in interp.OPERANDS:
        v = b.it.st.get(r.cell) if not r.path else None
        if v is None or plain(b.p, k, len(ns), getters):
            out.append(None)
            continue
        memo = {}
        out.append(tmap(lambda x: S.earlier(x, memo, sizes), v))
        any_ = True
    return out if any_ else None


def differs(c):
    """results that do not behave like a spline constructed from their degrees and control points"""
    seen = []
    for it, k, v in list(interp.RESULTS):
        if not isinstance(v, Obj) or any(v is w for w in seen):
            continue
        seen.append(v)
        p = it.p
        try:
            f = k.ctor(lambda ps: len(ps) == 2 and ps[1].startswith('vector<'))
            r = it.new(v, k.t, 'result')
            x = it.new(it.zero(k.t, True), k.t, 'fresh')
            rec, it.record = it.record, False
            CTX.reset(0)
            keep, interp.RESULTS = interp.RESULTS, None
            try:
                dg = degrees(it, k, r)
                it.call(f, x, [it.new(dg, p.strip(f['params'][0]['type']), 'deg'),
                               it.new(points(it, k, r), p.strip(f['params'][1]['type']), 'pts')])
                if same(it.load(x), v):
                    continue
                us = [P.of(Sym('u%d' % i, 'real', S.ZERO, S.ONE)) for i in range(len(dg.e))]
                for e in p.find('Evaluate', rec=k.rec, many=True) + p.find('ForwardEvaluate', rec=k.rec, many=True):
                    ts = [p.strip(q['type']) for q in e['params']]
                    ps = [p.shortty(t) for t in ts]
                    if len(ps) == 1 and ps[0].startswith('Point<'):
                        u = [it.new(tbuild(it.zero(ts[0]), iter(us)), ts[0], 'u')]
                    elif len(ps) == len(us) and all(p.types[t]['k'] != 'rec' for t in ts):
                        u = [it.new(x_, t, 'u') for x_, t in zip(us, ts)]
                    else:
                        continue
                    a, b = (tleaves(it.rv(it.call(e, o, u))) for o in (r, x))
                    for s, w in zip(a, b):
                        if has_unk(s) or has_unk(w):
                            continue
                        q = compare(s, w)
                        if q.k == 'differs':
                            c.add('a result is a spline of its degrees and control points',
                                  '%s in %s' % (k.rec, c.name), p.loc(e), 'violated',
                                  'evaluates differently from a spline constructed from the same data: %s' % (q,))
                            return
            finally:
                it.record = rec
                interp.RESULTS = keep
        except (Unsup, NoFun, DeadCode):
            continue


class Bench:
    """one abstract run of a library operation on symbolic operands"""

    def __init__(self, case, probe, flags=(), hooks=()):
        self.case = case
        self.p = case.ctx.prog(probe, flags)
        self.it = new_interp(self.p, hooks)
        self.assume = []
        self.ncmp = 0
        self.weights = ('W', 'V')
        self.wants = []
        self.open = False       # bounds of the operands belong to their range
        self.plain = False

    def kit(self, rec):
        return Kit(self.it, rec)

    def poly(self, dim, pt='double', name='A', ns=None, sc='double'):
        k = self.kit(polyname(dim, pt, sc))
        r, ns = make_poly(self.it, k, dim, name, ns)
        if not self.plain:
            r = self.taken(k, r, ns, ('GetControlPoints',))
        return k, r, ns

    def taken(self, k, r, ns, getters):
        """the operand, or an object with another past that was given the same contents"""
        i = len(interp.OPERANDS)
        if interp.REUSED is not None and i < len(interp.REUSED):
            old = interp.REUSED[i]
            if isinstance(old, Obj) and old.rec == self.it.load(r).rec:
                r = refill(self.it, k, self.it.new(old, k.t, 'reused'), r, ns, getters)
        interp.OPERANDS.append((self, k, r, ns, getters))
        return r

    def start(self):
        """operands are complete: forget what their construction recorded"""
        self.it.obs, self.it.events, self.it.notes = [], [], []

    def real(self, name, lo=None, hi=None):
        return Sym(name, 'real', lo, hi)

    def size(self, name, lo=0, hi=None):
        return interp.size(name, lo, hi)

    def where(self, f):
        l = self.p.loc(f)
        if not l.startswith('src/'):
            # a wrapper of the probe: the first library function it reaches
            for i in self.it.entered:
                m = self.p.loc(self.p.funs[i])
                if m.startswith('src/'):
                    return m
        return l

    def point(self, pt, name):
        """symbolic point, as a reference to a fresh object"""
        it = self.it
        t = self.typeof(pt)
        z = it.zero(t)
        ls = [P.of(Sym('%s%d' % (name, i), 'real')) for i in range(len(tleaves(z)))]
        return it.new(tbuild(z, iter(ls)), t, name), ls

    def typeof(self, shortname):
        for i, t in enumerate(self.p.types):
            if t['k'] == 'rec' and not t.get('const') and self.p.shortty(i) == shortname:
                return i
        for i, t in enumerate(self.p.types):
            if t['k'] not in ('ref', 'rref', 'ptr') and not t.get('const') \
                    and self.p.shortty(i) == shortname:
                return i
        for i, t in enumerate(self.p.types):
            if t['k'] not in ('ref', 'rref', 'ptr') and self.p.shortty(i).replace('const ', '') == shortname:
                return i
        raise NoFun('type ' + shortname)

    def param(self, kit, name, idx, xs, **kw):
        """array/vector-like argument of the type of parameter idx of a function"""
        f = self.p.find(name, rec=kit.rec, **kw)
        t = self.p.strip(f['params'][idx]['type'])
        return self.it.new(ArrV([P.of(x) for x in xs]), t, 'arg')

    def coords(self, kit, us):
        """point of parametric coordinates"""
        it = self.it
        t = self.typeof('Point<%d,double>' % len(us))
        z = it.zero(t)
        return it.new(tbuild(z, iter([P.of(u) for u in us])), t, 'u')

    def call(self, f, this, args, loc='?'):
        for x in (f,):
            self.case.funs.add('%s (%s)' % (x['name'], self.p.loc(x)))
        try:
            self.it.entered = []
            r = self.it.call(f, this, args, loc)
        except DeadCode:
            self.dead(f)
            raise
        finally:
            for i in self.it.analysed:
                g = self.p.funs[i]
                if g.get('lib'):
                    self.case.funs.add('%s (%s)' % (g['name'], self.p.loc(g)))
            self.case.count('loops summarised', self.it.loopstat.get('summarised', 0))
            self.case.count('loops unrolled (constant trip count)', self.it.loopstat.get('unrolled', 0))
            self.it.loopstat = dict.fromkeys(self.it.loopstat, 0)
        return r

    def dead(self, f):
        """the call never returns: definite when an error or assertion is reached"""
        rule = 'returns on valid input'
        why = []
        for e in self.it.events:
            if e['kind'] in ('throw', 'diverge'):
                w = sat(e['guard'], tuple(self.assume), seed=self.case.ctx.seed)
                if w is not None and w != 'unk':
                    why.append('%s at %s, e.g. for %s' % (
                        'error raised' if e['kind'] == 'throw' else 'loop never ends', e['loc'], w))
        why += self.failing()[0]
        if why:
            self.case.add(rule, f['name'], self.where(f), 'violated', '; '.join(why[:3]))

    def failing(self, assume=()):
        """assertions of the library that fire on the analysed input"""
        bad, unk, n, seen = [], [], 0, set()
        for o in self.it.obs:
            if o['kind'] != 'assert':
                continue
            n += 1
            if o['ok']:
                continue
            g = c_and(*o['facts'], c_not(o['cond']))
            if (o['loc'], g) in seen:
                continue
            seen.add((o['loc'], g))
            # sizes small enough for every table the library has
            small = [ge0(6 - P.of(a)) for a in S.all_atoms(g)
                     if a.k == 'sym' and a.sort == 'int' and a.hi is None]
            w = sat(g, tuple(self.assume) + tuple(assume) + tuple(small), seed=self.case.ctx.seed)
            if w == 'unk':
                unk.append('assertion at ' + o['loc'])
            elif w is not None:
                bad.append('assertion at %s fails, e.g. for %s' % (o['loc'], w))
        return bad, unk, n

    # ------------------------------------------------------- obligations ---
    def equal(self, rule, construct, f, got, want, assume=(), mp=None, tries=40, tol=1e-12, pool=None,
              sizemax=4, **kw):
        """closed form of the code == closed form of the definition"""
        if isinstance(got, Cond) or isinstance(want, Cond):
            got, want = c2p(got), c2p(want)
        self.wants.append(want)
        v = compare(got, want, tuple(self.assume) + tuple(assume), mp=mp, tries=tries,
                    seed=self.case.ctx.seed, tol=tol, pool=pool, sizemax=sizemax, **kw)
        k = {'proved': 'holds', 'tested': 'holds', 'differs': 'violated',
             'unknown': 'undecided'}[v.k]
        if k == 'violated':
            d = 'derived value %s differs from the definition: %s' % (short(got), v.info)
        elif k == 'holds':
            d = 'same normal form' if v.k == 'proved' else 'identity of the closed forms tested at %s points' % v.info
        else:
            d = '%s; %s' % (v.info, self.why())
        self.case.add(rule, construct, self.where(f) if isinstance(f, dict) else f, k, d)
        return k

    def why(self):
        return '; '.join('%s %s' % n for n in self.it.notes[:4])

    def undefined(self, assume=()):
        """real divisions whose divisor vanishes for an admissible value of one operand;
        weights and weight functions are not zero"""
        bad, seen = [], set()
        rng = random.Random(self.case.ctx.seed)
        pre = tuple(self.assume) + tuple(assume)
        for o in self.it.obs:
            if o['kind'] != 'rdiv' or o['loc'] in seen or has_unk(o['div']):
                continue
            g = o['facts']
            for a in S.all_atoms(o['div']):
                if not (a.k == 'sym' and a.sort == 'real' or a.k == 'fn' and a.name in ('arr', 'val')
                        and a.args[0] not in self.weights):
                    continue
                for n in range(24):
                    v = Valuation(rng, 2)
                    try:
                        if self.open and (a.k != 'sym' or a.lo == P.of(n % 2) or a.hi == P.of(n % 2)):
                            continue
                        v.aim(a, P.of(n % 2))
                        if all(v.cond(q) for q in pre) and v.ev(o['div']) == 0 and all(v.cond(q) for q in g):
                            for w in self.wants:
                                v.ev(w)
                            seen.add(o['loc'])
                            bad.append('division by zero at %s when %s = %d' % (o['loc'], short(P.of(a), 80), n % 2))
                            break
                    except (Bad, ZeroDivisionError, OverflowError):
                        continue
                if o['loc'] in seen:
                    break
        return bad

    def clean(self, rule, construct, f, assume=()):
        """no error is raised and no loop fails to terminate on valid input"""
        bad, unk = [], []
        for e in self.it.events:
            if e['kind'] not in ('throw', 'diverge'):
                continue
            w = sat(e['guard'], tuple(self.assume) + tuple(assume), seed=self.case.ctx.seed)
            if w == 'unk':
                unk.append('%s at %s' % (e['kind'], e['loc']))
            elif w is not None:
                bad.append('%s at %s, e.g. for %s' % (
                    'error raised' if e['kind'] == 'throw' else 'loop never ends', e['loc'], w))
        wh = self.where(f) if isinstance(f, dict) else f
        x, y, n = self.failing(assume)
        bad, unk = bad + x + lossy(self.it, tuple(self.assume) + tuple(assume), self.case.ctx.seed) + self.undefined(assume), unk + y
        if bad:
            self.case.add(rule, construct, wh, 'violated', '; '.join(bad[:3]))
        elif unk:
            self.case.add(rule, construct, wh, 'undecided', '; '.join(unk[:3]))
        else:
            self.case.add(rule, construct, wh, 'holds', '%d error paths, %d assertions' % (len(self.it.events), n))

    def equal_leaves(self, rule, construct, f, got, wants, assume=(), **kw):
        ls = tleaves(got)
        if len(ls) != len(wants):
            self.case.add(rule, construct, self.where(f), 'violated', 'shape of the result')
            return
        for i, (g, w) in enumerate(zip(ls, wants)):
            c = construct if len(ls) == 1 else '%s component %d' % (construct, i)
            self.equal(rule, c, f, g, w, assume, **kw)


def short(x, n=int(__import__("os").environ.get("BZ_SHORT","300"))):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ----------------------------------------------------------- definitions ----
def bernstein(deg, i, u):
    deg, i, u = P.of(deg), P.of(i), P.of(u)
    return binom(deg, i) * power(u, i) * power(1 - u, deg - i)


def idx_syms(ns, base='j'):
    return [Sym('%s%d' % (base, d), 'int', 0, P.of(n) - 1) for d, n in enumerate(ns)]


def flat(ns, js):
    r = S.ZERO
    for o, j in zip(offsets(ns), js):
        r = r + o * P.of(j)
    return r


def sum_over(js, body):
    for j in reversed(js):
        body = Sum(j, j.lo, j.hi, body)
    return body


def value(ns, us, coef):
    """sum over the control net of Bernstein products times coef(multi-index)"""
    js = idx_syms(ns, 's')
    b = S.ONE
    for n, j, u in zip(ns, js, us):
        b = b * bernstein(P.of(n) - 1, j, u)
    return sum_over(js, b * coef(js))


def coef_of(vec, ns, comp=None):
    """coef function reading contents derived from the code"""
    def f(js):
        t = cread(vec.c, flat(ns, js))
        return tleaves(t)[comp or 0]
    return f


def at(vec, idx):
    return tleaves(cread(vec.c, P.of(idx)))


def zeros(n):
    return [S.ZERO] * n


def falling(n, o):
    """n (n-1) ... (n-o+1)"""
    q = Sym('q', 'int', 0, P.of(o) - 1)
    return S.Reduce('prod', q, S.ZERO, P.of(o) - 1, P.of(n) - P.of(q))


def dbernstein(deg, i, u, o):
    """o-th derivative of the Bernstein polynomial in the monomial basis"""
    deg, i, u, o = P.of(deg), P.of(i), P.of(u), P.of(o)
    m = Sym('m', 'int', fmax(i, o), deg)
    t = signpow(P.of(m) - i) * binom(deg, P.of(m)) * binom(P.of(m), i) * falling(P.of(m), o) \
        * power(u, P.of(m) - o)
    return Sum(m, fmax(i, o), deg, t)


def order_cases(dim):
    """families of (n, order): order 0, between 1 and the degree, above it"""
    out = []

    def fam(d, kind):
        if kind == '0':
            return P.of(Sym('n%d' % d, 'int', 1, None)), S.ZERO
        if kind == 'in':
            o = P.of(Sym('o%d' % d, 'int', 1, None))
            return o + P.of(Sym('r%d' % d, 'int', 1, None)), o
        n = P.of(Sym('n%d' % d, 'int', 1, None))
        return n, n + P.of(Sym('e%d' % d, 'int', 0, None))
    for ks in itertools.product(('0', 'in', 'above'), repeat=dim):
        out.append((ks, [fam(d, k) for d, k in enumerate(ks)]))
    return out


def lemmas(ctx, *pids):
    """cases of the operations a check relies on by contract"""
    import importlib
    out = []
    for p in pids:
        if p == 'binomials':
            m = importlib.import_module('p25')
            out.append(('binomials: choose', lambda c, m=m: m.chooser(c, [None])))
            out.append(('binomials: guard', m.guard))
            continue
        m = importlib.import_module(p)
        out += [('%s: %s' % (p.upper(), n), f) for n, f in m.cases(ctx) if not n.startswith(('binomials: ', 'P1', 'P0'))]
    return out
