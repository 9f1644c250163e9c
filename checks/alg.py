"""Spline algebra: polynomial splines as abstract functions.

The operations of the polynomial spline that have a check of their own (product,
sum, evaluation, derivative, elevation, splitting, composition) are replaced by
their contract; the operations built on top of them are then interpreted over
functions instead of control points.  A spline is denoted by what its control
points are linear in: a container whose entry t is  sum c_k * X_k[t]  (c_k free of
t, X_k the control points of splines of the same degrees) denotes the function
sum c_k * X_k(u)."""
import re
from kern import *
import sym as S


class NoDen(Exception):
    pass


# --------------------------------------------------------- scalar functions ---
class Fun:
    """scalar function of the parametric coordinates"""

    def val(self, us, k):
        raise NotImplementedError


class Base(Fun):
    def __init__(self, name, comp):
        self.name, self.comp = name, comp

    def val(self, us, k):
        return fn('val', (self.name, self.comp) + tuple(P.of(x) for x in k) + tuple(us))


class Const(Fun):
    def __init__(self, c):
        self.c = c

    def val(self, us, k):
        g = c_and(*[eq0(P.of(x)) for x in k])
        return ite(g, self.c, S.ZERO)


class Lin(Fun):
    def __init__(self, terms):
        self.terms = terms

    def val(self, us, k):
        r = S.ZERO
        for c, f in self.terms:
            r = r + c * f.val(us, k)
        return r


class Gate(Fun):
    def __init__(self, c, f, g):
        self.c, self.f, self.g = c, f, g

    def val(self, us, k):
        return ite(self.c, self.f.val(us, k), self.g.val(us, k))


def ints(k):
    out = []
    for x in k:
        i = P.of(x).as_int()
        if i is None:
            raise NoDen('symbolic order of a compound function')
        out.append(i)
    return out


class Prod(Fun):
    def __init__(self, f, g):
        self.f, self.g = f, g

    def val(self, us, k):
        import math
        k = ints(k)
        r = S.ZERO
        for js in itertools.product(*[range(x + 1) for x in k]):
            w = 1
            for x, j in zip(k, js):
                w *= math.comb(x, j)
            r = r + P.of(w) * self.f.val(us, js) * self.g.val(us, [x - j for x, j in zip(k, js)])
        return r


class Affine(Fun):
    """f with coordinate d replaced by a + s*u_d"""

    def __init__(self, f, d, a, s):
        self.f, self.d, self.a, self.s = f, d, a, s

    def val(self, us, k):
        us = list(us)
        us[self.d] = self.a + self.s * us[self.d]
        return power(self.s, P.of(k[self.d])) * self.f.val(us, k)


class Diff(Fun):
    def __init__(self, f, o):
        self.f, self.o = f, o

    def val(self, us, k):
        return self.f.val(us, [P.of(x) + P.of(y) for x, y in zip(k, self.o)])


class Comp(Fun):
    """f at inner functions (given as callables of the coordinates)"""

    def __init__(self, f, inner, dim):
        self.f, self.inner, self.dim = f, inner, dim

    def val(self, us, k):
        if any(ints(k)):
            raise NoDen('derivative of a composition')
        return self.f.val([g(us) for g in self.inner], [0] * self.dim)


class Sub(Fun):
    """f with integer symbols replaced"""

    def __init__(self, f, env):
        self.f, self.env = f, env

    def val(self, us, k):
        zs = [Sym('z%d' % i, 'real') for i in range(len(us))]
        env = dict(self.env)
        env.update(zip(zs, us))
        return subst(self.f.val([P.of(z) for z in zs], k), env)


class Span(Fun):
    """sum of Bernstein products times explicit control points"""

    def __init__(self, alg, entry, t, ns):
        self.alg, self.entry, self.t, self.ns = alg, entry, t, ns

    def val(self, us, k):
        N = prod(self.ns)
        q = Sym('sp', 'int', S.ZERO, N - 1)
        e = subst(self.entry, {self.t: P.of(q)})
        return Sum(q, S.ZERO, N - 1, self.alg.basis(P.of(q), us, [P.of(x) for x in k], self.ns) * e)


class Opaque(Fun):
    n = 0

    def __init__(self, why):
        Opaque.n += 1
        self.k = '%s#%d' % (why, Opaque.n)

    def val(self, us, k):
        return fn('val', (self.k, 0) + tuple(P.of(x) for x in k) + tuple(us))


class Mul(Fun):
    """general expression of function values, not differentiable"""

    def __init__(self, h):
        self.h = h

    def val(self, us, k):
        if any(ints(k)):
            raise NoDen('derivative of an expression')
        return self.h(us)


# ----------------------------------------------------------------- domain ----
POLYOPS = {'operator*', 'operator+', 'operator-', 'operator+=', 'operator-=', 'operator==', 'Evaluate',
           'ForwardEvaluate', 'EvaluateDerivative', 'DerivativeWRTParametricDimension', 'BasisFunctions',
           'BasisFunctionsDerivatives', 'OrderElevateAlongParametricDimension', 'SplitAtPosition',
           'RaisePower', 'ComposeNumeratorHelper', 'ExtractDimension'}


def isspl(n):
    return n.startswith('BezierSpline<')


def israt(n):
    return n.startswith('RationalBezierSpline<')


class Alg(Bench):
    """abstract run with the polynomial kernels replaced by their contracts"""

    def __init__(self, case, probe, flags=(), raw=()):
        self.raw = set(raw)          # operations analysed in full
        self.mean = {}               # name -> (funs per component, degrees + 1)
        self.used = set()
        self.nn = 0
        hooks = [(self.pred, self.kernel)]
        super().__init__(case, probe, flags, hooks)
        self.fixed = None
        self.elog = None
        self.recursions = []
        self.it.inductive = self.repeated

    # --- loops whose rounds all apply the same elevation to the same spline
    def repeated(self, cond, body, inc, setup):
        it = self.it
        if 'OrderElevateAlongParametricDimension' in self.raw or self.elog is not None:
            return None
        sn = it.snapshot()
        saved = it.record, it.lenient
        it.record = False

        def round_(st):
            """one round from st: what it did, None when it is not one elevation"""
            self.elog = []
            it.st = dict(st)
            try:
                c, rets, thr, alive, extra = it.iteration(cond, body, inc, setup)
            except (Unsup, DeadCode, KeyError):
                return None
            log, self.elog = self.elog, None
            pass
            if rets or thr or extra or not alive or len(log) != 1:
                return None
            ref, d = log[0]
            if any(it.st.get(q) is not st[q] for q in st if q != ref.cell):
                return None
            return c, ref, d
        try:
            r0 = round_(sn[0])
            if r0 is None:
                return None
            c0, ref, d = r0
            it.restore(sn)
            k = Sym('k', 'int', S.ONE, None)
            self.raised(ref, d, P.of(k))
            st = it.st
            r1 = round_(st)
            if r1 is None or r1[1] != ref or r1[2] != d:
                return None
            # the condition at round k, from the state it is evaluated in
            it.restore(sn)
            self.raised(ref, d, P.of(k))
            c = it.raw_cond(cond)
            try:
                T, _ = it.trip(c, k)
            except Unsup:
                return None
            if T.has(k):
                return None
        except NoDen:
            return None
        finally:
            self.elog = None
            it.restore(sn)
            it.record, it.lenient = saved
        z = S.subst(c, {k: S.ZERO})
        if c0.k == 'false' or c0 != z and S.simp(c0) != S.simp(z):
            return None
        if T != S.ZERO:
            self.raised(ref, d, T)
        return True

    def raised(self, ref, d, by):
        f, ns = self.den(ref), self.degs(ref)
        rec = self.kit_of(ref).rec
        ns = [n + (by if i == d else 0) for i, n in enumerate(ns)]
        self.it.store(ref, self.it.load(self.build(rec, f, ns)))

    # --- which functions have a contract here
    def pred(self, p, f):
        if f.get('short') not in POLYOPS or f.get('rec') is None or f['short'] in self.raw \
                and f['short'] != 'RaisePower':
            return False
        rn = p.recname(f['rec'])
        if not isspl(rn):
            return False
        ps = [p.shortty(p.strip(q['type'])) for q in f['params']]
        sh = f['short']
        if sh in ('operator*', 'operator+', 'operator-', 'operator+=', 'operator-=', 'operator=='):
            return len(ps) == 1 and isspl(ps[0])
        if sh in ('Evaluate', 'ForwardEvaluate', 'BasisFunctions'):
            return len(ps) == 1 and ps[0] == 'Point<%s,double>' % rn[13:].split(',')[0]
        if sh == 'SplitAtPosition':
            return not ps[0].startswith('vector<')
        if sh == 'RaisePower':
            return True
        return True

    # --- splines
    def dims(self, rec):
        return int(rec[13:].split(',')[0]) if isspl(rec) else int(rec[21:].split(',')[0])

    def value_type(self, rec):
        """value type in a record name of a spline"""
        s = rec[rec.index('<') + 1:-1]
        d, out, cur = 0, [], ''
        for ch in s:
            if ch == ',' and d == 0:
                out.append(cur)
                cur = ''
                continue
            d += ch == '<'
            d -= ch == '>'
            cur += ch
        return (out + [cur])[1]

    def poly(self, dim, pt='double', name='A', ns=None, sc='double'):
        k, r, ns = super().poly(dim, pt, name, ns, sc)
        self.mean[name] = ([Base(name, i) for i in range(ncomp(pt))], [P.of(n) for n in ns], ())
        return k, r, ns

    def start(self):
        super().start()
        self.fixed = set()
        for v in self.it.st.values():
            for x in dleaves(v):
                self.fixed |= x.free

    def counters(self, funs, ns):
        """integer symbols in a meaning that did not exist when the operands were made"""
        if self.fixed is None:
            return ()
        us = [P.of(Sym('z%d' % i, 'real')) for i in range(len(ns))]
        out = set()
        try:
            for n in ns:
                out |= n.free
            for f in funs:
                out |= f.val(us, [0] * len(ns)).free
        except NoDen:
            pass
        return tuple(sorted((x for x in out - self.fixed if x.sort == 'int'), key=repr))

    def build(self, rec, funs, ns, extra=()):
        """fresh spline object with given meaning; extra: indices the meaning depends on
        (loop counters are found)"""
        self.nn += 1
        name = 'S%d' % self.nn
        k = self.kit(rec)
        ns = [P.of(n) for n in ns]
        extra = tuple(extra) or self.counters(funs, ns)
        self.mean[name] = (funs, ns, extra)
        f = k.ctor(lambda ps: len(ps) == 2 and ps[1].startswith('vector<'))
        it, p = self.it, self.p
        at, vt = p.strip(f['params'][0]['type']), p.strip(f['params'][1]['type'])
        ety = p.recs[p.types[vt]['rec']]['targs'][0]['t']
        rec_, it.record = it.record, False
        try:
            deg = it.new(ArrV([n - 1 for n in ns]), at, 'deg')
            pts = it.new(symbolic_points(it, ety, name, prod(ns), [P.of(x) for x in extra]), vt, 'pts')
            r = it.new(it.zero(k.t, True), k.t, 'spline')
            it.call(f, r, [deg, pts])
        finally:
            it.record = rec_
        return r

    def kit_of(self, ref):
        o = self.it.load(ref)
        return self.kit(self.p.recname(o.rec))

    def degs(self, ref):
        return [P.of(x) + 1 for x in degrees(self.it, self.kit_of(ref), ref).e]

    def same(self, a, b):
        if a == b:
            return True
        v = compare(a, b, tuple(self.assume) + tuple(S.CTX.facts), tries=20)
        return {'proved': True, 'tested': True, 'differs': False}.get(v.k)

    def same_all(self, a, b):
        r = [self.same(x, y) for x, y in zip(a, b)]
        return False if False in r else None if None in r else True

    def den(self, ref):
        """meaning of a spline object: one scalar function per component"""
        k = self.kit_of(ref)
        v = points(self.it, k, ref)
        return self.meaning(self.degs(ref), v.ln, lambda t: tleaves(cread(v.c, P.of(t))))

    def meaning(self, ns, ln, read):
        # a choice between splines of different degrees: decide it first
        for n in ns + [P.of(ln)]:
            for a in S.all_atoms(n):
                if a.k == 'ite':
                    return self.choose(a.args[0], ns, P.of(ln), read)
        # number of entries must fit the degrees
        fit = self.same(P.of(ln), prod(ns))
        if fit is None:
            raise NoDen('number of control points %r' % ln)
        t = Sym('t', 'int', 0, prod(ns) - 1)
        ls = read(t)
        if fit is False:
            return [Opaque('malformed') for _ in ls]
        return [self.linear(l, t, ns) for l in ls]

    def choose(self, c, ns, ln, read):
        out = []
        for truth in (True, False):
            g = c if truth else c_not(c)
            m = S.CTX.mark()
            S.CTX.push(g)
            try:
                if S.simp(g).k == 'false':
                    out.append(None)
                    continue
                r = lambda x: self.resolve(x, c, truth)
                out.append(self.meaning([r(n) for n in ns], r(ln), lambda t: [r(x) for x in read(t)]))
            finally:
                S.CTX.reset(m)
        if out[0] is None or out[1] is None:
            return out[0] or out[1]
        if len(out[0]) != len(out[1]):
            raise NoDen('components')
        return [x if x is y else Gate(c, x, y) for x, y in zip(*out)]

    def resolve(self, x, c, truth):
        """x where c is known to be true or false"""
        env = {a: a.args[1 if truth else 2] for a in S.all_atoms(x) if a.k == 'ite' and a.args[0] == c}
        return S._map(x, env, {}, True, {})

    def explicit(self, p, t, ns):
        """entries that only involve control points of operands"""
        if S.has_unk(p):
            return None
        for a in S.all_atoms(p):
            if a.k == 'fn' and a.name == 'arr' and not self.operand(a.args[0]):
                return None
        return Span(self, p, t, [P.of(n) for n in ns])

    def operand(self, name):
        m = self.mean.get(name)
        return m is None and not re.match(r'S\d+$', str(name)) or m is not None and not m[2] and all(
            isinstance(f, Base) and f.name == name for f in m[0])

    def linear(self, p, t, ns):
        try:
            r = self.linear_(p, t, ns)
        except NoDen:
            r = self.explicit(p, t, ns)
            if r is None:
                raise
            return r
        if any(isinstance(f, Opaque) for f in (c for _, c in r.terms)) if isinstance(r, Lin) else isinstance(r, Opaque):
            return self.explicit(p, t, ns) or r
        return r

    def linear_(self, p, t, ns):
        terms = []
        for m, c in p.t.items():
            coef, f = P({(): c}), None
            for a, e in m:
                if not P.of(a).has(t):
                    coef = coef * P({((a, e),): S.Fraction(1)})
                    continue
                if e != 1 or f is not None:
                    raise NoDen('not linear in the control points: ' + short(p))
                f = self.entry(a, t, ns)
            terms.append((coef, f or Const(S.ONE)))
        return terms[0][1] if len(terms) == 1 and terms[0][0] == 1 else Lin(terms)

    def entry(self, a, t, ns):
        if a.k == 'base':
            return self.linear(a.args[0], t, ns)
        if a.k == 'ite':
            c = a.args[0]
            if any(t in x.free for x in [ite(c, S.ONE, S.ZERO)]):
                raise NoDen('choice depends on the index: ' + repr(c))
            return Gate(c, self.linear(a.args[1], t, ns), self.linear(a.args[2], t, ns))
        if a.k == 'fn' and a.name == 'arr' and a.args[0] in self.mean:
            funs, ms, extra = self.mean[a.args[0]]
            if extra:
                env = {s: P.of(x) for s, x in zip(extra, a.args[3:])}
                if any(P.of(s) != x for s, x in env.items()):
                    funs = [Sub(f, env) for f in funs]
                    ms = [subst(m, env) for m in ms]
            ok = self.same(a.args[2], P.of(t))
            if ok is None:
                raise NoDen('index %r' % a.args[2])
            if ok:
                ok = self.same_all(ns, ms)
                if ok is None:
                    raise NoDen('degrees %r and %r' % (ns, ms))
            if not ok:
                return Opaque('control points of a spline of other degrees or order')
            return funs[a.args[1]]
        raise NoDen('entry %r' % a)

    # --- forms: values of operands, or sums over their control points
    def expand(self, x):
        """values and basis functions written out in control points and powers"""
        def basis(args, at):
            d = (len(args) - 1) // 3
            q, ks, us, ns = P.of(args[0]), args[1:1 + d], args[1 + d:1 + 2 * d], args[1 + 2 * d:]
            r = S.ONE
            for o, n, u, k in zip(offsets(ns), ns, us, ks):
                j = S.imod(S.idiv(q, P.of(o)), P.of(n))
                b = bernstein(P.of(n) - 1, j, u) if P.of(k) == S.ZERO else dbernstein(P.of(n) - 1, j, u, k)
                r = r * b
            return r

        def value(args, at):
            if not self.operand(args[0]) or args[0] not in self.mean:
                return fn('val', tuple(args))
            ns = self.mean[args[0]][1]
            d = len(ns)
            ks, us = [P.of(y) for y in args[2:2 + d]], [P.of(y) for y in args[2 + d:]]
            q = Sym('xv', 'int', S.ZERO, prod(ns) - 1)
            b = basis((P.of(q),) + tuple(ks) + tuple(us) + tuple(ns), None)
            return Sum(q, S.ZERO, prod(ns) - 1, b * arr(args[0], args[1], P.of(q)))
        return S.map_fns(x, {'val': value, 'bas': basis})

    def constants(self, x):
        """the control point of an intermediate spline of degree zero is its value"""
        def point(args, at):
            if not self.operand(args[0]) and args[0] in self.mean:
                funs, ns, extra = self.mean[args[0]]
                if not extra and all(P.of(n) == S.ONE for n in ns):
                    try:
                        return funs[int(repr(args[1]))].val([S.ZERO] * len(ns), [0] * len(ns))
                    except (NoDen, ValueError):
                        pass
            return fn('arr', tuple(args))
        for _ in range(8):
            y = S.map_fns(P.of(x), {'arr': point})
            if y == x:
                break
            x = y
        return x

    def equal(self, rule, construct, f, got, want, assume=(), **kw):
        if isinstance(got, Cond) or isinstance(want, Cond):
            got, want = c2p(got), c2p(want)
        v = compare(got, want, tuple(self.assume) + tuple(assume), seed=self.case.ctx.seed,
                    **{k: x for k, x in kw.items() if k in ('tries', 'sizemax')})
        if v.k == 'differs':
            got = self.constants(got)
            for a in S.all_atoms(P.of(got)):
                if a.k == 'fn' and a.name == 'arr' and not self.operand(a.args[0]):
                    self.case.add(rule, construct, self.where(f) if isinstance(f, dict) else f, 'undecided',
                                  'control points of an intermediate spline are read; ' + self.why())
                    return 'undecided'
            got, want = self.expand(P.of(got)), self.expand(P.of(want))
        return super().equal(rule, construct, f, got, want, assume, **kw)

    # --- kernels
    def kernel(self, it, fun, this, args, loc):
        sh = fun['short']
        if sh in self.raw:
            # a recursion: the outermost call is analysed, inner ones enter by induction
            # on the argument, which must get smaller
            outer_ = [fr for fr in it.frames if fr.fun.get('short') == sh]
            if not outer_:
                return NotImplemented
            self.recursions.append((P.of(it.rv(args[0])), list(CTX.facts), loc))
        ps = [self.p.shortty(self.p.strip(q['type'])) for q in fun['params']]
        rec = self.p.recname(fun['rec'])
        rt = self.p.shortty(self.p.strip(fun['ret']))
        self.used.add('%s::%s' % (rec, sh))
        try:
            r = self.contract(it, sh, ps, rec, rt, this, args, fun)
        except NoDen as e:
            raise Unsup('no function meaning: %s' % e)
        return r

    def give(self, ref, fun):
        """return by value or by reference as the function does"""
        if self.p.types[fun['ret']]['k'] == 'ref':
            return ref
        return self.it.load(ref)

    def spl_arg(self, a, name='arg'):
        if isinstance(a, Ref):
            return a
        return self.it.new(a, self.kit(self.p.recname(a.rec)).t, name)

    def contract(self, it, sh, ps, rec, rt, this, args, fun):
        dim = self.dims(rec)
        if sh in ('operator*', 'operator+', 'operator-', 'operator+=', 'operator-=', 'operator=='):
            o = self.spl_arg(args[0])
            fa, na = self.den(this), self.degs(this)
            fb, nb = self.den(o), self.degs(o)
            if sh == 'operator==':
                return c_and(*[eq0(x - y) for x, y in zip(na, nb)], self.equal_funs(fa, fb))
            if sh == 'operator*':
                ns = [x + y - 1 for x, y in zip(na, nb)]
                if len(fa) == len(fb):
                    f = [Lin([(S.ONE, Prod(x, y)) for x, y in zip(fa, fb)])]
                elif len(fa) == 1:
                    f = [Prod(fa[0], y) for y in fb]
                else:
                    f = [Prod(x, fb[0]) for x in fa]
                if len(f) != ncomp(self.value_type(rt)):
                    raise NoDen('product type')
                return self.give(self.build(rt, f, ns), fun)
            ns = [fmax(x, y) for x, y in zip(na, nb)]
            s = S.ONE if '+' in sh else -S.ONE
            f = [Lin([(S.ONE, x), (s, y)]) for x, y in zip(fa, fb)]
            if sh.endswith('='):
                it.store(this, it.load(self.build(rec, f, ns)))
                return this
            return self.give(self.build(rt, f, ns), fun)
        if sh == 'OrderElevateAlongParametricDimension':
            d = self.it.rv(args[0]).as_int()
            if d is None:
                raise NoDen('symbolic dimension')
            if self.elog is not None:
                self.elog.append((this, d))
            self.raised(this, d, S.ONE)
            return this
        if sh == 'DerivativeWRTParametricDimension':
            o = [P.of(x) for x in self.it.rv(args[0]).e]
            f, ns = self.den(this), self.degs(this)
            nn = [fmax(n - x, S.ONE) for n, x in zip(ns, o)]
            r = self.build(rec, [Diff(x, o) for x in f], nn)
            return self.give(r, fun)
        if sh in ('Evaluate', 'ForwardEvaluate', 'EvaluateDerivative'):
            us = tleaves(self.it.rv(args[0]))
            k = [P.of(x) for x in self.it.rv(args[1]).e] if sh == 'EvaluateDerivative' else [S.ZERO] * dim
            f = self.den(this)
            vs = [x.val(us, k) for x in f]
            z = it.zero(fun['ret'])
            return tbuild(z, iter(vs))
        if sh in ('BasisFunctions', 'BasisFunctionsDerivatives'):
            us = tleaves(self.it.rv(args[0]))
            k = [P.of(x) for x in self.it.rv(args[1]).e] if 'Deriv' in sh else [S.ZERO] * dim
            ns = self.degs(this)
            q = Sym('q', 'int', S.ZERO, None)
            ety = self.p.recs[self.p.types[self.p.strip(fun['ret'])]['rec']]['targs'][0]['t']
            return VecV(prod(ns), Cnt(('lam', q, self.basis(P.of(q), us, k, ns))), ety)
        if sh == 'SplitAtPosition':
            pos, d = P.of(self.it.rv(args[0])), self.it.rv(args[1]).as_int()
            if d is None:
                raise NoDen('symbolic dimension')
            f, ns = self.den(this), self.degs(this)
            l = self.build(rec, [Affine(x, d, S.ZERO, pos) for x in f], ns)
            r = self.build(rec, [Affine(x, d, pos, 1 - pos) for x in f], ns)
            ety = self.p.recs[self.p.types[self.p.strip(fun['ret'])]['rec']]['targs'][0]['t']
            return VecV(P.of(2), c_list([it.load(l), it.load(r)]), ety)
        if sh == 'ExtractDimension':
            d = self.it.rv(args[0]).as_int()
            if d is None:
                raise NoDen('symbolic dimension')
            f, ns = self.den(this), self.degs(this)
            return self.give(self.build(rt, [f[d]], ns), fun)
        if sh == 'RaisePower':
            e = P.of(self.it.rv(args[0]))
            f, ns = self.den(this)[0], self.degs(this)
            r = self.build(rt, [Mul(lambda us, f=f, e=e: power(f.val(us, [0] * dim), e))],
                           [(n - 1) * e + 1 for n in ns])
            return self.give(r, fun)
        if sh == 'ComposeNumeratorHelper':
            return self.compose(it, sh, ps, rec, rt, this, args, fun)
        raise NoDen(sh)

    def basis(self, q, us, k, ns):
        return fn('bas', (q,) + tuple(k) + tuple(us) + tuple(ns))

    def equal_funs(self, fa, fb):
        if len(fa) != len(fb):
            return S.FALSE
        us = [P.of(Sym('v%d' % i, 'real')) for i in range(3)]
        out = []
        for x, y in zip(fa, fb):
            d = None
            for n in (1, 2, 3):
                pass
            if repr(self.key(x)) != repr(self.key(y)):
                return S.FALSE
        return S.TRUE

    def key(self, f):
        if isinstance(f, Base):
            return ('b', f.name, f.comp)
        if isinstance(f, Const):
            return ('c', f.c)
        if isinstance(f, Lin):
            if len(f.terms) == 1 and f.terms[0][0] == 1:
                return self.key(f.terms[0][1])
            return ('l',) + tuple((c, self.key(g)) for c, g in f.terms)
        if isinstance(f, Prod):
            return ('p', self.key(f.f), self.key(f.g))
        if isinstance(f, Gate):
            raise NoDen('equality of a choice')
        return ('o', id(f))

    # --- rational operands
    def parts(self, ref):
        """references to numerator and weight function of a rational object,
        through the library's own accessors"""
        k = self.kit_of(ref)
        out = []
        for n in ('GetNumeratorSpline', 'GetWeightFunctionSpline'):
            f = [g for g in self.p.find(n, rec=k.rec, many=True)][0]
            r = self.it.call(f, ref, [])
            out.append(self.spl_arg(r))
        return out

    def quotient(self, ref, us, k=None):
        """(numerators, weight, degrees of both) of a rational object at us"""
        nu, w = self.parts(ref)
        z = [0] * len(us)
        fs, g = self.den(nu), self.den(w)
        return [f.val(us, k or z) for f in fs], g[0].val(us, k or z), self.degs(nu), self.degs(w)

    def compose(self, it, sh, ps, rec, rt, this, args, fun):
        dim = self.dims(rec)
        o = self.spl_arg(args[0])
        f, ns = self.den(this), self.degs(this)
        total = S.ZERO
        for n in ns:
            total = total + n - 1
        irec = self.kit_of(o).rec
        idim = self.dims(irec)
        z = [0] * idim
        if israt(irec):
            nu, w = self.parts(o)
            fi, wi, ms = self.den(nu), self.den(w)[0], self.degs(nu)
            inner = [lambda us, x=x: x.val(us, z) / wi.val(us, z) for x in fi]
            den = lambda us: power(wi.val(us, z), total)
        else:
            fi, ms = self.den(o), self.degs(o)
            inner = [lambda us, x=x: x.val(us, z) for x in fi]
            den = lambda us: S.ONE
        qs = [(m - 1) * total + 1 for m in ms]
        if not isspl(rt):
            # entry i: basis function i at the inner function
            ety = self.p.recs[self.p.types[self.p.strip(fun['ret'])]['rec']]['targs'][0]['t']
            q = Sym('sq', 'int', S.ZERO, prod(ns) - 1)
            g = Mul(lambda us: self.basis(P.of(q), [i(us) for i in inner], [S.ZERO] * dim, ns) * den(us))
            r = self.build(self.p.recname(self.p.types[self.p.strip(ety)]['rec']), [g], qs, [q])
            return VecV(prod(ns), Cnt(('lam', q, it.load(r))), ety)
        g = [Mul(lambda us, x=x: x.val([i(us) for i in inner], [0] * dim) * den(us)) for x in f]
        return self.give(self.build(rt, g, qs), fun)


# ----------------------------------------------------- derivatives of values --
def bump(a, d, dim, us):
    """derivative of a val/bas-like atom with orders in known places"""
    if a.name == 'val':
        args = list(a.args)
        args[2 + d] = P.of(args[2 + d]) + 1
        return fn('val', tuple(args))
    raise NoDen('derivative of %r' % a)


def dpoly(p, d, dim, us):
    """partial derivative along coordinate d of a polynomial in values"""
    r = S.ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            if a.k == 'base':
                da = dpoly(a.args[0], d, dim, us)
            elif a.k == 'fn' and a.name == 'val':
                da = bump(a, d, dim, us)
            elif not any(P.of(a).has(u) for q in us for u in q.free):
                continue
            else:
                raise NoDen('derivative of %r' % a)
            if not isinstance(e, int):
                raise NoDen('exponent')
            rest = P({tuple(x for j, x in enumerate(m) if j != i): c})
            if e != 1:
                rest = rest * P.of(e) * P({((a, e - 1),): S.Fraction(1)})
            r = r + rest * da
    return r


def dquot(a, w, orders, us):
    """mixed derivative of a/w"""
    q = a * S.inv(w)
    for d, o in enumerate(orders):
        for _ in range(o):
            q = dpoly(q, d, len(us), us)
    return q
