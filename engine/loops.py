"""Loop summarisation: scalar evolution for induction variables and array
layer summaries for container contents.  No iteration of a symbolic loop is
ever unrolled; only loops whose trip count is a literal constant are."""
from values import *
import sym as S

DeadCode = LoopCtx = None      # injected by interp

UNROLL = 64
HALF = P({(): Fraction(1, 2)})


class PH:
    """placeholder for a leaf modified by the loop"""

    def __init__(self, cell, path, kind, init):
        self.cell, self.path, self.kind, self.init = cell, path, kind, init
        self.mu = None
        self.uid = None
        self.tmpl = None
        self.f = None           # value after one iteration
        self.closed = None      # closed form in k
        self.late = False


_uid = itertools.count(1)


# ------------------------------------------------------------- leaves -------
def has_vec(v):
    if isinstance(v, VecV):
        return True
    if isinstance(v, Obj):
        return any(has_vec(x) for x in v.f.values())
    if isinstance(v, ArrV):
        return any(has_vec(x) for x in v.e)
    return False


def nested(v):
    """container of constant length whose elements hold containers: treated
    like an array"""
    return v.c.base[0] == 'list' and not v.c.layers and any(has_vec(x) for x in v.c.base[1])


def lmap(v, path, f):
    """rebuild v, f(path, kind, leaf) -> new leaf"""
    if isinstance(v, P):
        return f(path, 'p', v)
    if isinstance(v, Cond):
        return f(path, 'c', v)
    if isinstance(v, Obj):
        ch = False
        d = {}
        for k, x in v.f.items():
            y = lmap(x, path + (('f', k),), f)
            ch = ch or y is not x
            d[k] = y
        return Obj(v.rec, d) if ch else v
    if isinstance(v, ArrV):
        e = [lmap(x, path + (('a', i),), f) for i, x in enumerate(v.e)]
        return ArrV(e) if any(a is not b for a, b in zip(e, v.e)) else v
    if isinstance(v, VecV) and nested(v):
        ln = f(path + ('len',), 'p', v.ln)
        xs = v.c.base[1]
        e = [lmap(x, path + (('l', i),), f) for i, x in enumerate(xs)]
        if ln is v.ln and all(a is b for a, b in zip(e, xs)):
            return v
        return VecV(ln, c_list(e), v.ety)
    if isinstance(v, VecV):
        ln = f(path + ('len',), 'p', v.ln)
        c = f(path + ('cnt',), 'n', v)
        return v if ln is v.ln and c is v.c else VecV(ln, c, v.ety)
    if isinstance(v, IterV):
        ix = f(path + ('idx',), 'p', v.idx)
        return v if ix is v.idx else IterV(v.ref, ix)
    return f(path, 'x', v)


def lget(v, path):
    for s in path:
        if s == 'len':
            return v.ln
        if s == 'cnt':
            return v.c
        if s == 'idx':
            return v.idx
        if s[0] == 'f':
            v = v.f[s[1]]
        elif s[0] == 'l':
            v = v.c.base[1][s[1]]
        else:
            v = v.e[s[1]]
    return v


def ldiff(a, b, path, out):
    if a is b:
        return
    if type(a) is not type(b):
        out.append((path, 'x'))
        return
    if isinstance(a, P):
        if a != b:
            out.append((path, 'p'))
    elif isinstance(a, Cond):
        if a != b:
            out.append((path, 'c'))
    elif isinstance(a, Obj):
        if a.rec != b.rec:
            out.append((path, 'x'))
            return
        for k in a.f:
            if k in b.f:
                ldiff(a.f[k], b.f[k], path + (('f', k),), out)
    elif isinstance(a, ArrV):
        if len(a.e) != len(b.e):
            out.append((path, 'x'))
            return
        for i, (x, y) in enumerate(zip(a.e, b.e)):
            ldiff(x, y, path + (('a', i),), out)
    elif isinstance(a, VecV):
        if a.ln != b.ln:
            out.append((path + ('len',), 'p'))
        if nested(a) and nested(b) and len(a.c.base[1]) == len(b.c.base[1]):
            for i, (x, y) in enumerate(zip(a.c.base[1], b.c.base[1])):
                ldiff(x, y, path + (('l', i),), out)
            return
        if not (a.c == b.c):
            out.append((path + ('cnt',), 'n'))
    elif isinstance(a, IterV):
        if a.ref != b.ref:
            out.append((path, 'x'))
        elif a.idx != b.idx:
            out.append((path + ('idx',), 'p'))
    else:
        try:
            if a == b:
                return
        except Exception:
            pass
        out.append((path, 'x'))


# -------------------------------------------------------- linear shape ------
def occurs(x, a):
    if a.k == 'sym':
        return a in x.free
    return a in all_atoms(x)


def lin(f, x):
    """f = a*x + b with a, b free of x; None otherwise"""
    if not occurs(f, x):
        return S.ZERO, f
    A, B = S.ZERO, S.ZERO
    for m, c in f.t.items():
        own = 0
        inner = None
        rest = []
        for a, e in m:
            if a is x:
                if e != 1:
                    return None
                own += 1
            elif occurs(P.of(a), x) or (isinstance(e, P) and occurs(e, x)):
                if inner is not None or e != 1 or a.k != 'ite':
                    return None
                inner = a
            else:
                rest.append((a, e))
        r = P({tuple(rest): c})
        if own and inner is not None:
            return None
        if own:
            A = A + r
        elif inner is not None:
            cd, u, v = inner.args
            if occurs(cd, x):
                return None
            lu, lv = lin(u, x), lin(v, x)
            if lu is None or lv is None:
                return None
            A = A + r * ite(cd, lu[0], lv[0])
            B = B + r * ite(cd, lu[1], lv[1])
        else:
            B = B + r
    return A, B


def has_entry(x, uids=None):
    return any(a.k == 'fn' and a.name == 'entry' and (uids is None or a.args[0] in uids)
               for a in all_atoms(x))


def is_unk(x):
    return any(a.k == 'fn' and a.name == 'unk' for a in all_atoms(x))


def solve_rec(f, x, x0, k):
    """closed form in k of x(0)=x0, x(k+1)=f(x(k),k); None if unknown"""
    q = Sym('q', 'int', S.ZERO, P.of(k) - 1)
    if x in f.free if x.k == 'sym' else occurs(f, x):
        ab = lin(f, x)
        if ab is not None:
            a, b = ab
            if a == S.ONE:
                return x0 + Sum(q, S.ZERO, P.of(k) - 1, subst(b, {k: P.of(q)}))
            if not b.t:
                return x0 * S.Reduce('prod', q, S.ZERO, P.of(k) - 1, subst(a, {k: P.of(q)}))
            if k not in a.free:
                if k not in b.free and a.const() is not None and a.const() != 1:
                    # geometric
                    g = (power(a, P.of(k)) - 1) * (1 / (a.const() - 1))
                    return x0 * power(a, P.of(k)) + b * g
                return x0 * power(a, P.of(k)) + Sum(
                    q, S.ZERO, P.of(k) - 1, power(a, P.of(k) - 1 - P.of(q)) * subst(b, {k: P.of(q)}))
            # idempotent switch: ite(c(k), x, b): fall through
        at = f.atom()
        if at is not None and at.k == 'fn' and at.name in ('max', 'min'):
            u, v = at.args
            if v == P.of(x):
                u, v = v, u
            if u == P.of(x) and not occurs(v, x):
                v1 = subst(v, {k: P.of(-1)})
                if v1 == x0:
                    return S.Reduce(at.name, q, P.of(-1), P.of(k) - 1, subst(v, {k: P.of(q)}))
                g = fmax if at.name == 'max' else fmin
                red = S.Reduce(at.name, q, S.ZERO, P.of(k) - 1, subst(v, {k: P.of(q)}))
                return ite(eq0(P.of(k)), x0, g(x0, red))
        if at is not None and at.k == 'fn' and at.name == 'idiv' and at.args[0] == P.of(x) \
                and not occurs(at.args[1], x):
            return idiv(x0, S.Reduce('prod', q, S.ZERO, P.of(k) - 1, subst(at.args[1], {k: P.of(q)})))
        return None
    # overwritten
    if k not in f.free and f == x0:
        return x0
    f1 = subst(f, {k: P.of(k) - 1})
    try:
        if subst(f, {k: P.of(-1)}) == x0:
            return f1
    except Exception:
        pass
    return ite(eq0(P.of(k)), x0, f1)


def beyond(k):
    """a counter that also takes the value after the last iteration"""
    return Sym(k.name, 'int', k.lo, None if k.hi is None else k.hi + 1)


def solve_bool(f, x, x0, k):
    """recurrence of a 0/1 variable"""
    f1, f0 = subst(f, {x: S.ONE}), subst(f, {x: S.ZERO})
    f1, f0 = reite(f1), reite(f0)
    q = Sym('q', 'int', S.ZERO, P.of(k) - 1)
    if f1 == f0:
        return solve_rec(f1, x, x0, k)
    if f1 == S.ONE and f0 == S.ZERO:
        return x0
    if f1 == S.ONE:
        n = Sum(q, S.ZERO, P.of(k) - 1, subst(f0, {k: P.of(q)}))
        return ite(c_or(p2c(x0), ge0(n - 1)), S.ONE, S.ZERO)
    if f0 == S.ZERO:
        n = Sum(q, S.ZERO, P.of(k) - 1, S.ONE - subst(f1, {k: P.of(q)}))
        return ite(c_and(p2c(x0), eq0(n)), S.ONE, S.ZERO)
    return None


def reite(p):
    a = p.atom()
    if a is not None and a.k == 'ite':
        return ite(simp(a.args[0]), a.args[1], a.args[2])
    return p


def conjuncts(c):
    return list(c.a) if c.k == 'and' else [] if c.k == 'true' else [c]


def capped(cond):
    """loop condition with a literal cap on the number of rounds as one of
    several conjuncts: n < 2 && ..."""
    def strip(e):
        while isinstance(e, dict) and e.get('k') in ('cast', 'load', 'temp'):
            e = e['e']
        return e

    def parts(e):
        e = strip(e)
        if isinstance(e, dict) and e.get('k') == 'bin' and e['op'] == '&&':
            return parts(e['a']) + parts(e['b'])
        return [e]
    ps = parts(cond) if isinstance(cond, dict) else []
    return len(ps) > 1 and any(
        isinstance(e, dict) and e.get('k') == 'bin' and e['op'] in ('<', '<=', '>', '>=', '!=')
        and 'int' in (strip(e['a']).get('k'), strip(e['b']).get('k')) for e in ps)


# ---------------------------------------------------------------- mixin -----
class Loops:
    scalar_only = False

    def body_once(self, body, inc, setup=None):
        """one execution of a body; returns alive"""
        fr = self.frames[-1]
        lc = LoopCtx()
        lc.pcbase = len(self.pc)
        m = CTX.mark()
        n = len(self.pc)
        fr.loops.append(lc)
        try:
            if setup is not None:
                setup()
            try:
                alive = body() if callable(body) else self.exec(body)
            except DeadCode:
                alive = False
        finally:
            fr.loops.pop()
        if lc.conts:
            outs = list(lc.conts)
            if alive:
                outs.append((c_and(*self.pc[n:]), self.st))
            del self.pc[n:]
            CTX.reset(m)
            g, st = outs[-1]
            for g2, st2 in reversed(outs[:-1]):
                if st2 is not st:
                    st = self.merge_stores(g2, st2, st)
            self.st = st
            alive = True
        self.lastbreaks = lc.breaks
        if alive and inc is not None:
            inc() if callable(inc) else self.ev(inc)
        return alive

    def raw_cond(self, cond):
        if cond is None:
            return S.TRUE
        return cond() if callable(cond) else self.cond(cond)

    def loop(self, s, cond, body, inc, setup=None):
        r = self.unroll(cond, body, inc, setup)
        if r is not None:
            self.loopstat['unrolled'] += 1
            return r
        self.looping += 1
        try:
            if self.inductive is not None:
                r = self.inductive(cond, body, inc, setup)
                if r is not None:
                    self.loopstat['summarised'] += 1
                    return r
            return self.summarise(s, cond, body, inc, setup)
        finally:
            self.looping -= 1

    # ---------------------------------------------------------- unrolling ---
    def snapshot(self):
        fr = self.frames[-1]
        return (dict(self.st), len(self.pc), CTX.mark(), len(fr.returns), len(fr.throws),
                len(self.obs), len(self.events), dict(fr.env), len(self.notes))

    def restore(self, sn):
        fr = self.frames[-1]
        self.st = dict(sn[0])
        del self.pc[sn[1]:]
        CTX.reset(sn[2])
        del fr.returns[sn[3]:]
        del fr.throws[sn[4]:]
        del self.obs[sn[5]:]
        del self.events[sn[6]:]
        fr.env = dict(sn[7])
        del self.notes[sn[8]:]

    def unroll(self, cond, body, inc, setup):
        fr = self.frames[-1]
        # look at the first evaluation only: a symbolic bound ends it at once
        sn = self.snapshot()
        outs = []
        nb = len(self.pc)
        lc_pc = nb
        guarded = capped(cond)
        for it in range(UNROLL + 1):
            if it == UNROLL or guarded and it > 8:
                self.restore(sn)
                return None
            self.raw = True
            try:
                c = self.raw_cond(cond)
            finally:
                self.raw = False
            if c.k == 'false':
                break
            if c.k != 'true':
                if not guarded:
                    self.restore(sn)
                    return None
                outs.append((c_and(*(self.pc[nb:lc_pc] + [c_not(c)])), self.st))
                self.st = dict(self.st)
                self.pc.append(c)
                CTX.push(c)
                lc_pc = len(self.pc)
            try:
                alive = self.body_once(body, inc, setup)
            except Unsup:
                if it == 0:
                    raise
                raise
            for g, st in self.lastbreaks:
                outs.append((c_and(*(self.pc[nb:lc_pc] + [g])), st))
            if not alive:
                break
            lc_pc = len(self.pc)
        else:
            alive = True
        if c.k == 'false':
            alive = True
        if not outs:
            return alive
        # merge break states
        if alive:
            outs.append((c_and(*self.pc[nb:]), self.st))
        del self.pc[nb:]
        g, st = outs[-1]
        for g2, st2 in reversed(outs[:-1]):
            if st2 is not st:
                st = self.merge_stores(g2, st2, st)
        self.st = st
        CTX.reset(sn[2])
        gg = c_or(*[g for g, _ in outs])
        if gg.k not in ('true',):
            self.pc.append(gg)
        return True

    # -------------------------------------------------------- summarising ---
    def place(self, S0, phs, val):
        """store with the placeholders' leaves replaced by val(ph)"""
        st = dict(S0)
        bycell = {}
        for (cell, path), ph in phs.items():
            bycell.setdefault(cell, {})[path] = ph
        for cell, d in bycell.items():
            if () in d and d[()].kind == 'x':
                st[cell] = val(d[()], st[cell])
                continue

            def f(path, kind, leaf):
                ph = d.get(path)
                if ph is None:
                    return leaf.c if kind == 'n' else leaf
                return val(ph, leaf)
            st[cell] = lmap(st[cell], (), f)
        return st

    def newph(self, S0, cell, path, kind):
        init = lget(S0[cell], path)
        ph = PH(cell, path, kind, init)
        if kind == 'p':
            sort = self.leafsort(cell, path, init)
            ph.mu = Sym('m', sort)
        elif kind == 'c':
            ph.mu = Sym('m', 'int', 0, 1)
        elif kind == 'n':
            ph.uid = next(_uid)
            v = lget(S0[cell], path[:-1])
            ph.tmpl = self.zero(v.ety)
            try:
                tleaves(ph.tmpl)
            except Unsup:
                ph.tmpl = None
        return ph

    def leafsort(self, cell, path, init):
        if path and path[-1] in ('len', 'idx'):
            return 'int'
        try:
            t = self.cty[cell]
            for s in path:
                t = self.p.strip(t)
                x = self.p.types[t]
                if s[0] == 'f' and isinstance(s[1], tuple):
                    t = self.p.recs[x['rec']]['bases'][s[1][1]]
                elif s[0] == 'f':
                    t = [fl['type'] for fl in self.p.recs[x['rec']]['fields'] if fl['name'] == s[1]][0]
                else:
                    t = self.elemty(t)
            return self.sortof(t) or 'real'
        except (KeyError, IndexError, TypeError):
            return 'int' if is_int(init) else 'real'

    def mu_val(self, ph, leaf):
        if ph.kind == 'p':
            return P.of(ph.mu)
        if ph.kind == 'c':
            return c_not(eq0(P.of(ph.mu)))
        if ph.kind == 'n':
            if ph.tmpl is None:
                return Cnt(('nest', ph.uid))
            return Cnt(('entry', ph.uid, ph.tmpl))
        return Opq('loop')

    def iteration(self, cond, body, inc, setup, withcond=True):
        """one abstract iteration from self.st; returns (cond, returns, throws)"""
        fr = self.frames[-1]
        m, n = CTX.mark(), len(self.pc)
        nr, nt = len(fr.returns), len(fr.throws)
        env = dict(fr.env)
        try:
            c = self.raw_cond(cond)
            if c.k == 'false':
                # under the ranges in force this iteration is not entered
                pass
            if c.k not in ('true', 'false'):
                CTX.push(c)
                self.pc.append(c)
            n1 = len(self.pc)
            alive = self.body_once(body, inc, setup)
            if self.lastbreaks:
                raise Unsup('break in a loop with symbolic trip count')
            rets, thr = fr.returns[nr:], fr.throws[nt:]
            extra = self.pc[n1:]
            return c, rets, thr, alive, extra
        finally:
            del fr.returns[nr:]
            del fr.throws[nt:]
            del self.pc[n:]
            CTX.reset(m)
            fr.env = env

    def summarise(self, s, cond, body, inc, setup):
        fr = self.frames[-1]
        S0 = self.st
        saved = (self.record, self.lenient, self.scalar_only)
        sn = self.snapshot()
        loc = self.p.loc(s) if isinstance(s, dict) else '?'
        phs = {}
        # ---- phase A: which leaves change, and how
        self.record, self.lenient, self.scalar_only = False, True, True
        try:
            for rnd in range(16):
                st = self.place(S0, phs, self.mu_val)
                self.st = dict(st)
                c, rets, thr, alive, extra = self.iteration(cond, body, inc, setup)
                if not alive:
                    raise Unsup('loop body never completes')
                new = []
                for cell in S0:
                    a, b = st[cell], self.st.get(cell)
                    if b is None or a is b:
                        continue
                    out = []
                    ldiff(a, b, (), out)
                    for path, kind in out:
                        if (cell, path) not in phs:
                            new.append((cell, path, kind))
                if not new:
                    break
                for cell, path, kind in new:
                    if kind == 'x':
                        # replace the whole cell
                        for kk in [q for q in phs if q[0] == cell]:
                            del phs[kk]
                        ph = PH(cell, (), 'x', S0[cell])
                        phs[(cell, ())] = ph
                        break
                    phs[(cell, path)] = self.newph(S0, cell, path, kind)
            else:
                raise Unsup('loop does not stabilise')
            st1 = self.st
        finally:
            self.record, self.lenient, self.scalar_only = saved
            self.restore(sn)
        for (cell, path), ph in phs.items():
            if ph.kind in ('p', 'c'):
                v = lget(st1[cell], path)
                ph.f = c2p(v) if ph.kind == 'c' else v
        try:
            return self.summarise2(s, S0, phs, cond, body, inc, setup, loc, sn)
        except Unsup as e:
            if rets:
                raise
            self.restore(sn)
            self.notes.append((loc, 'loop not summarised: %s' % e))
            self.havoc(S0, phs, str(e))
            return True

    def havoc(self, S0, phs, why):
        def val(ph, leaf):
            if ph.kind == 'p':
                return UNK(why, ph.mu.sort)
            if ph.kind == 'c':
                return Cond('opq', 'unk', (UNK(why),))
            if ph.kind == 'n':
                return Cnt(('unk', self.zero(leaf.ety)))
            return Opq('loop')
        self.st = self.place(S0, phs, val)

    def solve_scalars(self, phs, k):
        """closed forms in k for placeholders with known recurrences"""
        todo = [ph for ph in phs.values() if ph.kind in ('p', 'c') and ph.closed is None
                and ph.f is not None]
        progress = True
        while progress and todo:
            progress = False
            env = {ph.mu: ph.closed for ph in phs.values() if ph.closed is not None
                   and ph.kind in ('p', 'c')}
            mus = {ph.mu for ph in todo}
            for ph in list(todo):
                f = subst(ph.f, env)
                if is_unk(f) or has_entry(f, self.loop_uids(phs)):
                    continue
                deps = (f.free & mus) - {ph.mu}
                if deps:
                    continue
                x0 = c2p(ph.init) if ph.kind == 'c' else ph.init
                r = (solve_bool if ph.kind == 'c' else solve_rec)(f, ph.mu, x0, k)
                todo.remove(ph)
                mus.discard(ph.mu)
                if r is None:
                    ph.closed = None
                    ph.late = 'unknown'
                    ph.f = None
                else:
                    ph.closed = r
                progress = True
                break
        for ph in todo:
            ph.late = True

    def loop_uids(self, phs):
        return {ph.uid for ph in phs.values() if ph.uid is not None}

    def trip(self, c, k):
        """(trip count, last index) from the loop condition"""
        if c.k == 'and':
            ts = [self.trip(x, k) for x in c.a]
            t, h = ts[0]
            for t2, h2 in ts[1:]:
                t, h = fmin(t, t2), fmin(h, h2)
            return t, h
        if c.k == 'ge':
            p = c.a[0]
        elif c.k == 'gt':
            raise Unsup('real-valued loop condition')
        elif c.k == 'not' and c.a[0].k == 'eq':
            p = c.a[0].a[0]
            d = S._deg_in(p, k)
            if d != 1:
                raise Unsup('loop condition')
            b = S._coef(p, k, 1).as_int()
            if b == 1:
                p = -p
            elif b != -1:
                raise Unsup('loop condition')
            p = p - 1
        else:
            raise Unsup('loop condition %s' % c.k)
        d = S._deg_in(p, k)
        if d != 1:
            if d == 0:
                raise Unsup('loop condition does not depend on the iteration')
            raise Unsup('loop condition not affine')
        b = -S._coef(p, k, 1)
        a = S._coef(p, k, 0)
        if b == S.ONE:
            t = a + 1
            return (t if prove_ge0(t) else fmax(t, S.ZERO)), a
        if prove_ge0(b - 1):
            q = idiv(a, b)
            if prove_ge0(a):
                return q + 1, q
            if prove_ge0(a + b):
                q = idiv(a + b, b)
                return q, q - 1
            return ite(ge0(a), q + 1, S.ZERO), q
        raise Unsup('loop condition does not terminate')

    def summarise2(self, s, S0, phs, cond, body, inc, setup, loc, sn):
        fr = self.frames[-1]
        k = Sym('k', 'int', S.ZERO, None)
        self.solve_scalars(phs, k)
        # ---- trip count
        T, last = self.trip_count(S0, phs, cond, k)
        if T is None:
            # the condition never changes: not entered, or never left
            if self.record:
                self.events.append({'kind': 'diverge', 'guard': c_and(self.guard_here(), last),
                                    'loc': loc, 'fun': fr.fun['name']})
            n = c_not(last)
            if n.k == 'false':
                raise DeadCode()
            self.st = S0
            self.pc.append(n)
            CTX.push(n)
            return True
        if self.scalar_only:
            if any(ph.late for ph in phs.values()):
                pass
            self.finish_scalar(S0, phs, k, T)
            return True
        self.loopstat['summarised'] += 1
        # ---- phase B: one iteration at symbolic position
        K = [Sym('k', 'int', S.ZERO, last)]
        kx = P.of(K[0])
        res = self.phase_b(S0, phs, cond, body, inc, setup, k, kx, sn)
        dg = self.digits(res, K[0], T)
        if dg is not None:
            K, kx = dg
            self.restore(sn)
            res = self.phase_b(S0, phs, cond, body, inc, setup, k, kx, sn)
        st1, rets, thr, extra = res
        L = Resolver(self, phs, K, kx, k, T, S0, st1)
        L.loc = loc
        PARTIAL[0] = False
        try:
            L.solve_late()
            # ---- exit state
            Z = L.exit_state(S0)
        finally:
            PARTIAL[0] = True
        gs = []
        pre = set()
        for x in self.pc:
            pre.update(conjuncts(x))
        for g, v, st in rets:
            if v is not None and not isinstance(v, (P, Cond)):
                raise Unsup('return from a loop')
            if v is not None and any(q in v.free for q in K):
                raise Unsup('return from a loop')
            if v is not None and (has_entry(v, L.uids) or v.free & L.mus):
                raise Unsup('return from a loop')
            gs.append((L.exists(c_and(*[x for x in conjuncts(g) if x not in pre])), v))
        self.st = Z
        hv = None
        for G, v in gs:
            if G.k == 'false':
                continue
            if hv is None:
                cur = self.st
                self.havoc(S0, phs, 'returned')
                hv = self.st
                self.st = cur
            fr.returns.append((c_and(*(self.pc[self.fstart():] + [G])), v, hv))
            nG = c_not(G)
            self.pc.append(nG)
            CTX.push(nG)
        for g in thr:
            G = L.exists(c_and(*[x for x in conjuncts(g) if x not in pre]))
            if G.k == 'false':
                continue
            fr.throws.append(c_and(*(self.pc[self.fstart():] + [G])))
            n = c_not(G)
            if not has_unk(G):
                CTX.push(n)
        # the condition is evaluated once more on exit
        rec, le = self.record, self.lenient
        self.record, self.lenient = False, True
        try:
            try:
                self.raw_cond(cond)
            except Unsup:
                pass
        finally:
            self.record, self.lenient = rec, le
        return True

    def closed_val(self, phs, k, kx, late=True):
        env = {k: kx}

        def val(ph, leaf):
            if ph.kind in ('p', 'c'):
                if ph.closed is not None:
                    v = subst(ph.closed, env)
                elif ph.late == 'unknown':
                    v = UNK('recurrence', ph.mu.sort)
                elif late:
                    v = P.of(ph.mu)
                else:
                    v = UNK('late', ph.mu.sort)
                return p2c(v) if ph.kind == 'c' else v
            return self.mu_val(ph, leaf)
        return val

    def trip_count(self, S0, phs, cond, k):
        rec, le = self.record, self.lenient
        self.record = False
        cs = []
        try:
            for lenient in (False, True):
                self.st = self.place(S0, phs, self.closed_val(phs, k, P.of(k)))
                self.lenient = lenient
                m, n = CTX.mark(), len(self.pc)
                fr = self.frames[-1]
                env = dict(fr.env)
                try:
                    c = self.raw_cond(cond)
                finally:
                    CTX.reset(m)
                    del self.pc[n:]
                    fr.env = env
                if not any(a.k == 'fn' and a.name == 'wrap' for a in all_atoms(c)):
                    break
                cs.append(c)
        finally:
            self.record, self.lenient = rec, le
        if has_unk(c):
            raise Unsup('loop condition depends on unmodelled values')
        if any(ph.mu in c.free for ph in phs.values() if ph.mu is not None):
            raise Unsup('loop condition depends on unsolved variables')
        for x in cs:
            for a in all_atoms(x):
                if a.k == 'fn' and a.name == 'wrap' and k not in a.free:
                    self.ob('wrap', ge0(a.args[0]), self.p.loc(self.curloc)
                            if isinstance(self.curloc, dict) else '?', 'unsigned loop bound %r' % (a.args[0],))
        if c.k == 'false':
            return S.ZERO, P.of(-1)
        if k not in c.free:
            return None, c
        return self.trip(c, k)

    def finish_scalar(self, S0, phs, k, T):
        env = {k: T}

        def val(ph, leaf):
            if ph.kind in ('p', 'c'):
                if ph.closed is not None:
                    v = subst(ph.closed, env)
                    return p2c(v) if ph.kind == 'c' else v
                u = UNK('recurrence', ph.mu.sort)
                return p2c(u) if ph.kind == 'c' else u
            if ph.kind == 'n':
                return Cnt(('unk', self.zero(leaf.ety)))
            return Opq('loop')
        self.st = self.place(S0, phs, val)

    def phase_b(self, S0, phs, cond, body, inc, setup, k, kx, sn):
        self.st = self.place(S0, phs, self.closed_val(phs, k, kx))
        le = self.lenient
        m = CTX.mark()
        try:
            c, rets, thr, alive, extra = self.iteration(cond, body, inc, setup)
        finally:
            CTX.reset(m)
        if not alive:
            raise Unsup('loop body never completes')
        return self.st, rets, thr, extra

    # ------------------------------------------------------------- digits ---
    def digits(self, res, k, T):
        """mixed-radix split of the iteration counter when the body works on
        its quotients and remainders"""
        st1, rets, thr, extra = res
        ats = set()
        for v in st1.values():
            for x in self.value_leaves(v):
                if k in x.free:
                    all_atoms(x, ats)
        bounds = []
        for a in ats:
            if a.k != 'fn' or a.name not in ('idiv', 'mod') or k not in a.free:
                continue
            x, d = a.args
            if k in d.free:
                continue
            if a.name == 'idiv':
                if x == P.of(k):
                    bounds.append(d)
                elif (P.of(k) - x).t:
                    # k - b*(k/b): a remainder
                    for y in (P.of(k) - x).atoms():
                        if y.k == 'fn' and y.name == 'idiv' and y.args[0] == P.of(k) \
                                and P.of(k) - x == y.args[1] * P.of(y):
                            bounds.append(d)
                            bounds.append(y.args[1])
            else:
                if x == P.of(k):
                    bounds.append(d)
                else:
                    y = x.atom()
                    if y is not None and y.k == 'fn' and y.name == 'idiv' and y.args[0] == P.of(k):
                        bounds.append(y.args[1])
                        bounds.append(y.args[1] * d)
        if not bounds:
            return None
        bs = []
        for b in bounds:
            if b not in bs:
                bs.append(b)
        # order by divisibility
        chain = []
        left = list(bs)
        while left:
            for x in left:
                if all(y is x or polydiv_exact(y, x) is not None for y in left):
                    chain.append(x)
                    left.remove(x)
                    break
            else:
                return None
        tot = T
        a = T.atom()
        if a is not None and a.k == 'fn' and a.name == 'max' and S.ZERO in a.args:
            tot = a.args[0] if a.args[1] == S.ZERO else a.args[1]
        chain = [c for c in chain if c != tot and c != S.ONE]
        prev = S.ONE
        syms = []
        kx = S.ZERO
        for b in chain:
            m = polydiv_exact(b, prev)
            if m is None or not is_int(m) or not is_int(polydiv_exact(tot, b) or HALF):
                return None
            d = Sym('d', 'int', S.ZERO, m - 1)
            syms.append(d)
            kx = kx + prev * P.of(d)
            prev = b
        m = polydiv_exact(tot, prev)
        if m is None or not is_int(m) or not chain:
            return None
        d = Sym('d', 'int', S.ZERO, m - 1)
        syms.append(d)
        kx = kx + prev * P.of(d)
        return list(reversed(syms)), kx

    def value_leaves(self, v):
        if isinstance(v, (P, Cond)):
            yield v
        elif isinstance(v, Obj):
            for x in v.f.values():
                yield from self.value_leaves(x)
        elif isinstance(v, ArrV):
            for x in v.e:
                yield from self.value_leaves(x)
        elif isinstance(v, VecV):
            yield v.ln
            if nested(v):
                for x in v.c.base[1]:
                    yield from self.value_leaves(x)
            for l in v.c.layers:
                yield l.idx
                yield l.guard
                yield from self.value_leaves(l.val)
        elif isinstance(v, IterV):
            yield v.idx


# -------------------------------------------------------- content solving ---
class CI:
    def __init__(self, ph, c0, cnt):
        self.ph, self.uid, self.tmpl, self.c0, self.cnt = ph, ph.uid, ph.tmpl, c0, cnt
        self.layers = None      # as written by one iteration (with entries)
        self.done = None        # exit contents
        self.failed = None
        self.busy = False
        self.chained = False
        self.at = None          # special: cell value at iteration start


class Resolver:
    def __init__(self, it, phs, K, kx, k, T, S0, st1):
        self.it, self.phs, self.K, self.kx, self.k, self.T = it, phs, K, kx, k, T
        self.ci = {}
        self.uids = set()
        self.mus = set()
        self.closed_exit = {}
        for (cell, path), ph in phs.items():
            if ph.kind == 'n':
                v0 = lget(S0[cell], path[:-1])
                v1 = lget(st1[cell], path[:-1])
                c = CI(ph, v0, v1)
                if ph.tmpl is None and v1.c.base == ('nest', ph.uid):
                    c.layers = list(v1.c.layers)
                elif ph.tmpl is None:
                    c.failed = 'nested containers'
                elif v1.c.base != ('entry', ph.uid, ph.tmpl):
                    c.failed = 'overwritten'
                    c.over = v1.c
                else:
                    c.layers = list(v1.c.layers)
                self.ci[ph.uid] = c
                self.uids.add(ph.uid)
            elif ph.kind in ('p', 'c'):
                if ph.closed is None:
                    self.mus.add(ph.mu)
                    if ph.late is True:
                        v = lget(st1[cell], path)
                        ph.f = c2p(v) if ph.kind == 'c' else v
        self.memo = {}
        self.partial = False
        self.his = {d: d.hi for d in K}
        self.notes = []

    # -- late scalars: recurrences that read the contents
    def solve_late(self):
        late = [ph for ph in self.phs.values() if ph.late is True]
        for _ in range(len(late) + 1):
            prog = False
            for ph in late:
                if ph.closed is not None or ph.f is None:
                    continue
                try:
                    f = self.resolve(ph.f)
                except Unsup:
                    continue
                f = subst(f, {m: v for m, v in self.mclosed().items()})
                if is_unk(f) or (f.free & (self.mus - {ph.mu})) or has_entry(f, self.uids):
                    continue
                x0 = c2p(ph.init) if ph.kind == 'c' else ph.init
                if len(self.K) == 1:
                    kk = self.K[0]
                    k2 = beyond(kk)
                    r = (solve_bool if ph.kind == 'c' else solve_rec)(subst(f, {kk: P.of(k2)}), ph.mu, x0, k2)
                    if r is None:
                        ph.f = None
                        continue
                    ph.closed = subst(r, {k2: P.of(self.k)})
                else:
                    ab = lin(f, ph.mu)
                    if ab is None or ab[0] != S.ONE:
                        ph.f = None
                        continue
                    self.closed_exit[ph.mu] = x0 + self.total(ab[1])
                    ph.f = None
                self.mus.discard(ph.mu)
                prog = True
            if not prog:
                break

    def mclosed(self):
        return {ph.mu: subst(ph.closed, {self.k: self.kx}) for ph in self.phs.values()
                if ph.late is True and ph.closed is not None}

    def total(self, b):
        for d in reversed(self.K):
            b = Sum(d, S.ZERO, self.his[d], b)
        return b

    def exists(self, g):
        """some iteration satisfies g"""
        try:
            g = self.resolve(g)
        except Unsup:
            return Cond('opq', 'unk', (UNK('loop exit'),))
        g = subst(g, self.mclosed())
        if g.free & self.mus or has_entry(g, self.uids):
            return Cond('opq', 'unk', (UNK('loop exit'),))
        if g.k == 'false':
            return g
        if not (g.free & set(self.K)):
            return c_and(g, simp(ge0(self.T - 1)))
        n = self.total(ite(g, S.ONE, S.ZERO))
        return simp(ge0(n - 1))

    # -- entry resolution at iteration K
    def resolve(self, x):
        if isinstance(x, (P, Cond)):
            if not has_entry(x, self.uids):
                return x
            return map_fns(x, {'entry': self.h_entry})
        return tmap(self.resolve, x)

    def h_entry(self, args, atom):
        uid = args[0]
        if uid not in self.uids:
            return P.of(S.Fn('entry', args, atom.sort))
        t = self.entry(uid, args[2])
        l = tleaves(t)[args[1]]
        return c2p(l) if isinstance(l, Cond) else l

    def entry(self, uid, r):
        ci = self.ci[uid]
        if ci.failed:
            raise Unsup('contents: ' + ci.failed)
        if ci.at is not None:
            return ci.at(r)
        self.chain(ci)
        val = None
        unks = []
        for n, l in enumerate(ci.layers):
            if self.untouched(l, r):
                continue
            v = self.touched(ci, n, l, r)
            if v is None:
                if not self.partial:
                    raise Unsup('read of a cell an earlier iteration may have written')
                unks.append(self.writes(l, r, self.earlier_envs()))
                continue
            if val is not None:
                raise Unsup('several writers')
            val = v
        base = cread(ci.c0.c, r) if not (val is not None and val[0].k == 'true') else None
        if val is None:
            v = base
        elif val[0].k == 'true':
            v = val[1]
        else:
            v = tmerge(val[0], val[1], base)
        for u in unks:
            v = tmerge(u, unk_like(v, 'cell of an earlier iteration'), v)
        return v

    def writes(self, layer, r, envs):
        """condition: at one of the iteration vectors envs (fresh variables for
        the counters that vary) the layer writes cell r"""
        n = S.ZERO
        for env in envs:
            e, ws = sum_env(layer, env)
            hit = eq0(subst(layer.idx, e) - r)
            if not has_entry(layer.guard, self.uids):
                hit = c_and(hit, subst(layer.guard, e))
            cs = [env[d].atom() for d in self.K if d in env]
            n = n + sum_all(cs + ws, ite(hit, S.ONE, S.ZERO))
        return ge0(n - 1)

    def clash(self, layers, n, idx):
        """condition: some other layer writes cell idx at any iteration"""
        c = S.FALSE
        for j, l in enumerate(layers):
            if j != n:
                c = c_or(c, self.writes(l, idx, [self.full_env()]))
        return c

    def earlier_envs(self):
        """iteration vectors lexicographically smaller than K, by level"""
        for l in range(len(self.K)):
            env = {}
            for i, d in enumerate(self.K):
                if i < l:
                    continue
                if i == l:
                    w = Sym('e', 'int', S.ZERO, P.of(d) - 1)
                else:
                    w = Sym('e', 'int', S.ZERO, self.his[d])
                env[d] = P.of(w)
            yield env

    def other_env(self, layer, env):
        """layer instance with fresh inner variables at iteration env"""
        e = dict(env)
        for i, v in enumerate(layer.vars):
            lo, hi = layer.bounds(i)
            w = Sym(v.name, 'int', subst(lo, e), subst(hi, e))
            e[v] = P.of(w)
        return e

    def untouched(self, layer, r):
        if has_entry(layer.idx) or has_entry(r, self.uids):
            raise Unsup('index depends on contents')
        for env in self.earlier_envs():
            e = self.other_env(layer, env)
            idx = subst(layer.idx, e)
            if prove_ge0(idx - r - 1) or prove_ge0(r - idx - 1):
                continue
            # exact: solve for the writer
            ws = tuple(v.atom() for v in e.values() if v.atom() is not None and v.atom().k == 'sym'
                       and (v.atom() in idx.free))
            rest = [v.atom() for v in e.values() if v.atom() not in ws]
            s = solve_index(Layer(ws, idx, S.TRUE, None), r)
            if s is None or simp(s[1]).k != 'false':
                return False
        return True

    def touched(self, ci, n, layer, r):
        """(cond, value) when the cell was written by exactly one solvable
        earlier iteration"""
        try:
            if has_entry(layer.guard, self.uids):
                return None
            val = layer.val
            own = any(has_entry(x, {ci.uid}) for x in dleaves(val))
            if own:
                # a fixed cell, read in every iteration and written by one of them
                if r.free & set(self.K) or len(ci.layers) != 1:
                    return None
            else:
                val = self.resolve(val)
        except Unsup:
            return None
        env = {}
        ws = []
        for d in self.K:
            w = Sym('e', 'int', S.ZERO, self.his[d])
            env[d] = P.of(w)
            ws.append(w)
        e = self.other_env(layer, env)
        iv = [e[v].atom() for v in layer.vars]
        lay = Layer(tuple(ws + iv), subst(layer.idx, e), subst(layer.guard, e), tsubst(val, e))
        s = solve_index(lay, r)
        if s is None:
            return None
        b, cd = s
        less = S.FALSE
        eqs = S.TRUE
        for d, w in zip(self.K, ws):
            less = c_or(less, c_and(eqs, ge0(P.of(d) - 1 - b[w])))
            eqs = c_and(eqs, eq0(P.of(d) - b[w]))
        cd = simp(c_and(cd, simp(less)))
        val = tsubst(lay.val, b)
        if own:
            val = self.before(ci, r, val)
            if val is None:
                return None
        return cd, val

    def before(self, ci, r, val):
        """value written to cell r by the only iteration that writes it: until then
        the cell holds what it held before the loop"""
        old = tleaves(cread(ci.c0.c, r))

        def h(args, atom):
            if args[0] not in self.uids:
                return P.of(S.Fn('entry', args, atom.sort))
            if args[0] != ci.uid or simp(eq0(args[2] - r)).k != 'true':
                raise Unsup('another cell')
            l = old[args[1]]
            return c2p(l) if isinstance(l, Cond) else l
        m = CTX.mark()
        try:
            val = tmap(lambda x: map_fns(x, {'entry': h}) if has_entry(x, self.uids) else x, val)
        except Unsup:
            return None
        finally:
            CTX.reset(m)
        return None if any(has_entry(x, self.uids) for x in dleaves(val)) else val

    # -- exit contents
    def exit_content(self, uid):
        ci = self.ci[uid]
        if ci.done is not None:
            return ci.done
        if ci.failed == 'overwritten':
            c = ci.over
            xs = []
            cmap(lambda x: (xs.append(x), x)[1], c)
            if any(has_entry(x, self.uids) or x.free & self.mus for x in xs) or not prove_ge0(self.T - 1):
                raise Unsup('overwritten contents')
            env = {d: self.his[d] for d in self.K}
            return cmap(lambda x: subst(x, env), c)
        if ci.failed:
            raise Unsup(ci.failed)
        if ci.busy:
            raise Unsup('cyclic contents')
        ci.busy = True
        try:
            ci.done = self.exit_content2(ci)
            return ci.done
        finally:
            ci.busy = False

    def chain(self, ci):
        """a cell per iteration, computed from the cell of the iteration before"""
        if ci.chained or ci.tmpl is None or len(self.K) != 1 or len(ci.layers or ()) != 1:
            return
        ci.chained = True
        k, l = self.K[0], ci.layers[0]
        if l.vars or l.guard.k != 'true' or S._deg_in(l.idx, k) != 1 or has_entry(l.idx, self.uids):
            return
        c = S._coef(l.idx, k, 1)
        prev = l.idx - c
        if not c.t or k in c.free or c.const() is None:
            return
        xs = tleaves(l.val)
        own = [[a for a in all_atoms(x) if a.k == 'fn' and a.name == 'entry' and a.args[0] == ci.uid] for x in xs]
        if not any(own) or any(a.args[2] != prev or a.args[1] != i for i, e in enumerate(own) for a in e):
            return
        k2 = beyond(k)
        base = tleaves(cread(ci.c0.c, subst(prev, {k: S.ZERO})))
        vals = []
        ci.chained = False
        ci.busy, busy = True, ci.busy
        try:
            for x, es, b in zip(xs, own, base):
                if not es:
                    vals.append(x)
                    continue
                if isinstance(x, Cond) or isinstance(b, Cond) or len(es) != 1:
                    return
                X = Sym('x', es[0].sort)
                f = map_atom_to(x, es[0], P.of(X))
                if has_entry(f, {ci.uid}):
                    return
                f = subst(self.resolve(f), self.mclosed())
                if f.free & self.mus or has_entry(f, self.uids):
                    return
                r = solve_rec(subst(f, {k: P.of(k2)}), X, b, k2)
                if r is None:
                    return
                vals.append(subst(f, {X: subst(r, {k2: P.of(k)})}))
            ci.chained = True
            ci.layers = [Layer(l.vars, l.idx, l.guard, tbuild(l.val, iter(vals)), l.rng)]
        except Unsup:
            return
        finally:
            ci.busy = busy

    def exit_content2(self, ci):
        self.chain(ci)
        Ks = set(self.K)
        stat, mov = [], []
        layers = list(ci.layers)
        for n, l in enumerate(layers):
            l2 = self.skew(ci, l)
            layers[n] = l2
            if l2.idx.free & Ks:
                mov.append(n)
            else:
                stat.append(n)
        ci.layers = layers
        out = []
        clash = False
        if stat:
            # all layers must write pairwise different cells
            for n in stat:
                for j in range(len(layers)):
                    if j != n and not self.cells_disjoint(layers[n], layers[j]):
                        if not self.partial:
                            raise Unsup('overlapping writes')
                        clash = True
            ats = []
            for n in stat:
                fin, at = self.stationary(ci, n)
                out.append(fin)
                ats.append((layers[n], at))
            if not mov:
                def at(r):
                    for l, a in ats:
                        v = a(r)
                        if v is not None:
                            return v
                    return cread(ci.c0.c, r)
                ci.at = at
        # order of moving layers
        for i in mov:
            for j in mov:
                if i < j and not self.no_conflict(layers[i], layers[j]):
                    if not self.partial:
                        raise Unsup('layers interleave')
                    clash = True
        if clash:
            ci.at = None
        for n in mov:
            l = layers[n]
            m = CTX.mark()
            for i in range(len(l.vars)):
                lo, hi = l.bounds(i)
                CTX.push(ge0(hi - lo))
            if l.guard.k != 'true':
                CTX.push(l.guard)
            try:
                val = self.clean(l.val)
            except Unsup as e:
                if not self.partial:
                    raise
                val = unk_like(l.val, str(e))
            finally:
                CTX.reset(m)
            try:
                guard = self.clean(l.guard)
            except Unsup as e:
                if not self.partial:
                    raise
                guard, val = S.TRUE, unk_like(val, str(e))
            vs = tuple(self.K) + l.vars
            rng = []
            for d in self.K:
                rng += [S.ZERO, self.his[d]]
            # digits the index does not depend on: last iteration wins
            miss = [d for d in self.K if d not in l.idx.free]
            for d in miss:
                if d in guard.free or any(d in x.free for x in l.rng):
                    raise Unsup('repeated conditional writes')
                if not prove_ge0(self.his[d]):
                    raise Unsup('repeated writes')
                env = {d: self.his[d]}
                val = tsubst(val, env)
                i = vs.index(d)
                vs = vs[:i] + vs[i + 1:]
                rng = rng[:2 * i] + rng[2 * i + 2:]
            out.append(Layer(vs, l.idx, guard, val, tuple(rng) + l.rng))
        if clash:
            nums = stat + mov
            out = [Layer(o.vars, o.idx, o.guard, self.clashed(layers, n, o), o.rng)
                   for n, o in zip(nums, out)]
        return Cnt(ci.c0.c.base, ci.c0.c.layers + tuple(out))

    def clashed(self, layers, n, o):
        return tmerge(self.clash(layers, n, o.idx), unk_like(o.val, 'written by several statements'), o.val)

    def clean(self, x):
        y = self.resolve(x)
        y = tsubst(y, self.mclosed()) if not isinstance(y, (P, Cond)) else subst(y, self.mclosed())
        ls = [y] if isinstance(y, (P, Cond)) else dleaves(y)
        if any(l.free & self.mus for l in ls):
            # values of unsolved scalars
            raise Unsup('depends on an unsolved variable')
        return y

    def skew(self, ci, l):
        """accumulation into shifted cells: make the cell the variable"""
        Ks = set(self.K)
        if not (l.idx.free & Ks) or not l.vars or ci.tmpl is None:
            return l
        own = False
        for i, x in enumerate(tleaves(l.val)):
            own = own or S.Fn('entry', (ci.uid, i, l.idx), leaf_sort(x)) in all_atoms(x)
        if not own or self.untouched(l, l.idx):
            return l
        for n, v in enumerate(l.vars):
            if S._deg_in(l.idx, v) != 1:
                continue
            c = S._coef(l.idx, v, 1)
            part = S.ZERO
            for d in self.K:
                if d in l.idx.free:
                    if S._deg_in(l.idx, d) != 1:
                        return l
                    part = part + P.of(d) * S._coef(l.idx, d, 1)
            e = polydiv_exact(part, c)
            if e is None or any(w in e.free for w in l.vars):
                continue
            lo, hi = l.bounds(n)
            w = Sym(v.name, 'int', lo + e, hi + e)
            env = {v: P.of(w) - e}
            vs = l.vars[:n] + (w,) + l.vars[n + 1:]
            rng = [subst(x, env) for x in l.rng]
            rng[2 * n], rng[2 * n + 1] = lo + e, hi + e
            return Layer(vs, subst(l.idx, env), subst(l.guard, env), tsubst(l.val, env), tuple(rng))
        return l

    def full_env(self):
        return {d: P.of(Sym('e', 'int', S.ZERO, self.his[d])) for d in self.K}

    def cells_disjoint(self, a, b):
        """no iteration of a writes a cell some iteration of b writes"""
        ea = self.other_env(a, self.full_env())
        eb = self.other_env(b, self.full_env())
        x, y = subst(a.idx, ea), subst(b.idx, eb)
        if prove_ge0(x - y - 1) or prove_ge0(y - x - 1):
            return True
        m = CTX.mark()
        CTX.push(subst(a.guard, ea))
        CTX.push(subst(b.guard, eb))
        try:
            return prove_ge0(x - y - 1) or prove_ge0(y - x - 1) or decide(eq0(x - y)) is False
        finally:
            CTX.reset(m)

    def no_conflict(self, a, b):
        """a (first in the body) at a later iteration never writes a cell b
        wrote at an earlier one"""
        ea = self.other_env(a, {})
        x = subst(a.idx, ea)
        for env in self.earlier_envs():
            eb = self.other_env(b, env)
            y = subst(b.idx, eb)
            if prove_ge0(x - y - 1) or prove_ge0(y - x - 1):
                continue
            m = CTX.mark()
            CTX.push(subst(a.guard, ea))
            CTX.push(subst(b.guard, eb))
            try:
                if prove_ge0(x - y - 1) or prove_ge0(y - x - 1):
                    continue
            finally:
                CTX.reset(m)
            return False
        return True

    def stationary(self, ci, n):
        """cells written by every iteration: solve their recurrence"""
        l = ci.layers[n]
        Ks = set(self.K)
        r = self.stencil(ci, l)
        if r is not None:
            return r
        guard = l.guard
        if has_entry(guard, self.uids):
            raise Unsup('guard depends on contents')
        # ranges that depend on the iteration become guards
        vs, env, rng = [], {}, []
        for i, v in enumerate(l.vars):
            lo, hi = l.bounds(i)
            lo, hi = subst(lo, env), subst(hi, env)
            if (lo.free | hi.free) & Ks:
                lo2, hi2 = self.over(lo, False), self.over(hi, True)
                if lo2 is None or hi2 is None:
                    raise Unsup('iteration dependent range')
                w = Sym(v.name, 'int', lo2, hi2)
                guard = c_and(guard, simp(ge0(P.of(w) - lo)), simp(ge0(hi - P.of(w))))
                lo, hi = lo2, hi2
            else:
                w = Sym(v.name, 'int', lo, hi)
            env[v] = P.of(w)
            vs.append(w)
            rng += [lo, hi]
        idx = subst(l.idx, env)
        guard = subst(guard, env)
        val = tsubst(l.val, env)
        lay = Layer(tuple(vs), idx, guard, val, tuple(rng))
        leaves = []
        tm = tleaves(entry_tree(ci.uid, ci.tmpl, idx))
        c0 = tleaves(cread(ci.c0.c, idx))
        single = self.K[0] if len(self.K) == 1 else None
        fins, mids = [], []
        for i, x in enumerate(tleaves(val)):
            try:
                f, r = self.stationary_leaf(x, ci, tm[i].atom(), lay, guard, c0[i], single)
            except Unsup as e:
                if not self.partial:
                    raise
                f, r = UNK(str(e), leaf_sort(x)), None
            fins.append(f)
            mids.append(r)
        fin = Layer(tuple(vs), idx, S.TRUE, tbuild(val, iter(fins)), tuple(rng))

        def at(r):
            if any(m is None for m in mids):
                raise Unsup('intermediate contents')
            lay2 = Layer(tuple(vs), idx, S.TRUE, tbuild(val, iter(mids)), tuple(rng))
            s = solve_index(lay2, r)
            if s is None:
                raise Unsup('index')
            b, cd = s
            cd = simp(cd)
            if cd.k == 'false':
                return None
            v = tsubst(lay2.val, b)
            return v if cd.k == 'true' else tmerge(cd, v, cread(ci.c0.c, r))
        return fin, at

    def stationary_leaf(self, x, ci, me, lay, guard, c0, single):
        if isinstance(x, Cond):
            raise Unsup('boolean contents')
        f = self.resolve_except(x, ci, me, lay)
        f = subst(f, self.mclosed())
        if f.free & self.mus:
            raise Unsup('depends on an unsolved variable')
        f = ite(guard, f, P.of(me)) if guard.k != 'true' else f
        X = Sym('x', me.sort)
        f = map_atom_to(f, me, P.of(X))
        if has_entry(f, self.uids):
            raise Unsup('cross dependency')
        if single is not None:
            k2 = beyond(single)
            r = solve_rec(subst(f, {single: P.of(k2)}), X, c0, k2)
            if r is None:
                raise Unsup('recurrence of contents')
            return subst(r, {k2: self.T}), subst(r, {k2: P.of(single)})
        ab = lin(f, X)
        if ab is None or ab[0] != S.ONE:
            raise Unsup('recurrence of contents')
        return c0 + self.total(ab[1]), None

    def over(self, p, up):
        for d in self.K:
            if d in p.free:
                if S._deg_in(p, d) != 1:
                    return None
                c, r = S._coef(p, d, 1), S._coef(p, d, 0)
                if prove_ge0(c):
                    p = r + c * (self.his[d] if up else S.ZERO)
                elif prove_ge0(-c):
                    p = r + c * (S.ZERO if up else self.his[d])
                else:
                    return None
        return p

    def resolve_except(self, x, ci, me, lay):
        def h(args, atom):
            a = S.Fn('entry', args, atom.sort)
            if a is me:
                return P.of(a)
            uid = args[0]
            if uid == ci.uid:
                r = args[2]
                # never written by any iteration?
                us = []
                for o in ci.layers:
                    e = self.other_env(o, self.full_env())
                    idx = subst(o.idx, e)
                    if prove_ge0(idx - r - 1) or prove_ge0(r - idx - 1):
                        continue
                    if not self.partial or has_entry(r, self.uids):
                        raise Unsup('reads other cells of the same contents')
                    us.append(self.writes(o, r, [self.full_env()]))
                v = c2pl(tleaves(cread(ci.c0.c, r))[args[1]])
                for u in us:
                    v = ite(u, UNK('cell written by the loop', atom.sort), v)
                return v
            return self.h_entry(args, atom)
        return map_fns(x, {'entry': h}) if has_entry(x, self.uids) else x

    def stencil(self, ci, l):
        """val = alpha*E(idx) + beta*E(idx + delta) with a range shrinking by
        one cell per iteration"""
        if len(self.K) != 1 or not l.vars or l.guard.k != 'true':
            return None
        k = self.K[0]
        leaves = tleaves(l.val)
        par = None
        own = tleaves(entry_tree(ci.uid, ci.tmpl, l.idx))
        for i, x in enumerate(leaves):
            if isinstance(x, Cond):
                return None
            es = [a for a in all_atoms(x) if a.k == 'fn' and a.name == 'entry' and a.args[0] == ci.uid]
            if len(es) != 2 or own[i].atom() not in es:
                return None
            me = own[i].atom()
            nb = es[0] if es[1] is me else es[1]
            if nb.args[1] != me.args[1]:
                return None
            ab = lin(x, me)
            if ab is None:
                return None
            ab2 = lin(ab[1], nb)
            if ab2 is None or ab2[1].t or has_entry(ab[0]) or has_entry(ab2[0]):
                return None
            al, be = ab[0], ab2[0]
            st = nb.args[2] - l.idx
            if par is None:
                par = (al, be, st)
            elif par != (al, be, st):
                return None
        al, be, st = par
        fr = al.free | be.free
        if k in fr or any(v in fr for v in l.vars) or k in st.free:
            return None
        for n, v in enumerate(l.vars):
            if S._deg_in(l.idx, v) != 1:
                continue
            c = S._coef(l.idx, v, 1)
            if any(w in c.free for w in l.vars):
                continue
            d = polydiv_exact(st, c)
            d = d.as_int() if d is not None else None
            if d not in (1, -1):
                continue
            if any(v in x.free for i, x in enumerate(l.rng) if i // 2 != n):
                continue
            if any(k in x.free for i, x in enumerate(l.rng) if i // 2 != n):
                continue
            lo, hi = l.bounds(n)
            # normalise: unit slope of the moving end
            if d == 1:
                if k in lo.free or S._deg_in(hi, k) != 1 or S._coef(hi, k, 1) != P.of(-1):
                    continue
                h = S._coef(hi, k, 0)
                mj = h + 1 - P.of(v)
                lo2, hi2 = lo, h
            else:
                if k in hi.free or S._deg_in(lo, k) != 1 or S._coef(lo, k, 1) != S.ONE:
                    continue
                h = S._coef(lo, k, 0)
                mj = P.of(v) - h + 1
                lo2, hi2 = h, hi
            w = Sym(v.name, 'int', lo2, hi2)
            env = {v: P.of(w)}
            vs = list(l.vars)
            vs[n] = w
            rng = list(l.rng)
            rng[2 * n], rng[2 * n + 1] = lo2, hi2
            idx = subst(l.idx, env)
            mj = subst(mj, env)

            def value(kk, idx=idx, mj=mj):
                m = fmin(kk, mj)
                q = Sym('l', 'int', S.ZERO, m)
                src = tleaves(cread(ci.c0.c, idx + st * P.of(q)))
                out = []
                for x in src:
                    out.append(Sum(q, S.ZERO, m, binom(m, P.of(q)) * power(al, m - P.of(q))
                                   * power(be, P.of(q)) * x))
                return tbuild(l.val, iter(out))
            fin = Layer(tuple(vs), idx, S.TRUE, value(self.T), tuple(rng))

            def at(r):
                lay2 = Layer(tuple(vs), idx, S.TRUE, value(P.of(k)), tuple(rng))
                s = solve_index(lay2, r)
                if s is None:
                    raise Unsup('index')
                b, cd = s
                cd = simp(cd)
                if cd.k == 'false':
                    return None
                vv = tsubst(lay2.val, b)
                return vv if cd.k == 'true' else tmerge(cd, vv, cread(ci.c0.c, r))
            return fin, at
        return None

    def exit_state(self, S0):
        it = self.it
        env = {self.k: self.T}
        # contents first (they may be needed by late scalars)
        conts = {}
        for uid in self.ci:
            try:
                conts[uid] = self.exit_content(uid)
            except Unsup as e:
                conts[uid] = None
                it.notes.append((self.loc, 'loop contents: ' + str(e)))
        # late scalars may have become solvable
        self.solve_late()
        for part in (False, True):
            self.partial = PARTIAL[0] = part
            if part and any(c is None for c in conts.values()):
                self.solve_late()
            for uid in self.ci:
                if conts[uid] is None:
                    try:
                        conts[uid] = self.exit_content(uid)
                    except Unsup as e:
                        if part:
                            it.notes.append((self.loc, 'loop contents (partial): ' + str(e)))
            if part:
                self.solve_late()

        def val(ph, leaf):
            if ph.kind in ('p', 'c'):
                if ph.mu in self.closed_exit:
                    v = self.closed_exit[ph.mu]
                elif ph.closed is not None:
                    v = subst(ph.closed, env)
                else:
                    v = UNK('recurrence', ph.mu.sort)
                return p2c(v) if ph.kind == 'c' else v
            if ph.kind == 'n':
                c = conts[ph.uid]
                if c is None:
                    return Cnt(('unk', it.zero(leaf.ety)))
                return c
            return Opq('loop')
        return it.place(S0, self.phs, val)


def c2pl(l):
    return c2p(l) if isinstance(l, Cond) else l


def map_atom_to(f, atom, v):
    """replace an entry atom by v"""
    def h(args, a):
        b = S.Fn('entry', args, a.sort)
        return v if b is atom else P.of(b)
    return map_fns(f, {'entry': h}) if occurs(f, atom) else f
