"""Abstract values, container contents and index solving."""
from sym import *
import sym as S


class Unsup(Exception):
    """construct outside the modelled fragment"""


class Obj:
    __slots__ = ('rec', 'f')

    def __init__(self, rec, f):
        self.rec, self.f = rec, f

    def __eq__(self, o):
        return isinstance(o, Obj) and self.rec == o.rec and self.f == o.f

    __hash__ = None

    def __repr__(self):
        return 'Obj%s{%s}' % (self.rec, ', '.join('%s: %r' % x for x in self.f.items()))


class ArrV:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    def __eq__(self, o):
        return isinstance(o, ArrV) and self.e == o.e

    __hash__ = None

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.e))


class VecV:
    """dynamic container: length and contents"""
    __slots__ = ('ln', 'c', 'ety')

    def __init__(self, ln, c, ety):
        self.ln, self.c, self.ety = P.of(ln), c, ety

    def __eq__(self, o):
        return isinstance(o, VecV) and self.ln == o.ln and self.c == o.c

    __hash__ = None

    def __repr__(self):
        return 'Vec(%r, %r)' % (self.ln, self.c)


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def sub(self, *st):
        return Ref(self.cell, self.path + st)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return 'Ref(%s%r)' % (self.cell, self.path)


class Ptr:
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.ref == o.ref

    __hash__ = None


class IterV:
    __slots__ = ('ref', 'idx', 'val')

    def __init__(self, ref, idx, val=None):
        self.ref, self.idx = ref, P.of(idx)
        self.val = val              # value of the element, where known without the index

    def __eq__(self, o):
        return isinstance(o, IterV) and self.ref == o.ref and self.idx == o.idx

    __hash__ = None


class Clo:
    __slots__ = ('f', 'specs', 'env', 'this')

    def __init__(self, f, specs, env, this):
        self.f, self.specs, self.env, self.this = f, specs, env, this


class StrV:
    """text whose contents are not modelled"""
    def __eq__(self, o):
        return isinstance(o, StrV)

    __hash__ = None

    def __repr__(self):
        return 'Str'


class Opq:
    def __init__(self, why=''):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Opq)

    __hash__ = None

    def __repr__(self):
        return 'Opq(%s)' % self.why


_unkn = itertools.count(1)


def UNK(why='', sort='real'):
    return fn('unk', (why, next(_unkn)), sort)


# ---------------------------------------------------------------- trees ------
def tmap(f, v):
    """apply f to the scalar leaves (P, Cond)"""
    if isinstance(v, (P, Cond)):
        return f(v)
    if isinstance(v, Obj):
        return Obj(v.rec, {k: tmap(f, x) for k, x in v.f.items()})
    if isinstance(v, ArrV):
        return ArrV([tmap(f, x) for x in v.e])
    if isinstance(v, VecV):
        return VecV(f(v.ln), cmap(f, v.c), v.ety)
    if isinstance(v, Ref):
        return Ref(v.cell, tuple(('a', f(s[1])) if s[0] == 'a' and isinstance(s[1], P)
                                 else s for s in v.path))
    if isinstance(v, IterV):
        r = IterV(tmap(f, v.ref), f(v.idx))
        if v.val is not None:
            r.val = tmap(f, v.val)
        return r
    if isinstance(v, Ptr):
        return Ptr(tmap(f, v.ref)) if v.ref is not None else v
    return v


def cmap(f, c):
    b = c.base
    if b[0] == 'const':
        b = ('const', tmap(f, b[1]))
    elif b[0] == 'lam':
        b = ('lam', b[1], tmap(f, b[2]))
    elif b[0] == 'list':
        b = ('list', tuple(tmap(f, x) for x in b[1]))
    ls = []
    for l in c.layers:
        ls.append(Layer(l.vars, f(l.idx), f(l.guard), tmap(f, l.val),
                        tuple(f(x) for x in l.rng)))
    return Cnt(b, tuple(ls))


def tsubst(v, env):
    return tmap(lambda x: subst(x, env), v)


def tleaves(v, out=None):
    out = [] if out is None else out
    if isinstance(v, (P, Cond)):
        out.append(v)
    elif isinstance(v, Obj):
        for x in v.f.values():
            tleaves(x, out)
    elif isinstance(v, ArrV):
        for x in v.e:
            tleaves(x, out)
    elif isinstance(v, VecV):
        raise Unsup('nested container as element')
    return out


def dleaves(v):
    """scalar leaves, those of nested containers included"""
    out = []

    def f(x):
        out.append(x)
        return x
    tmap(f, v)
    return out


def tbuild(v, it):
    """same shape, leaves taken from iterator"""
    if isinstance(v, (P, Cond)):
        return next(it)
    if isinstance(v, Obj):
        return Obj(v.rec, {k: tbuild(x, it) for k, x in v.f.items()})
    if isinstance(v, ArrV):
        return ArrV([tbuild(x, it) for x in v.e])
    return v


def c2p(c):
    """bool as number"""
    if isinstance(c, Cond):
        return ite(c, S.ONE, S.ZERO)
    return c


def p2c(p):
    if isinstance(p, P):
        a = p.atom()
        if a is not None and a.k == 'ite' and a.args[1] == S.ONE and a.args[2] == S.ZERO:
            return a.args[0]
        return c_not(eq0(p))
    return p


def tmerge(c, a, b):
    """value of (c ? a : b)"""
    if c.k == 'true':
        return a
    if c.k == 'false':
        return b
    if a is b:
        return a
    if isinstance(a, Cond) or isinstance(b, Cond):
        a, b = p2c(a), p2c(b)
        if a == b:
            return a
        if a.k == 'true' and b.k == 'false':
            return c
        if a.k == 'false' and b.k == 'true':
            return c_not(c)
        if a.k == 'true':
            return c_or(c, b)
        if a.k == 'false':
            return c_and(c_not(c), b)
        if b.k == 'true':
            return c_or(c_not(c), a)
        if b.k == 'false':
            return c_and(c, a)
        return c_or(c_and(c, a), c_and(c_not(c), b))
    if isinstance(a, P) and isinstance(b, P):
        return mite(c, a, b)
    if hasattr(a, 'tmerge'):
        return a.tmerge(c, b)
    if hasattr(b, 'tmerge'):
        return b.tmerge(c_not(c), a)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.rec == b.rec:
        return Obj(a.rec, {k: tmerge(c, a.f[k], b.f[k]) if k in b.f else a.f[k]
                           for k in a.f})
    if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.e) == len(b.e):
        return ArrV([tmerge(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, VecV) and isinstance(b, VecV):
        return VecV(mite(c, a.ln, b.ln), cmerge(c, a, b), a.ety)
    if isinstance(a, IterV) and isinstance(b, IterV) and a.ref == b.ref:
        return IterV(a.ref, mite(c, a.idx, b.idx))
    try:
        if a == b:
            return a
    except Exception:
        pass
    if isinstance(a, (StrV, Opq)) or isinstance(b, (StrV, Opq)):
        return StrV() if isinstance(a, StrV) else Opq('merge')
    if isinstance(a, Clo):
        return a
    raise Unsup('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def mite(c, a, b):
    """ite with max/min recognition"""
    if a == b:
        return a
    if c.k in ('gt', 'ge'):
        d = a - b
        p = c.a[0]
        if c.k == 'ge' and is_int(p):
            if p == d or p == d - 1:
                return fmax(a, b)
            if p == -d or p == -d - 1:
                return fmin(a, b)
        if p == d:
            return fmax(a, b)
        if p == -d:
            return fmin(a, b)
    if c.k == 'not' and c.a[0].k in ('gt', 'ge'):
        return mite(c.a[0], b, a)
    # common additive / multiplicative part is kept outside where simple
    return ite(c, a, b)


# ------------------------------------------------------------- contents ------
class Layer:
    """for all admissible vars with guard: element idx := val.
    rng: extra conditions are the lo/hi of vars (held by the symbols)"""
    __slots__ = ('vars', 'idx', 'guard', 'val', 'rng')

    def __init__(self, vars, idx, guard, val, rng=None):
        self.vars, self.idx, self.guard, self.val = tuple(vars), P.of(idx), guard, val
        if rng is None:
            rng = []
            for v in self.vars:
                rng += [v.lo, v.hi]
        self.rng = tuple(rng)

    def bounds(self, i):
        return self.rng[2 * i], self.rng[2 * i + 1]

    def __eq__(self, o):
        return self is o or (isinstance(o, Layer) and self.vars == o.vars and
                             self.idx == o.idx and self.guard == o.guard and
                             self.val == o.val and self.rng == o.rng)

    __hash__ = None

    def __repr__(self):
        return '{%s: [%r] if %r := %r}' % (
            ', '.join('%r in %r..%r' % (v, *self.bounds(i)) for i, v in enumerate(self.vars)),
            self.idx, self.guard, self.val)


class Cnt:
    __slots__ = ('base', 'layers')

    def __init__(self, base, layers=()):
        self.base, self.layers = base, tuple(layers)

    def __eq__(self, o):
        return self is o or (isinstance(o, Cnt) and self.base == o.base
                             and self.layers == o.layers)

    __hash__ = None

    def __repr__(self):
        return 'Cnt(%r | %r)' % (self.base, self.layers)


def c_list(xs):
    return Cnt(('list', tuple(xs)))


def c_const(x):
    return Cnt(('const', x))


def entry_tree(uid, tmpl, idx):
    ls = tleaves(tmpl)
    out = []
    for i, l in enumerate(ls):
        if isinstance(l, Cond):
            out.append(c_not(eq0(P.of(Fn('entry', (uid, i, idx), 'int')))))
        else:
            out.append(P.of(Fn('entry', (uid, i, idx), leaf_sort(l))))
    return tbuild(tmpl, iter(out))


def leaf_sort(l):
    if isinstance(l, P):
        a = l.atom()
        if a is not None:
            return a.sort
    return 'int'


def base_read(b, r):
    k = b[0]
    if k == 'const':
        return b[1]
    if k == 'lam':
        return tsubst(b[2], {b[1]: r})
    if k == 'entry':
        return entry_tree(b[1], b[2], r)
    if k == 'nest':
        raise Unsup('entry of a container of containers changed by a loop')
    if k == 'list':
        i = r.as_int()
        if i is not None:
            if 0 <= i < len(b[1]):
                return b[1][i]
            raise Unsup('read outside list')
        if not b[1]:
            raise Unsup('read of empty container')
        v = b[1][-1]
        for j in range(len(b[1]) - 2, -1, -1):
            v = tmerge(simp(eq0(r - j)), b[1][j], v)
        return v
    if k == 'unk':
        return tmap(lambda x: UNK('content', x.atom().sort if isinstance(x, P) and x.atom() else 'real')
                    if isinstance(x, P) else Cond('opq', 'unk', (UNK(),)), b[1])
    raise Unsup(k)


def var_extent(layer, i):
    """upper bound of hi-lo+1 of variable i not depending on the other vars"""
    lo, hi = layer.bounds(i)
    hi2 = bound_over(hi, layer, i, True)
    lo2 = bound_over(lo, layer, i, False)
    return lo2, hi2


def bound_over(p, layer, i, up):
    for _ in range(8):
        dep = [v for v in layer.vars if v in p.free]
        if not dep:
            return p
        # eliminate the last dependent variable
        v = dep[-1]
        d = S._deg_in(p, v)
        if d != 1:
            return None
        k = S._coef(p, v, 1)
        r = S._coef(p, v, 0)
        lo, hi = layer.bounds(layer.vars.index(v))
        if prove_ge0(k):
            p = r + k * (hi if up else lo)
        elif prove_ge0(-k):
            p = r + k * (lo if up else hi)
        else:
            return None
    return None


def solve_index(layer, target):
    """(binding, condition) with condition <=> the layer writes cell `target`;
    None if not solvable by mixed radix"""
    vs = list(layer.vars)
    idx = layer.idx
    if not vs:
        return {}, c_and(eq0(idx - target), layer.guard)
    items = []
    rest = idx
    for i, v in enumerate(vs):
        d = S._deg_in(rest, v)
        if d is None or d > 1:
            return None
        if d == 0:
            items.append((v, S.ZERO, i))
            continue
        k = S._coef(rest, v, 1)
        rest = S._coef(rest, v, 0)
        if any(w in k.free for w in vs):
            return None
        items.append((v, k, i))
    if any(w in rest.free for w in vs):
        return None
    if any(not k.t for _, k, _ in items):
        # a variable the index does not depend on
        return None
    t = target - rest
    norm = []
    for v, k, i in items:
        lo2, hi2 = var_extent(layer, i)
        if lo2 is None or hi2 is None:
            return None
        if prove_ge0(k - 1):
            t = t - k * lo2
            norm.append([v, k, 1, lo2, hi2, i])
        elif prove_ge0(-k - 1):
            t = t - k * hi2
            norm.append([v, -k, -1, lo2, hi2, i])
        else:
            return None
    # order by weight
    order = []
    left = list(norm)
    while left:
        low = None
        for x in left:
            if all(y is x or prove_ge0(y[1] - x[1] * (x[4] - x[3] + 1)) for y in left):
                low = x
                break
        if low is None:
            return None
        order.append(low)
        left.remove(low)
    binding = {}
    conds = [simp(ge0(t))]
    if conds[0].k == 'false':
        return {}, S.FALSE
    r = t
    for n, x in enumerate(reversed(order)):
        v, k, sg, lo2, hi2, i = x
        if n == len(order) - 1:
            if k == S.ONE:
                q, r = r, S.ZERO
            else:
                q = idiv(r, k)
                r = imod(r, k)
        else:
            q = idiv(r, k)
            r = r - q * k
        binding[v] = (lo2 + q) if sg > 0 else (hi2 - q)
    conds.append(simp(eq0(r)))
    for i, v in enumerate(vs):
        lo, hi = layer.bounds(i)
        lo, hi = subst(lo, binding), subst(hi, binding)
        conds.append(simp(ge0(binding[v] - lo)))
        conds.append(simp(ge0(hi - binding[v])))
    if layer.guard.k != 'true':
        conds.append(simp(subst(layer.guard, binding)))
    return binding, c_and(*conds)


def fresh_layer(layer):
    """layer with fresh variables carrying their ranges (for range proofs)"""
    env = {}
    nv = []
    for i, v in enumerate(layer.vars):
        lo, hi = layer.bounds(i)
        w = Sym(v.name + "'", 'int', subst(lo, env), subst(hi, env))
        env[v] = P.of(w)
        nv.append(w)
    return nv, subst(layer.idx, env), env


def disjoint(layer, target):
    """provably never writes cell target (by inequality)"""
    nv, idx, env = fresh_layer(layer)
    if prove_ge0(idx - target - 1) or prove_ge0(target - idx - 1):
        return True
    return False


def cread(c, r, upto=None):
    r = P.of(r)
    ls = c.layers if upto is None else c.layers[:upto]
    for n in range(len(ls) - 1, -1, -1):
        l = ls[n]
        if not l.vars:
            cd = simp(c_and(simp(eq0(l.idx - r)), l.guard))
            if cd.k == 'false':
                continue
            if cd.k == 'true':
                return l.val
            w = unwritten(l.val) if n == 0 and c.base == ('list', ()) else cread(c, r, n)
            return tmerge(cd, l.val, w)
        if disjoint(l, r):
            continue
        s = solve_index(l, r)
        if s is None:
            if not PARTIAL[0]:
                raise Unsup('index not solvable: %r for %r' % (l.idx, r))
            return by_count(l, r, cread(c, r, n))
        b, cd = s
        cd = simp(cd)
        if cd.k == 'false':
            continue
        m = CTX.mark()
        CTX.push(cd)
        try:
            v = tsubst(l.val, b)
        finally:
            CTX.reset(m)
        if cd.k == 'true':
            return v
        m = CTX.mark()
        CTX.push(c_not(cd))
        try:
            w = unwritten(v) if n == 0 and c.base == ('list', ()) else cread(c, r, n)
        finally:
            CTX.reset(m)
        return tmerge(cd, v, w)
    return base_read(c.base, r)


PARTIAL = [True]      # approximate by guarded unknowns instead of giving up


def sum_env(layer, env=None):
    """fresh variables for a layer: (substitution, list of them)"""
    e = dict(env or {})
    ws = []
    for i, v in enumerate(layer.vars):
        lo, hi = layer.bounds(i)
        w = Sym(v.name, 'int', subst(lo, e), subst(hi, e))
        e[v] = P.of(w)
        ws.append(w)
    return e, ws


def sum_all(ws, x):
    for w in reversed(ws):
        x = Sum(w, w.lo, w.hi, x)
    return x


def unk_like(v, why):
    return tmap(lambda x: UNK(why, leaf_sort(x)) if isinstance(x, P)
                else Cond('opq', 'unk', (UNK(why),)), v)


def by_count(l, r, below):
    """cell r after the writes of layer l: the only writer's value, unknown when
    there are several, what was there before when there is none"""
    e, ws = sum_env(l)
    hit = c_and(eq0(subst(l.idx, e) - r), subst(l.guard, e))
    n = sum_all(ws, ite(hit, S.ONE, S.ZERO))

    def pick(x):
        y = c2p(x) if isinstance(x, Cond) else x
        y = sum_all(ws, ite(hit, subst(y, e), S.ZERO))
        return p2c(y) if isinstance(x, Cond) else y
    v = tmap(pick, l.val)
    v = tmerge(eq0(n - 1), v, unk_like(v, 'cell written several times'))
    return tmerge(eq0(n), below, v)


def unwritten(v):
    return tmap(lambda x: UNK('unwritten cell', leaf_sort(x)) if isinstance(x, P)
                else Cond('opq', 'unk', (UNK('unwritten cell'),)), v)


def cwrite(c, idx, val, guard=None):
    idx = P.of(idx)
    guard = S.TRUE if guard is None else guard
    if c.base[0] == 'list' and not c.layers:
        i = idx.as_int()
        if i is not None and guard.k == 'true':
            if not 0 <= i < len(c.base[1]):
                raise Unsup('write outside list')
            x = list(c.base[1])
            x[i] = val
            return c_list(x)
    ls = c.layers
    if ls and not ls[-1].vars and ls[-1].idx == idx and ls[-1].guard == guard:
        ls = ls[:-1]
    # drop shadowed constant-index writes
    elif guard.k == 'true' and idx.as_int() is not None:
        for n in range(len(ls)):
            if not ls[n].vars and ls[n].idx == idx and ls[n].guard.k == 'true' and all(
                    not m.vars and m.idx.as_int() is not None for m in ls[n:]):
                ls = ls[:n] + ls[n + 1:]
                break
    return Cnt(c.base, ls + (Layer((), idx, guard, val, ()),))


def cmerge(c, a, b):
    """contents of (c ? a : b)"""
    ca, cb = a.c, b.c
    if ca == cb:
        return ca
    if ca.base[0] == 'list' and cb.base[0] == 'list' and not ca.layers and not cb.layers \
            and len(ca.base[1]) == len(cb.base[1]):
        return c_list([tmerge(c, x, y) for x, y in zip(ca.base[1], cb.base[1])])
    if ca.base == cb.base:
        n = 0
        while n < len(ca.layers) and n < len(cb.layers) and ca.layers[n] == cb.layers[n]:
            n += 1
        # same last write on both sides
        la, lb = ca.layers[n:], cb.layers[n:]
        if len(la) == 1 and len(lb) == 1 and not la[0].vars and not lb[0].vars \
                and la[0].idx == lb[0].idx and la[0].guard == lb[0].guard:
            return Cnt(ca.base, ca.layers[:n] + (
                Layer((), la[0].idx, la[0].guard, tmerge(c, la[0].val, lb[0].val), ()),))
        nc = c_not(c)
        ex = [Layer(l.vars, l.idx, c_and(c, l.guard), l.val, l.rng) for l in la]
        ex += [Layer(l.vars, l.idx, c_and(nc, l.guard), l.val, l.rng) for l in lb]
        return Cnt(ca.base, ca.layers[:n] + tuple(ex))
    # different bases: read-through
    q = Sym('q', 'int', S.ZERO, None)
    try:
        x = cread(ca, P.of(q)) if not empty(a) else None
        y = cread(cb, P.of(q)) if not empty(b) else None
    except Unsup:
        x = y = None
    if x is None and y is None:
        raise Unsup('merge of container contents')
    if x is None:
        return Cnt(('lam', q, y))
    if y is None:
        return Cnt(('lam', q, x))
    return Cnt(('lam', q, tmerge(c, x, y)))


def empty(v):
    return v.ln == S.ZERO


def cresize(v, n, fill):
    """resized container value"""
    n = P.of(n)
    ni, oi = n.as_int(), v.ln.as_int()
    c = v.c
    if c.base[0] == 'list' and not c.layers and ni is not None and oi == len(c.base[1]):
        xs = list(c.base[1])[:ni]
        xs += [fill] * (ni - len(xs))
        return VecV(n, c_list(xs), v.ety)
    if empty(v):
        if ni is not None and ni <= 8:
            return VecV(n, c_list([fill] * ni), v.ety)
        return VecV(n, c_const(fill), v.ety)
    if decide(ge0(v.ln - n)) is True:
        return VecV(n, c, v.ety)
    q = Sym('z', 'int', v.ln, n - 1)
    return VecV(n, Cnt(c.base, c.layers + (Layer((q,), P.of(q), S.TRUE, fill),)), v.ety)
