"""Symbolic closed forms: the abstract value domain of the analyser.

P      polynomial over atoms (hash-consed), integer or symbolic exponents
Atom   symbol / uninterpreted or known function / power base / reduction / ite
Cond   boolean conditions over P

Everything is immutable.  Equality of closed forms is decided by normal form
first and by identity testing on the closed forms (evaluation of the *formula*
at random admissible valuations of its free symbols) second.
"""
from fractions import Fraction
import itertools, random, math, time

_ids = itertools.count(1)
_atoms = {}


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ atoms ----
class Atom:
    __slots__ = ('id', 'k', 'name', 'args', 'sort', 'lo', 'hi', 'free', 'depth',
                 'order')

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def _free_of(args):
    fr = frozenset()
    d = 0
    for a in args:
        if isinstance(a, (P, Cond)):
            fr |= a.free
            d = max(d, a.depth)
        elif isinstance(a, Atom):
            fr |= a.free
            d = max(d, a.depth)
        elif isinstance(a, tuple):
            f2, d2 = _free_of(a)
            fr |= f2
            d = max(d, d2)
    return fr, d


def _mk(k, name, args, sort, lo=None, hi=None):
    key = (k, name, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = next(_ids)
        a.k, a.name, a.args, a.sort, a.lo, a.hi = k, name, args, sort, lo, hi
        a.order = a.id
        if k == 'sym':
            a.free = frozenset([a])
            a.depth = 0
        elif k == 'bnd':
            a.free = frozenset()
            a.depth = name + 1
        else:
            a.free, a.depth = _free_of(args)
        _atoms[key] = a
    return a


_symn = itertools.count(1)


def Sym(name, sort='int', lo=None, hi=None):
    """fresh symbol; lo/hi inclusive bounds (P) for integer symbols"""
    lo = None if lo is None else P.of(lo)
    hi = None if hi is None else P.of(hi)
    return _mk('sym', '%s' % name, (next(_symn),), sort, lo, hi)


def Bnd(i, sort='int'):
    return _mk('bnd', i, (), sort)


# ------------------------------------------------------------- polynomials ---
class P:
    __slots__ = ('t', '_h', 'free', 'depth')

    def __init__(self, t):
        self.t = t
        self._h = None
        fr = set()
        d = 0
        for m in t:
            for a, e in m:
                fr |= a.free
                d = max(d, a.depth)
                if isinstance(e, P):
                    fr |= e.free
                    d = max(d, e.depth)
        self.free = frozenset(fr)
        self.depth = d

    @staticmethod
    def of(x):
        if isinstance(x, P):
            return x
        if isinstance(x, Atom):
            return P({((x, 1),): Fraction(1)})
        if isinstance(x, (int, Fraction)):
            return P({(): Fraction(x)} if x else {})
        if isinstance(x, float):
            return P.of(Fraction(x))
        raise TypeError(x)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = P.of(o)
        return isinstance(o, P) and (self is o or
                                     (hash(self) == hash(o) and self.t == o.t))

    def __repr__(self):
        return show(self)

    # --- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def as_int(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def atom(self):
        """the atom if self is exactly one atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    def has(self, a):
        return a in self.free

    # --- arithmetic
    def __add__(self, o):
        if not isinstance(o, P):
            o = P.of(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, P):
            o = P.of(o)
        return self + (-o)

    def __rsub__(self, o):
        return P.of(o) - self

    def __mul__(self, o):
        if not isinstance(o, P):
            o = P.of(o)
        if not self.t or not o.t:
            return ZERO
        if o.t == ONE.t:
            return self
        if self.t == ONE.t:
            return o
        t = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = _mono_mul(m1, m2)
                if isinstance(r, P):
                    r = r * (c1 * c2)
                    extra = r if extra is None else extra + r
                    continue
                v = t.get(r, 0) + c1 * c2
                if v:
                    t[r] = v
                else:
                    t.pop(r, None)
        res = P(t)
        if extra is not None:
            res = res + extra
        return res

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P.of(o))

    def __rtruediv__(self, o):
        return P.of(o) * inv(self)

    def __pow__(self, e):
        return power(self, P.of(e))


def _exp_add(e1, e2):
    if isinstance(e1, int) and isinstance(e2, int):
        return e1 + e2
    s = P.of(e1) + P.of(e2)
    i = s.as_int()
    return i if i is not None else s


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    re_expand = None
    for a, e in m2:
        if a in d:
            s = _exp_add(d[a], e)
            if isinstance(s, int) and s == 0:
                del d[a]
            else:
                d[a] = s
                if a.k == 'base' and isinstance(s, int) and s > 0:
                    re_expand = a
        else:
            d[a] = e
    if re_expand is not None:
        s = d.pop(re_expand)
        r = P({tuple(sorted(d.items(), key=lambda x: x[0].id)): Fraction(1)})
        return r * power(re_expand.args[0], P.of(s))
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


ZERO = P({})
ONE = P({(): Fraction(1)})


def _base(p):
    return _mk('base', '', (p,), 'real')


def _normalise_base(p):
    """p = c * q with q having leading coefficient 1"""
    lead = max(p.t, key=_mono_key)
    c = p.t[lead]
    if c < 0:
        c = -c
    if c == 1:
        return Fraction(1), p
    return c, P({m: v / c for m, v in p.t.items()})


def _mono_key(m):
    return (len(m), tuple((a.id, repr(e)) for a, e in m))


def inv(p):
    return power(p, P.of(-1))


def _mono_pow(m, e):
    r = []
    for a, x in m:
        if isinstance(e, int) and isinstance(x, int):
            r.append((a, x * e))
        else:
            y = P.of(x) * P.of(e)
            i = y.as_int()
            r.append((a, i if i is not None else y))
    return tuple(q for q in r if not (isinstance(q[1], int) and q[1] == 0))


def power(p, e):
    c = e.const()
    if c is not None:
        if c.denominator != 1:
            return P.of(Fn('rpow', (p, e), 'real'))
        n = int(c)
        if n == 0:
            return ONE
        if n == 1:
            return p
        if n > 0:
            if len(p.t) == 1:
                (m, k), = p.t.items()
                return P({_mono_pow(m, n): k ** n})
            if n > 40 or (len(p.t) > 12 and n > 6):
                return P.of(_base(p)) if n == 1 else P({((_base(p), n),): Fraction(1)})
            r = ONE
            b = p
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if not p.t:
            return P.of(Fn('divzero', (), 'real'))
        if len(p.t) == 1:
            (m, k), = p.t.items()
            return P({_mono_pow(m, n): k ** n})
        k, q = _normalise_base(p)
        return P({((_base(q), n),): k ** n})
    # symbolic exponent
    if not p.t:
        return P.of(Fn('zpow', (e,), 'int'))
    if len(p.t) == 1:
        (m, k), = p.t.items()
        # x^(n)
        t = P({_mono_pow(m, e): Fraction(1)})
        if k == 1:
            return t
        if k == -1:
            return t * P.of(signpow(e))
        i = e
        return t * P({((_base(P.of(k)), i),): Fraction(1)})
    # split integer shift: keep base^e
    return P({((_base(p), e),): Fraction(1)})


def signpow(e):
    """(-1)^e"""
    n = ZERO
    for m, c in e.t.items():
        # even terms vanish
        if c.denominator == 1 and c % 2 == 0:
            continue
        n = n + P({m: Fraction(1)} if c.denominator == 1 else {m: c})
    i = n.as_int()
    if i is not None:
        return P.of(1 if i % 2 == 0 else -1)
    c = n.t.get((), 0)
    s = 1
    if c and c.denominator == 1:
        n = n - c
        if c % 2:
            s = -1
    return P.of(Fn('sgn', (n,), 'int')) * s


# --------------------------------------------------------------- functions ---
def Fn(name, args, sort='real'):
    return _mk('fn', name, tuple(args), sort)


def fn(name, args, sort='real'):
    return P.of(Fn(name, tuple(args), sort))


def binom(n, k):
    n, k = P.of(n), P.of(k)
    ki, ni = k.as_int(), n.as_int()
    if ki is not None:
        if ki == 0:
            return ONE
        if ki == 1:
            return n
        if ki < 0:
            return ZERO
        if ni is not None and ni >= 0:
            return P.of(math.comb(ni, ki))
    d = (n - k).as_int()
    if d is not None:
        if d == 0:
            return ONE
        if d == 1:
            return n
        if d < 0:
            return ZERO
    # canonical under symmetry k <-> n-k
    k2 = n - k
    if _ckey(k2) < _ckey(k):
        k = k2
    return P.of(Fn('binom', (n, k), 'int'))


def _ckey(p):
    return (len(p.t), sorted((_mono_key(m), c) for m, c in p.t.items()))


# -------------------------------------------------------------- conditions ---
class Cond:
    __slots__ = ('k', 'a', 'free', 'depth', '_h')

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self.free, self.depth = _free_of(a)
        self._h = hash((k, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.k == o.k and self.a == o.a

    def __repr__(self):
        if self.k in ('ge', 'gt', 'eq'):
            return '(%r %s 0)' % (self.a[0], {'ge': '>=', 'gt': '>', 'eq': '=='}[self.k])
        if self.k == 'not':
            return '!%r' % self.a[0]
        if self.k in ('and', 'or'):
            return '(' + (' %s ' % self.k).join(map(repr, self.a)) + ')'
        if self.k == 'opq':
            return '%s(%s)' % (self.a[0], ', '.join(map(repr, self.a[1])))
        return self.k


TRUE = Cond('true')
FALSE = Cond('false')


def is_int(p):
    """integer valued?"""
    for m, c in p.t.items():
        if c.denominator != 1:
            # might still be an integer, be conservative
            return False
        for a, e in m:
            if a.sort != 'int':
                return False
            if not isinstance(e, int) or e < 0:
                return False
    return True


def ge0(p):
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    return Cond('ge', p)


def gt0(p):
    c = p.const()
    if c is not None:
        return TRUE if c > 0 else FALSE
    if is_int(p):
        return ge0(p - 1)
    return Cond('gt', p)


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    lead = max(p.t, key=_mono_key)
    if p.t[lead] < 0:
        p = -p
    return Cond('eq', p)


def c_not(c):
    if c is TRUE or c.k == 'true':
        return FALSE
    if c.k == 'false':
        return TRUE
    if c.k == 'not':
        return c.a[0]
    if c.k == 'ge' and is_int(c.a[0]):
        return ge0(-c.a[0] - 1)
    if c.k == 'and':
        return c_or(*[c_not(x) for x in c.a])
    if c.k == 'or':
        return c_and(*[c_not(x) for x in c.a])
    return Cond('not', c)


def c_and(*cs):
    out = []
    for c in cs:
        if c.k == 'false':
            return FALSE
        if c.k == 'true':
            continue
        for x in (c.a if c.k == 'and' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if c_not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond('and', *out)


def c_or(*cs):
    out = []
    for c in cs:
        if c.k == 'true':
            return TRUE
        if c.k == 'false':
            continue
        for x in (c.a if c.k == 'or' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if c_not(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Cond('or', *out)


def ite(c, a, b):
    a, b = P.of(a), P.of(b)
    if c.k == 'true':
        return a
    if c.k == 'false':
        return b
    if a == b:
        return a
    if c.k == 'not':
        return ite(c.a[0], b, a)
    # parity select of +-x
    if c.k == 'eq' and a == -b:
        at = c.a[0].atom()
        if at is not None and at.k == 'fn' and at.name == 'mod' and at.args[1] == P.of(2):
            return a * signpow(at.args[0])
    if c.k == 'eq' and a.const() is not None and b.const() is not None:
        pass
    s = 'int' if is_int(a) and is_int(b) else 'real'
    return P.of(_mk('ite', '', (c, a, b), s))


# -------------------------------------------------------------- assumptions --
class Ctx:
    """facts assumed at a program point: list of Cond"""

    def __init__(self):
        self.facts = []
        self.cache = {}

    def push(self, c):
        for x in (c.a if c.k == 'and' else (c,)):
            self.facts.append(x)
        self.cache = {}

    def mark(self):
        return len(self.facts)

    def reset(self, m):
        if len(self.facts) != m:
            del self.facts[m:]
            self.cache = {}


CTX = Ctx()


def _elim_order(free):
    """bounded symbols, newest first"""
    return sorted((a for a in free if a.k == 'sym' and a.sort == 'int'
                   and (a.lo is not None or a.hi is not None)),
                  key=lambda a: -a.args[0])


def _deg_in(p, s):
    """degree of p in symbol s if polynomial, None if s occurs inside other atoms"""
    d = 0
    for m in p.t:
        for a, e in m:
            if a is s:
                if not isinstance(e, int) or e < 0:
                    return None
                d = max(d, e)
            else:
                if s in a.free:
                    return None
                if isinstance(e, P) and s in e.free:
                    return None
    return d


def _coef(p, s, n):
    t = {}
    for m, c in p.t.items():
        d = 0
        r = []
        for a, e in m:
            if a is s:
                d = e
            else:
                r.append((a, e))
        if d == n:
            k = tuple(r)
            t[k] = t.get(k, 0) + c
    return P({k: v for k, v in t.items() if v})


def _nn_atoms(p):
    """sufficient: all coefficients >= 0 and all atoms known >= 0"""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if isinstance(e, int) and e % 2 == 0:
                continue
            if not atom_nonneg(a):
                return False
    return True


def atom_nonneg(a):
    if a.k == 'sym':
        return a.lo is not None and a.lo.const() is not None and a.lo.const() >= 0
    if a.k == 'fn':
        if a.name in ('binom', 'len', 'zpow', 'size'):
            return True
        if a.name in RANGED:
            return RANGED[a.name][0] >= 0
        if a.name == 'lut':
            return min(a.args[0]) >= 0
        if a.name == 'band':
            return any(y.as_int() is not None and y.as_int() >= 0 for y in a.args)
        if a.name in ('idiv', 'mod'):
            return prove_ge0(a.args[0]) and prove_ge0(a.args[1])
        if a.name == 'max':
            return prove_ge0(a.args[0]) or prove_ge0(a.args[1])
        if a.name == 'min':
            return prove_ge0(a.args[0]) and prove_ge0(a.args[1])
    if a.k == 'ite':
        return prove_ge0(a.args[1]) and prove_ge0(a.args[2])
    return False


def _atom_bounds(a):
    """facts (list of P >= 0) about an atom"""
    x = P.of(a)
    out = []
    if a.k == 'sym':
        if a.lo is not None:
            out.append(x - a.lo)
        if a.hi is not None:
            out.append(a.hi - x)
    elif a.k == 'fn':
        if a.name == 'mod':
            out += [x, a.args[1] - 1 - x, a.args[0] - x]
        elif a.name == 'idiv':
            out += [x, a.args[0] - x * a.args[1],
                    x * a.args[1] + a.args[1] - 1 - a.args[0]]
        elif a.name == 'max':
            out += [x - a.args[0], x - a.args[1]]
        elif a.name == 'min':
            out += [a.args[0] - x, a.args[1] - x]
        elif a.name in ('len', 'size'):
            out.append(x)
        elif a.name in RANGED:
            out += [x - RANGED[a.name][0], RANGED[a.name][1] - x]
        elif a.name == 'lut':
            out += [x - min(a.args[0]), max(a.args[0]) - x]
        elif a.name == 'band':
            for y in a.args:
                if y.as_int() is not None and y.as_int() >= 0:
                    out += [x, y - x]
    return out


def prove_ge0(p, depth=0, facts=True):
    p = P.of(p)
    c = p.const()
    if c is not None:
        return c >= 0
    key = (p, depth, facts)
    r = CTX.cache.get(key)
    if r is None:
        CTX.cache[key] = False
        r = _prove(p, depth, facts)
        CTX.cache[key] = r
    return r


def _prove(p, depth, facts):
    if depth > 24:
        return False
    if _shift_ok(p):
        return True
    # max/min atoms: case split
    for a in p.atoms():
        if a.k == 'fn' and a.name in ('max', 'min') and _deg_in_atom(p, a) == 1:
            k = _coefa(p, a)
            r = p - P.of(a) * k
            ok = None
            if a.name == 'max':
                # k*max(x,y): k>=0 -> either suffices ; k<=0 -> both
                if prove_ge0(k, depth + 4):
                    ok = any(prove_ge0(r + k * x, depth + 1, facts) for x in a.args)
                elif prove_ge0(-k, depth + 4):
                    ok = all(prove_ge0(r + k * x, depth + 1, facts) for x in a.args)
            else:
                if prove_ge0(k, depth + 4):
                    ok = all(prove_ge0(r + k * x, depth + 1, facts) for x in a.args)
                elif prove_ge0(-k, depth + 4):
                    ok = any(prove_ge0(r + k * x, depth + 1, facts) for x in a.args)
            if ok is not None:
                return ok
        if a.k == 'ite' and _deg_in_atom(p, a) == 1:
            k = _coefa(p, a)
            r = p - P.of(a) * k
            return all(prove_ge0(r + k * x, depth + 1, facts) for x in a.args[1:])
    # facts
    if facts:
        for f in CTX.facts:
            for q in fact_ges(f):
                if q.free & p.free:
                    if prove_ge0(p - q, depth + 6, False):
                        return True
    # eliminate newest bounded symbol
    for s in _elim_order(p.free):
        d = _deg_in(p, s)
        if d is None or d == 0:
            continue
        if d > 1:
            continue
        k = _coef(p, s, 1)
        r = _coef(p, s, 0)
        if prove_ge0(k, depth + 4):
            if s.lo is not None:
                return prove_ge0(r + k * s.lo, depth + 1, facts)
            return False
        if prove_ge0(-k, depth + 4):
            if s.hi is not None:
                return prove_ge0(r + k * s.hi, depth + 1, facts)
            continue
        if s.lo is not None and s.hi is not None:
            return (prove_ge0(r + k * s.lo, depth + 1, facts)
                    and prove_ge0(r + k * s.hi, depth + 1, facts))
        break
    # idiv / mod atoms: linear bounds
    for a in p.atoms():
        if a.k == 'fn' and a.name in ('mod', 'idiv') and _deg_in_atom(p, a) == 1:
            for b in _atom_bounds(a):
                kb = _coefa(b, a)
                k = _coefa(p, a)
                # p - (k/kb) * b, if k/kb >= 0 constant-ish
                q = polydiv_exact(k, kb)
                if q is not None and prove_ge0(q, depth + 6):
                    if prove_ge0(p - q * b, depth + 3, facts):
                        return True
    return False


def fact_ges(f):
    """polynomials known >= 0 because of fact f"""
    if f.k == 'ge':
        return [f.a[0]]
    if f.k == 'eq':
        return [f.a[0], -f.a[0]]
    if f.k == 'not' and f.a[0].k == 'eq' and is_int(f.a[0].a[0]):
        e = f.a[0].a[0]
        if prove_ge0(e, 8, False):
            return [e - 1]
        if prove_ge0(-e, 8, False):
            return [-e - 1]
    return []


def _deg_in_atom(p, a):
    d = 0
    for m in p.t:
        for b, e in m:
            if b is a:
                if not isinstance(e, int) or e < 0:
                    return None
                d = max(d, e)
    return d


def _coefa(p, a):
    t = {}
    for m, c in p.t.items():
        if any(b is a for b, e in m):
            t[tuple((b, e) for b, e in m if b is not a)] = c
    return P(t)


def _shift_ok(p):
    """substitute s = lo + s' for constant lower bounds, then all coefs >= 0"""
    if _nn_atoms(p):
        return True
    q = p
    for s in list(p.free):
        if s.k == 'sym' and s.lo is not None:
            c = s.lo.const()
            if c is not None and c > 0:
                d = _deg_in(q, s)
                if d:
                    q = _subst_poly(q, s, P.of(s) + c)
    if q is p:
        return False
    return _nn_atoms(q)


def _subst_poly(p, s, v):
    r = ZERO
    for m, c in p.t.items():
        x = P.of(c)
        rest = []
        for a, e in m:
            if a is s:
                x = x * (v ** e)
            else:
                rest.append((a, e))
        r = r + x * P({tuple(rest): Fraction(1)})
    return r


def prove_gt0(p):
    return prove_ge0(P.of(p) - 1)


def decide(c):
    """True / False / None"""
    k = c.k
    if k == 'true':
        return True
    if k == 'false':
        return False
    if c in CTX.facts:
        return True
    n = c_not(c)
    if n in CTX.facts:
        return False
    if k == 'ge':
        p = c.a[0]
        if is_int(p):
            if prove_ge0(p):
                return True
            if prove_ge0(-p - 1):
                return False
        return None
    if k == 'eq':
        p = c.a[0]
        if is_int(p):
            if prove_ge0(p - 1) or prove_ge0(-p - 1):
                return False
            if prove_ge0(p) and prove_ge0(-p):
                return True
        return None
    if k == 'not':
        r = decide(c.a[0])
        return None if r is None else not r
    if k == 'and':
        rs = [decide(x) for x in c.a]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if k == 'or':
        rs = [decide(x) for x in c.a]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    return None


def simp(c):
    r = decide(c)
    return TRUE if r is True else FALSE if r is False else c


# ----------------------------------------------------- integer div, mod ------
def _lead(p, order):
    def key(m):
        d = dict((a, e) for a, e in m)
        return tuple(d.get(a, 0) for a in order) + (len(m),)
    return max(p.t, key=key)


def _mono_div(m, d):
    x = dict(m)
    for a, e in d:
        if a not in x:
            return None
        y = x[a]
        if not isinstance(y, int) or not isinstance(e, int):
            if y == e:
                del x[a]
                continue
            return None
        if y < e:
            return None
        if y == e:
            del x[a]
        else:
            x[a] = y - e
    return tuple(sorted(x.items(), key=lambda z: z[0].id))


def polydivmod(a, b, order=None):
    """a = b*q + r, multivariate division with lex order"""
    if len(b.t) == 1:
        (m, c), = b.t.items()
        q, r = {}, {}
        for k, v in a.t.items():
            d = _mono_div(k, m)
            if d is not None and (v / c).denominator == 1:
                q[d] = v / c
            else:
                r[k] = v
        return P(q), P(r)
    if order is None:
        order = sorted(b.atoms(), key=lambda x: x.id)
    lb = _lead(b, order)
    cb = b.t[lb]
    q, r = ZERO, ZERO
    p = a
    n = 0
    while p.t:
        n += 1
        if n > 400:
            return ZERO, a
        lm = _lead(p, order + sorted(p.atoms() - set(order), key=lambda x: x.id))
        d = _mono_div(lm, lb)
        c = p.t[lm]
        if d is not None and (c / cb).denominator == 1:
            t = P({d: c / cb})
            q = q + t
            p = p - t * b
        else:
            t = P({lm: c})
            r = r + t
            p = p - t
    return q, r


def polydiv_exact(a, b):
    if not a.t:
        return ZERO
    c = b.const()
    if c is not None:
        return P({m: v / c for m, v in a.t.items()}) if c else None
    q, r = polydivmod(a, b)
    if not r.t:
        return q
    return None


def idiv(a, b):
    a, b = P.of(a), P.of(b)
    bi = b.as_int()
    if bi == 1:
        return a
    ai = a.as_int()
    if ai is not None and bi is not None and bi != 0:
        q = abs(ai) // abs(bi)
        return P.of(q if (ai < 0) == (bi < 0) else -q)
    if not a.t:
        return ZERO
    q = polydiv_exact(a, b)
    if q is not None and all(c.denominator == 1 for c in q.t.values()):
        return q
    orders = [None]
    if len(b.t) > 1:
        orders = list(itertools.islice(itertools.permutations(
            sorted(b.atoms(), key=lambda x: x.id)), 6))
        orders = [list(o) for o in orders]
    for o in orders:
        q, r = polydivmod(a, b, o)
        if all(c.denominator == 1 for c in q.t.values()):
            if prove_ge0(r) and prove_ge0(b - 1 - r):
                return q
            if q.t and prove_ge0(r) and prove_ge0(q):
                at = Fn('idiv', (r, b), 'int')
                return q + P.of(at)
            # borrow one: r in [-b, 0)
            if q.t and prove_ge0(r + b) and prove_ge0(-r - 1):
                return q - 1
    at = a.atom()
    if at is not None and at.k == 'fn' and at.name == 'idiv':
        return idiv(at.args[0], at.args[1] * b)
    return P.of(Fn('idiv', (a, b), 'int'))


def imod(a, b):
    a, b = P.of(a), P.of(b)
    ai, bi = a.as_int(), b.as_int()
    if ai is not None and bi:
        return P.of(int(math.fmod(ai, bi)))
    if bi == 1:
        return ZERO
    q = idiv(a, b)
    if not any(x.k == 'fn' and x.name == 'idiv' and x.args[1] == b
               for x in q.atoms()):
        return a - q * b
    # drop multiples of b
    qq, r = polydivmod(a, b)
    if all(c.denominator == 1 for c in qq.t.values()) and qq.t and prove_ge0(r):
        a = r
    # reduce coefficients modulo a constant
    if bi is not None and bi == 2 and is_int(a):
        t = {m: c % 2 for m, c in a.t.items() if c % 2}
        a2 = P(t)
        if prove_ge0(a2):
            a = a2
            if a.as_int() is not None:
                return P.of(a.as_int() % 2)
    return P.of(Fn('mod', (a, b), 'int'))


def fmax(a, b):
    a, b = P.of(a), P.of(b)
    if a == b:
        return a
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return P.of(max(ca, cb))
    if is_int(a) and is_int(b):
        if prove_ge0(a - b):
            return a
        if prove_ge0(b - a):
            return b
        s = 'int'
    else:
        s = 'real'
    if _ckey(b) < _ckey(a):
        a, b = b, a
    return P.of(Fn('max', (a, b), s))


def fmin(a, b):
    a, b = P.of(a), P.of(b)
    if a == b:
        return a
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return P.of(min(ca, cb))
    if is_int(a) and is_int(b):
        if prove_ge0(a - b):
            return b
        if prove_ge0(b - a):
            return a
        s = 'int'
    else:
        s = 'real'
    if _ckey(b) < _ckey(a):
        a, b = b, a
    return P.of(Fn('min', (a, b), s))


# ---------------------------------------------------------------- reductions -
def _factor_split(m, v):
    """monomial -> (independent part, dependent part)"""
    i, d = [], []
    for a, e in m:
        if v in a.free or (isinstance(e, P) and v in e.free):
            # x^(a+b*v): split exponent
            if v not in a.free and isinstance(e, P):
                e0 = P({k: c for k, c in e.t.items()
                        if not any(v in q.free for q, _ in k)})
                e1 = e - e0
                if e0.t:
                    ie = e0.as_int()
                    i.append((a, ie if ie is not None else e0))
                d.append((a, e1))
            else:
                d.append((a, e))
        else:
            i.append((a, e))
    return tuple(i), tuple(d)


_FAUL = {0: lambda n: n, 1: lambda n: n * (n - 1) * Fraction(1, 2),
         2: lambda n: n * (n - 1) * (n * 2 - 1) * Fraction(1, 6),
         3: lambda n: n * n * (n - 1) * (n - 1) * Fraction(1, 4)}


def Sum(v, lo, hi, body):
    """sum_{v=lo}^{hi} body, empty if hi<lo"""
    lo, hi, body = P.of(lo), P.of(hi), P.of(body)
    if not body.t:
        return ZERO
    n = hi - lo + 1
    ni = n.as_int()
    if ni is not None and ni <= 0:
        return ZERO
    if ni is not None and ni <= 4:
        r = ZERO
        for k in range(ni):
            r = r + subst(body, {v: lo + k})
        return r
    nonneg = prove_ge0(n)
    res = ZERO
    for m, c in body.t.items():
        i, d = _factor_split(m, v)
        ip = P({i: c})
        if not d:
            cnt = n if nonneg else fmax(n, ZERO)
            res = res + ip * cnt
            continue
        if nonneg and len(d) == 1 and d[0][0] is v and isinstance(d[0][1], int) \
                and 1 <= d[0][1] <= 3:
            # sum (lo+q)^k, q<n
            k = d[0][1]
            s = ZERO
            for j in range(k + 1):
                s = s + P.of(math.comb(k, j)) * (lo ** (k - j)) * _FAUL[j](n)
            res = res + ip * s
            continue
        db = P({d: Fraction(1)})
        res = res + ip * P.of(_red('sum', v, lo, hi, db))
    return res


def _red(op, v, lo, hi, body):
    depth = max(body.depth, lo.depth, hi.depth)
    b = Bnd(depth, v.sort)
    nb = rename(body, v, b)
    return _mk('red', op, (b, lo, hi, nb), body_sort(body))


def body_sort(p):
    return 'int' if is_int(p) else 'real'


def Reduce(op, v, lo, hi, body):
    lo, hi, body = P.of(lo), P.of(hi), P.of(body)
    if op == 'sum':
        return Sum(v, lo, hi, body)
    if op == 'prod':
        n = hi - lo + 1
        ni = n.as_int()
        if ni is not None and ni <= 4:
            r = ONE
            for k in range(max(ni, 0)):
                r = r * subst(body, {v: lo + k})
            return r
        if v not in body.free:
            return power(body, n if prove_ge0(n) else fmax(n, ZERO))
        return P.of(_red('prod', v, lo, hi, body))
    return P.of(_red(op, v, lo, hi, body))


def rename(p, v, b):
    """replace symbol v by atom b without re-simplification"""
    return _map(p, {v: P.of(b)}, {}, resimp=False)


def open_red(a):
    """(fresh symbol, lo, hi, body) of a reduction atom"""
    b, lo, hi, body = a.args
    v = Sym('q', 'int', lo, hi)
    return v, lo, hi, _map(body, {b: P.of(v)}, {}, resimp=False)


# ------------------------------------------------------------- substitution --
def subst(x, env):
    """simultaneous substitution of symbols (Atom -> P)"""
    if isinstance(x, P):
        if not any(k in x.free for k in env):
            return x
    return _map(x, env, {}, True)


def _map(x, env, memo, resimp, fns=None):
    if isinstance(x, P):
        if fns is None:
            if not _touch(x, env):
                return x
        r = ZERO
        for m, c in x.t.items():
            t = P.of(c)
            for a, e in m:
                va = _map_atom(a, env, memo, resimp, fns)
                if isinstance(e, P):
                    e2 = _map(e, env, memo, resimp, fns)
                    t = t * power(va, e2)
                else:
                    t = t * (va if e == 1 else power(va, P.of(e)))
            r = r + t
        return r
    if isinstance(x, Cond):
        return _map_cond(x, env, memo, resimp, fns)
    if isinstance(x, tuple):
        return tuple(_map(y, env, memo, resimp, fns) if isinstance(y, (P, Cond, tuple))
                     else y for y in x)
    return x


def _touch(x, env):
    fr = x.free
    for k in env:
        if k.k == 'bnd':
            if x.depth > k.name:
                return True
        elif k in fr:
            return True
    return False


def _map_cond(c, env, memo, resimp, fns):
    if fns is None and not _touch(c, env):
        return c
    if c.k == 'ge':
        r = ge0(_map(c.a[0], env, memo, resimp, fns))
    elif c.k == 'gt':
        r = gt0(_map(c.a[0], env, memo, resimp, fns))
    elif c.k == 'eq':
        r = eq0(_map(c.a[0], env, memo, resimp, fns))
    elif c.k == 'not':
        return c_not(_map_cond(c.a[0], env, memo, resimp, fns))
    elif c.k == 'and':
        return c_and(*[_map_cond(y, env, memo, resimp, fns) for y in c.a])
    elif c.k == 'or':
        return c_or(*[_map_cond(y, env, memo, resimp, fns) for y in c.a])
    elif c.k == 'opq':
        return Cond('opq', c.a[0], _map(c.a[1], env, memo, resimp, fns))
    else:
        return c
    return simp(r) if resimp else r


def _map_atom(a, env, memo, resimp, fns):
    v = env.get(a)
    if v is not None:
        return v
    if a.k in ('sym', 'bnd'):
        return P.of(a)
    if fns is None and not _touch(a, env):
        return P.of(a)
    r = memo.get(a)
    if r is not None:
        return r
    if a.k == 'fn':
        args = tuple(_map(y, env, memo, resimp, fns) if isinstance(y, (P, Cond, tuple))
                     else y for y in a.args)
        if fns is not None and a.name in fns:
            r = fns[a.name](args, a)
        else:
            r = refn(a.name, args, a.sort, resimp)
    elif a.k == 'base':
        r = _map(a.args[0], env, memo, resimp, fns)
        # returned as plain polynomial; caller applies power()
    elif a.k == 'ite':
        c = _map_cond(a.args[0], env, memo, resimp, fns)
        r = ite(c, _map(a.args[1], env, memo, resimp, fns) if c.k != 'false' else ZERO,
                _map(a.args[2], env, memo, resimp, fns) if c.k != 'true' else ZERO)
    elif a.k == 'red':
        if resimp or fns is not None:
            v, lo, hi, body = open_red(a)
            lo2 = _map(lo, env, memo, resimp, fns)
            hi2 = _map(hi, env, memo, resimp, fns)
            v2 = Sym('q', 'int', lo2, hi2)
            e2 = dict(env)
            e2[v] = P.of(v2)
            b2 = _map(body, e2, {}, resimp, fns)
            r = Reduce(a.name, v2, lo2, hi2, b2)
        else:
            b, lo, hi, body = a.args
            nb = _map(body, env, memo, resimp, fns)
            nlo = _map(lo, env, memo, resimp, fns)
            nhi = _map(hi, env, memo, resimp, fns)
            # the replacement may be a bound atom of larger depth: fine, we only
            # close over symbols whose new depth is max depth
            r = P.of(_mk('red', a.name, (b, nlo, nhi, nb), a.sort))
    else:
        raise TypeError(a.k)
    memo[a] = r
    return r


def refn(name, args, sort, resimp=True):
    if resimp:
        if name == 'idiv':
            return idiv(*args)
        if name == 'mod':
            return imod(*args)
        if name == 'max':
            return fmax(*args)
        if name == 'min':
            return fmin(*args)
        if name == 'binom':
            return binom(*args)
        if name == 'sgn':
            return signpow(args[0])
    return P.of(Fn(name, args, sort))


def map_fns(x, fns):
    """rewrite function atoms by name: fns[name](args, atom) -> P"""
    return _map(x, {}, {}, True, fns)


FREE_FNS = ('arr', 'val', 'char', 'bas')


def earlier(x, memo, sizes=True):
    """the same form over other inputs: every free symbol (sizes: integers too) and every
    uninterpreted function renamed"""
    if isinstance(x, tuple):
        return tuple(earlier(y, memo, sizes) for y in x)
    if not isinstance(x, (P, Cond)):
        return x
    env = {}
    todo = [a for a in all_atoms(x) if a.k == 'sym' and (sizes or a.sort != 'int')]
    for a in todo:
        if a not in memo:
            memo[a] = None
            lo = earlier(a.lo, memo, sizes) if a.lo is not None else None
            hi = earlier(a.hi, memo, sizes) if a.hi is not None else None
            memo[a] = P.of(Sym('earlier ' + a.name, a.sort, lo, hi))
        if memo[a] is not None:
            env[a] = memo[a]

    def f(args, a):
        if args and isinstance(args[0], str):
            args = ('earlier ' + args[0],) + tuple(args[1:])
        return P.of(Fn(a.name, args, a.sort))
    return _map(x, env, {}, True, {n: f for n in FREE_FNS})


def all_atoms(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, P):
        for m in x.t:
            for a, e in m:
                all_atoms(a, acc)
                if isinstance(e, P):
                    all_atoms(e, acc)
    elif isinstance(x, Cond):
        for y in x.a:
            all_atoms(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            all_atoms(y, acc)
    elif isinstance(x, Atom):
        if x in acc:
            return acc
        acc.add(x)
        if x.k not in ('sym', 'bnd'):
            for y in x.args:
                all_atoms(y, acc)
    return acc


# ------------------------------------------------------------------ printing -
def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), [(a.id, repr(e)) for a, e in x[0]])):
        s = '*'.join(show_atom(a) + ('' if isinstance(e, int) and e == 1 else '^%s' % (
            e if isinstance(e, int) else '(%s)' % show(e))) for a, e in m)
        if not m:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def show_atom(a):
    if a.k == 'sym':
        return a.name
    if a.k == 'bnd':
        return '_%d' % a.name
    if a.k == 'fn':
        if a.name == 'arr':
            return '%s[%s]' % (a.args[0], ','.join(map(str, a.args[1:])))
        return '%s(%s)' % (a.name, ', '.join(map(str, a.args)))
    if a.k == 'base':
        return '(%s)' % show(a.args[0])
    if a.k == 'ite':
        return '(%r ? %s : %s)' % a.args
    if a.k == 'red':
        b, lo, hi, body = a.args
        return '%s{%s=%s..%s}(%s)' % (a.name, b, lo, hi, body)
    return '?'


# ---------------------------------------------------------------- evaluation -
class Bad(Exception):
    pass


# stands for zero in a base with negative exponents: such powers are split parts of a
# product that has no negative exponent (removable singularity)
EPS = Fraction(1, 10 ** 40)
HUGE = 10 ** 30

# integer quantities of known range
RANGED = {'byte': (0, 255), 'six': (0, 63), 'char': (-128, 127)}


class Valuation:
    """admissible valuation of the free symbols of closed forms (identity testing)"""

    def __init__(self, rng, sizemax=4, mp=None, pool=None):
        self.rng = rng
        self.pool = pool
        self.env = {}
        self.sizemax = sizemax
        self.fnv = {}
        self.mp = mp
        self.pert = set()
        self.exact = 0
        self.edge = False       # favour the ends of ranges

    def sym(self, s):
        v = self.env.get(s)
        if v is None:
            if s.sort == 'int':
                lo = self.ev(s.lo) if s.lo is not None else None
                hi = self.ev(s.hi) if s.hi is not None else None
                if lo is None and hi is None:
                    v = self.rng.randint(-3, 5)
                elif lo is None:
                    v = self.rng.randint(int(hi) - 4, int(hi))
                else:
                    h = lo + self.sizemax if hi is None else hi
                    if h < lo:
                        raise Bad('empty range %s' % s)
                    if self.edge and hi is not None and self.rng.random() < 0.6:
                        v = self.rng.choice((lo, h))
                    else:
                        v = self.rng.randint(int(lo), int(h))
                v = Fraction(v)
            else:
                v = self.real(s)
            self.env[s] = v
        return v

    def aim(self, at, v):
        """give the free quantity at the value of v"""
        x = self.ev(v)
        if at.sort == 'int':
            if not isinstance(x, Fraction):
                raise Bad('not an integer')
            x = Fraction(math.floor(x))
        if at.k == 'sym':
            if at in self.env:
                raise Bad('already fixed')
            if at.lo is not None and x < self.ev(at.lo) or at.hi is not None and x > self.ev(at.hi):
                raise Bad('outside the range')
            self.env[at] = x
        else:
            key = (at.name,) + tuple(self._karg(y) for y in at.args)
            if key in self.fnv:
                raise Bad('already fixed')
            self.fnv[key] = x

    def real(self, s):
        lo = self.ev(s.lo) if s.lo is not None else None
        hi = self.ev(s.hi) if s.hi is not None else None
        fit = [x for x in self.pool or () if (lo is None or x > lo) and (hi is None or x < hi)] \
            if lo is not None or hi is not None else ()
        if fit and self.rng.random() < 0.5:
            x = self.rng.choice(fit)
        elif lo is not None and hi is not None:
            x = lo + (hi - lo) * Fraction(self.rng.randint(1, 58), 59)
        elif lo is not None:
            x = lo + Fraction(self.rng.randint(1, 200), 61)
        elif self.pool:
            x = self.rng.choice(self.pool)
        else:
            x = Fraction(self.rng.choice([-1, 1]) * self.rng.randint(1, 200), 67)
        return self.num(x)

    def num(self, x):
        if self.mp:
            return self.mp.mpf(x.numerator) / x.denominator
        return x

    def ev(self, p):
        r = Fraction(0)
        for m, c in p.t.items():
            v = c if not self.mp else c
            for a, e in m:
                x = self.atom(a)
                if x == 0 and a in self.pert and not self.exact:
                    x = EPS
                if isinstance(e, P):
                    e = self.ev(e)
                    if isinstance(e, Fraction):
                        if e.denominator != 1:
                            raise Bad('fractional exponent')
                        e = int(e)
                if e == 1:
                    y = x
                else:
                    if x == 0 and isinstance(e, int) and e <= 0:
                        if e == 0:
                            y = Fraction(1)
                        else:
                            raise Bad('division by zero', a)
                    else:
                        y = x ** e
                v = self._mul(v, y)
            r = self._add(r, v)
        return r

    def _mul(self, a, b):
        if self.mp:
            a, b = self._c(a, b)
        return a * b

    def _add(self, a, b):
        if self.mp:
            a, b = self._c(a, b)
        return a + b

    def _c(self, a, b):
        fa, fb = isinstance(a, Fraction), isinstance(b, Fraction)
        if fa and not fb:
            a = self.mp.mpf(a.numerator) / a.denominator
        elif fb and not fa:
            b = self.mp.mpf(b.numerator) / b.denominator
        return a, b

    def atom(self, a):
        if a.k == 'sym':
            return self.sym(a)
        if a.k == 'bnd':
            return self.env[a]
        if a.k == 'base':
            return self.ev(a.args[0])
        if a.k == 'ite':
            return self.ev(a.args[1] if self.cond(a.args[0]) else a.args[2])
        if a.k == 'red':
            b, lo, hi, body = a.args
            lo, hi = int(self.ev(lo)), int(self.ev(hi))
            if hi - lo > 400:
                raise Bad('range too large')
            old = self.env.get(b)
            r = None
            for i in range(lo, hi + 1):
                self.env[b] = Fraction(i)
                v = self.ev(body)
                if r is None:
                    r = v
                elif a.name == 'sum':
                    r = self._add(r, v)
                elif a.name == 'prod':
                    r = self._mul(r, v)
                elif a.name == 'max':
                    r = max(r, v)
                elif a.name == 'min':
                    r = min(r, v)
            if old is None:
                self.env.pop(b, None)
            else:
                self.env[b] = old
            if r is None:
                if a.name == 'sum':
                    return Fraction(0)
                if a.name == 'prod':
                    return Fraction(1)
                raise Bad('empty reduction')
            return r
        # fn
        n = a.name
        if n == 'binom':
            x, y = self.ev(a.args[0]), self.ev(a.args[1])
            if x < 0:
                raise Bad('binom of negative')
            return Fraction(math.comb(int(x), int(y))) if 0 <= y <= x else Fraction(0)
        if n == 'idiv':
            x, y = self.ev(a.args[0]), self.ev(a.args[1])
            if y == 0:
                raise Bad('div by zero')
            q = abs(int(x)) // abs(int(y))
            return Fraction(q if (x < 0) == (y < 0) else -q)
        if n == 'mod':
            x, y = self.ev(a.args[0]), self.ev(a.args[1])
            if y == 0:
                raise Bad('mod by zero')
            return Fraction(int(math.fmod(int(x), int(y))))
        if n == 'max':
            return max(self.ev(a.args[0]), self.ev(a.args[1]))
        if n == 'min':
            return min(self.ev(a.args[0]), self.ev(a.args[1]))
        if n == 'sgn':
            return Fraction(1 if int(self.ev(a.args[0])) % 2 == 0 else -1)
        if n == 'zpow':
            return Fraction(1 if self.ev(a.args[0]) == 0 else 0)
        if n in ('divzero', 'unk', 'entry'):
            raise Bad(n)
        if n == 'wrap':
            return self.ev(a.args[0]) % (1 << int(self.ev(a.args[1])))
        if n == 'swrap':
            w = 1 << int(self.ev(a.args[1]))
            x = self.ev(a.args[0]) % w
            return x - w if 2 * x >= w else x
        if n == 'trunc':
            x = self.ev(a.args[0])
            return Fraction(int(x))
        if n == 'round':
            x = self.ev(a.args[0])
            if not x or not isinstance(x, Fraction):
                return x
            e = x.numerator.bit_length() - x.denominator.bit_length()
            m = x / Fraction(2) ** (e - a.args[1])
            return round(m) * Fraction(2) ** (e - a.args[1])
        if n == 'lut':
            i = self.ev(a.args[1])
            if not 0 <= i < len(a.args[0]):
                raise Bad('outside the table')
            return Fraction(a.args[0][int(i)])
        if n in ('band', 'bor', 'bxor', 'shr'):
            x, y = int(self.ev(a.args[0])), int(self.ev(a.args[1]))
            if n == 'shr':
                return Fraction(x >> y)
            return Fraction(x & y if n == 'band' else x | y if n == 'bor' else x ^ y)
        if n == 'rpow':
            x, y = self.ev(a.args[0]), self.ev(a.args[1])
            if self.mp:
                x, y = self.mp.mpf(x) if not isinstance(x, Fraction) else self.num(x), \
                    self.num(y) if isinstance(y, Fraction) else y
                if x <= 0:
                    raise Bad('pow domain')
                return x ** y
        if self.mp and n in MPF:
            x = self.ev(a.args[0])
            if isinstance(x, Fraction):
                x = self.num(x)
            r = MPF[n](self.mp, x)
            if r is None:
                raise Bad('domain of ' + n)
            return r
        key = (n,) + tuple(self._karg(y) for y in a.args)
        v = self.fnv.get(key)
        if v is None:
            if n in RANGED:
                v = Fraction(self.rng.randint(*RANGED[n]))
            elif a.sort == 'int':
                v = Fraction(self.rng.randint(0, 5))
            elif self.pool:
                v = self.num(self.rng.choice(self.pool))
            else:
                v = self.num(Fraction(self.rng.choice([-1, 1]) * self.rng.randint(1, 500), 97))
            self.fnv[key] = v
        return v

    def _karg(self, y):
        if isinstance(y, P):
            v = self.ev(y)
            if self.mp and not isinstance(v, Fraction):
                return self.mp.nstr(v, 15)
            return v
        if isinstance(y, Cond):
            return self.cond(y)
        if isinstance(y, tuple):
            return tuple(self._karg(z) for z in y)
        return y

    def cond(self, c):
        self.exact += 1
        try:
            return self._cond(c)
        finally:
            self.exact -= 1

    def _cond(self, c):
        k = c.k
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'ge':
            return self.ev(c.a[0]) >= 0
        if k == 'gt':
            return self.ev(c.a[0]) > 0
        if k == 'eq':
            return self.ev(c.a[0]) == 0
        if k == 'not':
            return not self.cond(c.a[0])
        if k == 'and':
            return all(self.cond(x) for x in c.a)
        if k == 'or':
            return any(self.cond(x) for x in c.a)
        key = ('opq', c.a[0]) + tuple(self._karg(y) for y in c.a[1])
        v = self.fnv.get(key)
        if v is None:
            v = self.fnv[key] = self.rng.random() < 0.5
        return v


def _dom(f, ok):
    return lambda mp, x: f(mp, x) if ok(x) else None


MPF = {
    'sin': lambda mp, x: mp.sin(x), 'cos': lambda mp, x: mp.cos(x),
    'tan': lambda mp, x: mp.tan(x), 'exp': lambda mp, x: mp.exp(x),
    'atan': lambda mp, x: mp.atan(x), 'abs': lambda mp, x: abs(x),
    'log': _dom(lambda mp, x: mp.log(x), lambda x: x > 0),
    'log10': _dom(lambda mp, x: mp.log10(x), lambda x: x > 0),
    'sqrt': _dom(lambda mp, x: mp.sqrt(x), lambda x: x >= 0),
    'asin': _dom(lambda mp, x: mp.asin(x), lambda x: -1 < x < 1),
    'acos': _dom(lambda mp, x: mp.acos(x), lambda x: -1 < x < 1),
}


class Verdict:
    """result of comparing closed forms"""

    def __init__(self, k, info=None):
        self.k = k  # 'proved' | 'tested' | 'differs' | 'unknown'
        self.info = info

    def __repr__(self):
        return '%s %s' % (self.k, self.info or '')


def has_unk(x):
    return any(a.k == 'fn' and (a.name == 'unk' or a.name == 'entry')
               for a in all_atoms(x))


def basic_conds(c, out):
    if c.k in ('and', 'or', 'not'):
        for x in c.a:
            basic_conds(x, out)
    elif c.k in ('ge', 'gt', 'eq'):
        out.append(c)


def boundaries(*forms, limit=12):
    """(atom, value): settings of one free quantity that put a guard of the forms
    on its boundary; the places where a case distinction can hide a difference"""
    seen, out = set(), []
    conds = []
    for x in forms:
        for a in all_atoms(x):
            if a.k == 'ite':
                basic_conds(a.args[0], conds)
    for c in sorted(conds, key=lambda c: (len(c.a[0].t), repr(c))):
        p = c.a[0]
        if p.depth or has_unk(p):
            continue
        cand = []
        for m in p.t:
            if len(m) == 1 and m[0][1] == 1:
                at = m[0][0]
                if at.k == 'sym' or (at.k == 'fn' and at.name == 'arr'):
                    if _deg_in_atom(p, at) == 1:
                        cand.append(at)
        if not cand:
            continue
        # reals last: sizes carry the case distinctions
        cand.sort(key=lambda at: (at.sort != 'int', at.k != 'sym', at))
        at = cand[0]
        k = _coefa(p, at)
        r = p - k * P.of(at)
        if k.const() is None:
            v, e = -r * inv(k), ONE
        elif k.const():
            v, e = r * (-1 / k.const()), P.of(1 / k.const())
        else:
            continue
        vs = [v]
        if c.k != 'eq':
            vs += [v - e] if at.sort == 'int' else [v + Fraction(1, 3), v - Fraction(1, 3)]
        for w in vs:
            key = (at, w)
            if key not in seen:
                seen.add(key)
                out.append(key)
        if len(out) >= limit:
            break
    return out[:limit]


def magic(got, want):
    """numbers that decide a case or bound a range in got but not in want: the sizes and
    the values at which a difference may hide"""
    def coll(x):
        out = set()
        for a in all_atoms(x):
            ps = []
            if a.k == 'ite':
                cs = []
                basic_conds(a.args[0], cs)
                ps = [c.a[0] for c in cs]
            elif a.k == 'fn' and a.name in ('max', 'min', 'mod', 'idiv'):
                ps = a.args
            elif a.k == 'red':
                ps = a.args[1:3]
            for q in ps:
                out.update(abs(c) for c in q.t.values() if isinstance(c, Fraction) or isinstance(c, int))
        return out
    x, y = coll(got), coll(want)
    ints = sorted(int(c) for c in x - y if c == int(c) and 3 <= c <= 40)
    reals = sorted(Fraction(c) for c in x | y if c != int(c) or c > 2 and c not in y)
    return ints, reals


def around(cs):
    """values on both scales of the constants (themselves and their roots)"""
    out = [Fraction(1), Fraction(-1), Fraction(3, 7), Fraction(-5, 3)]
    for c in cs[:4]:
        for k in (Fraction(1, 2), Fraction(3, 2)):
            out += [c * k, -c * k]
        r = Fraction(math.isqrt(int(c * 10 ** 40)), 10 ** 20)
        out += [r / 3, -r / 3]
    return out


def compare(a, b, assume=(), tries=40, mp=None, seed=1, tol=1e-12, sizemax=4, pool=None, directed=True,
            defined=False):
    """decide equality of two closed forms under assumptions"""
    a, b = P.of(a), P.of(b)
    d = a - b
    if not d.t:
        return Verdict('proved')
    unk = has_unk(a) or has_unk(b)
    for q in assume:
        if has_unk(q):
            return Verdict('unknown', 'unmodelled assumption')
    rng = random.Random(seed)
    last = None

    def one(sz, target, pool=pool):
        """None: agree; 'skip'; Verdict"""
        nonlocal last
        val = Valuation(rng, sz, mp, pool)
        try:
            if target is not None:
                val.aim(*target)
            if not all(val.cond(q) for q in assume):
                return 'skip'
            for _ in range(5):
                try:
                    y = val.ev(b)
                    try:
                        x = val.ev(a)
                    except Bad as e:
                        if defined and e.args[0] in ('division by zero', 'divzero'):
                            return Verdict('differs', witness(val, 'undefined (division by zero)', y))
                        raise
                    break
                except Bad as e:
                    if mp or defined or len(e.args) < 2 or e.args[1] in val.pert:
                        raise
                    val.pert.add(e.args[1])
            else:
                return 'skip'
        except (Bad, ZeroDivisionError, OverflowError) as e:
            last = e
            return 'skip'
        if val.pert:
            if max(abs(x), abs(y)) > HUGE:
                return 'skip'
            if abs(x - y) > Fraction(1, 10 ** 6) * max(1, abs(x), abs(y)):
                return Verdict('differs', witness(val, x, y))
            return None
        if mp:
            x, y = (val.num(z) if isinstance(z, Fraction) else z for z in (x, y))
            if not (mp.isfinite(x) and mp.isfinite(y)):
                return 'skip'
            if abs(x - y) > tol * max(1, abs(x), abs(y)):
                return Verdict('differs', witness(val, x, y))
        elif x != y:
            return Verdict('differs', witness(val, x, y))
        return None
    n = ok = 0
    while n < tries * 12 and ok < tries:
        n += 1
        r = one((1 if n % 2 else 2) if unk and n < 6 * tries else sizemax if n % 3 else 2, None)
        if isinstance(r, Verdict):
            return r
        if r is None:
            ok += 1
    if directed:
        for t in boundaries(a, b):
            for k in range(4):
                r = one(2, t)
                if isinstance(r, Verdict):
                    return r
    ints, reals = magic(a, b) if directed else ((), ())
    if ints or reals:
        t0 = time.time()
        pl = around(reals) if reals else pool
        for k in range(60):
            if time.time() - t0 > 6:
                break
            big = min(ints[min(k % 3, len(ints) - 1)] * 3 + 2, 64) if ints and (k % 4 or not reals) else 2
            sizemax_, pool_ = big, (pl if k % 2 and reals else pool)
            r = one(sizemax_, None, pool_)
            if isinstance(r, Verdict):
                return r
    if unk:
        return Verdict('unknown', 'unmodelled sub-term (agrees at %d valuations without it)' % ok)
    if ok >= max(3, tries // 8):
        return Verdict('tested', ok)
    return Verdict('unknown', 'no admissible valuation (%s)' % last)


def witness(val, x, y):
    w = {k.name: str(v) for k, v in val.env.items() if k.k == 'sym'}
    def num(z):
        z = str(z)
        if len(z) > 40:
            try:
                return '%.12g' % float(Fraction(z))
            except (ValueError, OverflowError):
                pass
        return z[:60]
    return {'valuation': w, 'got': num(x), 'want': num(y)}
