"""Shared analysis of the differentiation-number operations (P01, P02, P03)."""
import mpmath
from kern import *

mpmath.mp.dps = 40
MP = mpmath.mp
DYN, STA, NES = 'AlgoDiffType<double,0>', 'AlgoDiffType<double,3>', 'AlgoDiffType<AlgoDiffType<double,2>,2>'
KINDS = {'dynamic': (DYN, 'double'), 'fixed': (STA, 'double'), 'nested': (NES, 'AlgoDiffType<double,2>')}


# ------------------------------------------------- the chain rule (oracle) ---
class Du:
    """number with derivatives; components are P or Du.  d is a list or a
    function of the index"""

    def __init__(self, v, d):
        self.v, self.d = v, d


def lift(f, df, *xs):
    """f and its partial derivatives applied to numbers of one type"""
    if not any(isinstance(x, Du) for x in xs):
        return f(*xs)
    ys = [x.v if isinstance(x, Du) else x for x in xs]
    part = [g(*ys) for g in df]
    n = next(len(x.d) for x in xs if isinstance(x, Du))
    ds = []
    for i in range(n):
        t = None
        for x, g in zip(xs, part):
            if isinstance(x, Du):
                q = mul(g, x.d[i])
                t = q if t is None else add(t, q)
        ds.append(t)
    return Du(lift(f, df, *ys), ds)


def like(c, x):
    """the constant c as a number of the type of x"""
    if isinstance(x, Du):
        return Du(like(c, x.v), [like(0, y) for y in x.d])
    return P.of(c)


def up(x, y):
    """bring the plain operand to the type of the other one"""
    if depth(x) < depth(y):
        x = up(x, y.v)
        return Du(x, [like(0, z) for z in y.d])
    return x


def depth(x):
    return 1 + depth(x.v) if isinstance(x, Du) else 0


def two(f):
    def g(x, y):
        return f(up(x, y), up(y, x))
    return g


@two
def add(x, y):
    if isinstance(x, Du):
        return Du(add(x.v, y.v), [add(a, b) for a, b in zip(x.d, y.d)])
    return x + y


@two
def mul(x, y):
    return lift(lambda a, b: a * b, (lambda a, b: b, lambda a, b: a), x, y)


def neg(x):
    return mul(like(-1, x), x)


def sub(x, y):
    return add(x, neg(y))


@two
def div(x, y):
    return lift(lambda a, b: a * power(b, P.of(-1)),
                (lambda a, b: rec(b), lambda a, b: neg(mul(a, mul(rec(b), rec(b))))), x, y)


def rec(x):
    return div(like(1, x), x)


def un(name, d):
    def g(x):
        return lift(lambda a: fn(name, (a,)), (d,), x)
    return g


def k(c):
    return lambda x: like(c, x)


exp = un('exp', lambda x: exp(x))
sin = un('sin', lambda x: cos(x))
cos = un('cos', lambda x: neg(sin(x)))
log = un('log', lambda x: rec(x))
LN10 = fn('log', (P.of(10),))
log10 = un('log10', lambda x: rec(mul(like(LN10, x), x)))
sqrt = un('sqrt', lambda x: div(like(Fraction(1, 2), x), sqrt(x)))
tan = un('tan', lambda x: rec(mul(cos(x), cos(x))))
asin = un('asin', lambda x: rec(sqrt(sub(like(1, x), mul(x, x)))))
acos = un('acos', lambda x: neg(rec(sqrt(sub(like(1, x), mul(x, x))))))
atan = un('atan', lambda x: rec(add(like(1, x), mul(x, x))))


@two
def rpow(x, y):
    return lift(lambda a, b: fn('rpow', (a, b)),
                (lambda a, b: mul(b, rpow(a, sub(b, like(1, b)))), lambda a, b: mul(rpow(a, b), log(a))), x, y)


def outer(x):
    while isinstance(x, Du):
        x = x.v
    return x


def absd(x):
    """not differentiable at zero"""
    c = gt0(outer(x))
    n = neg(x)

    def sel(a, b):
        if isinstance(a, Du):
            return Du(sel(a.v, b.v), [sel(p, q) for p, q in zip(a.d, b.d)])
        return ite(c, a, b)
    return sel(x, n)


def ipow(x, n):
    if n == 0:
        return like(1, x)
    return lift(lambda a: power(a, P.of(n)), (lambda a: mul(like(n, a), ipow(a, n - 1)),), x)


def spow(x, s):
    """power with the plain scalar s as exponent (constant with respect to x)"""
    n = s.as_int() if isinstance(s, P) else None
    return rpow(x, s) if n is None else ipow(x, n)


UN = {'neg': neg, 'exp': exp, 'abs': absd, 'sqrt': sqrt, 'log': log, 'log10': log10, 'cos': cos, 'sin': sin,
      'tan': tan, 'acos': acos, 'asin': asin, 'atan': atan, 'copy': lambda x: x}
BI = {'add': add, 'sub': sub, 'mul': mul, 'div': div}
POS = ('sqrt', 'log', 'log10', 'pows', 'powa')
UNIT = ('asin', 'acos')


# operations at single points (singular: the value exists, the derivative does not)
SPECIAL = [(op, 0, False) for op in ('neg', 'exp', 'cos', 'sin', 'tan', 'asin', 'acos', 'atan', 'copy')] + \
    [(op, 1, False) for op in ('neg', 'exp', 'abs', 'sqrt', 'log', 'log10', 'cos', 'sin', 'tan', 'atan', 'pows',
                               'powa')] + \
    [(op, -1, False) for op in ('neg', 'exp', 'abs', 'cos', 'sin', 'tan', 'atan')] + \
    [('abs', 0, True), ('sqrt', 0, True), ('asin', 1, True), ('asin', -1, True), ('acos', 1, True),
     ('acos', -1, True)]


# ------------------------------------------------------------- operands ------
class Bed(Bench):
    def __init__(self, case, flags=()):
        Bench.__init__(self, case, 'ad', flags)
        self.open = True
        self.q = None
        self.m = self.size('m', 1)

    def number(self, tname, name, lo=None, hi=None, m=None):
        """symbolic number; its value lies in (lo, hi)"""
        t = self.typeof(tname)
        return self.it.new(self.val(self.it.zero(t), t, name, lo, hi, m), t, name)

    def val(self, z, t, name, lo, hi, m=None):
        if isinstance(z, P):
            if lo is not None and lo == hi:
                return P.of(lo)
            return P.of(Sym(name, 'real', lo, hi))
        f = dict(z.f)
        f['v_'] = self.val(f['v_'], None, name + 'v', lo, hi)
        d = f['d_']
        if isinstance(d, VecV):
            q = Sym('q', 'int', S.ZERO, None)
            tm = self.it.zero(d.ety)
            n = len(tleaves(tm))
            tree = tbuild(tm, iter([fn('arr', (name + 'd', i, P.of(q))) for i in range(n)]))
            f['d_'] = VecV(P.of(self.m if m is None else m), Cnt(('lam', q, tree)), d.ety)
        else:
            f['d_'] = ArrV([self.val(x, None, '%sd%d' % (name, i), None, None) for i, x in enumerate(d.e)])
        return Obj(z.rec, f)

    def probe(self, short, tname):
        for f in self.p.find(short, many=True):
            ps = [self.p.shortty(self.p.strip(x['type'])) for x in f['params']]
            if tname in ps[:1]:
                return f
        raise NoFun('probe function %s for %s' % (short, tname))


def oracle(v):
    """analysed value as operand of the oracle (dynamic lists become the single
    symbolic component q)"""
    if isinstance(v, P):
        return v
    d = v.f['d_']
    if isinstance(d, VecV):
        return Du(oracle(v.f['v_']), [oracle(cread(d.c, P.of(QI)))])
    return Du(oracle(v.f['v_']), [oracle(x) for x in d.e])


QI = Sym('i', 'int', 0, None)


def pairs(got, want, path='value', lead=True):
    """(name, is value part, derived, expected)"""
    if isinstance(got, P):
        if isinstance(want, Du):
            raise Unsup('shape')
        yield path, lead, got, want
        return
    d = got.f['d_']
    yield from pairs(got.f['v_'], want.v, path, lead)
    if isinstance(d, VecV):
        yield from pairs(cread(d.c, P.of(QI)), want.d[0], 'derivative i of ' + path, False)
    else:
        for i, x in enumerate(d.e):
            yield from pairs(x, want.d[i], 'derivative %d of %s' % (i, path), False)


def judge(b, c, kind, label, f, got, want, values, assume=()):
    if isinstance(got, Obj) and isinstance(got.f['d_'], VecV):
        b.equal('the result has the operands\' number of derivatives', label, f, got.f['d_'].ln, P.of(b.m))
    for path, lead, g, w in pairs(got, want):
        if lead != values:
            continue
        b.equal('%s = %s' % (path if lead else path, 'plain operation' if lead else 'chain rule'),
                '%s %s' % (label, path), f, g, w,
                tuple(assume) + (ge0(P.of(b.m) - 1 - P.of(QI)),), mp=MP, tries=12, defined=True)


def expr(c, kind, op, form, values, at=None, bt=None, st=None):
    """one operation in one operand order (operands optionally at one value)"""
    b = Bed(c)
    A, Sc = KINDS[kind]

    def fix(x):
        return (P.of(x), P.of(x)) if x is not None else (None, None)
    lo, hi = fix(at) if at is not None else (None, None) if st is not None and P.of(st).as_int() is not None else (S.ZERO, None) if op in POS else (P.of(-1), S.ONE) if op in UNIT else (None, None)
    a = b.number(A, 'a', lo, hi)
    bb = b.number(A, 'b', *fix(bt))
    s = b.number(Sc, 's', *fix(st))
    oa, ob, os_ = (oracle(b.it.load(x)) for x in (a, bb, s))
    b.start()
    f = b.probe('%s_%s' % (op, form), A)
    inplace = form in ('ia', 'is', 'self')
    r = b.call(f, None, [a, bb, s])
    got = b.it.load(a) if inplace else b.it.rv(r)
    if op in BI:
        x, y = {'aa': (oa, ob), 'as': (oa, os_), 'sa': (os_, oa), 'ia': (oa, ob), 'is': (oa, os_),
                'self': (oa, oa)}[form]
        want = BI[op](x, y)
    elif op == 'pows':
        want = spow(oa, os_)
    elif op == 'powa':
        want = rpow(oa, ob)
    elif op == 'assign':
        got, want = b.it.load(a), ob
    else:
        want = UN[op](oa)
    assume = [c_not(eq0(outer(oa)))] if op == 'abs' and not values else []
    label = '%s number, %s (%s)' % (kind, op, form)
    for nm, x in (('first', at), ('second', bt), ('scalar', st)):
        if x is not None:
            label += ' with %s = %s' % (nm, x)
    judge(b, c, kind, label, f, got, want, values, assume)
    if not values:
        if (op, form) == ('div', 'self'):
            b.wants.append(S.inv(outer(oa)))
        b.clean('no error on valid operands', label, f)
        # operands that are not the target stay as they were
        for nm, x, o in (('first', a, oa), ('second', bb, ob)):
            if x is a and (inplace or op == 'assign'):
                continue
            for path, lead, g, w in pairs(b.it.load(x), o):
                if g != w:
                    b.equal('operands that are not the target are unchanged', '%s, %s operand %s' % (
                        label, nm, path), f, g, w)


def build(c, what, values):
    """construction, activation, access"""
    b = Bed(c)
    kind, op = what
    inner = 'double' if kind == 'plain' else 'AlgoDiffType<double,2>'
    v = b.number(inner, 'v')
    n = b.size('n', 1)
    i = b.size('i', 0)
    ov = oracle(b.it.load(v))
    b.start()
    lab = '%s of %s' % (op, inner)

    def fnd(short):
        for f in b.p.find(short, many=True):
            for x in f['params']:
                if b.p.shortty(b.p.strip(x['type'])) == inner:
                    return f
        raise NoFun(short)
    f = fnd(op)
    sz = b.size_ref = lambda x: b.it.new(P.of(x), b.it.size_t(), 'n')
    act = op.endswith('active')
    if op.startswith('make_dyn'):
        args = [v, sz(n)] + ([sz(i)] if act else [])
        cnt = P.of(n)
    elif op == 'assign_sta':
        t = b.typeof('AlgoDiffType<%s,3>' % inner)
        m = b.number('AlgoDiffType<%s,3>' % inner, 'm')
        args, cnt = [m, v], P.of(3)
    else:
        args = [v] + ([sz(i)] if act else [])
        cnt = P.of(3)
    if act:
        b.assume.append(ge0(cnt - 1 - P.of(i)))
    r = b.call(f, None, args)
    got = b.it.load(args[0]) if op == 'assign_sta' else b.it.rv(r)
    ass = (ge0(cnt - 1 - P.of(i)),)
    d = got.f['d_']
    if values:
        for path, lead, g, w in pairs(got.f['v_'], ov):
            b.equal('the value is the given value', lab + ' ' + path, f, g, w, ass)
        return
    ln = d.ln if isinstance(d, VecV) else P.of(len(d.e))
    b.equal('number of derivatives as requested', lab, f, ln, cnt, ass)
    j = b.size('j', 0)
    ass += (ge0(cnt - 1 - P.of(j)),)
    x = cread(d.c, P.of(j)) if isinstance(d, VecV) else b.it.step(d, ('a', P.of(j)))
    one = ite(eq0(P.of(i) - P.of(j)), S.ONE, S.ZERO) if act else S.ZERO
    for n_, l in enumerate(tleaves(x)):
        b.equal('derivatives of an independent variable are the unit vector, of a constant zero',
                lab + ' entry %d' % n_, f, l, one if n_ == 0 else S.ZERO, ass)
    b.clean('no error on valid operands', lab, f, ass)


def access(c, kind, values):
    b = Bed(c)
    A, Sc = KINDS[kind]
    a = b.number(A, 'a')
    o = b.it.load(a)
    x = b.number(A, 'x')
    s = b.number(Sc, 's')
    b.start()
    if values:
        f = b.probe('value_v', A)
        r = b.it.rv(b.call(f, None, [a, x, s]))
        for n, (g, w) in enumerate(zip(tleaves(r) if not isinstance(r, P) else [r],
                                       tleaves(o.f['v_']) if not isinstance(o.f['v_'], P) else [o.f['v_']])):
            b.equal('the value read is the value carried', kind + ' GetValue %d' % n, f, g, w)
        f = b.probe('default_v', A)
        r = b.it.rv(b.call(f, None, [a, x, s]))
        v = r.f['v_']
        for n, g in enumerate(tleaves(v)):
            b.equal('an empty number is zero', kind + ' default %d' % n, f, g, S.ZERO)
        return
    f = b.probe('derivs_v', A)
    r = b.it.rv(b.call(f, None, [a, x, s]))
    d = o.f['d_']
    if isinstance(d, VecV):
        b.equal('all derivatives are returned', kind + ' GetDerivatives', f, r.ln, d.ln)
        b.equal('the derivative read is the one carried', kind + ' GetDerivatives', f,
                tleaves(cread(r.c, P.of(QI)))[0], tleaves(cread(d.c, P.of(QI)))[0])
    else:
        for n, (g, w) in enumerate(zip(tleaves(r), tleaves(d))):
            b.equal('the derivative read is the one carried', kind + ' GetDerivatives %d' % n, f, g, w)
    f = b.probe('count_v', A)
    b.equal('the count is the number of derivatives carried', kind + ' GetNumberOfDerivatives', f,
            b.it.rv(b.call(f, None, [a, x, s])), d.ln if isinstance(d, VecV) else P.of(len(d.e)))
    f = b.probe('activate_v', A)
    i = b.size('i', 0)
    b.assume.append(ge0((d.ln if isinstance(d, VecV) else P.of(len(d.e))) - 1 - P.of(i)))
    b.call(f, None, [a, b.it.new(P.of(i), b.it.size_t(), 'i'), s])
    got = b.it.load(a).f['d_']
    cnt = d.ln if isinstance(d, VecV) else P.of(len(d.e))
    j = b.size('j', 0)
    ass = (ge0(cnt - 1 - P.of(i)), ge0(cnt - 1 - P.of(j)))
    y = cread(got.c, P.of(j)) if isinstance(got, VecV) else b.it.step(got, ('a', P.of(j)))
    for n, g in enumerate(tleaves(y)):
        b.equal('activating a component gives the unit vector', kind + ' SetActiveComponent entry %d' % n, f, g,
                ite(eq0(P.of(i) - P.of(j)), S.ONE, S.ZERO) if n == 0 else S.ZERO, ass)


def compare_op(c, kind, op, form):
    b = Bed(c)
    A, Sc = KINDS[kind]
    a, bb, s = b.number(A, 'a'), b.number(A, 'b'), b.number(Sc, 's')
    oa, ob, os_ = (outer(oracle(b.it.load(x))) for x in (a, bb, s))
    b.start()
    f = b.probe('%s_%s' % (op, form), A)
    r = b.it.rv(b.call(f, None, [a, bb, s]))
    x, y = {'aa': (oa, ob), 'as': (oa, os_), 'sa': (os_, oa)}[form]
    want = {'lt': gt0(y - x), 'gt': gt0(x - y), 'le': c_not(gt0(x - y)), 'ge': c_not(gt0(y - x)),
            'eq': eq0(x - y), 'ne': c_not(eq0(x - y))}[op]
    # small values, so that equality occurs
    b.equal('comparison of the numbers = comparison of the values', '%s number, %s (%s)' % (kind, op, form), f,
            r, want, tries=200, pool=[Fraction(-1), Fraction(0), Fraction(2)])
    b.clean('no error on valid operands', '%s number, %s (%s)' % (kind, op, form), f)


def cases_ops(values):
    out = []

    def mk(f, *a):
        return lambda c: f(c, *a)
    for kind in KINDS:
        for op in BI:
            for form in ('aa', 'as', 'sa', 'ia', 'is', 'self'):
                out.append(('%s %s %s' % (kind, op, form), mk(expr, kind, op, form, values)))
        for op in list(UN) + ['pows', 'powa']:
            out.append(('%s %s' % (kind, op), mk(expr, kind, op, 'f', values)))
        for op, at, sing in SPECIAL:
            if values or not sing:
                out.append(('%s %s at %s' % (kind, op, at), mk(expr, kind, op, 'f', values, at)))
        for op in BI:
            for form in ('aa', 'as', 'sa', 'ia', 'is'):
                for at, bt in ((0, None), (1, None), (None, 0), (None, 1)):
                    if op == 'div' and (bt == 0 or form == 'sa' and at == 0) or form == 'sa' and bt is not None:
                        continue
                    kw = dict(at=at)
                    kw['st' if form in ('as', 'is') else 'bt'] = bt
                    if kind == 'nested' and kw.get('st') is not None:
                        continue
                    out.append(('%s %s %s %s' % (kind, op, form, kw), lambda c, kind=kind, op=op, form=form, kw=kw:
                                expr(c, kind, op, form, values, **kw)))
        if kind != 'nested':
            for st in (0, 1, 2, 3, 4, -1, -2, Fraction(1, 2)):
                out.append(('%s pows %s' % (kind, st), lambda c, kind=kind, st=st:
                            expr(c, kind, 'pows', 'f', values, st=st)))
        out.append(('%s assign' % kind, mk(expr, kind, 'assign', 'v', values)))
        out.append(('%s access' % kind, mk(access, kind, values)))
    for kind in ('plain', 'number'):
        for op in ('make_dyn', 'make_dyn_active', 'make_sta', 'make_sta_active', 'assign_sta'):
            out.append(('%s %s' % (op, kind), mk(build, (kind, op), values)))
    return out
