"""Abstract interpretation of the index conversions and of every control-point
accessor over symbolic degrees and indices.  Conversions are compared with the
mixed-radix definition (first dimension fastest), the round trips with the
identity, and every accessor's returned reference is resolved to the container
element it designates."""
from kern import *

TECHNIQUE = 'value-flow analysis to closed forms over symbolic degrees (mixed-radix index algebra)'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic and no overflow of the index types; '
        'closed forms equal by normal form or, where reported, by identity testing of the formulas. '
        'Dimensions one to three, scalar- and point-valued. Trusts clang front end, exporter, engine.')


def call_acc(b, k, f, this, js, aname):
    dim = len(js)
    p0 = f['params'][0]['type'] if f['params'] else None
    if p0 is not None and b.p.shortty(b.p.strip(p0)).startswith('array<'):
        t = b.p.strip(p0)
        args = [b.it.new(ArrV([P.of(j) for j in js]), t, 'idx')]
    else:
        args = [P.of(j) for j in js]
    return b.call(f, this, args)


def overload(b, f):
    p0 = f['params'][0]['type'] if f['params'] else None
    arrt = p0 is not None and b.p.shortty(b.p.strip(p0)).startswith('array<')
    return '%s, %s' % ('array' if arrt else 'variadic', 'read-only' if f.get('cst') else 'mutable')


def conv(c, rat, dim, pt):
    probe = 'rational' if rat else 'poly'
    b = Bench(c, probe)
    if rat:
        k, a, ns = make_rat(b, dim, pt)
    else:
        k, a, ns = b.poly(dim, pt)
    b.start()
    N = prod([P.of(n) for n in ns])
    js = idx_syms(ns)
    t = Sym('t', 'int', 0, N - 1)
    fl = b.p.find('LocalToGlobalIndex', rec=k.rec)
    fg = b.p.find('GlobalToLocalIndex', rec=k.rec)
    con = k.rec + '::'
    mi = b.it.rv(b.call(fl, a, [P.of(t)]))
    r = P.of(t)
    for d in range(dim):
        b.equal('multi-index digit = mixed-radix digit, first dimension fastest',
                con + 'LocalToGlobalIndex digit %d' % d, fl, mi.e[d], S.imod(r, P.of(ns[d])))
        r = S.idiv(r, P.of(ns[d]))
    # definition of the flat index
    g = b.it.rv(b.call(fg, a, [b.param(k, 'GlobalToLocalIndex', 0, js)]))
    b.equal('flat index = mixed-radix number, first dimension fastest',
            con + 'GlobalToLocalIndex', fg, g, flat(ns, js))
    # round trips
    m2 = b.it.rv(b.call(fl, a, [g]))
    for d in range(dim):
        b.equal('multi-index to flat to multi-index is the identity', con + 'round trip digit %d' % d,
                fl, m2.e[d], P.of(js[d]))
    arg = b.it.new(mi, b.p.strip(fg['params'][0]['type']), 'idx')
    g2 = b.it.rv(b.call(fg, a, [arg]))
    b.equal('flat to multi-index to flat is the identity', con + 'round trip', fg, g2, P.of(t))
    b.clean('terminates without error', con + 'index conversion', fl)


def acc(c, rat, dim, pt):
    probe = 'rational' if rat else 'poly'
    b0 = Bench(c, probe)
    rec = ratname(dim, pt) if rat else polyname(dim, pt)
    names = ['ControlPoint'] + (['WeightedControlPoint', 'Weight'] if rat else [])
    for nm in names:
        fs = [f for f in b0.p.find(nm, rec=rec, many=True) if f.get('body') is not None]
        for q in range(len(fs)):
            b = Bench(c, probe)
            if rat:
                k, a, ns = make_rat(b, dim, pt)
            else:
                k, a, ns = b.poly(dim, pt)
            b.start()
            js = idx_syms(ns)
            f = [f for f in b.p.find(nm, rec=rec, many=True) if f.get('body') is not None][q]
            con = '%s::%s (%s)' % (rec, nm, overload(b, f))
            v = call_acc(b, k, f, a, js, nm)
            fi = flat(ns, js)
            if nm == 'Weight':
                want = [arr('W', 0, fi)]
            elif nm == 'ControlPoint' and rat:
                want = [arr('A', i, fi) / arr('W', 0, fi) for i in range(ncomp(pt))]
            else:
                want = [arr('A', i, fi) for i in range(ncomp(pt))]
            if isinstance(v, Ref):
                got = b.it.load(v)
            else:
                got = v
            b.equal_leaves('the entry with the flat index is selected', con, f, got, want)
            b.clean('terminates without error', con, f)
            # writing through a mutable accessor changes exactly that entry
            if isinstance(v, Ref) and not f.get('cst'):
                z = b.it.zero(b.typeof(pt if nm != 'Weight' else 'double'))
                xs = [P.of(Sym('x%d' % i, 'real')) for i in range(len(tleaves(z)))]
                new = tbuild(z, iter(xs))
                b.it.store(v, new)
                ks = idx_syms(ns, 'k')
                g2 = [g for g in b.p.find(nm, rec=rec, many=True) if g.get('cst') and
                      b.p.shortty(b.p.strip(g['params'][0]['type'])).startswith('array<')]
                if not g2:
                    continue
                back = call_acc(b, k, g2[0], a, ks, nm)
                if not isinstance(back, Ref):
                    continue
                back = b.it.load(back)
                same = c_and(*[eq0(P.of(x) - P.of(y)) for x, y in zip(js, ks)])
                src = 'W' if nm == 'Weight' else 'A'
                b.equal_leaves('writing through the accessor changes exactly that entry', con, f, back,
                               [ite(same, x, arr(src, i, flat(ns, ks)))
                                for i, x in enumerate(xs)])


def cases(ctx):
    out = []
    for dim in (1, 2, 3):
        for pt in ('double', 'Point<2,double>', 'Point<3,double>') + EXTRA[dim]:
            for rat in (False, True):
                n = '%dD %s %s' % (dim, pt, 'rational' if rat else 'polynomial')
                out.append((n + ' conversion', lambda c, r=rat, d=dim, q=pt: conv(c, r, d, q)))
                out.append((n + ' accessors', lambda c, r=rat, d=dim, q=pt: acc(c, r, d, q)))
    return out
