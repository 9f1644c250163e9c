"""Abstract interpretation of addition and subtraction of polynomial splines over
splines as functions: order elevation enters by its contract (P11), loops that
elevate until the degrees agree are closed by induction on the number of rounds,
and the function and the degrees of the result are compared with the pointwise sum
or difference, for every relation between the degrees of the operands."""
from kern import *
from alg import Alg, NoDen

TECHNIQUE = ('abstract interpretation over a function domain (spline algebra) with inductive closure of the elevation '
             'loops; the elevation itself by value-flow analysis to closed forms')
NOTE = ('Sound for the modelled C++ subset under exact arithmetic; all degrees symbolic, split by the relation of '
        'the operands\' degrees. Closed forms equal by normal form or, where reported, by identity testing of the '
        'formulas. Trusts clang front end, exporter, engine.')
RAW = {'operator+', 'operator-', 'operator+=', 'operator-='}


def family(rel):
    ns, ms = [], []
    for d, r in enumerate(rel):
        n = P.of(Sym('n%d' % d, 'int', 1, None))
        e = P.of(Sym('e%d' % d, 'int', 1, None))
        ns.append(n + e if r == '>' else n)
        ms.append(n + e if r == '<' else n)
    return ns, ms


def read(b, ref, us):
    try:
        return [f.val(us, [0] * len(us)) for f in b.den(ref)], b.degs(ref)
    except NoDen as e:
        raise Unsup('no function meaning: %s' % e)


def spl(c, probe, dim, pt, op, rel, mode='other'):
    b = Alg(c, probe, raw=RAW)
    ns, ms = family(rel)
    k, a, _ = b.poly(dim, pt, 'A', ns)
    s = a if mode == 'itself' else b.poly(dim, pt, 'B', ms)[1]
    us = [P.of(b.real('u%d' % d)) for d in range(dim)]
    f = [g for g in b.p.find('operator' + op, rec=k.rec, many=True)
         if [b.p.shortty(b.p.strip(q['type'])) for q in g['params']] == [k.rec]]
    if not f:
        raise NoFun('operator%s of %s' % (op, k.rec))
    f = f[0]
    byval = b.p.types[f['params'][0]['type']]['k'] not in ('ref', 'rref')
    con = '%s %s %s, degrees %s%s' % (k.rec, op, k.rec, ','.join(rel), ', itself' if mode == 'itself' else '')
    b.start()
    arg = s
    if byval:
        # passing by value copies
        arg = b.it.new(b.it.load(s), k.t, 'copy')
    v = b.call(f, a, [b.it.load(arg) if False else arg])
    sg = 1 if '+' in op else -1
    z = [0] * dim
    V = lambda nm, i: fn('val', (nm, i) + tuple(P.of(0) for _ in z) + tuple(us))
    n = ncomp(pt)
    B = 'A' if mode == 'itself' else 'B'
    want = [V('A', i) + V(B, i) * sg for i in range(n)]
    wdeg = [fmax(x, y) for x, y in zip(ns, ms)] if mode != 'itself' else ns
    refs = []
    if v is not None:
        refs.append(('result', v if isinstance(v, Ref) else b.it.new(v, b.p.strip(f['ret']), 'result')))
    if op.endswith('='):
        refs.append(('target', a))
    for nm, r in refs:
        vs, dg = read(b, r, us)
        if len(vs) != n:
            c.add('pointwise sum or difference', con, b.where(f), 'violated', '%d components' % len(vs))
            continue
        for d in range(dim):
            b.equal('per dimension the larger of the two degrees', '%s, %s dimension %d' % (con, nm, d), f, dg[d], wdeg[d])
        for i in range(n):
            b.equal('%s = pointwise %s' % (nm, 'sum' if sg > 0 else 'difference'),
                    con + (' component %d' % i if n > 1 else ''), f, vs[i], want[i])
        pts = points(b.it, b.kit_of(r), r)
        b.equal('number of control points fits the degrees', '%s, %s' % (con, nm), f, pts.ln, prod(wdeg))
    keep = []
    if not op.endswith('='):
        keep.append((a, 'A', ns))
    if mode != 'itself':
        keep.append((s, 'B', ms))
    for r, nm, qs in keep:
        t = Sym('t', 'int', 0, prod(qs) - 1)
        pts = points(b.it, k, r)
        b.equal_leaves('operands that are not the target are unchanged', '%s, operand %s' % (con, nm), f,
                       cread(pts.c, P.of(t)), [arr(nm, q, P.of(t)) for q in range(n)])
        for d in range(dim):
            b.equal('operands that are not the target are unchanged', '%s, operand %s degree %d' % (con, nm, d), f,
                    b.degs(r)[d], qs[d])
    b.clean('terminates without error', con, f)


def cases(ctx):
    out = []
    for dim in (1, 2, 3):
        for pt in ('double', 'Point<3,double>' if dim == 3 else 'Point<2,double>') + EXTRA[dim]:
            probe = 'poly'
            if dim == 3 and pt != 'double' and ctx.tier == 'quick':
                rels = [('<', '>', '='), ('=', '=', '='), ('>', '>', '>'), ('<', '<', '<')]
            else:
                rels = list(itertools.product('=<>', repeat=dim))
            for op in '+', '-', '+=', '-=':
                for rel in rels:
                    out.append(('%dD %s %s %s' % (dim, pt, op, ''.join(rel)),
                                lambda c, a=(probe, dim, pt, op, rel): spl(c, *a)))
                if not op.endswith('='):
                    out.append(('%dD %s %s itself' % (dim, pt, op),
                                lambda c, a=(probe, dim, pt, op, ('=',) * dim, 'itself'): spl(c, *a)))
    out += lemmas(ctx, 'p11')
    return out
