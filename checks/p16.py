"""Guard analysis of the composition entry points: every one is interpreted over
symbolic inner splines in each build configuration; the condition under which it
raises the terminating error (path conditions of all throw sites, closed form over
all control points) has to cover every inner function that leaves the unit cube."""
from kern import *
import p15
from p15 import COMBOS, operands, entry, fits, member
from alg import Alg
from p22 import POOL, POOL1

TECHNIQUE = 'abstract interpretation of guards: path conditions of the throw sites against the definition, per build configuration'
NOTE = ('Sound for the modelled C++ subset under exact arithmetic (no NaN). Conditions equal by normal form or, where '
        'reported, by identity testing of the formulas at values around the bounds. The terminating error itself is the '
        'logger lemma (P27). Trusts clang front end, exporter, engine.')
CONFIGS = [('', ()), ('NDEBUG', ('-DNDEBUG',)), ('logging', ('-DENABLE_LOGGING',)),
           ('NDEBUG and logging', ('-DNDEBUG', '-DENABLE_LOGGING'))]
RULE = 'an error is raised whenever the request is invalid'


def raised(b):
    """condition under which a terminating error is raised"""
    return c_or(*b.it.thrown)


def covered(b, con, f, invalid, rule=RULE, pools=None, **kw):
    """invalid => raised"""
    c = b.case
    pools = pools or [None]
    for i, pool in enumerate(pools):
        n0 = len(c.obs)
        v = b.equal(rule, con, f, c_or(raised(b), c_not(invalid)), S.TRUE, pool=pool, **kw)
        if v == 'violated' or i == len(pools) - 1:
            return v
        del c.obs[n0:]


POOLS = [POOL, POOL1, 8 * POOL1 + POOL[-2:]]


def single(c, combo, ro, ri, name, cfg):
    b, k, a, ns, ki, i, ms, us, V, inner = operands(c, combo, ro, ri, flags=cfg[1])
    f = entry(b, name, k.rec, ki.rec)
    b.start()
    con = '%s::%s(%s)%s' % (k.rec, name, ki.rec, ' with ' + cfg[0] if cfg[0] else '')
    if not returns(b, f, a, [i]):
        c.add(RULE, con, b.where(f), 'holds', 'never returns')
        return
    covered(b, con, f, c_not(c_and(*fits(ms, ncomp(combo[3]), ri))), pools=POOLS, tries=120, sizemax=2)


def returns(b, f, this, args):
    """False when the call never returns (an error on every path)"""
    try:
        b.result = b.it.rv(b.call(f, this, args))
        return True
    except DeadCode:
        b.case.obs[:] = [o for o in b.case.obs if o['rule'] != 'returns on valid input']
        return False


def group(c, combo, ri, cfg):
    P_, pt, Q, ipt = combo
    b = Alg(c, 'compose', flags=cfg[1])
    ns, ms = ncoef(P_, 'n'), ncoef(Q, 'm')
    k, a, _ = b.poly(P_, pt, 'A', ns)
    ki = b.kit((ratname if ri else polyname)(Q, ipt))
    f = entry(b, 'Compose', k.rec, 'vector<%s>' % ki.rec)
    G = Sym('G', 'int', 0, None)
    q = Sym('q', 'int', 0, P.of(G) - 1)
    vt = b.p.strip(f['params'][0]['type'])
    r = b.it.new(VecV(P.of(G), Cnt(('lam', q, b.it.load(member(b, ki, ms, ri, ipt, Q, q)))), ki.t), vt, 'group')
    names = {fs[0].nm: n for n, (fs, _, _) in b.mean.items() if hasattr(fs[0], 'nm')}
    b.start()
    con = '%s::Compose(vector of %s)%s' % (k.rec, ki.rec, ' with ' + cfg[0] if cfg[0] else '')
    if not returns(b, f, a, [r]):
        c.add(RULE, con, b.where(f), 'holds', 'never returns')
        return
    N = prod([P.of(m) for m in ms])
    z = Sym('z', 'int', 0, N - 1)
    g = Sym('g', 'int', 0, P.of(G) - 1)
    ok = []
    for i in range(ncomp(ipt)):
        v = fn('arr', (names['B'], i, P.of(z), P.of(g)))
        if ri:
            v = v * S.inv(fn('arr', (names['V'], 0, P.of(z), P.of(g))))
        ok += [ge0(S.Reduce('min', z, S.ZERO, N - 1, v)), ge0(1 - S.Reduce('max', z, S.ZERO, N - 1, v))]
    out = ge0(Sum(g, S.ZERO, P.of(G) - 1, ite(c_and(*ok), S.ZERO, S.ONE)) - 1)
    covered(b, con, f, out, pools=POOLS, tries=120, sizemax=2)


def logger_lemma():
    """the terminating error always throws"""
    import p27
    return [('P27: %s %s' % (k, lg), lambda c, lg=lg, k=k, b=b, f=f: p27.message(c, lg, k, b, f))
            for lg in (True, False) for k, b, f in p27.KINDS if k.startswith('Fatal')]


def cases(ctx):
    out = []
    for cfg in CONFIGS:
        t = ' (%s)' % (cfg[0] or 'default')
        for combo in COMBOS:
            for ri in (False, True):
                for ro in (False, True):
                    h = '%s %dD %s of %s %dD %s ' % ('rational' if ro else 'polynomial', combo[0], combo[1],
                                                     'rational' if ri else 'polynomial', combo[2], combo[3])
                    for nm in ('Compose', 'ComposeSensitivity'):
                        out.append((h + nm + t, lambda c, a=(combo, ro, ri, nm, cfg): single(c, *a)))
                    if not ro:
                        out.append((h + 'group' + t, lambda c, a=(combo, ri, cfg): group(c, *a)))
    return out + logger_lemma() + lemmas(ctx, 'p22')
