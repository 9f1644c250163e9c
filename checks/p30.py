"""Every indexed access the operations make, in the abstract runs of all operation
checks (symbolic degrees, dimensions one to three, all supported point types): an
obligation 0 <= index < size per access, with the facts of the branches and loop
ranges around it.  A violation names the access and gives admissible sizes and
index values for which it lies outside."""
import importlib
import kern
from kern import *
from alg import Alg

TECHNIQUE = 'abstract interpretation with symbolic intervals: an index obligation per container access, discharged over closed forms'
NOTE = ('Sound for the modelled C++ subset and no overflow of index types. An obligation that is not discharged '
        'symbolically is evaluated as a formula at admissible sizes and reported as undecided only if it has parts '
        'that are not modelled. Degrees that the binomial table rejects by assertion are not valid. Trusts clang '
        'front end, exporter, engine.')
RULE = 'every access is inside its container'
SOURCES = ('p01', 'p03', 'p04', 'p05', 'p06', 'p07', 'p08', 'p09', 'p10', 'p11', 'p12', 'p13', 'p14', 'p15', 'p16', 'p17', 'p20',
           'p22', 'p24', 'p25', 'p26', 'p28')


class Quiet:
    """collector of the wrapped case: its own obligations are judged elsewhere"""

    def __init__(self, c):
        self.ctx, self.name, self.stats, self.funs, self.obs = c.ctx, c.name, {}, c.funs, []

    def add(self, *a, **k):
        pass

    def count(self, *a):
        pass


def wrapped(c, f):
    q = Quiet(c)
    got = []
    old = Bench.call, Bench.equal, Bench.clean, Bench.equal_leaves

    def call(self, *a, **k):
        self.it.force = True
        try:
            return old[0](self, *a, **k)
        finally:
            got.extend((self, o) for o in self.it.obs if o['kind'] == 'bounds')

    def none(self, *a, **k):
        return 'holds'
    Bench.call, Bench.equal, Bench.clean, Bench.equal_leaves = call, none, none, none
    olda, Alg.equal = Alg.equal, none
    try:
        f(q)
    finally:
        Bench.call, Bench.equal, Bench.clean, Bench.equal_leaves = old
        Alg.equal = olda
    judge(c, got)


def judge(c, got):
    by, seen = {}, set()
    for b, o in got:
        if id(o) not in seen:
            seen.add(id(o))
            by.setdefault(o['loc'], []).append((b, o))
    for loc, os_ in sorted(by.items()):
        bad = None
        done = set()
        for b, o in os_:
            if o['ok']:
                continue
            g = c_and(*o['facts'], c_not(o['cond']))
            if g in done:
                continue
            done.add(g)
            small = [ge0(8 - P.of(a)) for a in S.all_atoms(g) if a.k == 'sym' and a.sort == 'int' and a.hi is None]
            w = sat(g, tuple(b.assume) + tuple(small), seed=c.ctx.seed, sizemax=7, tries=25)
            if w and (bad is None or w != 'unk'):
                bad = (w, o)
            if bad and w != 'unk':
                break
        n = '%d accesses' % len(os_)
        if bad is None:
            c.add(RULE, '%s at %s' % (c.name, loc), loc, 'holds',
                  '%s, %d proved, %d evaluated' % (n, len([1 for _, o in os_ if o['ok']]), len(done)))
        elif bad[0] == 'unk':
            c.add(RULE, '%s at %s' % (c.name, loc), loc, 'undecided', bad[1]['what'])
        else:
            c.add(RULE, '%s at %s' % (c.name, loc), loc, 'violated', '%s, for %s' % (bad[1]['what'], bad[0]))
    c.count('container accesses', len(seen))
    c.count('proved from intervals', len([1 for os_ in by.values() for _, o in os_ if o['ok']]))


def cases(ctx):
    out = []
    names = set()
    for m in SOURCES:
        for n, f in importlib.import_module(m).cases(ctx):
            if n.startswith(('binomials: ', 'P0', 'P1', 'P2')):
                continue
            nm = '%s: %s' % (m.upper(), n)
            if nm in names:
                continue
            names.add(nm)
            out.append((nm, lambda c, f=f: wrapped(c, f)))
    return out
