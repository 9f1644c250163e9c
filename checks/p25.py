"""Compile-time witnesses over the type-checked program: for every table size whose
entries fit the table's integer type the constant-evaluated table of the library is
compared, entry by entry, with an independent definition of n over i inside static
assertions; the accessor choose is treated the same way for every configured
MAX_BINOMIAL_DEGREE.  The guard of requests beyond the table is decided on the
type-resolved source of choose (value-flow, symbolic arguments)."""
from concurrent.futures import ThreadPoolExecutor
from kern import *
from witness import compile_tu, groups

TECHNIQUE = 'compile-time witnesses (static assertions over the constant-evaluated table, exhaustive over table sizes) and guard analysis of the accessor'
NOTE = ('Exhaustive: every table size from 1 to 68 (all whose entries fit 64 bits), every entry; trusts the constant '
        'evaluator of clang and a reference definition in the witness (product formula in 128 bits).')

REF = '''
// n over i by the product formula in 128-bit arithmetic
constexpr unsigned __int128 ref(unsigned n, unsigned i) {
  unsigned __int128 r = 1;
  for (unsigned k = 1; k <= i; ++k) r = r * (n - i + k) / k;
  return r;
}
'''
TABLE = '#include "bezman/src/utils/binomialcoefficientlookuptablecreator.hpp"\n' + REF + '''
// same entries as the 64-bit table (which is decided through the accessor)
template <typename T, unsigned N>
constexpr long first_wrong() {
  constexpr auto t = bezman::utils::BinomialCoefficientLookupTableCreator<T, N>::calculate_table();
  constexpr auto u = bezman::utils::BinomialCoefficientLookupTableCreator<std::size_t, N>::calculate_table();
  if (t.size() != u.size()) return -2;
  for (unsigned long n = 0; n < t.size(); ++n)
    if (t[n] != static_cast<T>(u[n])) return n;
  return -1;
}
template <typename T, unsigned N>
struct Table { static_assert(first_wrong<T, N>() == -1, "table differs from the 64-bit table"); };
'''
CHOOSE = '#include "bezman/src/utils/fastbinomialcoefficient.hpp"\n' + REF + '''
constexpr long first_wrong() {
  for (unsigned n = 0; n < MAX_BINOMIAL_DEGREE; ++n)
    for (unsigned i = 0; i <= n; ++i)
      if (bezman::utils::FastBinomialCoefficient::choose(n, i) != ref(n, i)) return n * 1000 + i;
  return -1;
}
static_assert(first_wrong() == -1, "choose(n, i) is not n over i");
'''
MEANS = ('static assertion', 'constant expression', 'division by zero', 'narrow', 'out of')


def decide(c, rule, construct, where, text, flags=()):
    rc, ds, out = compile_tu(text, 'binom', flags)
    c.count('witness programs type-checked')
    if rc == 0:
        c.add(rule, construct, where, 'holds', 'every static assertion holds')
        return
    gs = groups(ds)
    hit = [(d, ns) for d, ns in gs if any(m in d.msg for m in MEANS)]
    if hit and len(hit) == len(gs):
        d, ns = hit[0]
        lib = [n for n in [d] + ns if n.lib]
        ev = [n.msg for n in ns if 'evaluates to' in n.msg]
        c.add(rule, construct, lib[0].where if lib else where, 'violated',
              '%s; %s' % (d.msg, '; '.join(ev + [repr(n) for n in lib[:3]])))
    else:
        c.add(rule, construct, where, 'undecided', out[-600:])


def tables(c, T, sizes):
    w = 'src/utils/binomialcoefficientlookuptablecreator.hpp'
    for n in sizes:
        decide(c, 'table of another integer or floating type has the same entries', 'calculate_table<%s, %d>' % (T, n), w,
               TABLE + 'template struct Table<%s, %d>;\n' % (T, n))


def chooser(c, sizes):
    w = 'src/utils/fastbinomialcoefficient.hpp'
    for n in sizes:
        fl = () if n is None else ('-DMAX_BINOMIAL_DEGREE=%du' % n,)
        for nd in ((), ('-DNDEBUG',)):
            decide(c, 'choose(n, i) = n over i for n below the configured maximum',
                   'choose, MAX_BINOMIAL_DEGREE %s%s' % (n or 'default', ', NDEBUG' if nd else ''), w, CHOOSE, fl + nd)


def guard(c):
    """assertion dominates the table access and excludes every n >= maximum"""
    b = Bench(c, 'util')
    b.it = Interp(b.p, [h for h in STD_HOOKS if h[0] is not hook_choose])
    f = b.p.find('choose', rec='FastBinomialCoefficient')
    CTX.reset(0)
    n, i, k = b.size('n'), b.size('i'), b.size('k')
    maximum = 30  # probe is parsed with the default
    b.start()
    # any n at or above the maximum
    b.call(f, None, [P.of(n), P.of(i)])
    stop = S.c_or(*[e['guard'] for e in b.it.events if e['kind'] in ('assert', 'throw')])
    w = sat(c_and(ge0(P.of(n) - maximum), ge0(P.of(n) - P.of(i)), c_not(stop)))
    rule = 'requests beyond the table are rejected in checked builds'
    if w == 'unk':
        c.add(rule, 'choose', b.where(f), 'undecided', b.why())
    elif w:
        c.add(rule, 'choose', b.where(f), 'violated', 'not rejected: %s' % w)
    else:
        c.add(rule, 'choose', b.where(f), 'holds', 'assertion guard %r covers n >= %d' % (stop, maximum))
    w = sat(c_and(ge0(P.of(maximum) - 1 - P.of(n)), ge0(P.of(n) - P.of(i)), stop))
    rule = 'requests inside the table are accepted'
    if w == 'unk':
        c.add(rule, 'choose', b.where(f), 'undecided', b.why())
    elif w:
        c.add(rule, 'choose', b.where(f), 'violated', 'rejected: %s' % w)
    else:
        c.add(rule, 'choose', b.where(f), 'holds')


def cases(ctx):
    out = []
    for T, top in (('unsigned', 35), ('int', 34), ('long', 67), ('double', 57), ('float', 27),
                   ('unsigned short', 19)):
        sz = sorted({1, 2, 3, 4, top // 2, top - 1, top}) if ctx.tier == 'quick' else range(1, top + 1)
        out.append(('%s tables' % T, lambda c, T=T, sz=sz: tables(c, T, sz)))
    out.append(('choose default', lambda c: chooser(c, [None])))
    for a in range(1, 69, 4):
        out.append(('choose %d..' % a, lambda c, a=a: chooser(c, range(a, min(a + 4, 69)))))
    out.append(('guard', guard))
    return out
