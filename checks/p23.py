"""Interprocedural effect and escape analysis of every instantiated library
function: no const member, static member or function on constant arguments writes
its object, a constant argument or a variable with static storage (the logger
excepted), and none hands out mutable access to what it was given as constant."""
from kern import *
from effects import Effects

TECHNIQUE = 'interprocedural effect and escape analysis (roots, flow-insensitive points-to, summaries to a fixpoint)'
NOTE = ('May-analysis over the instantiated call graph: a write the analysis cannot attribute to a local object counts '
        'against the operation. Standard library calls by a model of which arguments they write. Thread-local '
        'variables are not shared. Constructs that are not modelled are listed. Trusts clang front end, exporter.')
PROBES = ('poly', 'rational', 'compose', 'point', 'ad', 'base64', 'util')
W = 'a constant operation writes no object it does not own'
X = 'no mutable access to a constant object escapes'


def analysis(ctx, probe, flags):
    return Effects(ctx.prog(probe, flags), ('Logger',))


def constop(e, f):
    """const members, static members, functions that take their operands as constants"""
    if f.get('ctor') or f.get('dtor'):
        return False
    p = e.p
    if f.get('rec') is not None and not f.get('static') and not f.get('cst'):
        return False
    for q in f['params']:
        t = q['type']
        k = p.types[t]['k']
        if k == 'ref' and not e.const_target(t):
            return False
        if k == 'ptr' and not e.const_target(t):
            return False
    return True


def run(c, probe, flags, tag):
    e = analysis(c.ctx, probe, flags)
    p = e.p
    n = skipped = 0
    seen = set()
    for f in e.funs:
        if not f.get('lib') or not p.loc(f).startswith('src/'):
            continue
        n += 1
        s = e.sum[f['id']]
        c.funs.add('%s (%s)' % (f['name'], p.loc(f)))
        bad = []
        op = constop(e, f)
        for r, (loc, how, fn) in sorted(s.writes.items(), key=repr):
            if r[0] == 'this' and f.get('cst'):
                what = 'the constant object'
            elif r[0] == 'p' and p.types[f['params'][r[1]]['type']]['k'] in ('ref', 'ptr') \
                    and e.const_target(f['params'][r[1]]['type']):
                what = 'the constant argument %s' % (f['params'][r[1]]['name'] or r[1])
            elif r[0] == 'g' and op:
                d = e.globals.get(r[2])
                what = 'the %s %s' % ('static local' if d else 'variable', r[1])
            else:
                continue
            bad.append((loc, '%s writes %s (%s in %s)' % (short(f['name'], 160), what, how, short(fn, 120))))
        con = short(f['name'], 200)
        if bad:
            for loc, d in bad:
                if (loc, con) not in seen:
                    seen.add((loc, con))
                    c.add(W, con + tag, loc, 'violated', d)
        elif op:
            c.add(W, con + tag, p.loc(f), 'holds', '%d objects written, all its own' % len(s.writes))
        esc = []
        if op and (e.isref(f['ret']) or e.ptrlike(f['ret'])) and not e.const_target(f['ret']):
            for r in s.ret:
                if r[0] == 'this' and f.get('cst') or r[0] == 'p' and \
                        p.types[f['params'][r[1]]['type']]['k'] in ('ref', 'ptr') or r[0] == 'g':
                    esc.append('%s returns mutable access to %s' % (
                        con, {'this': 'the constant object', 'p': 'a constant argument', 'g': 'shared state'}[r[0]]))
        if esc:
            c.add(X, con + tag, p.loc(f), 'violated', '; '.join(sorted(set(esc))))
        elif op and (e.isref(f['ret']) or e.ptrlike(f['ret'])):
            c.add(X, con + tag, p.loc(f), 'holds', 'constant access or a fresh object')
    c.count('functions with effect summaries', n)
    c.count('write events examined', e.nwrites)
    c.count('rounds of the fixpoint', e.rounds)
    for r in p.recs:
        for fl in r.get('fields') or []:
            if fl.get('mutable') and r['short'] != 'Logger':
                c.count('mutable fields', 1)
    c.count('static local variables (not constexpr)', len([d for d in e.globals.values() if not d.get('constexpr')]))
    c.count('unmodelled expressions (assumed without effect)', len(set(e.unknown)))


def cases(ctx):
    out = []
    for probe in PROBES:
        for tag, flags in (('', ()), (' with logging', ('-DENABLE_LOGGING',))):
            if flags and probe not in ('poly', 'rational', 'compose'):
                continue
            out.append((probe + tag, lambda c, a=(probe, flags, tag): run(c, *a)))
    return out
