"""Effect and typestate analysis of the logger, in the builds with and without
logging: every write, open, close and flush of a stream is collected with its path
condition over the output level and the typestate of the files; the path conditions
are finite-domain formulas and are compared, for every level, with the condition of
the message kind.  The reachable typestates of the files are computed by a fixpoint
over all operations (no file is ever truncated after it was opened)."""
import itertools
from kern import *
from logsem import LogInterp, TextV, NEVER, OPEN, CLOSED
from witness import compile_tu, groups

TECHNIQUE = 'effect and typestate analysis of the streams with path conditions over the output level'
NOTE = ('Path conditions are decided for all 512 output levels. Streams and texts are abstracted (which parts a '
        'text contains); a file that cannot be opened is outside the model.')
BITS = dict(nothing=0, userinfo=1, errors=2, warnings=4, logging=8, logging_verbose=16, time_stamp=32,
            warning_file=64, error_file=128, log_file=256, all=511)
FILES = {'log_file.log': 256, 'warning_file.log': 64, 'error_file.log': 128}
KINDS = [('Warning', 4, 'warning_file.log'), ('UserInfo', 1, 'log_file.log'), ('Logging', 8, 'log_file.log'),
         ('Extended', 16, 'log_file.log'), ('Error', 2, 'error_file.log'), ('Fatal', 2, 'error_file.log'),
         ('FatalLogic', 2, 'error_file.log')]
CONSOLE = ('global:std::cout', 'global:std::cerr', 'global:std::clog')


class Lab:
    """one abstract run of a logger operation from a symbolic logger state"""

    def __init__(self, case, logging):
        self.case = case
        self.flags = ('-DENABLE_LOGGING',) if logging else ()
        self.p = case.ctx.prog('logger', self.flags)
        CTX.reset(0)
        CTX.cache = {}
        self.it = it = LogInterp(self.p, [])
        get = self.p.find('Get', rec='Logger')
        it.call(get, None, [])
        objs = [c for c in it.st if c.startswith('global:') and isinstance(it.st[c], Obj)
                and self.p.recs[it.st[c].rec]['short'] == 'Logger']
        if len(objs) != 1:
            raise Unsup('logger object')
        self.cell = objs[0]
        self.initial = it.st[self.cell]
        # the level field is the one SetOutputLevel(unsigned) writes
        probe = Sym('probe', 'int', 0, 511)
        it.call(self.p.find('LogLevel'), None, [P.of(probe)])
        now = it.st[self.cell]
        # how the state keeps a level, as a function of the level
        self.keep = {}
        for k, v in now.f.items():
            if it.isfile(v):
                continue
            if isinstance(v, P):
                if has_unk(v):
                    raise Unsup('stored level')
                self.keep[k] = v
            elif v is not self.initial.f[k] and repr(v) != repr(self.initial.f[k]):
                raise Unsup('stored level')
        self.probe = probe
        self.L = Sym('level', 'int', 0, 511)
        f = {}
        self.states = {}
        for k, v in self.initial.f.items():
            if it.isfile(v):
                s = Sym('state of ' + str(k), 'int', 0, 2)
                self.states[k] = s
                f[k] = ArrV([P.of(s), S.FALSE, v.e[2]])
            elif k in self.keep:
                f[k] = S.subst(self.keep[k], {probe: P.of(self.L)})
            else:
                f[k] = v
        it.st[self.cell] = Obj(self.initial.rec, f)
        it.events, it.obs = [], []

    def kept(self, L):
        """the numeric state for one level"""
        v = Val({self.probe: L})
        return {k: v.ev(x) for k, x in self.keep.items()}

    def run(self, name, args=()):
        f = self.p.find(name)
        try:
            self.it.call(f, None, list(args))
        except Exception as e:
            if type(e).__name__ != 'DeadCode':
                raise
        for i in self.it.analysed:
            g = self.p.funs[i]
            if g.get('lib'):
                self.case.funs.add('%s (%s)' % (g['name'], self.p.loc(g)))
        return self.it.events

    def text(self):
        t = [q for q in self.p.find('LogWarning')['params']][0]['type']
        return self.it.new(TextV({'msg': S.TRUE}), self.p.strip(t), 'text')

    def field(self, sink):
        pre = self.cell + '.'
        return sink[len(pre):] if sink.startswith(pre) else None


class Val:
    def __init__(self, env):
        self.v = Valuation(random.Random(1))
        for k, x in env.items():
            self.v.env[k] = Fraction(x)

    def cond(self, c):
        return self.v.cond(c)

    def ev(self, x):
        return self.v.ev(x)


def names(case, logging):
    """stream field -> file name, from the open calls"""
    lab = Lab(case, logging)
    lab.run('LogLevel', [P.of(Sym('new', 'int', 0, 511))])
    out = {}
    for e in lab.it.events:
        if e['kind'] == 'open':
            out[lab.field(e['sink'])] = e['name']
    for n in ('LogWarning', 'LogError', 'LogLogging'):
        lab = Lab(case, logging)
        for e in lab.run(n, [lab.text()]):
            if e['kind'] == 'open':
                out[lab.field(e['sink'])] = e['name']
    return out


def verdict(case, rule, con, where, bad, unk='', ok=''):
    if bad:
        case.add(rule, con, where, 'violated', '; '.join(bad[:3]))
    elif unk:
        case.add(rule, con, where, 'undecided', unk)
    else:
        case.add(rule, con, where, 'holds', ok)


def message(c, logging, kind, bit, fname):
    files = names(c, logging)
    lab = Lab(c, logging)
    f = lab.p.find('Log' + kind)
    ev = lab.run('Log' + kind, [lab.text()])
    cfg = 'with logging' if logging else 'without logging'
    con = '%s (%s)' % (kind, cfg)
    fatal = kind.startswith('Fatal')
    target = [g for g in c.ctx.prog('logger', lab.flags).funs
              if g.get('short') in ({'Extended': ('ExtendedInformation_', 'ExtendedInformation'),
                                     'Fatal': ('TerminatingError_', 'TerminatingError'),
                                     'FatalLogic': ('TerminatingError_', 'TerminatingError')}.get(
                                         kind, (kind + '_', kind))) and g.get('body') is not None]
    wh = lab.p.loc(target[-1]) if target else '?'
    sinks = {}
    for e in ev:
        if e['kind'] != 'write':
            continue
        if e['sink'] in CONSOLE:
            k = 'console'
        else:
            k = files.get(lab.field(e['sink']), e['sink'])
        sinks.setdefault(k, []).append(e)
    for k in ['console'] + sorted(set(FILES) | set(sinks) - {'console'}):
        bad, n = [], 0
        badt = []
        for L in range(512):
            v = Val(dict([(lab.L, L)] + [(s, OPEN if FILES.get(files.get(fd), 0) & L else NEVER)
                                         for fd, s in lab.states.items()]))
            cnt = sum(1 for e in sinks.get(k, []) if 'msg' in e['parts'] and v.cond(c_and(e['guard'], e['parts']['msg'])))
            tim = sum(1 for e in sinks.get(k, []) if 'time' in e['parts'] and v.cond(c_and(e['guard'], e['parts']['time'])))
            want = int(bool(L & bit)) if k == 'console' else int(k == fname and bool(L & FILES[fname]))
            if not logging and not (fatal and k == 'console'):
                want = 0
            n += 1
            if cnt != want:
                bad.append('at output level %d the text is written %d times, expected %d' % (L, cnt, want))
            elif want and tim != int(bool(L & 32)):
                badt.append('at output level %d the time stamp is written %d times' % (L, tim))
            elif not want and any(v.cond(e['guard']) for e in sinks.get(k, [])):
                bad.append('at output level %d something is written to a disabled sink' % L)
        w = sinks[k][0]['loc'] if k in sinks else wh
        verdict(c, 'message reaches exactly the enabled sinks', '%s -> %s' % (con, k), w, bad, '',
                'path conditions of %d writes decided for 512 levels' % len(sinks.get(k, [])))
        if sinks.get(k):
            verdict(c, 'time stamp exactly when enabled', '%s -> %s' % (con, k), w, badt)
        # writes go to an open file
        if k != 'console':
            bad = []
            for L in range(512):
                for st in itertools.product((NEVER, OPEN), repeat=len(lab.states)):
                    v = Val(dict([(lab.L, L)] + list(zip(lab.states.values(), st))))
                    for e in sinks.get(k, []):
                        if 'msg' in e['parts'] and v.cond(e['guard']) and v.ev(e['state']) != OPEN:
                            bad.append('write to a file that is not open at %s, level %d' % (e['loc'], L))
                            break
                    if bad:
                        break
                if bad:
                    break
            if sinks.get(k):
                verdict(c, 'file is open when it is written to', '%s -> %s' % (con, k), w, bad)
    if not logging:
        bad = ['%s of %s at %s' % (e['kind'], e['sink'], e['loc']) for e in ev if e['kind'] == 'open']
        verdict(c, 'no file is touched without logging', con, wh, bad)
    if fatal:
        want = 'runtime_error' if kind == 'Fatal' else 'logic_error'
        th = [e for e in ev if e['kind'] == 'throw']
        bad, badf = [], []
        for L in range(512):
            for st in itertools.product((NEVER, OPEN), repeat=len(lab.states)):
                v = Val(dict([(lab.L, L)] + list(zip(lab.states.values(), st))))
                hit = [e for e in th if v.cond(e['guard'])]
                if not hit:
                    bad.append('no exception at output level %d' % L)
                    break
                e = hit[0]
                if e['type'] != want:
                    bad.append('throws %s instead of %s at %s' % (e['type'], want, e['loc']))
                    break
                if not v.cond(e['parts'].get('msg', S.FALSE)):
                    bad.append('the exception does not carry the text (level %d)' % L)
                    break
                for name, fv in e['files'].items():
                    if v.ev(fv.e[0]) == OPEN and v.cond(fv.e[1]):
                        badf.append('%s has unwritten output when the exception is thrown (level %d)' % (name, L))
            if bad:
                break
        w = th[0]['loc'] if th else wh
        verdict(c, 'always throws the documented exception with the text', con, w, bad)
        verdict(c, 'files are saved before the exception', con, w, badf)


def level(c, logging):
    cfg = 'with logging' if logging else 'without logging'
    lab = Lab(c, logging)
    f = lab.p.find('LogLevel')
    want = lab.kept(39)
    init = [(k, lab.initial.f[k]) for k in want if lab.initial.f[k] != P.of(want[k])]
    wh = [lab.p.loc(g) for g in lab.p.funs if g.get('short') == 'SetOutputLevel' and g.get('lib')]
    verdict(c, 'initial level writes to the terminal only (user info, errors, warnings, time stamps)',
            'Logger initial level (%s)' % cfg, wh[0], ['initial value %r of %s is not that of level 39' % (x, k) for k, x in init])
    files = names(c, logging)
    if logging:
        verdict(c, 'every file has its own stream', 'Logger files (%s)' % cfg, wh[0],
                [] if sorted(map(str, files.values())) == sorted(FILES) else ['files %s' % sorted(map(str, files.values()))])
    pts = [0, 1, 2, 4, 32, 39, 64, 128, 256, 448, 511]
    kept = [lab.kept(w) for w in range(512)]
    for n in range(4):
        lab = Lab(c, logging)
        xs = [Sym('o%d' % i, 'int', 0, 511) for i in range(n)]
        lab.run('LogList%d' % n, [P.of(x) for x in xs])
        got = {k: lab.it.st[lab.cell].f[k] for k in lab.keep}
        bad = []
        for vs in itertools.product(pts, repeat=n):
            for L in (0, 39, 511):
                v = Val(dict([(lab.L, L)] + list(zip(xs, vs)) + [(s, NEVER) for s in lab.states.values()]))
                w = 0
                for x in vs:
                    w |= x
                for k, x in kept[w].items():
                    if v.ev(got[k]) != x:
                        bad.append('options %s give %s, level %d has %s (before: level %d)' % (
                            list(vs), v.ev(got[k]), w, x, L))
        verdict(c, 'level is the union of the listed options', 'SetOutputLevel, %d options (%s)' % (n, cfg), wh[-1], bad)
    # after a change of level the files that are enabled are open
    if logging:
        for fun, mk in (('LogLevel', 1), ('LogList1', 1)):
            lab = Lab(c, logging)
            x = Sym('new', 'int', 0, 511)
            lab.run(fun, [P.of(x)])
            o = lab.it.st[lab.cell]
            for k, nm in files.items():
                bad = []
                for new in range(512):
                    for s0 in (NEVER, OPEN):
                        for L in (0, 39, 256, 511):
                            v = Val(dict([(lab.L, L), (x, new)] + [(s, s0) for s in lab.states.values()]))
                            st = v.ev(o.f[k].e[0])
                            if new & FILES.get(nm, 0) and st != OPEN:
                                bad.append('level %d: %s is not open' % (new, nm))
                            if not new & FILES.get(nm, 0) and s0 == NEVER and st != NEVER and not L & FILES.get(nm, 0):
                                bad.append('level %d: %s is created although disabled' % (new, nm))
                verdict(c, 'enabled files are opened, disabled ones are not created', '%s, %s' % (fun, nm), wh[-1], bad)


def history(c):
    """reachable typestates of each file over all sequences of operations"""
    ops = []
    files = names(c, True)
    levels = sorted({0, 39, 1, 4, 64, 128, 256, 320, 384, 192, 448, 511, 64 + 39, 128 + 39, 256 + 39})
    for name in ['Log' + k for k, _, _ in KINDS]:
        lab = Lab(c, True)
        ev = lab.run(name, [lab.text()])
        ops.append((name[3:], lab, ev, None))
    lab = Lab(c, True)
    x = Sym('new', 'int', 0, 511)
    ev = lab.run('LogLevel', [P.of(x)])
    ops.append(('SetOutputLevel', lab, ev, x))
    fields = sorted(files)
    start = (39,) + (NEVER,) * len(fields)
    seen = {start: 'start'}
    todo = [start]
    bad = {}
    while todo:
        s = todo.pop()
        for name, lab, ev, x in ops:
            for new in (levels if x is not None else [None]):
                env = {lab.L: s[0]}
                for k, st in zip(fields, s[1:]):
                    env[lab.states[k]] = st
                for k in lab.states:
                    env.setdefault(lab.states[k], NEVER)
                if x is not None:
                    env[x] = new
                v = Val(env)
                label = name + ('(%d)' % new if x is not None else '')
                for e in ev:
                    if e['kind'] != 'open' or not v.cond(e['guard']):
                        continue
                    st = v.ev(e['state'])
                    trunc = e['mode'] is not None and not (e['mode'] & 1)
                    if e['mode'] is None:
                        continue
                    if st == CLOSED and trunc:
                        bad.setdefault((e['sink'], e['loc']), 're-opening %s truncates earlier entries: %s, then %s' % (
                            e['name'], seen[s], label))
                    if st == OPEN:
                        bad.setdefault((e['sink'], e['loc']), '%s is opened while open (output is lost): %s, then %s' % (
                            e['name'], seen[s], label))
                th = [e for e in ev if e['kind'] == 'throw' and v.cond(e['guard'])]
                vals = th[0]['files'] if th else {lab.cell + '.' + str(k): lab.it.st[lab.cell].f[k] for k in fields}
                L2 = s[0]
                if x is not None:
                    L2 = new
                elif not th and any(lab.it.st[lab.cell].f[k] != S.subst(y, {lab.probe: P.of(lab.L)})
                                    for k, y in lab.keep.items()):
                    raise Unsup('%s changes the level' % name)
                nx = (int(L2),) + tuple(int(v.ev(vals[lab.cell + '.' + str(k)].e[0])) for k in fields)
                if nx not in seen:
                    seen[nx] = (seen[s] + ', ' + label)[-160:]
                    todo.append(nx)
    c.count('reachable logger states', len(seen))
    lab = ops[0][1]
    for k in fields:
        b = [m for (sk, l), m in bad.items() if lab.field(sk) == k]
        locs = [l for (sk, l), m in bad.items() if lab.field(sk) == k]
        verdict(c, 'no sequence of operations discards log entries', 'file %s' % files[k],
                locs[0] if locs else '?', b, '', '%d reachable states' % len(seen))


def enum(c):
    t = '#include "bezman/src/utils/logger.hpp"\nusing L = bezman::utils::Logger::OutputLevel;\n'
    t += ''.join('static_assert(static_cast<unsigned>(L::%s) == %du, "value of OutputLevel::%s");\n' % (k, v, k)
                 for k, v in BITS.items())
    rc, ds, out = compile_tu(t, 'level')
    bad = [d.msg for d, ns in groups(ds) if 'static assertion' in d.msg]
    verdict(c, 'each option is its own bit, all is their union', 'Logger::OutputLevel', 'src/utils/logger.hpp', bad,
            out[-300:] if rc and not bad else '', '%d values' % len(BITS))


def cases(ctx):
    out = [('enum', enum), ('history', history)]
    for lg in (True, False):
        out.append(('level %s' % lg, lambda c, lg=lg: level(c, lg)))
        for k, b, f in KINDS:
            out.append(('%s %s' % (k, lg), lambda c, lg=lg, k=k, b=b, f=f: message(c, lg, k, b, f)))
    return out
