"""Running a check: exporting the type-resolved program from the current tree,
collecting obligations, reporting."""
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BZ_REPO', '/repo')
BUILD = os.environ.get('BZ_BUILD', os.path.join(HERE, 'build'))
EVID = os.environ.get('BZ_EVIDENCE', os.path.join(HERE, 'evidence'))
CASE_LIMIT = {'quick': 240, 'thorough': 600}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def exporter():
    out = os.path.join(BUILD, 'bzexport')
    src = os.path.join(HERE, 'tools', 'bzexport.cpp')
    tag = out + '.' + hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    if os.path.exists(tag):
        return tag
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    flags = [f for f in flags if not f.startswith('-std=')]
    fd, tmp = tempfile.mkstemp(dir=BUILD)
    os.close(fd)
    r = sh(['clang++', '-std=c++17', '-O1', '-fno-rtti'] + flags + [
        src, '-o', tmp, '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib',
        '-lLLVM-18'])
    if r.returncode:
        print(r.stdout)
        raise SystemExit(2)
    os.rename(tmp, tag)
    return tag


def incroot():
    """include root in which <bezman/...> is the tree under analysis"""
    d = os.path.join(BUILD, 'inc-' + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    os.makedirs(d, exist_ok=True)
    l = os.path.join(d, 'bezman')
    if not os.path.islink(l):
        try:
            os.symlink(REPO, l)
        except FileExistsError:
            pass
    return d


def tree_hash():
    h = hashlib.sha256()
    for base, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        ds.sort()
        for f in sorted(fs):
            h.update(f.encode())
            h.update(open(os.path.join(base, f), 'rb').read())
    return h.hexdigest()


class ProbeError(Exception):
    pass


def export(probe, flags=()):
    """JSON of the probe translation unit; raises ProbeError when the tree
    does not parse"""
    exe = exporter()
    src = os.path.join(HERE, 'probe', probe + '.cpp')
    h = hashlib.sha256(tree_hash().encode())
    for f in sorted(os.listdir(os.path.join(HERE, 'probe'))):
        h.update(open(os.path.join(HERE, 'probe', f), 'rb').read())
    h.update(open(exe, 'rb').read())
    h.update(repr(flags).encode())
    os.makedirs(os.path.join(BUILD, 'ast'), exist_ok=True)
    out = os.path.join(BUILD, 'ast', '%s-%s.json' % (probe, h.hexdigest()[:20]))
    if not os.path.exists(out):
        root = incroot()
        tmp = out + '.%d' % os.getpid()
        r = sh([exe, tmp, root + '/bezman/src/', src, '--', '-std=c++17', '-I' + root,
                '-I' + os.path.join(HERE, 'probe')] + list(flags))
        if r.returncode or not os.path.exists(tmp):
            es = [l for l in r.stdout.splitlines() if ' error: ' in l]
            raise ProbeError('the tree does not parse (%d): %s' % (r.returncode, ' | '.join(es[:3]) or r.stdout[-300:]))
        os.rename(tmp, out)
    return out


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


class Case:
    """collector handed to the case functions"""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.obs = []
        self.stats = {}
        self.funs = set()

    def add(self, rule, construct, where, verdict, detail=''):
        self.obs.append({'case': self.name, 'rule': rule, 'construct': construct, 'where': where,
                         'verdict': verdict, 'detail': str(detail)[:1500]})

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


def run_case(arg):
    ctx, name, f, limit = arg
    c = Case(ctx, name)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t = time.time()
    try:
        import interp
        import kern
        interp.begin()
        f(c)
        aged, pasts = interp.harvest(), [kern.left(True), kern.left(False)]
        kern.differs(c)
        for i, old in enumerate(pasts):
            # the same operation after an earlier call with other operands
            if not old and not (aged and i == 0):
                continue
            n = len(c.obs)
            interp.begin(True)
            interp.AGED, interp.REUSED = aged, old
            try:
                f(c)
            finally:
                interp.begin(True)
            for o in c.obs[n:]:
                o['construct'] += ', after an earlier call'
    except Timeout:
        c.add('analysis', name, '', 'undecided', 'time limit of %d s' % limit)
    except RecursionError:
        c.add('analysis', name, '', 'undecided', 'recursion depth')
    except Exception as e:
        signal.alarm(0)
        cls = type(e).__name__
        if cls in ('Unsup', 'NoFun', 'DeadCode', 'ProbeError'):
            c.add('analysis', name, '', 'undecided', '%s: %s' % (cls, e))
        else:
            c.add('analysis', name, '', 'undecided', 'internal: %s: %s\n' % (cls, str(e)[:200]) + traceback.format_exc()[-900:])
    finally:
        signal.alarm(0)
    return c.obs, c.stats, sorted(c.funs), time.time() - t


_CASES = None
_CTX = None


def _run_idx(i):
    name, f = _CASES[i]
    sys.setrecursionlimit(20000)
    return run_case((_CTX, name, f, _CTX.limit))


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.limit = CASE_LIMIT[tier]
        self.progs = {}
        self.assumptions = []
        self.extra = {}

    def prog(self, probe, flags=()):
        """load (and cache) the exported program"""
        from interp import Prog
        k = (probe, tuple(flags))
        if k not in self.progs:
            self.progs[k] = Prog(export(probe, flags))
        return self.progs[k]


def known():
    f = os.path.join(HERE, 'known_findings.json')
    try:
        return json.load(open(f))
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def main(pid, tier, module, level='other'):
    global _CASES, _CTX
    t0 = time.time()
    ctx = Ctx(pid, tier)
    obs, stats, funs, walls = [], {}, set(), {}
    broken = None
    try:
        cases = module.cases(ctx)
        only = os.environ.get('BZ_CASE')
        if only:
            cases = [c for c in cases if re.search(only, c[0])]
    except ProbeError as e:
        broken = str(e)
        cases = []
    _CASES, _CTX = cases, ctx
    if cases:
        mp = multiprocessing.get_context('fork')
        n = int(os.environ.get('BZ_JOBS', '8'))
        if n == 1:
            results = [_run_idx(i) for i in range(len(cases))]
        else:
            with concurrent.futures.ProcessPoolExecutor(n, mp_context=mp) as ex:
                futs = [ex.submit(_run_idx, i) for i in range(len(cases))]
                results = []
                for i, f in enumerate(futs):
                    try:
                        results.append(f.result(timeout=max(1, 840 - (time.time() - t0))))
                    except Exception as e:
                        results.append(([{'case': cases[i][0], 'rule': 'analysis', 'construct':
                                          cases[i][0], 'where': '', 'verdict': 'undecided',
                                          'detail': 'worker: %r' % e}], {}, [], 0.0))
        for (name, _), (o, s, fs, w) in zip(cases, results):
            obs += o
            walls[name] = round(w, 2)
            funs.update(fs)
            for k, v in s.items():
                stats[k] = stats.get(k, 0) + v
    if broken is not None:
        obs.append({'case': 'export', 'rule': 'analysis', 'construct': 'translation unit', 'where': '',
                    'verdict': 'undecided', 'detail': 'the analysed program does not parse: ' + broken})
    kn = {(f['property'], f['key']): f for f in known()['findings']}
    held = [o for o in obs if o['verdict'] == 'holds']
    und = [o for o in obs if o['verdict'] == 'undecided']
    bad, listed = [], []
    for o in obs:
        if o['verdict'] == 'violated':
            key = '%s | %s' % (o['rule'], o['construct'])
            (listed if (pid, key) in kn else bad).append(o)
    for o in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, o['construct'], o['rule']))
    verbose = os.environ.get('BZ_V')
    for o in held:
        if verbose:
            print('holds      %s [%s] %s' % (o['construct'], o['rule'], o['detail'][:200]))
    for o in und:
        print('undecided  %s [%s] %s' % (o['construct'], o['rule'], o['detail'][:400 if verbose else 160]))
    rep = ''
    if bad:
        os.makedirs(EVID, exist_ok=True)
        rep = os.path.join(EVID, '%s.violations.json' % pid)
        json.dump(bad, open(rep, 'w'), indent=1)
    for o in bad:
        print('violated   %s at %s\n           rule: %s\n           %s' % (
            o['construct'], o['where'] or '?', o['rule'], o['detail']))
    wall = time.time() - t0
    rules = {}
    for o in obs:
        r = rules.setdefault(o['rule'], {'holds': 0, 'violated': 0, 'undecided': 0})
        r[o['verdict']] += 1
    cov = {
        'explanation': (module.__doc__ or '').strip(),
        'obligations': len(obs), 'discharged': len(held), 'undecided': len(und),
        'rules': rules, 'functions_analysed': sorted(funs), 'counts': stats,
        'samples': [{k: o[k] for k in ('construct', 'rule', 'where', 'verdict', 'detail')}
                    for o in (held[:4] + und[:20])],
        'wall_per_case': walls,
    }
    cov.update(ctx.extra)
    ev = {'property': pid, 'tier': tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(wall, 2), 'violations': len(bad)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d hold, %d undecided, %d violated, %d functions, %.1f s' % (
        pid, len(obs), len(held), len(und), len(bad), len(funs), wall))
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0
