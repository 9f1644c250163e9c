#!/usr/bin/env python3
"""quiet.py SET [PID...]: applies the behaviour-preserving edits of refactor/SET.txt to a
scratch copy of /repo, runs the repository's tests there and every check; each check has
to stay quiet.  Format of a set: '%% file' lines, each followed by edits old / ==== / new
separated by @@@@ lines."""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
H = plant.H
name, pids = sys.argv[1], sys.argv[2:]
tmp = tempfile.mkdtemp(prefix='bzquiet.')
try:
    r = tmp + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    for part in re.split(r'^%% ', open(H + '/refactor/%s.txt' % name).read(), flags=re.M)[1:]:
        f, rest = part.split('\n', 1)
        p = r + '/src/' + f.strip()
        for ed in re.split(r'^@@@@\n', rest, flags=re.M):
            old, new = re.split(r'^====\n', ed, flags=re.M)
            old, new = old.strip('\n'), new.strip('\n')
            s = open(p).read()
            # blank lines do not matter
            m = re.findall(r'\n+'.join(re.escape(l) for l in old.split('\n') if l.strip()), s)
            if len(m) != 1:
                sys.exit('%s: %d matches of %r' % (f, len(m), old))
            open(p, 'w').write(s.replace(m[0], new))
    if not os.environ.get('NOTEST'):
        print('tests:', plant.tests(r, tmp), flush=True)
    b = '/tmp/w/qbuild.' + name
    os.makedirs(b, exist_ok=True)
    for f in os.listdir(H + '/build'):
        if f.startswith('bzexport'):
            shutil.copy(os.path.join(H, 'build', f), b)
    ev = tmp + '/ev'
    env = dict(os.environ, BZ_REPO=r, BZ_BUILD=b, BZ_EVIDENCE=ev)
    if not pids:
        pids = [c['property'] for c in json.load(open(H + '/MANIFEST.json'))['checks']]
    for q in pids:
        t = time.time()
        rc, out = plant.run([H + '/check', q], H, env, 1200)
        ls = out.splitlines()
        v = [l for l in ls if l.startswith('violated')]
        u = [l for l in ls if l.startswith('undecided')]
        print('%s exit %d %.0fs %d violated %d undecided' % (q, rc, time.time() - t, len(v), len(u)), flush=True)
        for l in v[:3] + (u[:2] if os.environ.get('UND') else []):
            print('    ' + l[:400], flush=True)
    if os.environ.get("KEEP"):
        shutil.copytree(ev, os.environ["KEEP"], dirs_exist_ok=True)
    shutil.rmtree(b)
finally:
    shutil.rmtree(tmp)
