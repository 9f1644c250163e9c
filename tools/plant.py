#!/usr/bin/env python3
"""plant.py [--check] ID...: verifies seeded/ID in a scratch copy of /repo: the patch
applies, the stable tests still pass, the demonstration passes without and fails
with it; and says whether the property's check reports it (--check: only that)."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd=None, env=None, limit=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=limit)
    return r.returncode, r.stdout


def tests(r, tmp):
    inc = tmp + '/include_root'
    os.makedirs(inc, exist_ok=True)
    os.symlink(r, inc + '/bezman')
    b = tmp + '/Debug'
    rc, out = run(['cmake', '-S', r, '-B', b, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=Debug',
                   '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_CXX_FLAGS=-I' + inc, '-DBEZMAN_GOOGLETEST=ON',
                   '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest'])
    if rc == 0:
        rc, out = run(['ninja', '-C', b])
    if rc:
        return 'build fails: ' + out[-1500:]
    res = tmp + '/res.txt'
    run(['python3', '/opt/vp/run_gtests.py', b, res])
    ok = {l.split(None, 1)[1].strip() for l in open(res) if l.startswith('PASS')}
    miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]
    return 'tests fail: %s' % miss[:3] if miss else 'ok'


def main(i, only):
    d = os.path.join(H, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='bzplant.')
    res = {}
    try:
        r = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        if not only:
            rc, out = run(['bash', d + '/demo.sh'], r)
            res['demo clean'] = 'ok' if rc == 0 else 'FAILS: ' + out[-1500:]
        rc, out = run(['git', 'apply', d + '/patch.diff'], r)
        if rc:
            print(i, 'patch does not apply', out)
            return
        if not only:
            rc, out = run(['bash', d + '/demo.sh'], r)
            res['demo bug'] = 'ok (fails)' if rc else 'DOES NOT FAIL'
            if 'error:' in out:
                res['demo bug'] = 'DOES NOT COMPILE'
            res['tests'] = tests(r, tmp)
        env = dict(os.environ, BZ_REPO=r, BZ_BUILD=os.path.join(tmp, 'build'), BZ_EVIDENCE=tmp,
                   BZ_JOBS=os.environ.get('BZ_JOBS', '8'))
        os.makedirs(env['BZ_BUILD'])
        for f in os.listdir(os.path.join(H, 'build')):
            if f.startswith('bzexport'):
                shutil.copy(os.path.join(H, 'build', f), env['BZ_BUILD'])
        rc, out = run([H + '/check', meta['property']], H, env)
        res['check ' + meta['property']] = 'CAUGHT' if rc == 1 else 'missed (%d)' % rc
        ls = out.splitlines()
        res['out'] = [l for n, l in enumerate(ls) if l.startswith('violated')][:2] or ls[-4:]
        print(i, json.dumps(res, indent=1))
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if x != '--check']
    for i in a:
        main(i, '--check' in sys.argv)
