#!/usr/bin/env python3
"""newbug.py ID PROPERTY FILE (old/new text on stdin, separated by a line '====';
then '####' and the demonstration's main body; then '####' needs; '####' what):
writes seeded/ID from a replacement in FILE of /repo."""
import json, os, re, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, f = sys.argv[1:4]
parts = re.split(r'^####\n', sys.stdin.read(), flags=re.M)
d = os.path.join(H, 'seeded', i)
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix='bznew.')
r = tmp + '/repo'
subprocess.check_call(['git', 'clone', '-q', '/repo', r])
for ed in re.split(r'^@@@@\n', parts[0], flags=re.M):
    old, new = re.split(r'^====\n', ed, flags=re.M)
    old, new = old[:-1], new[:-1]
    s = open(r + '/' + f).read()
    assert s.count(old) == 1, (s.count(old), old)
    open(r + '/' + f, 'w').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', r, 'diff'], text=True))
shutil.rmtree(tmp)
open(d + '/demo.cpp', 'w').write(parts[1])
fl = parts[4].strip() if len(parts) > 4 else ''
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository; builds the demonstration in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
ln -s "$PWD" "$t/bezman"
g++ -std=c++17 %s -I"$t" "$here/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
''' % fl)
json.dump({'property': prop, 'needs': parts[2].strip(), 'what_it_breaks': parts[3].strip()},
          open(d + '/meta.json', 'w'), indent=1)
