"""Compile-time witnesses: small client programs that only type-check (or whose
static assertions only hold) when the property holds.  Nothing is executed."""
import hashlib
import os
import re
import subprocess
from frame import BUILD, HERE, REPO, incroot, tree_hash

DIAG = re.compile(r'^(?P<f>[^\s:][^:\n]*):(?P<l>\d+):(?P<c>\d+): (?P<k>error|fatal error|warning|note): (?P<m>.*)$', re.M)


class Diag:
    def __init__(self, m):
        self.file, self.line, self.kind, self.msg = m['f'], int(m['l']), m['k'], m['m']
        x = re.search(r'bezman/(src/.*)', self.file)
        self.lib = bool(x)
        self.where = '%s:%d' % (x.group(1) if x else os.path.basename(self.file), self.line)

    def __repr__(self):
        return '%s: %s: %s' % (self.where, self.kind, self.msg)


def compile_tu(text, name='witness', flags=(), cxx='clang++', limit=200):
    """diagnostics (errors, with their notes) of type-checking the program text"""
    root = incroot()
    d = os.path.join(BUILD, 'witness')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((text + repr(flags)).encode()).hexdigest()[:12]
    src = os.path.join(d, '%s-%s-%d.cpp' % (name, h, os.getpid()))
    with open(src, 'w') as f:
        f.write(text)
    try:
        extra = ['-ferror-limit=0', '-fconstexpr-steps=100000000', '-ftemplate-backtrace-limit=0',
                 '-fno-caret-diagnostics'] if cxx == 'clang++' else []
        r = subprocess.run([cxx, '-std=c++17', '-fsyntax-only', '-I' + root, '-I' + HERE + '/probe'] + extra +
                           list(flags) + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=limit)
    finally:
        os.unlink(src)
    ds = [Diag(m) for m in DIAG.finditer(r.stdout)]
    return r.returncode, ds, r.stdout


def groups(ds):
    """errors, each with the notes that follow"""
    out = []
    for d in ds:
        if d.kind in ('error', 'fatal error'):
            out.append((d, []))
        elif d.kind == 'note' and out:
            out[-1][1].append(d)
    return out
