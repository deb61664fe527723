#!/usr/bin/env python3
"""Scratch mutation runner: mut.py CHECKS FILE OLD NEW [FILE OLD NEW ...] - copies /repo's sources, edits, runs the checks."""
import os, shutil, subprocess, sys, tempfile
checks = sys.argv[1].split(',')
d = '/tmp/mrepo%s' % os.environ.get('SLOT', '')
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
try:
    for x in ('include', 'python', 'app'):
        shutil.copytree(os.environ.get('BASE', '/repo') + '/' + x, d + '/' + x, ignore=shutil.ignore_patterns('*.so'))
    a = sys.argv[2:]
    for f, o, n in zip(a[::3], a[1::3], a[2::3]):
        p = os.path.join(d, f)
        s = open(p).read()
        o = o.encode().decode('unicode_escape')
        n = n.encode().decode('unicode_escape')
        if s.count(o) < 1:
            print('PATTERN NOT FOUND', f, o); sys.exit(9)
        s = s.replace(o, n, 1)
        open(p, 'w').write(s)
    def run(c):
        return subprocess.run(['timeout', '200', 'python3', '/verif/check.py', c], env=dict(os.environ, ALAYA_REPO=d), capture_output=True, text=True)
    for c in checks:
        r = run(c)
        print(c, 'exit', r.returncode)
        print('\n'.join('   ' + l[:260] for l in (r.stdout + r.stderr).splitlines()[:2]))
finally:
    shutil.rmtree(d)
