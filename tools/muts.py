#!/usr/bin/env python3
"""Runs a list of scratch mutants in parallel: muts.py FILE, where FILE holds python: M = [(checks, file, old, new, ...), ...]"""
import subprocess, sys, os, concurrent.futures as cf
ns = {}
exec(open(sys.argv[1]).read(), ns)
M = [((ns['C'],) + tuple(m) if 'C' in ns else m) for m in ns['M']]
FIRST = ns.get('BENIGN', None)
def one(a):
    j, m = a
    m2 = [m[0]] + [x.encode('unicode_escape').decode() if k % 3 else x for k, x in enumerate(m[1:])]
    r = subprocess.run(['python3', os.path.dirname(os.path.abspath(__file__)) + '/mut.py'] + m2, env=dict(os.environ, SLOT='m%d' % j), capture_output=True, text=True)
    return j, r.stdout + r.stderr
n = int(os.environ.get('N', '330'))
sel = [int(x) for x in sys.argv[2:]] or range(len(M))
with cf.ThreadPoolExecutor(6) as ex:
    for j, o in ex.map(one, [(j, M[j]) for j in sel]):
        print('--- %d %s' % (j, M[j][2][:60].replace('\n', ' ')))
        print("\n".join(l for l in o.split("\n") if "KNOWN-FINDING" not in l)[:n])
