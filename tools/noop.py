#!/usr/bin/env python3
"""Inserts a statement that does nothing at the head of every function of a scratch copy and runs the checks there; all have to stay quiet."""
import ast, os, re, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = '/tmp/noopcopy'
subprocess.run('rm -rf %s; mkdir -p %s; cd /repo; git archive HEAD | tar x -C %s' % (D, D, D), shell=True, check=True)
head = re.compile(r'\)\s*(const|noexcept|override|final|async|throws [\w., ]+|:\s*[\w<>\[\]|., ]+|=>|\s)*\{\s*$')
n = 0
for top in ('include', 'python', 'app', 'src'):
    for r, _, fs in os.walk(os.path.join(D, top)):
        if 'tests' in r or 'third_party' in r:
            continue
        for f in fs:
            p = os.path.join(r, f)
            if f.endswith(('.hpp', '.cpp', '.h')):
                L = open(p, errors='surrogateescape').read().split('\n')
                out = []
                for i, l in enumerate(L):
                    out.append(l)
                    t = l if l.strip() != '{' or not i else L[i - 1].rstrip() + ' {'
                    if head.search(t) and not re.search(r'\b(switch|class|struct|enum|interface|match|namespace)\b|^\s*(//|\*)', t) and '\\' not in t:
                        out.append('  (void)0;')
                        n += 1
                out = '\n'.join(out)
                if 'constexpr' in out and 'static_assert' in out:
                    pass
                open(p, 'w', errors='surrogateescape').write(out)
            elif f.endswith('.py'):
                s = open(p).read()
                try:
                    t = ast.parse(s)
                except SyntaxError:
                    continue
                L = s.split('\n')
                rows = set()
                for fn in ast.walk(t):
                    if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        b = fn.body
                        doc = isinstance(b[0], ast.Expr) and isinstance(getattr(b[0], 'value', None), ast.Constant)
                        if doc and len(b) == 1:
                            continue
                        x = b[1] if doc else b[0]
                        rows.add((min([x.lineno] + [d.lineno for d in getattr(x, 'decorator_list', ())]) - 1, x.col_offset))
                for row, col in sorted(rows, reverse=True):
                    if not L[row][:col].strip():
                        L.insert(row, ' ' * col + 'pass')
                        n += 1
                open(p, 'w').write('\n'.join(L))
print(n, 'statements inserted')
ids = sys.argv[1:] or [x['property'] if 'property' in x else x['id'] for x in __import__('json').load(open(HERE + '/MANIFEST.json'))['checks']]
# one run first, so that the units are parsed once
def run(c):
    r = subprocess.run(['python3', HERE + '/check.py', c], env=dict(os.environ, ALAYA_REPO=D, VERIF_EVIDENCE=D + '/ev'), capture_output=True, text=True)
    return c, r.returncode, [l for l in (r.stdout + r.stderr).split('\n') if l and 'KNOWN' not in l]
for j, g in enumerate((ids[:1], ids[1:])):
    with cf.ThreadPoolExecutor(6) as ex:
        for c, rc, o in ex.map(run, g):
            print(c, rc, '' if rc == 0 else '\n    ' + '\n    '.join(x[:260] for x in o[:8]))
