#!/usr/bin/env python3
"""plant.py SPEC.py: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], FILES={name: text} (demo.sh among them).
Writes /verif/seeded/ID/{patch.diff,meta.json,...} from a scratch copy of /repo's HEAD."""
import sys, os, json, subprocess, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
for S in (ns['SEEDS'] if 'SEEDS' in ns else [ns]):
    d = '/verif/seeded/' + S['ID']
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='plant')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
        subprocess.run('git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x', shell=True, cwd=w, check=True)
        for f, o, n in S['EDITS']:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(o) == 1, (S['ID'], f, s.count(o), o[:80])
            open(p, 'w').write(s.replace(o, n))
        diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    for n, t in S['FILES'].items():
        open(os.path.join(d, n), 'w').write(t)
        if n.endswith('.sh'):
            os.chmod(os.path.join(d, n), 0o755)
    json.dump({'property': S['PROP'], 'needs': S['NEEDS'], 'what_it_breaks': S['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    print(S['ID'], len(diff.splitlines()))
