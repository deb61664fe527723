#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md.in, properties.jsonl, the rule tables of the checks, manifest_data.py, known_findings.json and seeded/*/meta.json"""
import ast, glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import manifest_data as md
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
man = json.load(open(root + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}


def const(x):
    if isinstance(x, ast.Constant) and isinstance(x.value, str):
        return x.value
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
        return (const(x.left) or '').replace('%s', '…').replace('%d', '…')
    return None


def table(pid):
    t = ast.parse(open(root + '/checks/%s.py' % pid.lower()).read())
    rules, assume = [], []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == 'rule' and len(n.args) >= 2 and const(n.args[0]) and const(n.args[1]):
                rules.append((n.lineno, const(n.args[0]), const(n.args[1])))
            if n.func.attr == 'assume':
                assume += [(n.lineno, const(a)) for a in n.args if const(a) and const(a).strip(': …')]
    return ast.get_docstring(t), [r[1:] for r in sorted(set(rules))], [a for _, a in sorted(set(assume))]


out = []
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in md.CHECKS:
        doc, rules, assume = table(i)
        t, note = md.CHECKS[i][:2]
        out.append('*Decided by:* %s. *Extent:* %s.\n' % (t, note.rstrip('.')))
        out.append('\n'.join('- `%s`: %s' % r for r in rules) + '\n')
        if assume:
            out.append('*Assumes:* ' + '; '.join(assume) + '.\n')
        if i in getattr(md, "EXTRA", {}):
            out.append(md.EXTRA[i] + '\n')
    else:
        out.append('*Not applicable:* %s\n' % na.get(i, '?'))
    kf = json.load(open(root + '/known_findings.json'))
kf = json.load(open(root + '/known_findings.json'))
fx = '\n'.join('- ' + x.replace('fixed: property=', '') for x in kf['fixed'])
fi = '\n'.join('- **%s** `%s`: %s' % (x['property'], x['key'], x['what']) for x in kf['findings'])
seeds = []
res = {}
if os.path.exists(here + '/seed_results.json'):
    res = json.load(open(here + '/seed_results.json'))
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    seeds.append('| %s | %s | %s | %s | %s |' % (n, d['property'], d['what_it_breaks'].replace('|', '/').replace('\n', ' '), d['needs'].replace('|', '/').replace('\n', ' '), res.get(n, 'not run')))
s = open(here + '/design.md.in').read()
s = s.replace('@PROPS@', '\n'.join(out)).replace('@FIXED@', fx).replace('@FINDINGS@', fi).replace('@SEEDS@', '\n'.join(seeds))
open(root + '/DESIGN.md', 'w').write(s)
print(len(s))
