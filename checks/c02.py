"""C02: typestate over every public mutator of a durable index (prepare -> apply -> commit, watermark last), plus def-use of operation ids."""
from checks.durable import *


def watermark_fields(p):
    """member fields copied into a snapshot manifest's applied_through_op_id_: the last committed operation"""
    out = set()
    for f in p.fns.values():
        for x in range(len(f.nodes)):
            n = f.nodes[x]
            if n['k'] == 'asg' and n['op'] == '=':
                t = f.nodes[n['e']]
                if t['k'] == 'mem' and t['n'] == 'applied_through_op_id_':
                    v = path(Env(f), n['r'])
                    if v.startswith('this.'):
                        out.add((f.cls, v))
            if n['k'] == 'init' and 'applied_through_op_id_' in (n.get('fs') or []):
                j = n['fs'].index('applied_through_op_id_')
                if j < len(n['a']):
                    v = path(Env(f), n['a'][j])
                    if v.startswith('this.'):
                        out.add((f.cls, v))
    return out


class M(Durable):
    marks = ()

    def assign(self, F, env, i, p, n, u):
        u = super().assign(F, env, i, p, n, u)
        if p in self.wm and n['op'] == '=':
            self.seen['mark'].add(env.fn.at(i))
            if ('commit',) not in u:
                self.bad(F, env, i, 'early-watermark', 'the last committed operation id advances before the commit record was appended')
            else:
                e2, r = origin(env, n['r'])
                ids = {x[1] for x in u if x[0] == 'prep'}
                vals = {ident(env, n['r'])}
                rn = e2.fn.nodes[r]
                if rn['k'] == 'call' and bname(rn) in ('max',):
                    vals |= {ident(e2, a) for a in rn['a']}
                if not (vals & ids):
                    self.bad(F, env, i, 'watermark-value', 'the last committed operation id is set to something else than the id of the operation just committed')
            u = u | {('mark',)}
        return u


def run(R):
    R.rule('prepare-apply-commit', 'on every path of a public mutator with recovery enabled: the intent record is appended before any state change, the commit record of the same operation id and type after all of them and at most once', 4)
    R.rule('commit-or-error', 'a mutator that changed state returns normally only with a commit record, and raises only without one', 4)
    R.rule('watermark', 'the last committed operation id advances only after the commit record, to the id of that operation, and it does so on every committed path', 4)
    R.rule('fresh-id', 'the operation id logged is taken from a counter that is advanced on every path that logged it', 4)
    p = R.program('py')
    wms = watermark_fields(p)
    if not wms:
        raise AnalysisError('no field feeding applied_through_op_id_ found')
    ms = mutators(p)
    for f in ms:
        H = M(p)
        H.wm = {v for c, v in wms}
        F = Flow(p, H)
        res = F.run(f, frozenset())
        R.saw([p.fns[x] for x in F.visited])
        R.points += F.points
        order = [x for x in H.probs if 'watermark' not in x[0]]
        for kind, site, msg, tr in order:
            R.bad('prepare-apply-commit', site, msg, key='%s:%s' % (f.name, kind), detail=tr)
        if not order and H.seen['apply']:
            R.good('prepare-apply-commit', f.at())
        for kind, site, msg, tr in H.probs:
            if 'watermark' in kind:
                R.bad('watermark', site, msg, key='%s:%s' % (f.name, kind), detail=tr)
        for k, u, r in res:
            ap, cm = ('apply',) in u, ('commit',) in u
            if k == 'ok' and ap:
                R.ob('commit-or-error', cm, f.at(), 'returns normally after changing state without appending the commit record', key=f.name + ':nocommit')
            if k == 'ok' and cm and ('applyfail',) in u:
                # upsert's compensation re-raises; a swallowed failure followed by a commit is not allowed
                R.bad('commit-or-error', f.at(), 'a failed state change is followed by a commit record and a normal return', key=f.name + ':swallowed')
            if k == 'exc':
                R.ob('commit-or-error', not cm, f.at(), 'an operation that fails leaves a commit record', key=f.name + ':exc-commit')
            if k == 'ok' and cm:
                R.ob('watermark', ('mark',) in u, f.at(), 'a committed operation does not advance the last committed operation id', key=f.name + ':nomark')
            preps = [x for x in u if x[0] == 'prep']
            if preps:
                ctr = set()
                for x in preps:
                    ctr |= id_counters(f, p, x[1], F)
                ok = any(x[0] == 'inc' and x[1] in ctr for x in u)
                R.ob('fresh-id', ok, f.at(), 'the operation id comes from %s, which is not advanced on this path (the next operation would reuse the id)' % (sorted(ctr) or 'no counter'), key=f.name + ':fresh')
    return __doc__


def id_counters(f, p, idk, F):
    """member counters an operation id value derives from"""
    out = set()
    t = idk
    if idk[0] == 'c':
        for s in subterms(idk[1]):
            if s[0] == 'v' and s[1].startswith('this.'):
                out.add(s[1])
    elif idk[0] == 'p':
        pth = idk[1]
        if pth.startswith('this.'):
            out.add(pth)
        m = re.match(r'L:([^#]*)#(\d+)@(\w+)', pth)
        if m:
            for g in [p.fns[x] for x in F.visited]:
                if g.name != m.group(3):
                    continue
                for d, v in g.vars.items():
                    if v['k'] == 'local' and v['n'] == m.group(1) and str(v['l']) == m.group(2):
                        for val, kind, x in g.defs().get(int(d), []):
                            if val is not None:
                                for s in subterms(canon(Env(g), val)):
                                    if s[0] == 'v' and s[1].startswith('this.'):
                                        out.add(s[1])
                                for y in g.walk(val):
                                    ny = g.nodes[y]
                                    h = p.get(ny.get('f')) if ny['k'] == 'call' else None
                                    if h:
                                        for z in range(len(h.nodes)):
                                            if h.nodes[z]['k'] == 'mem':
                                                q = path(Env(h), z)
                                                if q.startswith('this.'):
                                                    out.add(q)
    return out
