"""C17: path-sensitive typestate of a slot from its allocation to its publication (code, record and cached copy stored, in any order, before it is shown), plus the hiding rules of C16 and C18."""
from vf.flow import *
from vf.util import *
from checks.c16 import *
from checks import c16, c18
from vf.locks import Locks

PG, NC, PQ = 'alaya::diskann::DiskPageIO', 'alaya::diskann::NodeCache', 'alaya::diskann::PQTable'
STEP = {PG + '::write_node': ('record', 0, 1), NC + '::upsert_node': ('cached copy', 0, 1), PQ + '::encode_one': ('compressed code', 1, 0)}
ALL3 = {'record', 'cached copy', 'compressed code'}


class Ins(Hooks):
    inline_threads = False

    def __init__(self, p):
        self.p = p
        self.pub, self.lab, self.same, self.n = {}, {}, {}, set()
        self._r = {}

    def relevant(self, g):
        if g.id in self._r:
            return self._r[g.id]
        self._r[g.id] = False
        r = False
        for i in g.calls():
            q = g.nodes[i].get('q')
            if q in STEP or q in (SA + '::alloc', SA + '::publish'):
                r = True
            h = self.p.get(g.nodes[i].get('f'))
            if not r and h is not None and h.blocks and h.id != g.id and (h.cls == IX or h.d.get('lambda')) and self.relevant(h):
                r = True
        r = r or any(True for _ in self.labelwrites(g))
        self._r[g.id] = r
        return r

    def labelwrites(self, g):
        for x, n in enumerate(g.nodes):
            if n and n['k'] == 'asg' and self.labels(g, n['e']):
                yield x

    def labels(self, g, e):
        e = strip(g, e)
        n = g.nodes[e]
        b = None
        if n['k'] == 'idx':
            b = n['b']
        elif n['k'] == 'call' and (n.get('op') == '[]' or bname(n) == 'at'):
            b = n['obj'] if n.get('obj') is not None and n['obj'] >= 0 else n['a'][0]
        if b is None:
            return False
        m = g.nodes[strip(g, b)]
        return m['k'] == 'mem' and m['n'] in ('labels_', 'label_to_slot_')

    def throws(self, F, env, i, u):
        return True

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = n.get('q')
        done, terms = u
        if q == SA + '::alloc':
            return [('ok', (frozenset({'slot'}) | frozenset(x for x in done if isinstance(x, tuple)), frozenset()), None), ('exc', u, None)]
        if q in STEP:
            s, a, b = STEP[q]
            slot, vec = exact(env, n['a'][a]), exact(env, n['a'][b])
            if 'slot' in done and 'published' not in done:
                k = (f.id, i)
                self.n.add((f, i))
                for s2, sl, ve in terms:
                    if sl != slot or ve != vec:
                        self.same[k] = '%s is stored for %s of %s where its %s was stored for %s of %s' % (s, show(ve) if sl == slot else 'a slot', show(slot), s2, show(ve), show(sl))
                return [('ok', (done | {s}, terms | {(s, slot, vec)}), None), ('exc', u, None)]
            return [('ok', u, None), ('exc', u, None)]
        if q == SA + '::publish':
            k = (f.id, i)
            miss = ALL3 - done
            self.pub.setdefault(k, set())
            if 'slot' not in done or miss:
                self.pub[k].add(tuple(sorted(miss)) if 'slot' in done else ('slot',))
            return [('ok', (done | {'published'}, terms), None)]
        g = self.p.get(n.get('f'))
        if g is not None and g.blocks and (g.cls == IX or g.d.get('lambda')) and self.relevant(g):
            return None
        return [('ok', u, None), ('exc', u, None)]

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        done, terms = u
        if n['k'] == 'asg' and self.labels(f, n['e']) and 'slot' in done:
            if 'kNoLabel' not in f.text(n['r']):
                miss = ALL3 - done
                self.lab.setdefault((f.id, i), set())
                if miss:
                    self.lab[(f.id, i)].add(tuple(sorted(miss)))
        return u

    def branch(self, F, env, cond, pol, u):
        f = env.fn
        done, terms = u
        c, p = strip(f, cond), pol
        while f.nodes[c]['k'] == 'un' and f.nodes[c]['op'] == '!':
            c, p = strip(f, f.nodes[c]['e']), not p
        t = canon(env, c)
        if t == ('v', 'this.has_pq_') or f.nodes[c]['k'] == 'mem' and f.nodes[c]['n'] == 'has_pq_':
            return ((done | {'compressed code'}) if not p else done, terms)
        if '_loopc' not in f.__dict__:
            f.__dict__['_loopc'] = {n['c']: i for i, n in enumerate(f.nodes) if n and n['k'] == 'loop' and isinstance(n.get('c'), int)}
        L = f.__dict__['_loopc'].get(cond)
        if L is not None and any(f.nodes[x].get('q') == SA + '::publish' for x in f.walk(f.nodes[L]['body'])):
            k = ('in', f.id, L)
            if pol:
                return (done | {k}, terms)
            return (done - {k}, terms) if k in done else None
        return u

    def rangeloop(self, F, env, term, enter, u):
        f = env.fn
        done, terms = u
        L = term['s']
        if any(f.nodes[x].get('q') == SA + '::publish' for x in f.walk(f.nodes[L]['body'])):
            k = ('in', f.id, L)
            if enter:
                return (done | {k}, terms)
            return (done - {k}, terms) if k in done else None
        return u


def against_snapshots(R, p):
    """which slots are hidden changes only while no snapshot can be taken"""
    L = Locks(p)
    E = L.entry_must(lambda f: not f.d.get('lambda') and f.d.get('acc') in ('public', None))
    snap, muts = [], []
    for f in L.fns.values():
        if f.d.get('ctor') or f.d.get('dtor') or f.cls in (SA, TB):
            continue
        for i in f.calls():
            q = f.nodes[i].get('q')
            h = L.join(E.get(f.id, frozenset()), L.must(f, i))
            if q == TB + '::snapshot_into':
                snap.append({l for l, m in h})
            if q in (SA + '::alloc', SA + '::free', SA + '::publish'):
                muts.append((f, i, {l for l, m in h if m == 'x'}))
    for f, i, h in muts:
        R.ob('serial', all(h & s for s in snap), f.at(i), '%s changes which slots are hidden while a search can be copying that state' % f.q, key='snapshot:' + f.name)


def run(R):
    R.rule('order', 'a slot is published only after its record, its cached copy and its compressed code have been stored on every path, and on no path after one of them failed', 1)
    R.rule('label', 'the label of a new record is attached to its slot only then, so that results found in an older record of the slot do not show it', 1)
    R.rule('same', 'record, cached copy and compressed code are stored for the same slot and vector', 4)
    R.rule('shown', 'an insertion that returns normally has published its slot', 1)
    R.rule('serial', 'slots are handed out, published and freed under one exclusively held lock', 3)
    mask_rules(R)
    slot_rules(R)
    p = R.program('diskann')

    def closure(f, q, seen):
        for i in f.calls():
            if f.nodes[i].get('q') == q:
                return True
            h = p.get(f.nodes[i].get('f'))
            if h is not None and h.blocks and h.id not in seen and (h.cls == IX or h.d.get('lambda')):
                seen.add(h.id)
                if closure(h, q, seen):
                    return True
        return False
    both = [f for f in p.fns.values() if f.blocks and (f.cls == IX or f.d.get('lambda')) and closure(f, SA + '::alloc', {f.id}) and closure(f, SA + '::publish', {f.id})]
    ids = {f.id for f in both}
    roots = [f for f in both if not any(f.nodes[i].get('f') in ids and f.nodes[i]['f'] != f.id for i in f.calls())]
    alloconly = [f for f in p.fns.values() if f.blocks and (f.cls == IX or f.d.get('lambda')) and any(f.nodes[i].get('q') == SA + '::alloc' for i in f.calls())]
    hit = {}
    for f in sorted(roots, key=lambda f: f.line):
        H = Ins(p)
        F = Flow(p, H)
        outs = F.run(f, (frozenset(), frozenset()), Env(f))
        R.points += F.points
        R.saw([f])
        for k, miss in H.pub.items():
            hit.setdefault(k, 0)
            g = p.get(k[0])
            m = sorted(miss)
            R.ob('order', not miss, g.at(k[1]), '%s can make a slot visible %s' % (f.q, ('that it has not allocated' if m[0] == ('slot',) else 'before storing its ' + ' and '.join(m[0])) if m else ''), key='%s:publish' % f.name)
        for k, miss in H.lab.items():
            g = p.get(k[0])
            m = sorted(miss)
            R.ob('label', not miss, g.at(k[1]), '%s gives a slot its new label before storing its %s: a search that found the older record of the slot returns the new label' % (f.q, ' and '.join(m[0]) if m else ''), key='%s:label' % f.name)
        for g, i in sorted(H.n, key=lambda x: (x[0].line, x[1])):
            R.ob('same', (g.id, i) not in H.same, g.at(i), H.same.get((g.id, i), ''), key='%s:%s' % (f.name, bname(g.nodes[i])))
        ok = all('published' in u[0] for kind, u, _ in outs if kind == 'ok' and 'slot' in u[0])
        R.ob('shown', ok, f.at(), '%s can return normally without having published the slot of the new record' % f.q, key=f.q)
    for f in p.fns.values():
        for i in f.calls() if f.blocks and f.cls != SA else ():
            if f.nodes[i].get('q') == SA + '::publish' and (f.id, i) not in hit:
                R.bad('order', f.at(i), '%s makes a slot visible outside an insertion' % f.q, key='elsewhere:' + f.q)
    for f in alloconly:
        covered = {f.id} & ids or any(r for r in roots)
        R.ob('shown', bool(covered), f.at(), 'slots allocated by %s are never published' % f.q, key='alloc:' + f.q)
    c18.locked(R, p)
    against_snapshots(R, p)
    slot_state(R, p)
    masks(R, p)
    R.assume('a search started before an insertion holds a snapshot in which the slot is hidden or still holds its older record')
