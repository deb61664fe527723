"""C20: typestate of a page being read for a search (missed in memory, version observed, read, reconciled, parsed) along every path; critical-section typestate of every installation into the shared page cache; must-pass rules from an update to each in-memory copy."""
from vf.flow import *
from vf.kind import Kind
from vf.util import *
from checks.c16 import exact
from checks.c30 import every_round
from checks.c19 import PC, IO, IX, Ent, paths_to, reach_io, Publish, reach_ix



NC = 'alaya::diskann::NodeCache'
FILL = IO + '::search_fill_page'
PEEK = (IO + '::search_peek_page', IO + '::try_read_cached_page', PC + '::read')
GUARD = ('lock_guard', 'unique_lock', 'scoped_lock')
DEVICE = re.compile(r'(^|::)(AlignedFileReader::(read|get_events)|UringReactor::(read|read_batch))$')
PREAD = ('pread', 'pread64')


def shard_fields(p):
    """(mutexes, version counters) of a shard, by type"""
    for q, c in p.classes.items():
        if q == IO + '::Shard':
            return ({x['n'] for x in c['fields'] if 'mutex' in x['t']}, {x['n'] for x in c['fields'] if 'map' in x['t'] and x['t'].count('unsigned long') >= 2 and 'Entry' not in x['t']})
    return set(), set()


class Base(Hooks):
    def __init__(self, p):
        self.p = p
        self.mutexes, self.versions = shard_fields(p)
        self.observers = {f.id for f in p.methods(IO) if f.blocks and f.d.get('rt') in ('unsigned long', 'uint64_t') and any(n and n['k'] == 'mem' and n['n'] in self.versions for n in f.nodes)}
        self.fillers = {f.id for f in p.methods(IO) if f.blocks and (f.q == FILL or paths_to(p, f, lambda g, i: g.nodes[i].get('q') == FILL)) and not any(DEVICE.search(f.nodes[i].get('q', '')) for i in f.calls())}

    def throws(self, F, env, i, u):
        return False

    def shardlock(self, env, i):
        f, n = env.fn, env.fn.nodes[i]
        if n['k'] == 'ctor' and any(g in str(n.get('cls', '')) for g in GUARD) and n['a']:
            e, j = origin(env, n['a'][0])
            m = e.fn.nodes[j]
            return m['k'] == 'mem' and m['n'] in self.mutexes and 'Shard' in str(m.get('q', ''))
        return False

    def tracks(self, t):
        return any(g in t for g in GUARD) and not t.strip().endswith(('&', '*'))

    def observes(self, env, i):
        """the expression reads the current version of a page"""
        e, j = origin(env, i)
        n = e.fn.nodes[j]
        if n['k'] == 'call' and n.get('f') in self.observers:
            return True
        for x in e.fn.walk(j):
            m = e.fn.nodes[x]
            o = m.get('obj', -1) if m['k'] == 'call' and (bname(m) in ('find', 'at') or m.get('op') == '[]') else -1
            if o is not None and o >= 0 and e.fn.nodes[strip(e.fn, o)]['k'] == 'mem' and e.fn.nodes[strip(e.fn, o)]['n'] in self.versions:
                return True
            if m['k'] == 'call' and m.get('f') in self.observers:
                return True
        return False

    def leaf(self, env, cond, pol):
        """(env, node, polarity) of the condition a branch tests, seen through names and the operand just evaluated"""
        e, c = env, cond
        for _ in range(12):
            c = strip(e.fn, c)
            n = e.fn.nodes[c]
            if n['k'] == 'un' and n['op'] == '!':
                pol, c = not pol, n['e']
                continue
            if n['k'] == 'bin' and n['op'] in ('&&', '||'):
                c = n['r']
                continue
            if n['k'] == 'bin' and n['op'] in ('==', '!=') and any(e.fn.nodes[strip(e.fn, x)].get('v') in ('true', 'false') for x in (n['e'], n['r'])):
                a, b = (n['e'], n['r']) if e.fn.nodes[strip(e.fn, n['r'])].get('v') in ('true', 'false') else (n['r'], n['e'])
                pol = pol == ((e.fn.nodes[strip(e.fn, b)]['v'] == 'true') == (n['op'] == '=='))
                c = a
                continue
            if n['k'] == 'ref' and 'd' in n and e.fn.vars.get(str(n['d']), {}).get('k') == 'local':
                defs = [v for v, k, _ in e.fn.defs().get(n['d'], []) if k not in ('addr', 'cap')]
                real = [v for v in defs if v is not None and v >= 0 and e.fn.nodes[strip(e.fn, v)].get('v') != 'false']
                if len(real) == 1 and all(v is not None for v in defs):
                    c = real[0]     # false unless this was evaluated
                    continue
            e2, c2 = origin(e, c)
            if e2.fn.id == e.fn.id and c2 == c:
                break
            e, c = e2, c2
        return e, c, pol

    def nullness(self, e, c):
        """'nonnull' polarity when the condition asks whether the page store was given, else None"""
        n = e.fn.nodes[c]
        if n['k'] == 'bin' and n['op'] in ('==', '!='):
            for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
                if 'DiskPageIO *' in str(e.fn.nodes[strip(e.fn, a)].get('t', '')) and e.fn.nodes[strip(e.fn, b)].get('v') in ('null', 'nullptr'):
                    return n['op'] == '!='
        if 'DiskPageIO *' in str(n.get('t', '')) and n['k'] in ('ref', 'mem'):
            return True
        return None


def loops_of(f):
    return [L for L, n in enumerate(f.nodes) if n and n['k'] == 'loop']


class Reads(Base):
    """u = (a page was read and not reconciled yet, pages missed in memory, requests without a recorded version, under the shard lock)"""

    def __init__(self, p, root):
        super().__init__(p)
        self.root = root
        self.bad, self.sites, self.pushes, self.later = {}, {}, {}, []
        self.group = [root] + [g for g in p.fns.values() if g.d.get('lambda') and str(g.id).startswith(str(root.id) + '/')]
        self.fills = [(g, i) for g in self.group for i in g.calls() if self.isfill(g, i)]
        self.vers = set()
        for g, i in self.fills:
            b = self.vercont(g, i)
            if b:
                self.vers.add(b)
        self.stores = {g.id for g in self.group for x in range(len(g.nodes)) if g.nodes[x] and self.keeps(g, x)}
        self.helpers = set()
        for g in p.fns.values():
            if g.blocks and g.cls != IO and not g.d.get('lambda') and g.id != root.id and any(self.isfill(g, i) for i in g.calls()):
                own = [g.nodes[i].get('q', '') for i in g.calls()]
                if not any(DEVICE.search(q) or q in PEEK for q in own):
                    self.helpers.add(g.id)
        self.conds = {}

    def keeps(self, g, x):
        n = g.nodes[x]
        if n['k'] == 'asg':
            t = g.nodes[strip(g, n['e'])]
            if t['k'] in ('idx', 'call'):
                b = t['b'] if t['k'] == 'idx' else (t['obj'] if t.get('obj', -1) is not None and t.get('obj', -1) >= 0 else (t['a'] or [-1])[0])
                return b is not None and b >= 0 and g.nodes[strip(g, b)].get('n') in self.vers
        return n['k'] == 'call' and bname(n) in ('push_back', 'emplace_back') and n.get('obj', -1) is not None and n['obj'] >= 0 and g.nodes[strip(g, n['obj'])].get('n') in self.vers

    def isfill(self, g, i):
        n = g.nodes[i]
        if n.get('q') == FILL:
            return True
        h = self.p.get(n.get('f')) if n.get('f') in self.fillers else None
        return h is not None and len(h.params) == 3 and str(h.vars[str(h.params[1])]['t']).replace(' ', '') == 'char*'

    def vercont(self, g, i):
        """name of the container the version handed to a fill is taken from"""
        n = g.nodes[strip(g, g.nodes[i]['a'][2])]
        if n['k'] == 'idx' or n['k'] == 'call' and n.get('op') == '[]':
            b = n['b'] if n['k'] == 'idx' else (n['obj'] if n.get('obj', -1) is not None and n.get('obj', -1) >= 0 else n['a'][0])
            return g.nodes[strip(g, b)].get('n')
        return None

    def descend(self, F, env, i, g):
        return g.d.get('lambda') or g.cls == IO

    def hit(self, rule, f, i, text=None):
        self.sites.setdefault((rule, f.id, i), None)
        if text:
            self.sites[(rule, f.id, i)] = text

    def tracks(self, t):
        return super().tracks(t)

    def dtor(self, F, env, d, t, u, exc):
        return (u[0], u[1], u[2], False)

    def looplead(self, f):
        """condition nodes that decide another round -> loop"""
        if f.id not in self.conds:
            m = {}
            for L in loops_of(f):
                c = f.nodes[L].get('c', -1)
                if c is not None and c >= 0:
                    for x in f.walk(c):
                        m[x] = L
            self.conds[f.id] = m
        return self.conds[f.id]

    def fillloop(self, f, L):
        body = f.nodes[L].get('body', -1)
        if body is None or body < 0:
            return False
        inside = set(f.walk(body))
        if any(M in inside and self.fillloop(f, M) for M in loops_of(f)) or any(DEVICE.search(f.nodes[x].get('q', '')) for x in inside if f.nodes[x] and f.nodes[x]['k'] == 'call'):
            return False
        return any(g.id == f.id and i in inside for g, i in self.fills)

    def around(self, f, L, enter, u):
        raw, missed, delta, locked = u
        if f.id in self.stores and delta and not self.fillloop(f, L):
            self.hit('paired', f, L, '%s queues a page read without keeping the version observed for it (or the reverse), so later pages are checked against the version of another' % f.q)
        if self.fills and self.fillloop(f, L):
            raw = enter
        return (raw, frozenset() if enter else missed, 0 if enter else delta, locked)

    def rangeloop(self, F, env, term, enter, u):
        return self.around(env.fn, term['s'], enter, u)

    def use(self, env, i, u):
        if self.fills:
            self.hit('parse', env.fn, i, '%s uses a page read from the file before it was reconciled with newer writes of it' % env.fn.q if u[0] else None)

    def missing(self, env, i, args, u):
        terms = {exact(env, a) for a in args}
        if terms & u[1]:
            self.hit('first', env.fn, i)
            return
        via = sorted((t for t in terms if t[0] == 'mem' and t[1][0] == 'idx'), key=str)
        if via:
            self.later.append((env, i, via))
            return
        self.hit('first', env.fn, i, '%s reads a page from the file without having looked for a newer copy of it in memory' % env.fn.q)

    def request(self, f, t):
        return bool(re.search(r'\b(AlignedRead|IORequest)\b', t))

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q, b = n.get('q', ''), bname(n)
        raw, missed, delta, locked = u
        if self.shardlock(env, i):
            return [('ok', (raw, missed, delta, True), None)]
        if b == 'unlock' and n.get('obj', -1) is not None and n.get('obj', -1) >= 0 and self.tracks(f.nodes[n['obj']].get('t', '')):
            return [('ok', (raw, missed, delta, False), None)]
        if n['k'] == 'call' and self.isfill(f, i):
            self.filled(env, i)
            return [('ok', (False, missed, delta, locked), None)]
        if n.get('f') in self.helpers:
            return [('ok', (False, missed, delta, locked), None)]
        if q in PEEK:
            return [('ok', u, None)]
        if n.get('f') in self.observers:
            self.hit('observe', f, i, None if locked and not raw else '%s takes the version of a page %s' % (f.q, 'after it has read the page' if raw else 'without holding its lock'))
            return [('ok', u, None)]
        if DEVICE.search(q):
            if f.id in self.stores and delta:
                self.hit('paired', f, i, '%s starts a read without a version kept for each page' % f.q)
            if q.endswith('UringReactor::read'):
                self.missing(env, i, n['a'], u)
            return [('ok', (True if self.fills else raw, missed, delta, locked), None)]
        if q.lstrip(':') in PREAD:
            self.missing(env, i, [n['a'][3]], u)
            return [('ok', u, None)]
        o = n.get('obj', -1)
        ot = str(f.nodes[strip(f, o)].get('t', '')) if o is not None and o >= 0 else ''
        # a read is queued
        made = None
        if b in ('emplace_back', 'push_back') and self.request(f, ot):
            made = [x for a in n['a'] for x in ([a] + self.inner(f, a))]
        if n.get('op') == '=' and (self.request(f, ot) or n.get('a') and self.request(f, str(f.nodes[strip(f, n['a'][0])].get('t', '')))):
            made = [x for a in n['a'] for x in ([a] + self.inner(f, a))]
        if made is not None:
            self.missing(env, i, made, u)
            c = o if b in ('emplace_back', 'push_back') else next((x for x in f.walk(i) if f.nodes[x]['k'] == 'ref' and self.request(f, str(f.nodes[x].get('t', '')))), -1)
            return [('ok', (raw, missed, delta + (f.id in self.stores and not self.solo(f, c)), locked), None)]
        if b in ('push_back', 'emplace_back') and o is not None and o >= 0:
            name = f.nodes[strip(f, o)].get('n')
            if name in self.vers:
                self.version(env, i, n['a'][0])
                return [('ok', (raw, missed, delta - 1, locked), None)]
            self.pushes.setdefault(name, []).append((missed, exact(env, n['a'][0]) if n['a'] else None, env))
        g = self.p.get(n.get('f'))
        if g is not None and g.blocks and self.descend(F, env, i, g) and not (g.d.get('lambda') and any('char' in str(g.vars[str(d)]['t']) and '*' in str(g.vars[str(d)]['t']) for d in g.params)):
            return None
        if n['k'] == 'call' and (n.get('op') == '()' or n.get('ind')) and any(str(f.nodes[strip(f, a)].get('t', '')).replace(' ', '') in ('constchar*', 'char*') for a in n['a']):
            self.use(env, i, u)
        return [('ok', u, None)]

    def inner(self, f, a, depth=0):
        """arguments of the aggregate an expression builds"""
        n = f.nodes[strip(f, a)]
        if depth < 5 and n['k'] in ('init', 'ctor', 'silist'):
            xs = list(n.get('a', []))
            return xs + [y for x in xs for y in self.inner(f, x, depth + 1)]
        return []

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        raw, missed, delta, locked = u
        if n['k'] == 'asg':
            t = f.nodes[strip(f, n['e'])]
            if t['k'] in ('idx', 'call'):
                b = t['b'] if t['k'] == 'idx' else (t['obj'] if t.get('obj', -1) is not None and t.get('obj', -1) >= 0 else (t['a'] or [-1])[0])
                if b is not None and b >= 0 and f.nodes[strip(f, b)].get('n') in self.vers and self.vers:
                    self.version(env, i, n['r'])
                    return (raw, missed, delta - 1, locked)
            if self.request(f, str(t.get('t', ''))):
                self.missing(env, i, [n['r']] + self.inner(f, n['r']), u)
                return (raw, missed, delta + (f.id in self.stores), locked)
        if n['k'] == 'decl' and any('NodeRecordView' in v['t'] for v in n['vs']):
            self.use(env, i, u)
        if n['k'] == 'ret' and str(f.d.get('rt', '')).replace(' ', '') in ('constchar*', 'char*') and n.get('e', -1) is not None and n.get('e', -1) >= 0:
            self.use(env, i, u)
        return u

    def branch(self, F, env, cond, pol, u):
        f = env.fn
        L = self.looplead(f).get(cond)
        if L is not None:
            u = self.around(f, L, pol, u)
        e, c, pol = self.leaf(env, cond, pol)
        nn = self.nullness(e, c)
        if nn is not None:
            return u if pol == nn else None
        n = e.fn.nodes[c]
        if n['k'] == 'call' and n.get('q') in PEEK and not pol:
            return (u[0], u[1] | {exact(e, n['a'][0])}, u[2], u[3])
        return u

    def solo(self, f, c):
        """a request list of its own, reconciled against a version held in a variable"""
        n = f.nodes[strip(f, c)] if c is not None and c >= 0 else {}
        if n.get('k') != 'ref' or 'd' not in n:
            return False
        par = f.parent()
        for x, m in enumerate(f.nodes):
            if m and m['k'] == 'decl' and any(v['d'] == n['d'] for v in m['vs']):
                while x in par and f.nodes[x]['k'] != 'block':
                    x = par[x]
                inside = set(f.walk(x))
                fs = [i for g, i in self.fills if g.id == f.id and i in inside]
                return bool(fs) and all(f.nodes[strip(f, f.nodes[i]['a'][2])]['k'] == 'ref' for i in fs)
        return False

    def version(self, env, i, v):
        """what is kept as the version of a page read later was handed out when the page was missed"""
        f = env.fn
        n = f.nodes[strip(f, v)]
        ok = n['k'] == 'ref' and 'd' in n and self.fromobs(f, n['d'])
        self.hit('version', f, i, None if ok else '%s keeps something else than the version observed when the page was looked up in memory' % f.q)

    def fromobs(self, f, d):
        got = False
        for v, k, node in f.defs().get(d, []):
            if k == 'cap':
                continue
            if k == 'addr' or v is None or v < 0:
                par = f.parent()
                y = node
                while y is not None and f.nodes[y]['k'] != 'call' and y in par:
                    y = par[y]
                if y is not None and f.nodes[y].get('q') == IO + '::search_peek_page':
                    got = True
                    continue
                if v is None and k == 'decl':
                    continue
                return False
            m = f.nodes[strip(f, v)]
            if m.get('v') in ('0', '0U', '0UL', '0ULL') or m.get('cv') == '0' or m['k'] == 'init' and not m.get('a'):
                continue
            if self.observes(Env(f), v):
                got = True
                continue
            return False
        return got

    def filled(self, env, i):
        f = env.fn
        a = f.nodes[i]['a']
        v = strip(f, a[2])
        n = f.nodes[v]
        ok, why = True, ''
        if n['k'] == 'ref' and 'd' in n:
            vv = f.vars.get(str(n['d']), {})
            ok = vv.get('k') == 'param' and f.cls == IO or self.fromobs(f, n['d'])
            why = '%s reconciles a page against something else than the version observed when it was looked up' % f.q
        else:
            t, buf = exact(env, v), exact(env, a[1])
            st = set(subterms(buf))
            if t[0] == 'idx':
                ok = t[-1] in st
                if not ok:   # the buffer is a pointer with a single definition
                    e, j = origin(env, a[1])
                    ok = t[-1] in set(subterms(exact(e, j))) or any(t[-1] in set(subterms(exact(e, x))) for x in e.fn.walk(j) if e.fn.nodes[x]['k'] in ('ref', 'idx', 'mem', 'call'))
            elif t[0] == 'mem':
                ok = t[1] in st
                asg = [x for x, m in enumerate(f.nodes) if m and m['k'] == 'asg' and f.nodes[strip(f, m['e'])]['k'] == 'mem' and f.nodes[strip(f, m['e'])].get('q') == n.get('q')]
                ok = ok and bool(asg) and all(self.observes(env, f.nodes[x]['r']) for x in asg)
            why = '%s reconciles a page against the version observed for another page' % f.q
        self.hit('version', f, i, None if ok else why)

    def finish(self):
        for env, i, via in self.later:
            # pages[chosen[k]].off where chosen holds only pages that were missed
            ok = False
            for t in via:
                base, ix = t[1][1], t[1][-1]
                name = next((s[1] for s in subterms(ix) if s[0] == 'idx'), ix)
                nm = str(name[1]).split('#')[0].split(':')[-1] if name[0] == 'v' else None
                ps = self.pushes.get(nm, [])
                ok = ok or bool(ps) and all(('mem', ('idx', base, arg), t[2]) in missed for missed, arg, _ in ps)
            self.hit('first', env.fn, i, None if ok else '%s reads a page from the file without having looked for a newer copy of it in memory' % env.fn.q)


class One(Kind):
    def __init__(self, p, B):
        super().__init__(p, lambda e, i: False, [], lambda g: False)
        self.truth = lambda env, i: (lambda r: r)(B.nullness(env, strip(env.fn, i)))


def reads(R, p):
    B = Base(p)
    roots = {}
    for f in p.fns.values():
        if not f.blocks or 'index/graph/diskann' not in f.file:
            continue
        g = f
        while g.d.get('lambda') and g.d.get('parent') and p.get(g.d['parent']) is not None:
            g = p.get(g.d['parent'])
        own = [f.nodes[i] for i in f.calls()]
        if any(n.get('q') in (FILL, IO + '::search_peek_page') or n.get('f') in B.fillers for n in own) or f.cls == IO and any(DEVICE.search(n.get('q', '')) or n.get('q', '').lstrip(':') in PREAD for n in own):
            if g.q == FILL or g.id in B.fillers:
                continue
            if g.cls == IO and g.d.get('acc') != 'public' and not any(DEVICE.search(n.get('q', '')) for n in own):
                # reached from the public reads
                for c in p.fns.values():
                    if c.cls == IO and c.blocks and c.d.get('acc') == 'public' and g.id in {h.id for h in reach_io(p, c)}:
                        roots[c.id] = c
                continue
            roots[g.id] = g
    sites = {}
    for f in sorted(roots.values(), key=lambda f: (f.file, f.line)):
        H = Reads(p, f)
        F = Flow(p, H)
        F.run(f, (False, frozenset(), 0, False), Env(f))
        H.finish()
        R.points += F.points
        R.saw(H.group)
        for k, t in H.sites.items():
            sites[k] = sites.get(k) or t
        # a loop that reconciles what was read reconciles every page of it
        K = One(p, H)
        for g in H.group:
            for L in loops_of(g):
                if not H.fillloop(g, L):
                    continue
                body = set(g.walk(g.nodes[L]['body']))
                inner = any(M != L and M in body and H.fillloop(g, M) for M in loops_of(g))
                uses = any(k[1] == g.id and k[2] in body for k in H.sites if k[0] == 'parse')
                if inner or any(M != L and M in body and any(DEVICE.search(g.nodes[x].get('q', '')) for x in body if g.nodes[x]['k'] == 'call') for M in [L]):
                    continue
                if uses:
                    continue
                w = every_round(p, g, L, lambda e, g=g: g.nodes[e]['k'] == 'call' and H.isfill(g, e), K)
                full = g.nodes[L].get('range') is not None or whole(g, L)
                sites[('all', g.id, L)] = None if w is None and full else '%s does not reconcile every page it has read: %s' % (g.q, w or 'the loop does not cover them')
    for (rule, fid, i), t in sorted(sites.items(), key=lambda x: (str(x[0][1]), x[0][2])):
        g = p.get(fid)
        R.ob(rule, t is None, g.at(i), t or '', key='%s:%s' % (rule, g.name))


def whole(f, L):
    """the loop runs over 0 .. size(), one at a time"""
    env = Env(f)
    n = f.nodes[L]
    c = n.get('c', -1)
    if c is None or c < 0:
        return False
    t = canon(env, c)
    if t[0] != 'bin':
        return t[0] in ('un', 'call')
    if t[1] not in ('<', '!=', '>') or not any(s[0] == 'call' and s[1].rsplit('::', 1)[-1] == 'size' for s in t[2:]):
        return False
    inside = set(f.walk(L))
    for x in f.walk(c):
        m = f.nodes[x]
        if m['k'] == 'ref' and 'd' in m and f.vars.get(str(m['d']), {}).get('k') == 'local':
            defs = [(v, k, y) for v, k, y in f.defs().get(m['d'], []) if k not in ('addr', 'cap')]
            at0 = [v for v, k, y in defs if v is not None and v >= 0 and f.nodes[strip(f, v)]['k'] == 'lit' and str(f.nodes[strip(f, v)].get('v')).rstrip('uUlL') == '0']
            steps = [y for v, k, y in defs if v not in at0]
            if at0 and len(steps) == 1 and steps[0] in inside and any(f.nodes[z].get('op') == '++' for z in f.walk(steps[0])):
                return True
    return False


class Install(Base):
    """u = (lock held, pages missed in this critical section, a device read in it, the version compared equal in it,
    an update not yet counted, versions taken in it)"""

    def __init__(self, p):
        super().__init__(p)
        self.sites = {}

    def tracks(self, t):
        return super().tracks(t)

    def throws(self, F, env, i, u):
        return False

    def descend(self, F, env, i, g):
        return g.cls == IO or g.d.get('lambda') and IO in str(g.id)

    def hit(self, rule, f, i, text=None):
        self.sites.setdefault((rule, f.id, i), None)
        if text:
            self.sites[(rule, f.id, i)] = text

    def close(self, env, u):
        if u[4]:
            f, i = u[4]
            self.hit('counted', self.p.get(f), i, '%s changes a page without counting a new version of it before its lock is given up, so a search that read the old bytes installs them' % self.p.get(f).q)
        return (False, frozenset(), False, False, None, self.keep(u[5]))

    def keep(self, fresh):
        return frozenset(x for x in fresh if x[0] in ('read', 'late'))

    def seen(self, u, k):
        return u[5] | {k} | ({('late',) + k} if ('read',) in u[5] else set())

    def dtor(self, F, env, d, t, u, exc):
        v = env.fn.vars.get(str(d), {})
        return self.close(env, u) if not exc and u[0] and self.ours(env, d) else (False, frozenset(), False, False, None, self.keep(u[5])) if exc and u[0] and self.ours(env, d) else u

    def ours(self, env, d):
        return (env.fn.id, d) in self.guards

    guards = frozenset()

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = n.get('q', '')
        lock, miss, dev, same, wrote, fresh = u
        if self.shardlock(env, i):
            par = f.parent()
            y = i
            while y in par and f.nodes[y]['k'] != 'decl':
                y = par[y]
            if f.nodes[y]['k'] == 'decl':
                self.guards = self.guards | {(f.id, v['d']) for v in f.nodes[y]['vs'] if any(g in v['t'] for g in GUARD)}
            return [('ok', (True, frozenset(), False, False, None, self.keep(fresh)), None)]
        if bname(n) == 'unlock' and n.get('obj', -1) is not None and n.get('obj', -1) >= 0 and self.tracks(f.nodes[n['obj']].get('t', '')):
            return [('ok', self.close(env, u), None)]
        if q == PC + '::write' and len(n['a']) >= 4:
            k = exact(env, n['a'][0])
            d = f.nodes[origin(env, n['a'][3])[1]]
            if d.get('v') == 'false' or d.get('cv') == 'false' or d.get('cv') == '0':
                why = None
                if not lock:
                    why = 'without holding the lock of its shard'
                elif k not in miss:
                    why = 'over a copy in memory that may be newer'
                elif not (dev or same):
                    why = 'although the page may have been updated since it was read'
                self.hit('install', f, i, '%s installs a page read from the file %s' % (f.q, why) if why else None)
                return [('ok', (lock, miss - {k}, dev, same, wrote, fresh), None)]
            self.hit('counted', f, i, None if lock else '%s changes a page without holding the lock of its shard' % f.q)
            return [('ok', (lock, miss - {k}, dev, same, (f.id, i), fresh), None)]
        if q.lstrip(':') in PREAD:
            return [('ok', (lock, miss, lock, same, wrote, fresh if lock else fresh | {('read',)}), None)]
        if q.lstrip(':') in ('pwrite', 'pwrite64') and not (f.d.get('lambda') or any(e.fn.d.get('lambda') for e in self.chain(env))):
            e = self.chain(env)[-1] if False else env
            return [('ok', (lock, miss, dev, same, (f.id, i), fresh), None)]
        return None

    def chain(self, env):
        out = [env]
        while env.up:
            env = env.up[0]
            out.append(env)
        return out

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        lock, miss, dev, same, wrote, fresh = u
        tgt = n.get('e') if n['k'] == 'asg' or n['k'] == 'un' and n['op'] in ('++', '--') else None
        if tgt is not None:
            if any(f.nodes[x]['k'] == 'mem' and f.nodes[x]['n'] in self.versions and 'Shard' in str(f.nodes[x].get('q', '')) for x in f.walk(tgt)):
                self.hit('count', f, i, None if lock else '%s counts a version of a page without holding the lock of its shard' % f.q)
                up = n['k'] == 'un' and n['op'] == '++' or n['k'] == 'asg' and n['op'] in ('+=',) or n['k'] == 'asg' and n['op'] == '=' and canon(env, n['r'])[:2] == ('bin', '+')
                if not up:
                    self.hit('count', f, i, '%s sets the version of a page to one it may have had before' % f.q)
                return (lock, miss, dev, same, None if up else wrote, fresh)
        if n['k'] == 'asg' and f.nodes[strip(f, n['e'])]['k'] == 'ref' and self.observes(env, n['r']):
            return (lock, miss, dev, same, wrote, self.seen(u, (f.id, f.nodes[strip(f, n['e'])]['d'])))
        if n['k'] == 'decl':
            for v in n['vs']:
                if v.get('init', -1) is not None and v.get('init', -1) >= 0 and 'long' in v['t'] and self.observes(env, v['init']):
                    fresh = fresh | self.seen(u, (f.id, v['d']))
            return (lock, miss, dev, same, wrote, fresh)
        return u

    def branch(self, F, env, cond, pol, u):
        e, c, pol = self.leaf(env, cond, pol)
        n = e.fn.nodes[c]
        lock, miss, dev, same, wrote, fresh = u
        if n['k'] == 'call' and n.get('q') == PC + '::read':
            return (lock, (miss | {exact(e, n['a'][0])}) if not pol and lock else miss, dev, same, wrote, fresh - {('read',)})
        if n['k'] == 'bin' and n['op'] in ('==', '!='):
            for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
                if self.observes(e, a):
                    m = e.fn.nodes[strip(e.fn, b)]
                    if m['k'] == 'ref' and (e.fn.id, m.get('d')) in fresh:
                        continue     # compared with itself
                    if m['k'] == 'ref' and ('late', e.fn.id, m.get('d')) in fresh:
                        continue     # observed after the read it should guard
                    am = e.fn.nodes[strip(e.fn, a)]
                    if am['k'] == 'ref' and (e.fn.id, am.get('d')) not in fresh:
                        continue     # an old observation
                    if (n['op'] == '==') == pol and lock:
                        return (lock, miss, dev, True, wrote, fresh)
        return u


def install(R, p):
    sites = {}
    for f in sorted(p.methods(IO), key=lambda f: f.line):
        if not f.blocks or f.d.get('acc') != 'public' or f.d.get('ctor') or f.d.get('dtor'):
            continue
        H = Install(p)
        if not any(g.nodes[i].get('q', '').startswith(PC + '::') or g.nodes[i].get('q', '').lstrip(':') in PREAD + ('pwrite',) for g in [f] + reach_io(p, f) for i in g.calls()):
            continue
        F = Flow(p, H)
        outs = F.run(f, (False, frozenset(), False, False, None, frozenset()), Env(f))
        R.points += F.points
        R.saw([f])
        for k, u, _ in outs:
            if k == 'ok' and u[4]:
                H.close(Env(f), u)
        for k, t in H.sites.items():
            sites[k] = sites.get(k) or t
    for (rule, fid, i), t in sorted(sites.items(), key=lambda x: (str(x[0][1]), x[0][2])):
        g = p.get(fid)
        R.ob(rule, t is None, g.at(i), t or '', key='%s:%s' % (rule, g.name))


# ---- the other copies of a node held in memory

class Mirror(Hooks):
    """nodes written to their page and not yet to the node cache"""

    def __init__(self, p):
        self.p, self.seen = p, {}

    def throws(self, F, env, i, u):
        return False

    def descend(self, F, env, i, g):
        return g.cls == IX or g.d.get('lambda') and IX in str(g.id)

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = n.get('q', '')
        if q in (IO + '::write_node', IO + '::write_node_neighbors'):
            k = exact(env, n['a'][0])
            self.seen[(f.id, i)] = k
            return [('ok', u | {(k, f.id, i)}, None)]
        if q == NC + '::upsert_node':
            k = exact(env, n['a'][0])
            return [('ok', frozenset(x for x in u if x[0] != k), None)]
        return None


def copies(R, p):
    done = set()
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.blocks or f.cls == IO or not any(f.nodes[i].get('q') in (IO + '::write_node', IO + '::write_node_neighbors') for i in f.calls()):
            continue
        pend = leave(p, f)
        if pend:
            callers = [(c, i) for c in p.fns.values() if c.blocks and (c.cls == IX or c.d.get('lambda')) for i in c.calls() if c.nodes[i].get('f') == f.id]
            if callers:
                pend = set().union(*(leave(p, c) for c, _ in callers))
                pend = {x for x in pend if x[1] == f.id}
        for i in f.calls():
            if f.nodes[i].get('q') in (IO + '::write_node', IO + '::write_node_neighbors'):
                bad = any(x[2] == i and x[1] == f.id for x in pend)
                R.ob('mirror', not bad, f.at(i), '%s writes a node to its page without replacing the copy searches read from the node cache' % f.q, key=f.name)
        R.saw([f])


def leave(p, f):
    H = Mirror(p)
    outs = Flow(p, H).run(f, frozenset(), Env(f))
    return set().union(*([u for k, u, _ in outs if k == 'ok'] or [set()]))


def coords(R, p):
    """the copy of the coordinates: an update overwrites it, a read only adds what is missing"""
    c = p.cls(IO)
    vecs = {x['n'] for x in c['fields'] if 'map' in x['t'] and 'vector<float' in x['t']}
    w = 0
    for f in sorted((f for f in p.fns.values() if f.blocks and (f.cls == IO or f.d.get('lambda') and IO in str(f.id))), key=lambda f: f.line):
        adds = []
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            if n['k'] == 'call' and n.get('obj', -1) is not None and n.get('obj', -1) >= 0 and f.nodes[strip(f, n['obj'])]['k'] == 'mem' and f.nodes[strip(f, n['obj'])]['n'] in vecs:
                b = bname(n)
                if n.get('op') == '[]' or b == 'insert_or_assign':
                    adds.append((i, True))
                elif b in ('emplace', 'try_emplace', 'insert'):
                    adds.append((i, False))
        if not adds:
            continue
        R.saw([f])
        writes = f.cls == IO and any(f.nodes[i].get('q', '').startswith(IO + '::write_page') or f.nodes[i].get('f') in {g.id for g in reach_io(p, f)} and paths_to(p, p.get(f.nodes[i]['f']), lambda g, j: g.nodes[j].get('q') == PC + '::write' and g.nodes[strip(g, g.nodes[j]['a'][3])].get('v') == 'true') for i in f.calls())
        for i, over in adds:
            if writes:
                continue
            R.ob('coords', not over, f.at(i), '%s replaces coordinates kept in memory by ones it read earlier, which an update may have made stale' % f.q, key=f.name)
    for f in sorted(p.methods(IO), key=lambda f: f.line):
        if not f.blocks or f.d.get('acc') != 'public' or not any('float *' in str(f.vars[str(d)]['t']) for d in f.params) or not paths_to(p, f, lambda g, j: g.nodes[j].get('q') == PC + '::write' and g.nodes[strip(g, g.nodes[j]['a'][3])].get('v') == 'true'):
            continue
        idp = ('v', 'P:' + f.vars[str(f.params[0])]['n'])

        def over(g, e, env):
            n = g.nodes[e]
            if n['k'] != 'call' or n.get('obj', -1) is None or n.get('obj', -1) < 0 or g.nodes[strip(g, n['obj'])].get('n') not in vecs:
                return False
            return (n.get('op') == '[]' and stored(g, e) or bname(n) in ('insert_or_assign', 'erase')) and exact(env, n['a'][0]) == idp or bname(n) == 'clear'
        H = Passes(p, over)
        outs = Flow(p, H).run(f, False, Env(f))
        R.ob('coords', not any(k == 'ok' and not u for k, u, _ in outs), f.at(), '%s can return with the coordinates of the node it has written still the old ones in memory' % f.q, key='write:' + f.name)


def stored(f, e):
    """the element is assigned to"""
    par = f.parent()
    y = e
    while y in par:
        x = par[y]
        n = f.nodes[x]
        if n['k'] == 'asg':
            return strip(f, n['e']) == e or y == n['e']
        if n['k'] == 'mem':
            y = x
            continue
        if n['k'] == 'call':
            return (n.get('op') == '=' or bname(n) in ('assign', 'swap')) and (n.get('obj') == y or y in n.get('a', [])[:1])
        if n['k'] == 'cast':
            y = x
            continue
        if n['k'] == 'decl':
            for v in n['vs']:
                if v.get('init', -1) == y and '&' in v['t'] and 'const' not in v['t']:
                    return any(m and (m['k'] == 'asg' and strip(f, m['e']) in us or m['k'] == 'call' and bname(m) in ('assign', 'swap') and m.get('obj', -1) is not None and m['obj'] >= 0 and strip(f, m['obj']) in us)
                               for us in [{u for u, k in enumerate(f.nodes) if k and k['k'] == 'ref' and k.get('d') == v['d']}] for m in f.nodes)
        return False
    return False


class Passes(Hooks):
    def __init__(self, p, good):
        self.p, self.good = p, good

    def throws(self, F, env, i, u):
        return False

    def descend(self, F, env, i, g):
        return g.cls == IO

    def call(self, F, env, i, u):
        if self.good(env.fn, i, env):
            return [('ok', True, None)]
        return None


class Drop(Publish):
    def describes(self, env, i):
        return env.fn.nodes[i].get('q') == NC + '::drop_disk_backed_overrides'


def overrides(R, p):
    fl = {f.q for f in p.methods(IO) if f.blocks and f.d.get('acc') == 'public' and paths_to(p, f, lambda g, i: g.nodes[i].get('q') == PC + '::flush_dirty')}
    for f in sorted(p.methods(IX), key=lambda f: f.line):
        if not f.blocks or not any(f.nodes[i].get('q') == NC + '::drop_disk_backed_overrides' for i in f.calls()):
            continue
        H = Drop(p, fl)
        F = Flow(p, H)
        F.run(f, 'unknown', Env(f))
        R.saw([f])
        for fid, i in sorted(H.seen):
            R.ob('dropped', (fid, i) not in H.bad, p.get(fid).at(i), '%s drops the newer copies of nodes from memory while the pages in the file may still be old' % p.get(fid).q, key=f.name)


class HasOverride(Kind):
    def __init__(self, p, finders):
        super().__init__(p, lambda e, i: False, [], lambda g: g.cls == NC)
        self.finders = finders
        self.truth = self.known

    def passes(self, env, i, g):
        return False

    def known(self, env, i):
        f = env.fn
        n = f.nodes[strip(f, i)]
        if n['k'] == 'bin' and n['op'] in ('==', '!=') or n['k'] == 'call' and n.get('op') in ('==', '!='):
            xs = [n['e'], n['r']] if n['k'] == 'bin' else ([n['obj']] if n.get('obj', -1) is not None and n.get('obj', -1) >= 0 else []) + list(n['a'])
            for a, b in (xs, xs[::-1]) if len(xs) == 2 else ():
                if self.over(env, a) and f.nodes[strip(f, b)].get('v') in ('null', 'nullptr'):
                    return n['op'] == '!='
        if self.over(env, i):
            return True
        if n['k'] == 'call' and bname(n) == 'operator bool' and n.get('obj', -1) is not None and n['obj'] >= 0 and self.over(env, n['obj']):
            return True
        return None

    def over(self, env, i):
        e, j = origin(env, i)
        n = e.fn.nodes[j]
        if n['k'] == 'call' and bname(n) in ('get',) and n.get('obj', -1) >= 0:
            return self.over(e, n['obj'])
        return n['k'] == 'call' and n.get('f') in self.finders


def layers(R, p):
    """a node with a newer copy is never answered from the records loaded at the start"""
    finders = {f.id for f in p.methods(NC) if f.blocks and 'shared_ptr' in str(f.d.get('rt')) and 'vector<char' in str(f.d.get('rt')) and any(n and n['k'] == 'call' and bname(n) in ('find', 'at') for n in f.nodes) and f.d.get('acc') == 'private'}
    bases = {f.id for f in p.methods(NC) if f.blocks and str(f.d.get('rt')).replace(' ', '') == 'constchar*' and any(n and n['k'] == 'mem' and n['n'] == 'node_data_' for n in f.nodes)}
    for f in sorted(p.methods(NC), key=lambda f: f.line):
        if not f.blocks or f.id in bases or f.id in finders:
            continue
        at = [i for i in f.calls() if f.nodes[i].get('f') in bases]
        if not at:
            continue
        K = HasOverride(p, finders)
        K.run(f)
        R.saw([f])
        hit = {(e) for fid, e, _ in K.reached if fid == f.id}
        for i in at:
            R.ob('layers', i not in hit, f.at(i), '%s reads the record loaded at the start for a node that has a newer copy' % f.q, key=f.name)
    c = p.cls(NC)
    loaded = {x['n'] for x in c['fields'] if 'map' in x['t'] and 'unsigned int' in x['t'] and 'shared_ptr' not in x['t'] and 'mutex' not in x['t']}
    for f in sorted(p.methods(NC), key=lambda f: f.line):
        if not f.blocks:
            continue
        at = [i for i in f.calls() if bname(f.nodes[i]) in ('erase', 'extract') and f.nodes[i].get('obj', -1) is not None and f.nodes[i].get('obj', -1) >= 0 and 'Override' in str(f.nodes[strip(f, f.nodes[i]['obj'])].get('q', ''))]
        if not at:
            continue

        def base(env, i):
            g = env.fn
            n = g.nodes[strip(g, i)]
            xs = None
            if n['k'] == 'bin' and n['op'] in ('==', '!='):
                xs = [n['e'], n['r']]
            elif n['k'] == 'call' and n.get('op') in ('==', '!='):
                xs = ([n['obj']] if n.get('obj', -1) is not None and n.get('obj', -1) >= 0 else []) + list(n['a'])
            for a, b in (xs, xs[::-1]) if xs and len(xs) == 2 else ():
                ea, ja = origin(env, a)
                m, k = ea.fn.nodes[ja], g.nodes[strip(g, b)]
                if m['k'] == 'call' and bname(m) == 'find' and ea.fn.nodes[strip(ea.fn, m['obj'])].get('n') in loaded and k['k'] == 'call' and bname(k) in ('end', 'cend'):
                    return n.get('op') == '!='
                if m['k'] == 'call' and bname(m) == 'count' and ea.fn.nodes[strip(ea.fn, m['obj'])].get('n') in loaded and (k.get('cv') == '0' or k.get('v') == '0'):
                    return n.get('op') == '!='
            if n['k'] == 'call' and bname(n) in ('contains', 'count') and g.nodes[strip(g, n['obj'])].get('n') in loaded:
                return True
            return None
        K = HasOverride(p, finders)
        K.truth = base
        K.run(f)
        R.saw([f])
        hit = {e for fid, e, _ in K.reached if fid == f.id}
        for i in at:
            R.ob('layers', i not in hit, f.at(i), '%s drops the newer copy of a node whose record loaded at the start stays in memory' % f.q, key='drop:' + f.name)
    for f in p.methods(NC):
        if f.name != 'upsert_node' or not f.blocks:
            continue
        idp = ('v', 'P:' + f.vars[str(f.params[0])]['n'])

        def good(g, e, env):
            n = g.nodes[e]
            if n['k'] != 'call':
                return False
            o = n.get('obj', -1)
            a = list(n.get('a', []))
            if n.get('op') == '[]':
                return exact(env, a[-1]) == idp and stored(g, e)
            return bname(n) == 'insert_or_assign' and exact(env, a[0]) == idp
        H = Passes(p, good)
        H.descend = lambda F, env, i, g: g.cls == NC
        outs = Flow(p, H).run(f, False, Env(f))
        R.saw([f])
        R.ob('layers', not any(k == 'ok' and not u for k, u, _ in outs), f.at(), '%s can return without having replaced the copy of the node' % f.q, key='upsert')


def hits(R, p):
    """a hit in the page cache hands out the bytes of that page"""
    E = Ent(p)
    for f in p.methods(PC):
        if not f.blocks or f.d.get('rt') != 'bool' or len(f.params) < 2:
            continue
        off = ('v', 'P:' + f.vars[str(f.params[0])]['n'])

        class C(Hooks):
            def throws(s, F, env, i, u):
                return False

            def descend(s, F, env, i, g):
                return g.cls == PC

            def call(s, F, env, i, u):
                n = env.fn.nodes[i]
                if bname(n) in ('memcpy', 'memmove', 'copy', 'copy_n'):
                    src, dst = (n['a'][1], n['a'][0]) if bname(n).startswith('mem') else (n['a'][0], n['a'][-1])
                    if E.of(env, src) == off and canon(env, dst) == ('v', 'P:' + f.vars[str(f.params[1])]['n']):
                        return [('ok', True, None)]
                return None
        outs = Flow(p, C()).run(f, False, Env(f))
        R.saw([f])
        bad = [1 for k, u, r in outs if k == 'ok' and r is not False and not u]
        R.ob('hit', not bad, f.at(), '%s reports a hit without having handed out the bytes of that page' % f.q, key=f.name)


def run(R):
    p = R.program('diskann')
    R.rule('first', 'a page is read from the file only after it was looked for in memory and missed', 4)
    R.rule('parse', 'a page read from the file is reconciled with newer writes before it is used', 3)
    R.rule('all', 'when several pages were read, each of them is reconciled', 1)
    R.rule('version', 'a page is reconciled against the version observed when that page was missed', 4)
    R.rule('paired', 'every queued read keeps its own version', 0)
    R.rule('observe', 'a version is observed under the lock and before the read', 2)
    R.rule('install', 'bytes read from the file enter the shared cache only under the lock, after a miss there, and if the page was read in that critical section or its version is unchanged', 2)
    R.rule('counted', 'an update of a page counts a new version before the lock is given up', 1)
    R.rule('count', 'versions only grow, under the lock', 1)
    R.rule('hit', 'a hit in the page cache hands out the bytes of that page', 1)
    R.rule('mirror', 'a node written to its page is replaced in the node cache', 2)
    R.rule('coords', 'coordinates kept in memory are overwritten by an update and only added by a read', 2)
    R.rule('dropped', 'newer copies in memory are dropped only after the pages were flushed', 1)
    R.rule('layers', 'the newer copy of a node wins over the record loaded at the start', 2)
    reads(R, p)
    install(R, p)
    hits(R, p)
    copies(R, p)
    coords(R, p)
    overrides(R, p)
    layers(R, p)
    R.assume('a search is given the page store when the index is updatable (that wiring is not part of this check); the update path itself is serialised, which C21 and C22 decide')
