"""C11: typestate (untouched / changed) of every mutating entry point against its rejections, and data-flow analysis of which rejections stand before the first change."""
from vf.flow import *
from vf.util import *

CLASSES = {'alaya::disk::DiskCollection': 'disk', 'alaya::diskann::DiskANNIndex': 'diskann'}
REJECT = re.compile(r'invalid_argument|out_of_range|domain_error|logic_error')
# caches, counters of skipped numbers, locks and statistics: nothing a later operation can tell
SCRATCH = re.compile(r'^this\.(page_io_|manifest_\.next_segment_id|st_\w+|\w*mutex\w*|\w*_pool_|\w*_gate_|max_pending_bytes_)')
MUT = {'insert', 'emplace', 'push_back', 'emplace_back', 'erase', 'clear', 'resize', 'assign', 'swap', 'pop_back', 'insert_or_assign', 'try_emplace', 'reset', 'push', 'pop', 'append', 'store', 'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'exchange'}
MEMBER = {'insert', 'emplace', 'contains', 'count', 'find', 'adjacent_find', 'unique', 'try_emplace', 'binary_search', 'is_deleted', 'set_intersection', 'find_first_of', 'any_of', 'none_of'}
STARTS = ('create_segment_from_pending', 'import_segment_from_artifacts')


class Src:
    """what a value depends on: members and parameters of the entry point, plus 'member' when a membership test is involved"""

    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.sum = {}

    def local(self, env):
        f = env.fn
        key = (f.id, env.key())
        if key in self.memo:
            return self.memo[key]
        m = self.memo[key] = {}
        ch = True
        while ch:
            ch = False

            def add(d, s):
                nonlocal ch
                if s and not s <= m.get(d, frozenset()):
                    m[d] = m.get(d, frozenset()) | s
                    ch = True
            for x in f.walk():
                n = f.nodes[x]
                if n['k'] == 'decl':
                    for v in n['vs']:
                        if v.get('init') is not None and v['init'] >= 0:
                            s = self.of(env, v['init'], m)
                            add(v['d'], s)
                            for b in v.get('bind') or []:
                                add(b if isinstance(b, int) else b.get('d'), s)
                elif n['k'] == 'loop' and n.get('lk') == 'range' and n.get('var', -1) >= 0:
                    s = self.of(env, n['range'], m)
                    for v in f.nodes[n['var']].get('vs', []):
                        add(v['d'], s)
                        for b in v.get('bind') or []:
                            add(b if isinstance(b, int) else b.get('d'), s)
                elif n['k'] == 'asg':
                    r = f.nodes[n['e']]
                    b = self.base(f, n['e'])
                    if b is not None:
                        add(b, self.of(env, n['r'], m))
                elif n['k'] == 'call' and any(f.nodes[a]['k'] == 'un' and f.nodes[a]['op'] == '&' for a in n.get('a', [])):
                    ss = frozenset().union(*[self.of(env, a, m) for a in n['a']])
                    for a in n['a']:
                        if f.nodes[a]['k'] == 'un' and f.nodes[a]['op'] == '&':
                            b = self.base(f, f.nodes[a]['e'])
                            if b is not None:
                                add(b, ss)
                elif n['k'] == 'call' and 'obj' in n and (bname(n) in MUT or n.get('op') == '='):
                    b = self.base(f, n['obj'])
                    if b is not None:
                        for a in n['a']:
                            add(b, self.of(env, a, m) - {'member'})
        return m

    def base(self, f, i):
        n = f.nodes[i]
        while n['k'] in ('idx', 'cast', 'mem') or n['k'] == 'un' and n['op'] == '*' or n['k'] == 'call' and n.get('op') == '[]':
            i = n.get('b', n.get('e', n.get('obj', n['a'][0] if n.get('a') else None)))
            n = f.nodes[i]
        return n['d'] if n['k'] == 'ref' and 'd' in n and str(n['d']) in f.vars else None

    def of(self, env, i, m=None, depth=0):
        if depth > 10:
            return frozenset()
        f = env.fn
        if m is None:
            m = self.local(env)
        out = set()
        for x in f.walk(i):
            n = f.nodes[x]
            if n['k'] == 'ref' and 'd' in n and not n.get('isfn'):
                out |= m.get(n['d'], frozenset())
                v = f.vars.get(str(n['d']), {})
                if v.get('k') == 'param':
                    out |= self.param(env, n['d'], v['n'], depth)
                elif v.get('k') == 'outer' and env.up:
                    ue = env.up[0]
                    for dk, w in ue.fn.vars.items():
                        if w['n'] == v['n'] and w.get('l') == v.get('l'):
                            out |= self.local(ue).get(int(dk), frozenset())
                            if w['k'] == 'param':
                                out |= self.param(ue, int(dk), w['n'], depth)
            elif n['k'] == 'mem':
                q = path(env, x)
                if q.startswith('this.'):
                    out.add(q[5:].split('.')[0].split('[')[0])
            elif n['k'] in ('call', 'ctor'):
                b = bname(n)
                if b in MEMBER:
                    out.add('member')
                    if b in ('adjacent_find', 'unique', 'any_of', 'none_of', 'find_first_of', 'set_intersection'):
                        out.add('loop')
                g = self.p.get(n.get('f'))
                if g is not None and g.body is not None and (f.cls == g.cls or g.rel().startswith('include/index')):
                    out |= self.inside(g)
            elif n['k'] == 'lam':
                g = self.p.get(n.get('f')) if not isinstance(n.get('f'), list) else None
                if g is not None and g.body is not None:
                    out |= self.inside(g)
        return frozenset(out)

    def param(self, env, d, name, depth):
        if env.up and d in env.fn.params:
            ue, call = env.up
            a = ue.fn.nodes[call].get('a', [])
            j = env.fn.params.index(d)
            if j < len(a):
                return self.of(ue, a[j], None, depth + 1)
        return frozenset(['P:' + name])

    def inside(self, g, seen=None):
        """members read and membership tests made by g"""
        if g.id in self.sum:
            return self.sum[g.id]
        self.sum[g.id] = frozenset()
        out = set()
        env = Env(g)
        for x in g.walk():
            n = g.nodes[x]
            if n['k'] == 'mem' and g.nodes[n['b']]['k'] == 'this' and not n.get('isfn'):
                out.add(n['n'])
            elif n['k'] in ('call', 'ctor'):
                if bname(n) in MEMBER:
                    out.add('member')
                h = self.p.get(n.get('f'))
                if h is not None and h.body is not None and h.cls == g.cls:
                    out |= self.inside(h)
            elif n['k'] == 'loop':
                out.add('loop')
        self.sum[g.id] = frozenset(out)
        return self.sum[g.id]


class Reject(Hooks):
    """u: frozenset of ('mut', member) / ('chk', sources)"""

    def __init__(self, p, src, root):
        self.p = p
        self.src = src
        self.root = root
        self.bad = {}
        self.starts = {}     # first changes: node -> set of check sets
        self.muts = set()
        self.rej = set()
        self.conds = {}
        self.ranges = {}

    def throws(self, F, env, i, u):
        return False

    def descend(self, F, env, i, g):
        return g.rel().startswith(('include/index/disk/disk_collection', 'include/index/disk/segment_factory', 'include/index/graph/diskann/diskann_index', 'include/index/graph/diskann/slot_alloc', 'include/index/graph/diskann/tombstone', 'include/index/graph/diskann/update_context')) and not g.d.get('dtor') or bool(g.d.get('lambda'))

    # conditions one side of which inevitably ends in an explicit throw
    def guardmap(self, f):
        if f.id not in self.conds:
            T = {b for b, blk in f.blocks.items() if any(f.nodes[e]['k'] == 'throw' and f.nodes[e].get('e', -1) is not None and f.nodes[e].get('e', -1) >= 0 for e in blk['els'] if isinstance(e, int))}
            ch = True
            while ch:
                ch = False
                for b, blk in f.blocks.items():
                    su = [x for x in blk['succ'] if x is not None]
                    if b not in T and su and all(x in T for x in su):
                        T.add(b)
                        ch = True
            m = set()
            for b, blk in f.blocks.items():
                su = [x for x in blk['succ'] if x is not None]
                t = blk.get('term')
                if t and t.get('c') is not None and t['c'] >= 0 and len(su) == 2 and (su[0] in T) != (su[1] in T):
                    m.add(t['c'])
            par = f.parent()
            loops = {}
            inner = [y for y in f.calls() if self.p.get(f.nodes[y].get('f')) is not None and self.checks(self.p.get(f.nodes[y]['f']), (f.id,))]
            for x in list(m) + [-y for y in inner]:
                y = abs(x)
                while y in par:
                    y = par[y]
                    if f.nodes[y]['k'] == 'loop':
                        loops.setdefault(y, set()).add(x)
            cl = {}
            for l in list(loops):
                c = f.nodes[l].get('c')
                if c is not None and c >= 0:
                    for y in f.walk(c):
                        cl[y] = l
            self.conds[f.id] = (m, loops, cl)
        return self.conds[f.id]

    def passed(self, env, sub):
        f = env.fn
        s = set(self.src.of(env, sub))
        ifn = sub
        par = f.parent()
        y = ifn
        while y in par:
            y = par[y]
            n = f.nodes[y]
            if n['k'] == 'loop':
                s.add('loop')
            if n['k'] == 'loop' and n.get('lk') == 'range':
                s |= self.src.of(env, n['range'])
            elif n['k'] == 'loop' and n.get('c') is not None and n['c'] >= 0:
                s |= self.src.of(env, n['c'])
        # the loops of the callers
        e = env
        while e.up:
            e, call = e.up
            g = e.fn
            pr = g.parent()
            y = call
            while y in pr:
                y = pr[y]
                n = g.nodes[y]
                if n['k'] == 'loop':
                    s.add('loop')
                    s |= self.src.of(e, n['range'] if n.get('lk') == 'range' else n['c'])
        return frozenset(s)

    def branch(self, F, env, cond, pol, u):
        for c, p in atoms(env, cond, pol):
            if c[0] == 'bin' and c[1] in ('==', '!=') and any(x[0] == 'v' and x[1].startswith('P:') for x in c[2:]) and any(x[0] == 'lit' for x in c[2:]):
                t = frozenset(c[2:])
                eq = (c[1] == '==') == p
                if ('z', t, not eq) in u:
                    return None
                u = u | {('z', t, eq)}
        m, loops, cl = self.guardmap(env.fn)
        if cond in m and not any(x[0] == 'mut' for x in u):
            s = self.passed(env, cond)
            self.rej.add(env.fn.at(cond))
            u = u | {('chk', s)}
        if cond in cl and not pol:
            u = self.leave(env, cl[cond], u)
            self.full(env, cl[cond])
        return u

    def leave(self, env, l, u):
        if any(x[0] == 'mut' for x in u):
            return u
        m, loops, cl = self.guardmap(env.fn)
        for x in loops.get(l, ()):
            if x >= 0:
                u = u | {('chk', self.passed(env, x))}
            else:
                u = self.within(env, -x, u)
        return u

    def within(self, env, call, u, depth=0):
        g = self.p.get(env.fn.nodes[call].get('f'))
        if g is None or depth > 3:
            return u
        ce = child_env(env, call, g)
        m, loops, cl = self.guardmap(g)
        for x in m:
            u = u | {('chk', self.passed(ce, x))}
        for x in g.calls():
            h = self.p.get(g.nodes[x].get('f'))
            if h is not None and self.checks(h):
                u = self.within(ce, x, u, depth + 1)
        return u

    def checks(self, g, seen=()):
        """does g test something and reject"""
        if g.id in seen or len(seen) > 4 or g.body is None or not self.descend(None, None, None, g):
            return False
        key = ('c', g.id)
        if key not in self.conds:
            self.conds[key] = False
            self.conds[key] = bool(self.guardmap(g)[0]) or any(self.checks(h, seen + (g.id,)) for h in [self.p.get(g.nodes[x].get('f')) for x in g.calls()] if h is not None)
        return self.conds[key]

    def rangeloop(self, F, env, term, enter, u):
        s = term.get('s')
        m, loops, cl = self.guardmap(env.fn)
        return u if enter else self.leave(env, s, u)

    def full(self, env, l):
        """a validating loop visits every element: from the first, up to the count, one by one, never left early"""
        f = env.fn
        n = f.nodes[l]
        if n.get('c') is None or n['c'] < 0 or l in self.ranges:
            return
        c = canon(env, n['c'])
        why = None
        if c[0] == 'bin' and c[1] in ('<', '!=', '>'):
            hi = c[3] if c[1] != '>' else c[2]
            lo = c[2] if c[1] != '>' else c[3]
            if any(isinstance(t, tuple) and t[0] == 'bin' and t[1] in ('-', '/', '>>', '%') for t in subterms(hi)) or lo[0] == 'bin' and lo[1] in ('+', '*'):
                why = 'stops before the last element'
        elif c[0] == 'bin' and c[1] in ('<=', '>='):
            pass
        init = n.get('init', -1)
        if init is not None and init >= 0 and f.nodes[init]['k'] == 'decl' and len(f.nodes[init]['vs']) == 1 and f.nodes[init]['vs'][0].get('init', -1) is not None:
            t = canon(env, f.nodes[init]['vs'][0]['init'])
            while t[0] in ('cast', 'ctor') and len(t) > 2:
                t = t[2]
            if t[0] == 'lit' and str(t[1]) not in ('0', '0U', '0UL'):
                if not (f.nodes[init]['vs'][0].get('t', '').endswith('*')):
                    why = 'does not start at the first element'
        for x in f.walk(n['body']):
            if f.nodes[x]['k'] == 'break':
                pr = f.parent()
                y = x
                while f.nodes[y]['k'] not in ('loop', 'switch'):
                    y = pr[y]
                if y == l:
                    why = 'is left before the last element'
        self.ranges[l] = why
        if why:
            self.bad.setdefault(('all-elements', f.at(l)), 'the validating loop %s' % why)

    # changes
    def change(self, F, env, i, u, q):
        if not q.startswith('this.') or SCRATCH.match(q):
            return u
        mem = q[5:].split('.')[0].split('[')[0]
        self.muts.add(mem)
        if not any(x[0] == 'mut' for x in u):
            self.starts.setdefault(env.fn.at(i), set()).add(u)
        return frozenset(x for x in u if x[0] != 'chk') | {('mut', mem)}

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'asg':
            return self.change(F, env, i, u, path(env, n['e']))
        if n['k'] == 'un' and n['op'] in ('++', '--'):
            return self.change(F, env, i, u, path(env, n['e']))
        if n['k'] == 'throw' and 'e' in n and n['e'] is not None and n['e'] >= 0:
            mt = sorted(x[1] for x in u if x[0] == 'mut')
            t = n.get('tt', '') or f.nodes[n['e']].get('t', '')
            arg = REJECT.search(t) and (not f.cls or f.cls == self.root.cls or f.cls == self.root.cls.rsplit('::', 1)[0])
            if not arg:
                dep = set()
                for c, pol in guards(env, i):
                    for x in subterms(c):
                        if isinstance(x, tuple) and x[0] == 'v' and (x[1].startswith('P:') or x[1].startswith('this.pending_')):
                            dep.add(x[1])
                arg = bool(dep) and f.cls == self.root.cls and 'catch' not in {f.nodes[a]['k'] for a in f.ancestors(i)}
            if arg:
                self.rej.add(f.at(i))
                if mt:
                    self.bad.setdefault(('untouched', f.at(i)), 'arguments are rejected here after %s was already changed (entry point %s)' % (', '.join(mt), self.root.q))
        return u

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        u2 = u
        if n['k'] == 'call':
            b = bname(n)
            if b in STARTS:
                if not any(x[0] == 'mut' for x in u):
                    self.starts.setdefault(f.at(i), set()).add(u)
                u2 = frozenset(x for x in u if x[0] != 'chk') | {('mut', 'the segments on disk')}
                return [('ok', u2, None)]
            g = self.p.get(n.get('f'))
            if 'obj' in n and n['obj'] is not None and (n.get('op') == '=' or not n.get('cm') and (g is None or g.body is None or not self.descend(F, env, i, g))):
                if n.get('op') in ('=', '+=', '++', '--', '-=') or b in MUT or (g is not None and not n.get('cm') and g.rel().startswith('include/') and self.writes(g)):
                    q = path(env, n['obj'])
                    u2 = self.change(F, env, i, u, q)
            elif n.get('op') in ('=', '+=', '++', '--') and n.get('a'):
                u2 = self.change(F, env, i, u, path(env, n['a'][0]))
        if u2 is not u:
            return [('ok', u2, None)]
        return None

    def writes(self, g):
        key = ('w', g.id)
        if key not in self.conds:
            self.conds[key] = False
            r = False
            for x in g.walk():
                n = g.nodes[x]
                if n['k'] == 'asg' and self.mine(g, n['e']) or n['k'] == 'un' and n['op'] in ('++', '--') and self.mine(g, n['e']) or n['k'] == 'call' and 'obj' in n and n['obj'] is not None and bname(n) in MUT and self.mine(g, n['obj']):
                    r = True
            self.conds[key] = r
        return self.conds[key]

    def mine(self, g, i):
        n = g.nodes[i]
        while n['k'] in ('idx', 'mem', 'cast') or n['k'] == 'call' and n.get('op') in ('[]', '*', '->'):
            i = n.get('b', n.get('e', n.get('obj', n['a'][0] if n.get('a') else -1)))
            if i is None or i < 0:
                return False
            n = g.nodes[i]
        return n['k'] == 'this'


# what has to be rejected before the first change: entry -> [(what, tested values (any one of each group), is a membership test)]
NEED = {
    'disk': {
        'add_batch': [('null vectors', [('P:vectors',)], None), ('null labels', [('P:labels',)], None), ('more rows than the pending buffer may hold', [('P:n',), ('max_pending_bytes_',)], None)],
        'flush': [('a label that occurs twice in the batch', [('pending_labels_',)], 'dup'), ('a label that another segment has', [('pending_labels_',), ('segment_dirs_', 'segments_', 'manifest_')], 'each')],
        'import_laser_segment': [('null labels', [('P:labels',)], None), ('a label that occurs twice in the batch', [('P:labels',)], 'dup'), ('a label that another segment has', [('P:labels',), ('segment_dirs_', 'segments_', 'manifest_')], 'each')],
    },
    'diskann': {
        'insert': [('a null query', [('P:query',)], None), ('a label in use', [('P:label',), ('label_to_slot_',)], True), ('an index opened read-only', [('updatable_',)], None)],
        'batch_insert': [('null vectors', [('P:vectors',)], None), ('null labels', [('P:labels',)], None), ('a label in use', [('P:labels',), ('label_to_slot_',)], 'each'), ('a label that occurs twice in the batch', [('P:labels',)], 'dup'), ('an index opened read-only', [('updatable_',)], None)],
        'batch_insert_with_pool': [('null vectors', [('P:vectors',)], None), ('null labels', [('P:labels',)], None), ('a label in use', [('P:labels',), ('label_to_slot_',)], 'each'), ('a label that occurs twice in the batch', [('P:labels',)], 'dup'), ('an index opened read-only', [('updatable_',)], None)],
        'remove': [('an identifier out of range', [('P:internal_id',), ('max_slot_id_', 'labels_', 'slot_alloc_')], None), ('a record already deleted', [('P:internal_id',), ('slot_alloc_',)], True), ('an index opened read-only', [('updatable_',)], None)],
        'remove_by_label': [('an unknown label', [('P:label',), ('label_to_slot_',)], True), ('an index opened read-only', [('updatable_',)], None)],
        'batch_remove': [('null identifiers', [('P:internal_ids',)], None), ('a record already deleted', [('P:internal_ids',), ('slot_alloc_',)], 'each'), ('an identifier that occurs twice', [('P:internal_ids',)], 'dup'), ('an index opened read-only', [('updatable_',)], None)],
        'batch_remove_with_pool': [('null identifiers', [('P:internal_ids',)], None), ('a record already deleted', [('P:internal_ids',), ('slot_alloc_',)], 'each'), ('an identifier that occurs twice', [('P:internal_ids',)], 'dup'), ('an index opened read-only', [('updatable_',)], None)],
        'batch_remove_by_labels': [('null labels', [('P:labels',)], None), ('an unknown label', [('P:labels',), ('label_to_slot_',)], 'each'), ('a label that occurs twice', [('P:labels',)], 'dup'), ('an index opened read-only', [('updatable_',)], None)],
    },
}


def run(R):
    R.rule('untouched', 'no rejection of arguments is reached after state visible to later operations was changed', 8)
    R.rule('validated', 'before the first change every kind of invalid argument was tested for, with a rejection on the failing side', 20)
    R.rule('all-elements', 'a loop that validates a batch visits all of its elements', 4)
    for cls, unit in CLASSES.items():
        p = R.program(unit)
        src = Src(p)
        table = NEED[unit]
        ms = [f for f in p.methods(cls.rsplit('::', 1)[-1]) if f.cls == cls and f.body is not None and f.d.get('acc') in ('public', 0, None, '') and not f.d.get('ctor') and not f.d.get('dtor') and not f.d.get('cm') and not f.d.get('st') and not f.d.get('lambda')]
        loops = {}
        for f in sorted(ms, key=lambda f: f.line):
            if f.name in ('load', 'build', 'open', 'create', 'close') or f.name.startswith('operator'):
                continue
            H = Reject(p, src, f)
            F = Flow(p, H)
            F.run(f, frozenset())
            R.points += F.points
            if not H.muts and f.name not in table:
                continue
            R.saw([g for g in p.fns.values() if g.id in F.visited])
            bads = {a: m for (r, a), m in H.bad.items() if r == 'untouched'}
            for a in sorted(H.rej):
                R.ob('untouched', a not in bads, a, bads.get(a, ''), key='%s|%s' % (f.q, re.sub(r':\d+', '', a)))
            for a in sorted(set(bads) - H.rej):
                R.ob('untouched', False, a, bads[a], key='%s|%s' % (f.q, re.sub(r':\d+', '', a)))
            for l, why in H.ranges.items():
                loops.setdefault((f.q, l), why)
            for (r, a), m in H.bad.items():
                if r == 'all-elements':
                    R.ob('all-elements', False, a, m, key=a)
            for l, why in H.ranges.items():
                if why is None:
                    R.good('all-elements', '%s loop node %s' % (f.q, l))
            for what, groups, member in table.get(f.name, []):
                for at, us in sorted(H.starts.items()):
                    ok = all(any(x[0] == 'chk' and fits(x[1], groups, member) for x in u) for u in us)
                    R.ob('validated', ok, at, '%s changes state here on a path on which %s was not tested for and rejected' % (f.q, what), key='%s|%s' % (f.q, what))
    R.assume('failures of the environment (disk full, out of memory) during the change itself are the subject of C06, C17 and C31')
    return __doc__


def fits(s, groups, member):
    if member == 'dup':
        if 'loop' not in s or s & {'label_to_slot_', 'slot_alloc_', 'segment_dirs_', 'segments_', 'manifest_'}:
            return False
    elif member == 'each' and 'loop' not in s:
        return False
    return all(any(x in s for x in g) for g in groups) and (member is None or ('member' in s))
