"""C16: reachability of every result append under the assumption that its id is deleted; path-sensitive wiring of a fresh deletion snapshot into every search; reachability of a normal return of a removal that avoids the free."""
import re
from vf.flow import *
from vf.kind import Kind
from vf.util import *
from checks.c18 import SA, TB, TS, IX, chains, loopnorm, subs

CTX = 'alaya::diskann::SearchContext'
PAIRV = re.compile(r'vector<(std::)?pair<(unsigned int|uint32_t|std::uint32_t), float>')
GROW = ('emplace_back', 'push_back', 'emplace', 'insert')


def ptype(f, d):
    return re.sub(r'^const |[ &*]+$', '', str(f.vars[str(d)].get('t', '')))


def ctxparam(f):
    return [d for d in f.params if str(d) in f.vars and ptype(f, d).rsplit('::', 1)[-1] == 'SearchContext']


def elem_id(f, i):
    """node of the id of the pair appended at i"""
    n = f.nodes[i]
    a = [x for x in n.get('a', []) if x >= 0]
    if not a:
        return None
    if len(a) >= 2 and bname(n) in ('emplace_back', 'emplace'):
        return a[0]
    x = strip(f, a[-1])
    m = f.nodes[x]
    k = 0
    while k < 5 and m['k'] in ('ctor', 'silist', 'call'):
        k += 1
        b = [y for y in (m.get('a') or m.get('e') or [])] if not isinstance(m.get('e'), int) else []
        if len(b) == 2:
            return b[0]
        if len(b) != 1:
            return None
        x = strip(f, b[0])
        m = f.nodes[x]
    if m['k'] == 'ref' and 'd' in m:
        sd = f.single_def(m['d'])
        if sd is not None and sd >= 0 and f.nodes[strip(f, sd)]['k'] in ('ctor', 'silist', 'call'):
            s = f.nodes[strip(f, sd)]
            if len(s.get('a', [])) == 2:
                return s['a'][0]
    return None


def exact(env, i, depth=0):
    """term of a value that keeps element indices apart"""
    f = env.fn
    i = strip(f, i)
    n = f.nodes[i]
    if depth > 12:
        return canon(env, i)
    if n['k'] == 'ref' and 'd' in n and not n.get('isfn'):
        v = f.vars.get(str(n['d']), {})
        if v.get('k') == 'param' and env.up and n['d'] in f.params:
            ue, call = env.up
            k = f.params.index(n['d'])
            a = ue.fn.nodes[call].get('a', [])
            if k < len(a):
                return exact(ue, a[k], depth + 1)
        if v.get('k') == 'local':
            sd = f.single_def(n['d'], ignore=('addr', 'cap'))
            if sd is not None and sd >= 0 and f.nodes[strip(f, sd)]['k'] in ('mem', 'idx', 'ref', 'call'):
                return exact(env, sd, depth + 1)
        return canon(env, i)
    if n['k'] == 'mem' and n.get('b', -1) is not None and n.get('b', -1) >= 0:
        return ('mem', exact(env, n['b'], depth + 1), n['n'])
    if n['k'] == 'idx':
        return ('idx', exact(env, n['b'], depth + 1), exact(env, n['i'], depth + 1))
    if n['k'] == 'call' and n.get('op') == '[]':
        xs = ([n['obj']] if n.get('obj') is not None and n['obj'] >= 0 else []) + list(n['a'])
        return ('idx',) + tuple(exact(env, x, depth + 1) for x in xs)
    return canon(env, i)


class Live(Kind):
    """the search has a deletion snapshot and the id in question is deleted in it"""

    def __init__(self, p, what):
        super().__init__(p, lambda e, i: False, [], lambda g: True)
        self.what = what
        self.truth = self.known

    def passes(self, env, i, g):
        return g.d.get('lambda') or g.rel().startswith('include/index/graph/diskann/beam') or any('TombstoneSnapshot' in str(g.vars[str(d)].get('t', '')) for d in g.params if str(d) in g.vars)

    def istomb(self, f, i):
        t = str(f.nodes[strip(f, i)].get('t', ''))
        return 'TombstoneSnapshot' in t and '*' in t

    def known(self, env, i):
        f = env.fn
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] == 'call' and n.get('q') in (TS + '::is_deleted', TB + '::is_deleted', SA + '::is_deleted') and n.get('a'):
            if self.what is None or exact(env, n['a'][0]) == self.what:
                return True
            return None
        if n['k'] == 'bin' and n['op'] in ('==', '!='):
            for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
                if self.istomb(f, a) and (f.nodes[strip(f, b)].get('v') == 'null' or 'nullptr' in str(f.nodes[strip(f, b)].get('t', ''))):
                    return n['op'] == '!='
        if n['k'] in ('ref', 'mem') and self.istomb(f, i):
            return True
        return None


def grows_in(p, f, reach):
    """(env, node) of every append to a vector of (id, distance) pairs below f"""
    out = []

    def go(env, path):
        g = env.fn
        for i in g.calls():
            n = g.nodes[i]
            if n['k'] == 'call' and n.get('obj') is not None and n['obj'] >= 0 and bname(n) in GROW and PAIRV.search(str(g.nodes[strip(g, n['obj'])].get('t', ''))):
                out.append((env, i))
                continue
            h = p.get(n.get('f')) if n['k'] == 'call' else None
            if h is not None and h.blocks and h.id not in path and len(path) < 6 and (h.d.get('lambda') or h.rel().startswith('include/index/graph/diskann/')) and not ctxparam(h):
                go(child_env(env, i, h), path | {h.id})
    go(Env(f), {f.id})
    return out


class Wire(Hooks):
    """u: contexts (by path) that have the deletion snapshot"""
    inline_threads = False

    def __init__(self, p, R):
        self.p, self.R = p, R
        self.bad = {}
        self.n = {}
        self.rets = []

    def throws(self, F, env, i, u):
        return False

    def descend(self, F, env, i, g):
        return bool(g.d.get('lambda'))

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        g = self.p.get(n.get('f'))
        if g is not None and n['k'] == 'call':
            for k, d in enumerate(g.params):
                if str(d) in g.vars and ptype(g, d).rsplit('::', 1)[-1] == 'SearchContext' and k < len(n.get('a', [])) and not g.cls == CTX:
                    self.use(env, i, n['a'][k], u, g)
            if g.d.get('lambda'):
                return None
        return [('ok', u, None)]

    def ctxpath(self, env, a):
        t = canon(env, a)
        while t[0] in ('addr', 'un', 'cast') or t[0] == 'ctor' and len(t) == 3:
            t = t[-1]
        return t

    def use(self, env, i, a, u, g):
        f = env.fn
        t = self.ctxpath(env, a)
        if t[0] == 'v' and str(t[1]).startswith('P:'):
            return
        # const parameters only: a function that fills the context is not a search
        k = (f.id, i)
        self.n[k] = f.at(i)
        if t not in u:
            self.bad[k] = (f, i, g)

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'asg':
            l = f.nodes[strip(f, n['e'])]
            if l['k'] == 'mem' and l['n'] == 'tombstone':
                c = self.ctxpath(env, l['b'])
                u = u - {c}
                if self.fresh(env, n['r']):
                    u = u | {c}
        if n['k'] == 'ret' and n.get('e', -1) is not None and n.get('e', -1) >= 0 and 'SearchContext' in str(f.d.get('rt', '')):
            self.rets.append(self.ctxpath(env, n['e']) in u)
        if n['k'] == 'decl':
            for v in n['vs']:
                t = re.sub(r'^const ', '', str(v.get('t', f.vars.get(str(v['d']), {}).get('t', ''))))
                if t.rsplit('::', 1)[-1] == 'SearchContext':
                    me = self.declpath(env, v)
                    u = frozenset(x for x in u if x != me)
                    ini = v.get('init')
                    if ini is not None and ini >= 0:
                        j = strip(f, ini)
                        m = f.nodes[j]
                        if m['k'] == 'call':
                            g = self.p.get(m.get('f'))
                            if g is not None and g.blocks and self.makes(env, j, g):
                                u = u | {me}
                        elif m['k'] in ('silist', 'ctor') and any(self.fresh(env, x) for x in f.walk(j) if f.nodes[x]['k'] in ('un', 'cond', 'ref')):
                            u = u | {me}
        return u

    def declpath(self, env, v):
        f = env.fn
        for j, m in enumerate(f.nodes):
            if m and m['k'] == 'ref' and m.get('d') == v['d']:
                return canon(env, j)
        return ('v', 'L:%s' % v['n'])

    def makes(self, env, call, g):
        """g returns a context with a snapshot"""
        w = Wire(self.p, self.R)
        F = Flow(self.p, w)
        e = child_env(env, call, g)
        F.run(g, frozenset(), e)
        return bool(w.rets) and all(w.rets)

    def fresh(self, env, r, depth=0):
        """&s.tombstone of a snapshot s taken in this operation"""
        f = env.fn
        j = strip(f, r)
        n = f.nodes[j]
        if depth > 6:
            return False
        if n['k'] == 'cond':
            k = self.flag(env, n['c'])
            if k is None:
                return self.fresh(env, n['a1'], depth + 1) and self.fresh(env, n['a2'], depth + 1)
            return self.fresh(env, n['a1'] if k else n['a2'], depth + 1)
        if n['k'] == 'ref' and 'd' in n and not n.get('isfn'):
            v = f.vars.get(str(n['d']), {})
            if v.get('k') == 'param' and env.up and n['d'] in f.params:
                ue, call = env.up
                k = f.params.index(n['d'])
                a = ue.fn.nodes[call].get('a', [])
                return k < len(a) and self.fresh(ue, a[k], depth + 1)
            sd = f.single_def(n['d'], ignore=('addr', 'cap'))
            return sd is not None and sd >= 0 and self.fresh(env, sd, depth + 1)
        if n['k'] == 'un' and n['op'] == '&':
            m = f.nodes[strip(f, n['e'])]
            if m['k'] == 'mem' and 'TombstoneSnapshot' in str(m.get('t', '')):
                return self.local_snapshot(env, m['b'])
            return self.local_snapshot(env, n['e'])
        if n['k'] == 'call':
            g = self.p.get(n.get('f'))
            if g is not None and g.blocks:
                rs = [m for m in g.nodes if m and m['k'] == 'ret' and m.get('e', -1) is not None and m.get('e', -1) >= 0]
                e2 = child_env(env, j, g)
                return bool(rs) and all(self.fresh(e2, m['e'], depth + 1) or self.guardednull(e2, m) for m in rs)
        return False

    def guardednull(self, env, m):
        return False

    def local_snapshot(self, env, b, depth=0):
        f = env.fn
        n = f.nodes[strip(f, b)]
        if depth > 6:
            return False
        if n['k'] == 'this' and env.up:
            ue, call = env.up
            o = ue.fn.nodes[call].get('obj')
            return o is not None and o >= 0 and self.local_snapshot(ue, o, depth + 1)
        if n['k'] == 'ref' and 'd' in n:
            v = f.vars.get(str(n['d']), {})
            if v.get('k') == 'param' and env.up and n['d'] in f.params:
                ue, call = env.up
                k = f.params.index(n['d'])
                a = ue.fn.nodes[call].get('a', [])
                return k < len(a) and self.local_snapshot(ue, a[k], depth + 1)
            if v.get('k') == 'param' and not env.up:
                # every caller passes one taken there
                k = f.params.index(n['d'])
                cs = self.p.callers().get(f.id, [])
                return bool(cs) and all(k < len(g.nodes[x].get('a', [])) and self.local_snapshot(Env(g), g.nodes[x]['a'][k], depth + 1) for g, x in cs)
            if v.get('static') or v.get('k') not in ('local', 'capture', None):
                return False
            if env.fn.d.get('lambda') and str(n['d']) not in f.vars:
                return False
            sd = f.single_def(n['d'], ignore=('addr', 'cap'))
            if sd is None or sd < 0:
                # captured: look in the enclosing function
                g = self.p.get(f.d.get('parent')) if f.d.get('lambda') else None
                if g is not None:
                    sd = g.single_def(n['d'], ignore=('addr', 'cap'))
                    if sd is not None and sd >= 0:
                        return self.takes(g.nodes[strip(g, sd)])
                # filled in place by a call
                return any(m and m['k'] == 'call' and self.takes(m) and any(f.nodes[strip(f, a)].get('d') == n['d'] for a in m.get('a', []) if a >= 0) for m in f.nodes)
            return self.takes(f.nodes[strip(f, sd)])
        return False

    def takes(self, m):
        while m['k'] == 'ctor' and len(m.get('a', [])) == 1:
            break
        g = self.p.get(m.get('f')) if m.get('f') else None
        if m.get('q') == TB + '::snapshot_into':
            return True
        return g is not None and g.id in self.takers()

    def takers(self):
        if '_takers' not in self.p.__dict__:
            out = {f.id for f in self.p.fns.values() if any(n and n['k'] == 'call' and n.get('q') == TB + '::snapshot_into' for n in f.nodes)}
            work = list(out)
            while work:
                for g, x in self.p.callers().get(work.pop(), []):
                    rt = str(g.d.get('rt', ''))
                    if g.id not in out and ('Snapshot' in rt):
                        out.add(g.id)
                        work.append(g.id)
            self.p.__dict__['_takers'] = out
        return self.p.__dict__['_takers']

    def flag(self, env, c):
        """truth of a condition on the snapshot's own flag, with deletions present"""
        f = env.fn
        c = strip(f, c)
        n = f.nodes[c]
        if n['k'] == 'un' and n['op'] == '!':
            r = self.flag(env, n['e'])
            return None if r is None else not r
        if n['k'] == 'mem' and n.get('t') in ('bool', 'const bool') and 'Snapshot' in str(f.nodes[strip(f, n['b'])].get('t', '')) + str(n.get('q', '')):
            return True
        if n['k'] == 'ref' and 'd' in n and n.get('t') in ('bool', 'const bool'):
            sd = f.single_def(n['d'])
            return self.flag(env, sd) if sd is not None and sd >= 0 else None
        return None

    def branch(self, F, env, cond, pol, u):
        r = self.flag(env, cond)
        if r is not None and r != pol:
            return None
        return u


def taken(R, p):
    """a snapshot function skips the copy only when nothing is deleted"""
    n = 0
    for f in sorted((f for f in p.fns.values() if f.blocks and any(m and m['k'] == 'call' and m.get('q') == TB + '::snapshot_into' for m in f.nodes)), key=lambda f: f.line):
        n += 1
        R.saw([f])

        class T(Hooks):
            def throws(self, F, env, i, u):
                return False

            def descend(self, F, env, i, g):
                return False

            def call(self, F, env, i, u):
                m = env.fn.nodes[i]
                if m.get('q') == TB + '::snapshot_into':
                    return [('ok', u | {'copied'}, None)]
                return [('ok', u, None)]

            def elem(self, F, env, i, u):
                f = env.fn
                m = f.nodes[i]
                if m['k'] == 'asg':
                    l = f.nodes[strip(f, m['e'])]
                    if l['k'] == 'mem' and l.get('t') == 'bool':
                        r = f.nodes[strip(f, m['r'])]
                        t = self.truth(f, m['r'])
                        return (u | {'flag'}) if t else (u - {'flag'})
                return u

            def truth(self, f, c):
                c = strip(f, c)
                m = f.nodes[c]
                if m['k'] == 'lit' and m.get('v') in ('true', 'false'):
                    return m['v'] == 'true'
                if m['k'] == 'un' and m['op'] == '!':
                    r = self.truth(f, m['e'])
                    return None if r is None else not r
                if self.cnt(f, c):
                    return True
                if m['k'] == 'ref' and 'd' in m:
                    sd = f.single_def(m['d'])
                    return self.truth(f, sd) if sd is not None and sd >= 0 else None
                if m['k'] == 'bin' and m['op'] in ('==', '!=', '>', '<', '>=', '<='):
                    for a, b, o in ((m['e'], m['r'], m['op']), (m['r'], m['e'], {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(m['op'], m['op']))):
                        if self.cnt(f, a):
                            v = f.nodes[strip(f, b)].get('cv', f.nodes[strip(f, b)].get('v'))
                            try:
                                v = int(str(v).rstrip('uUlL'))
                            except ValueError:
                                return None
                            # one slot is deleted
                            return {'==': 1 == v, '!=': 1 != v, '>': 1 > v, '<': 1 < v, '>=': 1 >= v, '<=': 1 <= v}[o]
                return None

            def cnt(self, f, c):
                c = strip(f, c)
                m = f.nodes[c]
                if m['k'] == 'ref' and 'd' in m and not m.get('isfn'):
                    sd = f.single_def(m['d'])
                    return sd is not None and sd >= 0 and self.cnt(f, sd)
                return m['k'] == 'call' and m.get('q') in (TB + '::count', SA + '::tombstone_count')

            def branch(self, F, env, cond, pol, u):
                r = self.truth(env.fn, cond)
                m = env.fn.nodes[strip(env.fn, cond)]
                if r is None and m['k'] == 'mem' and m.get('t') == 'bool' and 'Snapshot' in str(env.fn.nodes[strip(env.fn, m['b'])].get('t', '')):
                    r = 'flag' in u
                return None if r is not None and r != pol else u
        F = Flow(p, T())
        outs = F.run(f, frozenset(), Env(f))
        R.points += F.points
        for kind, u, _ in outs:
            if kind == 'ok':
                R.ob('taken', 'copied' in u, f.at(), '%s can leave out the deletion snapshot although one slot is deleted' % f.q, key=f.q)
                c = next((c for c in p.classes.values() if c['q'].endswith('::SearchSnapshot')), None)
                if c and any(x['t'] == 'bool' for x in c['fields']) and 'SearchSnapshot' in str(f.d.get('rt', '')):
                    R.ob('taken', 'flag' in u, f.at(), '%s can take a deletion snapshot without saying so' % f.q, key='flag:' + f.q)
    return n


class Avoid(Kind):
    """paths of a removal that do not free the slot"""

    def __init__(self, p, what, entry):
        super().__init__(p, lambda e, i: False, [], lambda g: True)
        self.what, self.entry = what, entry
        self.truth = self.known

    def passes(self, env, i, g):
        return g.cls == IX or g.cls == SA and g.name == 'free' or g.d.get('lambda')

    def run(self, f, env=None, depth=0):
        if f.q == SA + '::free':
            return {('throw', None)}
        return super().run(f, env, depth)

    def known(self, env, i):
        f = env.fn
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] == 'bin' and n['op'] in ('==', '!=', '>', '<'):
            for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
                t = canon(env, a)
                if t[0] == 'v' and str(t[1]).startswith('P:') and canon(env, b) == ('lit', '0'):
                    return n['op'] != '==' if n['op'] in ('==', '!=') else (n['op'] == '>') == (a == n['e'])
        return None

    def enters(self, env, c):
        f = env.fn
        n = f.nodes[strip(f, c)]
        xs = [n['e'], n['r']] if n['k'] == 'bin' and n['op'] in ('<', '!=', '>') else [n.get('obj')] + n.get('a', []) if n['k'] == 'call' and n.get('op') == '!=' else []
        for x in xs:
            if x is None or x < 0:
                continue
            t = loopnorm(env, canon(env, x))
            if isinstance(t, tuple) and (t[0] == 'each' and t in subs(self.what) or '__begin' in str(t)):
                return True
        return False


def limits(t):
    out = []
    if isinstance(t, tuple):
        if t and t[0] == 'each':
            return [t[1]]
        for x in t:
            out += limits(x)
    return out


def removed(R, p):
    for f in sorted((f for f in p.methods(IX) if f.blocks and not f.d.get('lambda') and f.d.get('acc') == 'public'), key=lambda f: f.line):
        for env, i in chains(p, f, SA + '::free'):
            R.saw([f, env.fn])
            what = loopnorm(env, canon(env, env.fn.nodes[i]['a'][0]))
            K = Avoid(p, what, f)
            ex = K.run(f)
            R.points += len(K.reached)
            R.ob('removed', not any(k == 'ret' for k, _ in ex), env.fn.at(i), '%s can return normally without freeing the slot it was asked to remove' % f.q, key=f.q)
            ok = True
            if any(g.nodes[x]['k'] == 'loop' for g, x in inloops(p, env, i)):
                ls = limits(what)
                ok = bool(ls) and all(re.match(r'^[\w:#@.\s()]+$', str(l)) and not re.search(r'\d\s*$', str(l).split('#')[0]) for l in ls) or '__begin' in str(what)
            R.ob('removed', ok, env.fn.at(i), '%s does not go over all the slots it was asked to remove (%s)' % (f.q, show(what) if 'each' not in str(what) else limits(what)), key='all:' + f.q)


def inloops(p, env, i):
    while env is not None:
        f = env.fn
        par = f.parent()
        x = par.get(i)
        while x is not None:
            if f.nodes[x]['k'] == 'loop':
                yield f, x
            x = par.get(x)
        if not env.up:
            return
        env, i = env.up


def slot_rules(R):
    R.rule('alloc', 'allocating and freeing a slot hide it, publishing shows it, and neither touches another slot', 8)
    R.rule('bits', 'every bitmap operation addresses the same bit for a slot, a different one for different slots, and changes only that bit', 6)
    R.rule('count', 'the number of deleted slots changes exactly when a bit changes', 2)
    R.rule('stored', 'the deleted bits are read back as they were written', 3)
    R.rule('wired', 'the deleted bits are stored with and loaded with the index', 2)
    R.rule('owner', 'nothing but the allocator changes which slots are hidden', 1)


def slot_state(R, p):
    from checks import c18
    c18.shapes(R, p)
    c18.bits(R, p)
    c18.polarity(R, p)
    c18.stored(R, p)
    c18.wired(R, p)
    c18.owner(R, p)


def mask_rules(R):
    R.rule('extracted', 'a search never appends an id that its deletion snapshot says is hidden to its results', 4)
    R.rule('given', 'every search is given a deletion snapshot taken by the same operation whenever a slot is hidden', 2)
    R.rule('taken', 'the snapshot is left out only when nothing is hidden', 1)


def masks(R, p):
    tops = [f for f in p.fns.values() if f.blocks and not f.d.get('lambda') and ctxparam(f)]
    for f in sorted(tops, key=lambda f: (f.rel(), f.line)):
        for env, i in grows_in(p, f, None):
            g = env.fn
            R.saw([f, g])
            x = elem_id(g, i)
            what = exact(env, x) if x is not None else None
            K = Live(p, what)
            K.run(f)
            R.points += len(K.reached)
            hit = (g.id, i, env.key()) in K.reached
            R.ob('extracted', not hit, g.at(i), '%s can append a deleted id to its results' % f.q, key='%s:%s' % (f.name, g.name))
    for f in sorted((f for f in p.fns.values() if f.blocks), key=lambda f: (f.rel(), f.line)):
        hot = any(n and n['k'] == 'call' and p.get(n.get('f')) is not None and ctxparam(p.get(n['f'])) for n in f.nodes)
        if not hot or f.d.get('implicit'):
            continue
        w = Wire(p, R)
        F = Flow(p, w)
        F.run(f, frozenset(), Env(f))
        R.points += F.points
        if w.n:
            R.saw([f])
        for k, at in w.n.items():
            b = w.bad.get(k)
            R.ob('given', not b, at, 'a search started here can be without the snapshot of the deleted slots', key=f.q)
    taken(R, p)


def run(R):
    mask_rules(R)
    R.rule('removed', 'a removal that returns normally has freed every slot it was asked to remove', 3)
    slot_rules(R)
    p = R.program('diskann')
    slot_state(R, p)
    masks(R, p)
    removed(R, p)
    R.assume('ids in the results and ids asked about are compared as symbolic terms, and the candidate list does not change between the two')
