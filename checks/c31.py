"""C31: typestate of the parts of a vector record: what an insertion stored is taken back on every failing path, an upsert puts the replaced record back, and a removal reaches every part."""
from vf.flow import *
from vf.util import *
from checks.c27 import minus_one, deref

STORE = ('insert', 'reserve', 'batch_insert')
DROP = ('remove', 'erase')
LOGS = ('spdlog', 'fmt', 'alaya::log', 'log_')
SPACES = ('alaya::RawSpace', 'alaya::SQ8Space', 'alaya::SQ4Space')
QUIET = ('operator[]', 'size', 'data', 'begin', 'end', 'get', 'operator->', 'operator*', 'empty', 'operator bool', 'has_value', 'operator++', 'operator!=', 'operator==', 'max', 'find', 'count', 'clear', 'invalid_id', 'erase')
JOB = 'alaya::GraphUpdateJob'


def split(f):
    """the instantiation keeps the vectors of searching and building in two different spaces"""
    h = f.id.split('::' + f.name, 1)[0]
    d = c = 0
    for ch in h:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif ch == ',' and d == 1:
            c += 1
    return c > 0


def receiver(env, i):
    """member (of this object) that holds the part, or None"""
    n = env.fn.nodes[i]
    if 'obj' not in n:
        return None
    t = canon(env, n['obj'])
    while t[0] in ('un', 'addr', 'cast') or t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('operator->', 'operator*', 'get', 'value'):
        t = t[2] if t[0] in ('un', 'call') else t[-1]
        if t is None:
            return None
    if t[0] == 'v' and t[1].startswith('this.') and t[1].count('.') == 1:
        return t[1]
    return None


class Parts(Hooks):
    """u: ('part', recv, id term, at) stored by this operation; ('gone', recv); ('none',) a failure marker is returned"""

    def __init__(self, p, f):
        self.p = p
        self.f = f
        self.probs = {}
        self.sites = {}

    def throws(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = n.get('q', '')
        if nothrow_call(n) or q.startswith(LOGS) or n['k'] == 'call' and bname(n) in QUIET:
            return False
        g = self.p.get(n.get('f'))
        if q.startswith('alaya::'):
            return g is None or fails(self.p, g)
        # running out of memory while taking things back is not considered
        return f.name not in DROP and not any(f.nodes[a]['k'] == 'catch' for a in f.ancestors(i))

    def is_part(self, env, i):
        n = env.fn.nodes[i]
        if n['k'] != 'call' or not n.get('q', '').startswith('alaya::') or bname(n) not in STORE + DROP:
            return None
        r = receiver(env, i)
        if r is None or n['q'].startswith(('alaya::JobContext', self.f.q.rsplit('::', 1)[0] + '::')):
            return None
        return r

    def descend(self, F, env, i, g):
        if g.d.get('lambda'):
            return True
        if g.file.startswith('/usr') or '/third_party/' in g.file or self.is_part(env, i):
            return False
        n = env.fn.nodes[i]
        return (g.q.rsplit('::', 1)[0] == self.f.q.rsplit('::', 1)[0]) and ('obj' not in n or env.fn.nodes[strip(env.fn, n['obj'])]['k'] == 'this')

    def holders(self, env, i):
        f = env.fn
        ks = {canon(env, i)}
        par = f.parent()
        c, a = i, par.get(i)
        while a is not None and f.nodes[a]['k'] == 'cast':
            c, a = a, par.get(a)
        if a is not None:
            m = f.nodes[a]
            if m['k'] == 'decl':
                for v in m['vs']:
                    if v.get('init') == c:
                        ks.add(('v', 'L:%s#%s@%s' % (v['n'], f.vars[str(v['d'])]['l'], f.name)))
            elif m['k'] == 'asg' and m['r'] == c:
                ks.add(canon(env, m['e'], subst=False))
        return frozenset(ks)

    def vertex(self, env, i, u):
        """the id enters the set of removed vertices"""
        n = env.fn.nodes[i]
        if n['k'] == 'call' and bname(n) in ('insert', 'emplace') and 'obj' in n and n['q'].startswith('std::'):
            t = [x for x in subterms(canon(env, n['obj'])) if isinstance(x, tuple) and x[0] == 'v' and x[1].rsplit('.', 1)[-1] == 'removed_vertices_']
            if t:
                return [('ok', u | {('gone', 'removed_vertices_')}, None)]
        return None

    def call(self, F, env, i, u):
        r = self.is_part(env, i)
        if r is None:
            return self.vertex(env, i, u)
        n = env.fn.nodes[i]
        at = env.fn.at(i)
        if bname(n) in STORE:
            ids = self.holders(env, i)
            if r == 'this.scalar_storage_' or env.fn.nodes[i].get('t') == 'bool':
                ids = ids | (frozenset([canon(env, n['a'][0])]) if n['a'] else frozenset())
            self.sites[at] = r
            fact = ('part', r, ids, at)
            return [('ok', u | {fact}, None), ('exc', u, None)]
        self.sites[at] = r
        a = canon(env, n['a'][0]) if n['a'] else None
        ids = set()
        for x in u:
            if x[0] == 'part':
                ids |= x[2]
        mine = [x for x in u if x[0] == 'part' and x[1] == r]
        if mine and a is not None and a not in ids and not (set(subterms(a)) & ids) and a[0] in ('lit', 'enum'):
            self.probs.setdefault(at, 'the removal that should take back a stored part names %s instead of the id it was stored under' % show(a))
            return None
        w = frozenset(x for x in u if not (x[0] == 'part' and x[1] == r)) | {('gone', r)}
        if mine:
            return [('ok', w, None)]
        return [('ok', w, None), ('exc', u, None)]

    def branch(self, F, env, cond, pol, u):
        for c, p in atoms(env, cond, pol):
            c = deref(c)
            for x in list(u):
                if x[0] != 'part':
                    continue
                if c in x[2] and not p:
                    u = u - {x}
                elif c[0] == 'bin' and c[1] in ('==', '!='):
                    for a, b in ((c[2], c[3]), (c[3], c[2])):
                        if deref(a) in x[2] and minus_one(b) and (c[1] == '==') == p:
                            u = u - {x}
                        elif deref(a) in x[2] and deref(b) == ('lit', 'false') and (c[1] == '==') == p:
                            u = u - {x}
            if c[0] == 'call' and c[1].rsplit('::', 1)[-1] in DROP and c[2] and not p:
                # nothing was removed
                u = frozenset(x for x in u if not (x[0] == 'gone' and ('v', x[1]) in subterms(c[2])))
        return u

    def after(self, F, env, i, u, kind, rv):
        g = self.p.get(env.fn.nodes[i].get('f'))
        if kind == 'ok' and g is not None and g.d.get('rt') != 'void':
            ids = self.holders(env, i)
            for x in list(u):
                if x[0] == 'part' and x[3].endswith('(%s)' % g.q):
                    u = (u - {x}) | {(x[0], x[1], x[2] | ids, x[3])}
        return u

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'ret' and f is self.f and (n.get('e') if n.get('e') is not None else -1) >= 0 and minus_one(canon(env, n['e'])):
            u = u | {('none',)}
        if n['k'] in ('un', 'asg', 'bin') and f.q.rsplit('::', 1)[0] == self.f.q.rsplit('::', 1)[0]:
            t = path(env, n['e']) if n.get('e') is not None else ''
            if n['k'] == 'un' and n['op'] in ('++', '--') and t.startswith('this.'):
                u = (u - {('count', t)}) | ({('count', t)} if n['op'] == '++' else frozenset())
            elif n['k'] == 'asg' and n['op'] in ('+=', '-=') and t.startswith('this.'):
                u = (u - {('count', t)}) | ({('count', t)} if n['op'] == '+=' else frozenset())
            elif n['k'] == 'asg' and n['op'] == '=' and t.startswith('this.'):
                s = canon(env, n['r'])
                if s[0] == 'bin' and s[1] == '+' and ('v', t) in s[2:]:
                    u = u | {('count', t)}
        return u


def counter(p, cls):
    """members returned by the accessor for the number of ids in use"""
    out = set()
    for f in p.fns.values():
        if f.q == cls + '::get_data_num':
            s = single_return(f)
            if s is not None:
                t = canon(Env(f), s)
                out |= {x[1] for x in subterms(t) if x[0] == 'v' and x[1].startswith('this.')}
    return out


class Upsert(Hooks):
    """u: ('pre', var) local set before the removal; ('removed', at)"""

    def __init__(self, f):
        self.f = f
        self.cls = f.q.rsplit('::', 1)[0]
        self.sites = {}
        self.rem = self.ins = 0

    def throws(self, F, env, i, u):
        n = env.fn.nodes[i]
        if nothrow_call(n) or n.get('q', '').startswith(LOGS):
            return False
        # inside a handler only the operations of the index count, not what formats a message
        t = n.get('q', '')
        return t.startswith('alaya::') and not bname(n).startswith(('log', 'get_', 'what'))

    def descend(self, F, env, i, g):
        return bool(g.d.get('lambda')) or g.q.startswith(self.cls + '::') and not bname(env.fn.nodes[i]).startswith(('insert', 'remove', 'copy', 'contains', 'get'))

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'decl' and not any(x[0] == 'removed' for x in u):
            for v in n['vs']:
                u = u | {('pre', v['n'])}
        return u

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        b = bname(n)
        if not n.get('q', '').startswith('alaya::'):
            return None
        root = f.nodes[strip(f, n['obj'])]['k'] if 'obj' in n else 'this'
        r = receiver(env, i) if 'obj' in n else None
        if not (root == 'this' or r is not None):
            return None
        if b.startswith('remove') and (root == 'this' or 'job' in str(r)):
            self.sites[f.at(i)] = 1
            self.rem += 1
            return [('ok', u | {('removed', f.at(i))}, None), ('exc', u, None)]
        if b.startswith('insert') and (root == 'this' or 'job' in str(r)):
            self.ins += 1
            names = [f.nodes[y].get('n') for a in n['a'] for y in f.walk(a) if f.nodes[y]['k'] == 'ref' and not f.nodes[y].get('isfn')]
            params = {f.vars[str(d)]['n'] for d in f.params}
            old = len(n['a']) >= 2 and all(any(('pre', f.nodes[y].get('n')) in u for y in f.walk(a) if f.nodes[y]['k'] == 'ref') for a in (n['a'][0], n['a'][-1])) and not any(('pre', m) not in u and m not in params for m in names)
            w = frozenset(x for x in u if x[0] != 'removed')
            if old:
                return [('ok', w, None), ('exc', w, None)]
            return [('ok', w, None), ('exc', u, None)]
        return None


def run(R):
    R.rule('undo', 'when an operation that stores the parts of a record fails (by an exception or by returning "no id"), every part it stored was taken back from the same store', 10)
    R.rule('id-stays-used', 'an insertion that stored a vector counts its id on every way out, and no failure path gives an id back to the count', 3)
    R.rule('upsert-restores', 'after the replaced record was removed, an upsert either inserts the new record or tries to insert the old one, saved before the removal, before it reports the failure', 1)
    R.rule('removal-complete', 'a removal that returns normally has removed the record from every part, and none of the parts is gone when it fails', 8)
    R.rule('validity', 'a store marks an id valid when it is handed out and invalid when it is removed, in the bit that its validity test reads', 3)
    p = R.program('space', 'py')
    cnt = {c: counter(p, c) for c in SPACES}
    seen = set()
    agg = {}

    def ob(rule, ok, at, msg, key):
        agg.setdefault((rule, at, key), []).append((ok, msg))

    for f in p.fns.values():
        cls = f.q.rsplit('::', 1)[0]
        if f.body is None or f.d.get('lambda') or f.implicit if hasattr(f, 'implicit') else False:
            continue
        if cls in SPACES or cls == JOB:
            name = f.name
            if name.startswith(STORE):
                seen.add(f.q)
                R.saw([f])
                H = Parts(p, f)
                F = Flow(p, H)
                res = F.run(f, frozenset())
                R.points += F.points
                leak = {}
                for kd, u, rv in res:
                    if kd == 'exc' or ('none',) in u:
                        for x in u:
                            if x[0] == 'part':
                                leak[x[3]] = x[1]
                    back = [x[1] for x in u if x[0] == 'gone'] if kd == 'ok' and ('none',) not in u else []
                    ob('undo', not back, f.at(), 'a path that took back what was stored in %s returns normally, as if the record had been inserted' % (back[0][5:] if back else ''), f.q + ':swallowed')
                    if cls in SPACES and cnt[cls]:
                        st = [x for x in u if x[0] in ('part', 'gone') and x[1] != 'this.scalar_storage_']
                        if st and not any(x[0] == 'count' and x[1] in cnt[cls] for x in u):
                            ob('id-stays-used', False, f.at(), 'a way out of %s (%s) leaves the id that was handed out uncounted' % (f.q, 'failure' if kd == 'exc' else 'normal'), f.q)
                        elif st:
                            ob('id-stays-used', True, f.at(), '', f.q)
                for at, r in H.sites.items():
                    if at in H.probs:
                        ob('undo', False, at, H.probs[at], '%s:%s' % (f.q, r))
                    elif at in leak:
                        ob('undo', False, at, 'what is stored here in %s is still there when %s fails later' % (r[5:], f.q), '%s:%s' % (f.q, r))
                    else:
                        ob('undo', True, at, '', '%s:%s' % (f.q, r))
            elif name == 'remove':
                seen.add(f.q)
                R.saw([f])
                H = Parts(p, f)
                F = Flow(p, H)
                res = F.run(f, frozenset())
                R.points += F.points
                if not any(k == 'ok' for k, u, rv in res):
                    continue
                need = ['this.data_storage_'] if cls in SPACES else ['this.graph_', 'this.space_', 'removed_vertices_'] + (['this.build_space_'] if split(f) else [])
                for kd, u, rv in res:
                    gone = {x[1] for x in u if x[0] == 'gone'}
                    if kd == 'ok':
                        for r in need:
                            ob('removal-complete', r in gone, f.at(), 'on a normal way out the record is still in %s' % r.replace('this.', ''), '%s:%s' % (f.q, r))
                scal(p, f, cls, need, ob)
        elif f.name.startswith('upsert') and cls == 'alaya::PyIndex':
            H = Upsert(f)
            F = Flow(p, H)
            res = F.run(f, frozenset())
            if not H.rem:
                continue
            seen.add(f.q)
            R.saw([f])
            R.points += F.points
            lost = [x for kd, u, rv in res for x in u if x[0] == 'removed']
            ob('upsert-restores', not lost, f.at(), 'the replaced record was removed (%s) and is not put back on a failing path' % (lost[0][1] if lost else ''), f.q)
    storage(R, p, ob)
    for (rule, at, key), rs in sorted(agg.items()):
        bad = [m for ok, m in rs if not ok]
        R.ob(rule, not bad, at, bad[0] if bad else '', key=key)
    R.assume('taking back a part that was stored successfully does not itself fail', 'the space used only for building carries no scalar records, so removing a vector from it cannot fail', 'a failed store leaves nothing behind in the part it failed in')
    return __doc__


class Order(Parts):
    """removals whose failure is an explicit throw, after another part is already gone"""

    def call(self, F, env, i, u):
        r = self.is_part(env, i)
        if r is None or bname(env.fn.nodes[i]) not in DROP:
            return None
        w = u | {('gone', r)}
        g = self.p.get(env.fn.nodes[i].get('f'))
        if g is not None and r != 'this.build_space_' and fails(self.p, g):
            return [('ok', w, None), ('exc', u, None)]
        return [('ok', w, None)]

    def throws(self, F, env, i, u):
        return False


def fails(p, g, depth=0, seen=None):
    """the function can end in an exception of its own"""
    seen = seen or set()
    if g.id in seen or depth > 4:
        return False
    seen.add(g.id)
    for x in g.walk():
        n = g.nodes[x]
        if n['k'] == 'throw':
            # a removal that never returns is not a removal
            return any(g.nodes[y]['k'] == 'ret' for y in g.walk()) or g.d.get('rt') == 'void'
        if n['k'] == 'call':
            h = p.get(n.get('f'))
            if h is not None and h.q.startswith('alaya::') and fails(p, h, depth + 1, seen):
                return True
    return False


def scal(p, f, cls, need, ob):
    H = Order(p, f)
    F = Flow(p, H)
    bad = None
    for kd, u, rv in F.run(f, frozenset()):
        g = [x[1] for x in u if x[0] == 'gone']
        if kd == 'exc' and g:
            bad = g[0]
    ob('removal-complete', bad is None, f.at(), 'the removal can fail after the record is already gone from %s' % (bad or '').replace('this.', ''), f.q + ':order')
    if cls in SPACES:
        # a store of scalar records is asked to remove the record whenever there is one
        env = Env(f)
        ok = False
        has = any(c.get('full', '').startswith(cls) for c in [])
        F2 = Flow(p, Scal(p, f))
        for kd, u, rv in F2.run(f, frozenset()):
            if kd == 'ok' and ('null',) not in u and ('scalar',) not in u and ('hasscalar',) in u:
                ob('removal-complete', False, f.at(), 'on a normal way out the scalar record was not removed although there is a scalar store', f.q + ':scalar')
            elif kd == 'ok':
                ob('removal-complete', True, f.at(), '', f.q + ':scalar')


class Scal(Parts):
    def enter(self, F, env, u):
        # instantiations without scalar data discard the removal at compile time
        return u | {('hasscalar',)} if 'ScalarData' in self.f.id.split('::' + self.f.name, 1)[0] and 'EmptyScalarData' not in self.f.id else u

    def call(self, F, env, i, u):
        r = self.is_part(env, i)
        if r and 'scalar' in r and bname(env.fn.nodes[i]) in DROP:
            return [('ok', u | {('scalar',)}, None)]
        return [('ok', u, None)] if r else None

    def branch(self, F, env, cond, pol, u):
        for c, p in atoms(env, cond, pol):
            if null_atom(c, p, 'this.scalar_storage_'):
                u = u | {('null',)}
        return u

    def throws(self, F, env, i, u):
        return False


def storage(R, p, ob):
    """insert/reserve set, remove clears, is_valid reads the same bit"""
    for f in p.fns.values():
        if f.q != 'alaya::SequentialStorage::is_valid' or f.body is None:
            continue
        R.saw([f])
        s = single_return(f)
        pre = f.id.split('::is_valid', 1)[0]
        if s is None:
            R.notes.append('%s: validity test is not a single expression: not analysed' % f.q)
            continue
        t = canon(Env(f), s)
        par = 'P:%s' % f.vars[str(f.params[0])]['n']
        rd = [x for x in subterms(t) if x[0] == 'idx']
        if not rd:
            R.notes.append('%s: no indexed bitmap in the validity test: not analysed' % f.q)
            continue
        word = norm(rd[0], par)
        for g in p.fns.values():
            if not g.id.startswith(pre + '::') or g.name not in ('insert', 'reserve', 'remove') or g.body is None:
                continue
            env = Env(g)
            for x in g.walk():
                n = g.nodes[x]
                if n['k'] == 'asg' and n['op'] in ('|=', '&=', '='):
                    w = canon(env, n['e'])
                    if w[0] != 'idx' or w[1] != rd[0][1]:
                        continue
                    val = canon(env, n['r'])
                    idv = ids(w)
                    ok = any(norm(w, v) == word for v in idv)
                    sets = n['op'] == '|=' or n['op'] == '=' and any(y[0] == 'bin' and y[1] == '|' for y in subterms(val))
                    ob('validity', ok and sets == (g.name != 'remove'), g.at(x), 'the bit changed here is not the one the validity test reads, or it is changed the wrong way' if not ok else 'the validity bit is changed the wrong way', g.q)


def ids(t):
    return {x[1] for x in subterms(t) if x[0] == 'v'}


def norm(t, v):
    if t == ('v', v):
        return ('id',)
    if isinstance(t, tuple):
        return tuple(norm(x, v) if isinstance(x, tuple) else x for x in t)
    return t
