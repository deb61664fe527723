"""Publication protocol of pointer files, manifests, segment directories and snapshots (C04, C05, C06)."""
from vf.iostate import *
from vf.util import *

IOPRIM = re.compile(r'^(::)?(fsync|fdatasync|write|pwrite|open|openat|creat|rename|renameat|renameat2|syscall|truncate|ftruncate|unlink|sendfile)$|'
                    r'^std::filesystem::(rename|remove|remove_all|copy_file|copy|create_hard_link|resize_file|create_director(y|ies))$|'
                    r'^std::(rename|remove)$|ofstream|^std::basic_(o|f)')
MKDIR = ('std::filesystem::create_directory', 'std::filesystem::create_directories', 'mkdir')


def io_reach(p):
    """ids of functions from which a file-system changing primitive is reachable"""
    if hasattr(p, '_ioreach'):
        return p._ioreach
    hot = set()
    rev = {}
    for f in p.fns.values():
        for n in f.nodes:
            if n['k'] in ('call', 'ctor'):
                q = n.get('q', '') if n['k'] == 'call' else n.get('cls', '')
                if n.get('f') and p.get(n['f']):
                    rev.setdefault(n['f'], set()).add(f.id)
                elif IOPRIM.search(q):
                    hot.add(f.id)
            elif n['k'] == 'lam':
                for k in ([n['f']] if n.get('f') else n.get('gen', [])):
                    rev.setdefault(k, set()).add(f.id)
    st = list(hot)
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in hot:
                hot.add(y)
                st.append(y)
    p._ioreach = hot
    return hot


def reaches(p, names):
    """ids of functions from which a call named in `names` is reachable"""
    key = '_r' + ','.join(names)
    if hasattr(p, key):
        return getattr(p, key)
    hot, rev = set(), {}
    for f in p.fns.values():
        for n in f.nodes:
            if n['k'] == 'call':
                if n.get('f') and p.get(n['f']):
                    rev.setdefault(n['f'], set()).add(f.id)
                if n.get('q', '') in names or bname(n) in names:
                    hot.add(f.id)
            elif n['k'] == 'lam':
                for k in ([n['f']] if n.get('f') else n.get('gen', [])):
                    rev.setdefault(k, set()).add(f.id)
    st = list(hot)
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in hot:
                hot.add(y)
                st.append(y)
    setattr(p, key, hot)
    return hot


def under(P, D):
    """is path key P below directory key D"""
    k = P
    while True:
        if k[0] == 'join':
            k = k[1] if len(k) == 3 else k[:-1]
        elif k[0] == 'parent':
            return False
        else:
            return False
        if k == D:
            return True


def guard_classes(p):
    """classes whose destructor removes a file tree"""
    out = set()
    for f in p.fns.values():
        if f.d.get('dtor') and any(n['k'] == 'call' and n.get('q', '') in ('std::filesystem::remove_all', 'std::filesystem::remove') for n in f.nodes):
            out.add(f.cls)
    return out


class Pub(IOHooks):
    def __init__(self, p):
        super().__init__()
        self.p = p
        self.hot = io_reach(p)
        self.syncers = reaches(p, ('fsync', 'fdatasync'))
        self.guards = guard_classes(p)
        self.ev = {'rename': {}, 'dirrename': {}, 'write': {}, 'truncate': {}, 'remove': {}}
        self.probs = []

    def bad(self, F, env, i, kind, msg):
        self.probs.append((kind, env.fn.at(i) if i is not None else env.fn.at(), msg, F.trace()))

    def is_guard(self, t):
        t = t.replace('const ', '').strip()
        return any(t == g or g.endswith('::' + t) or t.endswith('::' + g.rsplit('::', 1)[-1]) for g in self.guards)

    def descend(self, F, env, i, g):
        return g.id in self.hot and not g.file.startswith('/usr')

    def throws(self, F, env, i, u):
        n = env.fn.nodes[i]
        if nothrow_call(n):
            return False
        return self.p.get(n.get('f')) is not None

    def tracks(self, t):
        return super().tracks(t) or self.is_guard(t)

    # ---- events
    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = n.get('q', '')
        if n['k'] == 'call' and q in MKDIR and n['a']:
            P = pathkey(env, n['a'][0])
            u = u | {('dirmade', P)}
            return [('ok', u, None)]
        if n['k'] == 'ctor' and 'recursive_directory_iterator' in n.get('cls', '') and n['a']:
            x = self.tree_sync(F, env, i)
            if x:
                return [('ok', u | {('tree', pathkey(env, n['a'][0]))}, None), ('exc', u, None)]
        if 'obj' in n and n['k'] == 'call' and not n.get('cm'):
            o = f.nodes[n['obj']]
            if o['k'] == 'ref' and self.is_guard(o.get('t', '')):
                S = path(env, n['obj'])
                return [('ok', frozenset(x for x in u if not (x[0] == 'guard' and x[1] == S)), None)]
        g = self.p.get(n.get('f'))
        if n['k'] == 'call' and g is not None and g.id in self.syncers:
            add = set()
            for a in n.get('a', []):
                if 'path' in f.nodes[a].get('t', ''):
                    add.add(('attempt', pathkey(env, a)))
            u = u | add
            res = super().call(F, env, i, u)
            if res is None and g.id in self.hot:
                return None if not add else self.descend_with(F, env, i, g, u)
            return res
        return super().call(F, env, i, u)

    def descend_with(self, F, env, i, g, u):
        return [(k, u2, r) for k, u2, r in F.run(g, u, child_env(env, i, g))]

    def tree_sync(self, F, env, i):
        """does the loop over recursive_directory_iterator at i sync every regular file it visits (result checked)"""
        f = env.fn
        loop = None
        for a in f.ancestors(i):
            if f.nodes[a]['k'] == 'loop':
                loop = a
                break
        if loop is None or f.nodes[loop].get('lk') not in ('range', 'for-range', 'rangefor') and 'range' not in f.nodes[loop]:
            return False
        body = f.nodes[loop]['body']
        base = None
        for x in f.walk(body):
            k = f.nodes[x]['k']
            if k in ('ret', 'goto') or k == 'other' and f.nodes[x].get('cls') in ('BreakStmt', 'ContinueStmt'):
                return False
        for x in f.walk(body):
            n = f.nodes[x]
            if n['k'] != 'call':
                continue
            g = self.p.get(n.get('f'))
            if g is None or g.id not in self.syncers or not n['a']:
                continue
            P = pathkey(env, n['a'][0])
            if not any(s[0] == 'call' and s[1].endswith('directory_entry::path') or s[0] == 'v' for s in subterms(P)):
                continue
            if not self.always_syncs(g):
                continue
            gs = guards(env, x, local=True)
            top = guards(env, self.first(f, body), local=True) if self.first(f, body) is not None else frozenset()
            extra = [a for a in gs if a not in top]
            if all(self.file_kind(c, p) for c, p in extra) and self.covers_regular(extra):
                return True
        return False

    @staticmethod
    def first(f, body):
        n = f.nodes[body]
        if n['k'] == 'block' and n['ss']:
            body = n['ss'][0]
            n = f.nodes[body]
        if n['k'] == 'if':
            return n['c']
        return body

    @staticmethod
    def file_kind(c, p):
        return c[0] == 'call' and c[1].rsplit('::', 1)[-1] in ('is_directory', 'is_regular_file', 'operator!=')

    @staticmethod
    def covers_regular(extra):
        d = {c[1].rsplit('::', 1)[-1]: p for c, p in extra}
        return d.get('is_directory', False) is False and d.get('is_regular_file', True) is True

    def always_syncs(self, g):
        if not hasattr(g, '_as'):
            H = IOHooks()
            F2 = Flow(self.p, H)
            res = F2.run(g, frozenset())
            oks = [u for k, u, r in res if k == 'ok']
            g._as = bool(oks) and all(any(x[0] == 'synced' for x in u) for u in oks)
        return g._as

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        u = super().elem(F, env, i, u)
        if n['k'] == 'decl':
            for v in n['vs']:
                if self.is_guard(v['t']) and 'init' in v and v['init'] >= 0:
                    c = f.nodes[v['init']]
                    if c['k'] == 'ctor' and c['a']:
                        S = 'L:%s#%s@%s' % (v['n'], f.vars[str(v['d'])]['l'], f.name)
                        u = u | {('guard', S, pathkey(env, c['a'][0]))}
        return u

    def dtor(self, F, env, d, t, u, exc):
        f = env.fn
        if self.is_guard(t):
            v = f.vars[str(d)]
            S = 'L:%s#%s@%s' % (v['n'], v['l'], f.name)
            for x in list(u):
                if x[0] == 'guard' and x[1] == S:
                    u = (u - {x}) | {('removed', x[2])}
            return u
        return super().dtor(F, env, d, t, u, exc)

    def on_open_write(self, F, env, i, P, u):
        self.ev['write'].setdefault((env.fn.at(i), show(P)), set())
        for x in u:
            if x[0] == 'ren' and (P == x[2] or under(P, x[2])):
                self.bad(F, env, i, 'write-after-publish', 'writes %s after it was published' % show(P))
        par = parent_of(P)
        # writing an existing name again invalidates what was known about it
        u = frozenset(x for x in u if not (x[0] in ('synced', 'unsync', 'lost') and len(x) > 1 and x[1] in (P, par)))
        return u | {('created', P)}

    def on_remove(self, F, env, i, P, u):
        self.ev['remove'].setdefault((env.fn.at(i), show(P)), set()).add(frozenset(u))
        return u | {('removed', P)}

    def on_truncate(self, F, env, i, P, u):
        return u

    def noreplace(self, env, i):
        n = env.fn.nodes[i]
        q = n.get('q', '')
        a = n['a']
        v = None
        if q == 'syscall' and len(a) > 5:
            v = self.intval(env, a[5])
        elif q == 'renameat2' and len(a) > 4:
            v = self.intval(env, a[4])
        return v is not None and bool(v & 1)

    def on_rename(self, F, env, i, frm, to, u):
        kids = [x[1] for x in u if x[0] == 'created' and under(x[1], frm)]
        isdir = ('dirmade', frm) in u or bool(kids)
        kind = 'dirrename' if isdir else 'rename'
        self.ev[kind].setdefault((show(frm), show(to)), []).append((env, i, F.trace(), u, frm, to))
        if not isdir:
            self.file_rename(F, env, i, frm, to, u)
        else:
            self.dir_rename(F, env, i, frm, to, u, kids)
        return frozenset(x for x in u if not (x[0] == 'synced' and x[1] == parent_of(to) or x[0] == 'attempt' and x[1] == parent_of(to) or x[0] == 'syncing' and x[1] == parent_of(to))) | {('ren', frm, to), ('need', parent_of(to), to)}

    def file_rename(self, F, env, i, frm, to, u):
        pass

    def dir_rename(self, F, env, i, frm, to, u, kids):
        pass

    @staticmethod
    def dirsynced(u, D, strict):
        if any(x[0] == 'synced' and x[1] == D for x in u):
            return True
        return not strict and any(x[0] in ('attempt', 'syncing') and x[1] == D for x in u)

    @staticmethod
    def durable(u, P):
        return any(x[0] == 'synced' and x[1] == P for x in u) and not IOHooks.pending(u, P)


def publishers(p, *roots):
    """public entry points, in files under roots, from which a rename is reachable; helpers used only by others are reached through them"""
    R = reaches(p, ('std::filesystem::rename', 'rename', 'renameat', 'renameat2', 'syscall'))
    out = []
    for f in p.fns.values():
        if f.id in R and f.rel().startswith(roots) and not f.d.get('lambda') and f.cls and f.d.get('acc') == 'public' and not f.d.get('implicit') and f.blocks:
            out.append(f)
    return out
