"""C07: typestate of the collection lock: open without following links -> fstat regular -> exclusive non-blocking lock checked -> inode revalidated, before any other file of the collection is touched; lock held by an owning object to the end."""
import os
from checks.publish import *

O = {k: getattr(os, k) for k in ('O_NOFOLLOW', 'O_CLOEXEC', 'O_TRUNC', 'O_EXCL', 'O_CREAT')}
S_IFMT, S_IFREG = 0o170000, 0o100000
LOCK_EX, LOCK_NB = 2, 4


def values(t):
    """set of (int value, condition atoms) a canonical integer expression can take, or None"""
    if t[0] == 'lit':
        try:
            return [(int(t[1]), ())]
        except ValueError:
            return None
    if t[0] == 'bin' and t[1] in ('|', '+', '&'):
        a, b = values(t[2]), values(t[3])
        if a is None or b is None:
            return None
        return [((x | y) if t[1] != '&' else x & y, p + q) for x, p in a for y, q in b]
    if t[0] == 'cond':
        a, b = values(t[2]), values(t[3])
        if a is None or b is None:
            return None
        return [(x, p + ((show(t[1]), True),)) for x, p in a] + [(x, p + ((show(t[1]), False),)) for x, p in b]
    if t[0] == 'un' and t[1] == '~':
        a = values(t[2])
        return None if a is None else [(~x, p) for x, p in a]
    return None


def zero_ok(c, p, name):
    """atom says that the call `name` returned 0; returns its canonical call term"""
    if c[0] == 'bin' and c[1] in ('==', '>=', '<', '!='):
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if a[0] == 'call' and a[1].lstrip(':') == name and b == ('lit', '0'):
                if (c[1] in ('==', '>=') and p and (c[1] == '==' or a == c[2])) or (c[1] in ('!=', '<') and not p):
                    return a
    return None


def islock(P):
    return P[0] == 'join' and any(x == ('str', '.lock') for x in P[1:])


def lock_removers(p):
    """functions that remove or rename the lock file, and their callers"""
    if hasattr(p, '_lockrm'):
        return p._lockrm
    hot, rev = set(), {}
    for f in p.fns.values():
        env = Env(f)
        for x in f.calls():
            n = f.nodes[x]
            if n.get('f'):
                rev.setdefault(n['f'], set()).add(f.id)
            if n['k'] == 'call' and n.get('q', '').lstrip(':') in ('std::filesystem::remove', 'unlink', 'std::filesystem::rename', 'rename', 'std::filesystem::remove_all') and n['a'] and \
                    any(s == ('str', '.lock') for a in n['a'] for s in subterms(canon(env, a))):
                hot.add(f.id)
        for n in f.nodes:
            if n['k'] == 'lam' and n.get('f'):
                rev.setdefault(n['f'], set()).add(f.id)
    st = list(hot)
    while st:
        for y in rev.get(st.pop(), ()):
            if y not in hot:
                hot.add(y)
                st.append(y)
    p._lockrm = hot
    return hot


class Lock(Hooks):
    def __init__(self, p):
        self.p = p
        self.hot = io_reach(p) | reaches(p, ('flock', 'open', 'close', 'stat', 'lstat', 'fstat', 'directory_iterator', 'recursive_directory_iterator'))
        self.hot |= {f.id for f in p.fns.values() if any('ifstream' in n.get('cls', '') or 'directory_iterator' in n.get('cls', '') for n in f.nodes if n['k'] == 'ctor')}
        rev = {}
        for f in p.fns.values():
            for n in f.nodes:
                if n['k'] in ('call', 'ctor') and n.get('f'):
                    rev.setdefault(n['f'], set()).add(f.id)
                elif n['k'] == 'lam' and n.get('f'):
                    rev.setdefault(n['f'], set()).add(f.id)
        st = list(self.hot)
        while st:
            for y in rev.get(st.pop(), ()):
                if y not in self.hot:
                    self.hot.add(y)
                    st.append(y)
        self.owners = {f.cls for f in p.fns.values() if f.d.get('dtor') and f.cls and any(bname(n) == 'close' for g in p.reach([f]) for n in g.nodes if n['k'] == 'call')}
        self.lockrm = lock_removers(p)
        self.probs = []
        self.ev = {}
        self.root = None

    def bad(self, F, env, i, kind, msg):
        self.probs.append((kind, env.fn.at(i), msg, F.trace()))

    def seen(self, kind, env, i):
        self.ev.setdefault(kind, {})[(env.fn.id, i)] = env.fn.at(i)

    def owner(self, t):
        t = t.replace('const ', '').strip()
        return any(t == g or g.endswith('::' + t) or t.endswith('::' + g.rsplit('::', 1)[-1]) for g in self.owners)

    def descend(self, F, env, i, g):
        return g.id in self.hot and not g.file.startswith('/usr') and len(self.probs) < 4

    def throws(self, F, env, i, u):
        n = env.fn.nodes[i]
        return not nothrow_call(n) and n.get('q', '') not in ('open', 'fstat', 'stat', 'flock', 'close', '__errno_location')

    def has(self, u, k):
        return any(x[0] == k for x in u)

    def touch(self, F, env, i, u, what):
        """the collection's state is read or changed here"""
        self.seen('touch', env, i)
        if not self.has(u, 'locked'):
            self.bad(F, env, i, 'unlocked', '%s before the collection lock is held' % what)
        elif not self.has(u, 'reval'):
            self.bad(F, env, i, 'unrevalidated', '%s before the locked file was compared with the one at the path' % what)

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = n.get('q', '').lstrip(':')
        if self.has(u, 'reval') and self.p.get(n.get('f')) is not None and self.p.get(n['f']).id not in self.lockrm:
            # nothing left to decide below: the lock is held, and no function below removes the lock file
            self.seen('touch', env, i)
            return [('ok', u, None), ('exc', u, None)]
        if n['k'] == 'ctor':
            c = n.get('cls', '')
            if c in self.owners and n['a'] and not n.get('copy') and not n.get('move'):
                return [('ok', frozenset(x for x in u if x[0] != 'raw'), None)]
            if 'directory_iterator' in c and n['a']:
                self.touch(F, env, i, u, 'a directory of the collection is listed')
                return [('ok', u, None), ('exc', u, None)]
            if 'fstream' in c and n['a']:
                self.touch(F, env, i, u, 'a file of the collection is opened')
                return [('ok', u, None), ('exc', u, None)]
            return None
        if q in ('open', 'openat'):
            P = pathkey(env, n['a'][0 if q == 'open' else 1])
            if islock(P):
                self.seen('open', env, i)
                fl = canon(env, n['a'][1 if q == 'open' else 2])
                vs = values(fl)
                if vs is None:
                    self.bad(F, env, i, 'flags', 'the flags of the lock file cannot be determined: %s' % show(fl))
                    vs = []
                for v, cond in vs:
                    if not v & O['O_NOFOLLOW']:
                        self.bad(F, env, i, 'follow', 'the lock file is opened without O_NOFOLLOW')
                    if v & O['O_TRUNC']:
                        self.bad(F, env, i, 'trunc', 'the lock file is truncated before the lock is held')
                    if not v & O['O_CLOEXEC']:
                        self.bad(F, env, i, 'cloexec', 'the lock descriptor is inherited by child processes (no O_CLOEXEC), which would keep the lock')
                excl = [set(c) for v, c in vs if v & O['O_EXCL']]
                self.excl = excl
                return [('ok', u | {('raw',), ('lockfile', P), ('fdcall', canon(env, i))}, None)]
            self.touch(F, env, i, u, 'a file of the collection is opened')
            return [('ok', u, None)]
        if q == 'flock':
            v = values(canon(env, n['a'][1]))
            self.seen('flock', env, i)
            if not v or any(not x & LOCK_EX for x, _ in v):
                self.bad(F, env, i, 'shared', 'the collection lock is not exclusive')
            if not v or any(not x & LOCK_NB for x, _ in v):
                self.bad(F, env, i, 'blocking', 'the collection lock waits for the other owner instead of failing')
            if not self.has(u, 'fstat') or not self.has(u, 'reg'):
                self.bad(F, env, i, 'irregular', 'the file is locked before it was verified to be a regular file')
            if self.has(u, 'raw'):
                self.bad(F, env, i, 'raw', 'the descriptor is not owned by an object that closes it')
            return [('ok', u | {('tried',)}, None)]
        if q == 'close' and n['a']:
            return [('ok', frozenset(x for x in u if x[0] != 'raw'), None)]
        if q in ('std::filesystem::remove', 'unlink', 'std::filesystem::rename', 'rename', 'std::filesystem::remove_all') and n['a']:
            P = pathkey(env, n['a'][0])
            if islock(P):
                self.seen('remove', env, i)
                if self.has(u, 'tried'):
                    self.bad(F, env, i, 'unlink', 'the lock file is removed after the lock was attempted: another owner may hold it')
                elif not any(all(('cond', a, b) in u for a, b in e) for e in getattr(self, 'excl', [])):
                    self.bad(F, env, i, 'unlink-shared', 'the lock file is removed although it may not have been created by this call (no O_EXCL)')
            elif q.endswith('remove_all') or 'rename' in q:
                self.touch(F, env, i, u, 'a file of the collection is %s' % ('renamed' if 'rename' in q else 'deleted'))
            return [('ok', u, None)]
        if q in MKDIR and n['a']:
            P = pathkey(env, n['a'][0])
            if P[0] == 'join':
                self.touch(F, env, i, u, 'a directory of the collection is created')
            return [('ok', u, None)]
        return None

    def branch(self, F, env, cond, pol, u):
        f = env.fn
        for c, p in atoms(env, cond, pol):
            u = u | {('cond', show(c), p)} if not self.has(u, 'locked') and c[0] == 'bin' and any(s[0] == 'enum' for s in subterms(c)) else u
            if c[0] == 'bin' and c[1] in ('<', '>=', '==', '!=') and c[2][0] == 'call' and c[2][1].lstrip(':') == 'open' and c[3] in (('lit', '0'), ('lit', '-1')):
                if {'<': p, '>=': not p, '==': p, '!=': not p}[c[1]]:
                    u = frozenset(x for x in u if x[0] != 'raw')
            t = zero_ok(c, p, 'flock')
            if t:
                u = u | {('locked',)}
            t = zero_ok(c, p, 'fstat')
            if t and len(t) > 4:
                u = u | {('fstat', bufname(t[4]))}
            t = zero_ok(c, p, 'stat') or zero_ok(c, p, 'lstat')
            if t and len(t) > 4 and self.has(u, 'locked'):
                P = strip_path(t[3])
                if any(x[0] == 'lockfile' and x[1] == norm_path(P) for x in u):
                    u = u | {('restat', bufname(t[4]))}
            if c[0] == 'bin' and c[1] in ('==', '!='):
                s = str(c)
                if (c[1] == '==') == p:
                    if 'st_mode' in s and str(S_IFREG) in s and any(x[0] == 'fstat' for x in u):
                        u = u | {('reg',)}
                    for fld in ('st_ino', 'st_dev'):
                        bs = [bufname(x) for x in c[2:] if x[0] == 'v' and x[1].endswith('.' + fld)]
                        if len(bs) == 2 and any(('fstat', y[:-len(fld) - 1]) in u for y in bs) and any(('restat', y[:-len(fld) - 1]) in u for y in bs):
                            u = u | {(fld,)}
                            if self.has(u, 'st_ino') and self.has(u, 'st_dev'):
                                u = u | {('reval',)}
        return u


def bufname(t):
    if t[0] == 'addr':
        t = t[1]
    return t[1] if t[0] == 'v' else show(t)


def run(R):
    R.rule('lock-open', 'the lock file is opened with O_NOFOLLOW and O_CLOEXEC and without O_TRUNC in every mode', 1)
    R.rule('lock-order', 'fstat success and S_ISREG precede flock; flock is exclusive and non-blocking; the descriptor is owned before anything can fail', 1)
    R.rule('lock-held', 'every function that acquires the lock returns normally only after flock succeeded and device and inode of the path were compared with the locked file', 1)
    R.rule('lock-first', 'the constructor and open() touch no other file of the collection before the lock is held and revalidated', 3)
    R.rule('lock-file-kept', 'the lock file is removed only before the lock was attempted and only if this call created it', 1)
    R.rule('lock-owner', 'the lock is stored in a member of the collection, which nothing but construction, opening and moving assigns, releases or closes', 1)
    R.rule('owner-closes', 'the owning object closes its descriptor in its destructor and on reassignment, and a moved-from object no longer owns it', 2)
    p = R.program('disk')
    lockers = [f for f in p.fns.values() if any(n['k'] == 'call' and n.get('q', '').lstrip(':') == 'flock' for n in f.nodes) and f.rel().startswith('include/')]
    if not lockers:
        R.bad('lock-held', 'include/index/disk', 'no function acquires an exclusive lock', key='nolock')
    # acquire functions: everything from which flock is reached and that returns the owner
    H0 = Lock(p)
    acq = [f for f in p.fns.values() if f.id in reaches(p, ('flock',)) and H0.owner(f.d['rt'])]
    fnids = set()
    for f in acq:
        H = Lock(p)
        F = Flow(p, H)
        res = F.run(f, frozenset())
        R.saw([p.fns[x] for x in F.visited])
        R.points += F.points
        for k, u, r in res:
            if k == 'ok':
                R.ob('lock-held', H.has(u, 'locked') and H.has(u, 'reval') and H.has(u, 'reg'), f.at(), 'returns the lock without %s' % ', '.join(t for s, t in (('locked', 'a successful flock'), ('reg', 'a regular-file check'), ('reval', 'comparing inode and device with the path')) if not H.has(u, s)), key='held:' + f.name)
            else:
                R.ob('lock-order', not H.has(u, 'raw'), f.at(), 'an exception leaves the lock descriptor open', key='leak:' + f.name)
        rules(R, H)
    # entry points
    cols = {f.cls for f in p.fns.values() if f.cls and f.id in reaches(p, ('flock',)) and not f.d.get('lambda')}
    ents = [f for f in p.fns.values() if f.cls in cols and f.id in reaches(p, ('flock',)) and not f.d.get('lambda') and f.blocks and not f.d.get('implicit')]
    # helpers used only by other entry points are analysed inside them
    called = {n['f'] for f in ents for n in f.nodes if n['k'] in ('call', 'ctor') and n.get('f')}
    for f in ents:
        if f.id in called and f.d.get('acc') != 'public':
            continue
        H = Lock(p)
        F = Flow(p, H)
        res = F.run(f, frozenset())
        R.saw([p.fns[x] for x in F.visited])
        R.points += F.points
        for a in H.ev.get('touch', {}).values():
            if not any(k in ('unlocked', 'unrevalidated') for k, *_ in H.probs):
                R.good('lock-first', a)
        rules(R, H)
        for k, u, r in res:
            if k == 'ok':
                R.ob('lock-first', H.has(u, 'locked'), f.at(), 'can return a collection without holding its lock', key='return:' + f.name)
        # the acquired lock must land in a member
        for x in f.calls():
            n = f.nodes[x]
            g = p.get(n.get('f'))
            if n['k'] == 'call' and g in acq:
                par = f.parent().get(x)
                ok = False
                for a in f.ancestors(x):
                    na = f.nodes[a]
                    if na['k'] == 'asg' or na['k'] == 'call' and na.get('op') == '=':
                        t = na['e'] if na['k'] == 'asg' else na['obj']
                        ok = f.nodes[t]['k'] == 'mem'
                        break
                    if na['k'] in ('decl',):
                        # a local that is moved into a member afterwards
                        ds = {v['d'] for v in na['vs']}
                        for y in f.walk():
                            ny = f.nodes[y]
                            if (ny['k'] == 'call' and ny.get('op') == '=' and f.nodes[ny['obj']]['k'] == 'mem' and any(f.nodes[z].get('d') in ds for z in f.walk(ny['a'][0]))):
                                ok = True
                        break
                R.ob('lock-owner', ok, f.at(x), 'the acquired lock is not stored in the collection', key='store:' + f.name)
    # nothing else releases the member
    for c in cols:
        cl = p.classes.get(c)
        mem = [x['n'] for x in cl['fields'] if H0.owner(x['t'])] if cl else []
        R.ob('lock-owner', bool(mem), c, 'the collection has no member owning the lock', key='member')
        for f in p.methods(c.rsplit('::', 1)[-1]):
            if f.d.get('implicit') or f.d.get('defaulted'):
                continue
            for x in f.walk():
                n = f.nodes[x]
                t = None
                if n['k'] == 'call' and 'obj' in n and not n.get('cm') and f.nodes[n['obj']]['k'] == 'mem' and not (f in ents and n.get('op') == '='):
                    t = f.nodes[n['obj']]['n']
                elif n['k'] == 'call' and n.get('q') in ('std::move', 'std::exchange', 'std::swap') and n['a'] and f.nodes[n['a'][0]]['k'] == 'mem':
                    t = f.nodes[n['a'][0]]['n']
                elif n['k'] == 'call' and n.get('q', '').lstrip(':') in ('close', 'flock') and n['a']:
                    s = f.text(n['a'][0])
                    t = next((m for m in mem if m in s), None)
                if t in mem:
                    R.bad('lock-owner', f.at(x), 'the collection lock is released or replaced while the collection is in use', key='release:' + f.name)
    for c in {f.cls for f in p.fns.values() if f.cls and f.d.get('dtor') and f.cls in H0.owners and any(g.d['rt'].split('::')[-1] == f.cls.split('::')[-1] for g in acq)}:
        own(R, p, c)
    R.assume('flock(2) locks belong to the open file description and end when it is closed')
    return __doc__


def rules(R, H):
    m = {'flags': 'lock-open', 'follow': 'lock-open', 'trunc': 'lock-open', 'cloexec': 'lock-open', 'shared': 'lock-order', 'blocking': 'lock-order', 'irregular': 'lock-order', 'raw': 'lock-order',
         'unlink': 'lock-file-kept', 'unlink-shared': 'lock-file-kept', 'unlocked': 'lock-first', 'unrevalidated': 'lock-first'}
    bad = {m[k] for k, *_ in H.probs}
    for k, r in (('open', 'lock-open'), ('flock', 'lock-order'), ('remove', 'lock-file-kept')):
        if r not in bad:
            for a in H.ev.get(k, {}).values():
                R.good(r, a)
    for k, at, msg, tr in H.probs:
        R.bad(m[k], at, msg, key=k + ':' + at.split('(')[-1], detail=tr)


def own(R, p, c):
    cl = p.classes[c]
    fds = [x['n'] for x in cl['fields'] if x['t'] == 'int']
    ms = [f for f in p.fns.values() if f.cls == c and not f.d.get('implicit')]
    for f in ms:
        if f.d.get('dtor'):
            closes = closes_member(p, f, fds)
            R.ob('owner-closes', closes, f.at(), 'the destructor does not close the descriptor', key='dtor')
        mv = [v for v in f.vars.values() if v['k'] == 'param' and '&&' in v['t'] + str(v.get('rt', '')) + ('&&' if v.get('rref') else '')]
        if (f.d.get('ctor') or f.name == 'operator=') and len(f.params) == 1 and not f.d.get('defaulted'):
            pv = f.vars[str(f.params[0])]
            if pv['t'].split('::')[-1].replace('&&', '').strip() != c.split('::')[-1]:
                continue
            nulls = any(n['k'] == 'asg' and f.nodes[n['e']]['k'] == 'mem' and f.nodes[n['e']]['n'] in fds and f.nodes[f.nodes[n['e']]['b']].get('d') == f.params[0] for n in f.nodes) or \
                any(n['k'] == 'call' and n.get('q') in ('std::exchange', 'std::swap') for n in f.nodes)
            R.ob('owner-closes', nulls, f.at(), 'a moved-from lock object keeps the descriptor and closes it a second time', key='move:' + f.name)
            if f.name == 'operator=':
                R.ob('owner-closes', closes_member(p, f, fds) or any(n['k'] == 'call' and n.get('q') == 'std::swap' for n in f.nodes), f.at(), 'assigning over a lock object leaves its descriptor open', key='assign')


def closes_member(p, f, fds):
    for g in p.reach([f]):
        for x in g.calls():
            n = g.nodes[x]
            if n.get('q', '').lstrip(':') == 'close' and n['k'] == 'call' and len(n['a']) == 1:
                return True
    return False
