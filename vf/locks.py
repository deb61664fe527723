"""Lock sets: which locks are held at each program point (must / may), lock acquisition order, per-function summaries.

Locks are named by the declaration they belong to: a member mutex by class and field ('Cls::field', with '[]' for an
element of an array or vector of mutexes), a local or parameter by function and name."""
from .flow import Flow, Hooks
from .prog import Env, child_env, single_return
from .util import strip, bname

GUARDS = {'std::lock_guard': 'x', 'std::unique_lock': 'x', 'std::scoped_lock': 'x', 'std::shared_lock': 's'}
MUTEX_T = ('std::mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_timed_mutex')
LOCK_CALLS = {'lock': 'x', 'lock_shared': 's', 'try_lock': 't', 'try_lock_shared': 't', 'unlock': 'u', 'unlock_shared': 'u'}


def bare(t):
    t = t.replace('const ', '').strip(' &*')
    return t.split('<', 1)[0]


def user_guards(p):
    """own RAII guards: the destructor unlocks a member the constructor locked"""
    out = {}
    for f in p.fns.values():
        if f.d.get('dtor') and f.cls:
            for x in f.calls():
                n = f.nodes[x]
                if bname(n) in ('unlock', 'unlock_shared') and 'obj' in n and f.nodes[strip(f, n['obj'])]['k'] == 'mem':
                    for g in p.fns.values():
                        if g.cls == f.cls and g.d.get('ctor') and g.params:
                            for y in g.calls():
                                m = g.nodes[y]
                                if bname(m) in ('lock', 'lock_shared'):
                                    out[f.cls] = 's' if bname(m) == 'lock_shared' else 'x'
    return out


class Locks:
    def __init__(self, p):
        self.p = p
        self.guards = dict(GUARDS)
        self.guards.update(user_guards(p))
        self.held = {}       # (fn id, node) -> set of frozenset of (lock, mode)
        self.acq = {}        # fn id -> list of (node, lock, mode, held frozenset, instance)
        self.calls = {}      # fn id -> list of (node, callee ids, held must, held may)
        self.leaks = []      # (fn, node, lock): direct lock() not released on some way out
        self.retguard = {}
        self.fns = {}
        for f in p.fns.values():
            if f.blocks:
                self.fns[f.id] = f
        for f in self.fns.values():
            self.local(f)

    # ---- naming
    def mutexish(self, t):
        b = bare(t)
        return b in MUTEX_T or b.rsplit('::', 1)[-1] in ('SpinLock',)

    def name(self, env, i, depth=0):
        """(lock name, same-object hint) or None"""
        f = env.fn
        if depth > 20 or i is None or i < 0:
            return None
        i = strip(f, i)
        n = f.nodes[i]
        k = n['k']
        if k == 'mem':
            b = f.nodes[strip(f, n['b'])]
            return (n['q'], 'this' if b['k'] == 'this' else '')
        if k == 'idx':
            r = self.name(env, n['b'], depth + 1)
            return r and (r[0] + '[]', '')
        if k == 'un' and n['op'] in ('*', '&'):
            return self.name(env, n['e'], depth + 1)
        if k == 'call':
            if 'obj' in n and (n.get('op') in ('[]', '->', '*') or bname(n) in ('at', 'get', 'operator[]', 'operator*', 'operator->', 'data')):
                r = self.name(env, n['obj'], depth + 1)
                return r and (r[0] + ('[]' if n.get('op') == '[]' or bname(n) in ('at', 'operator[]') else ''), '' if n.get('op') == '[]' else r[1])
            if n.get('q') in ('std::move', 'std::forward', 'std::ref') and n['a']:
                return self.name(env, n['a'][0], depth + 1)
            g = self.p.get(n.get('f'))
            if g is not None:
                r = single_return(g)
                if r is not None:
                    return self.name(child_env(env, i, g), r, depth + 1)
                rets = [x for x in g.walk() if g.nodes[x]['k'] == 'ret' and 'e' in g.nodes[x]]
                if len(rets) == 1:
                    return self.name(child_env(env, i, g), g.nodes[rets[0]]['e'], depth + 1)
            return (n.get('q', '?') + '()', '')
        if k == 'cond':
            a, b = self.name(env, n['a1'], depth + 1), self.name(env, n['a2'], depth + 1)
            return a or b
        if k == 'ref' and 'd' in n:
            v = f.vars[str(n['d'])]
            if v['k'] == 'local':
                if self.mutexish(v['t']) and not v.get('ref') and not v['t'].rstrip().endswith(('&', '*')):
                    return ('%s#%s' % (v['n'], v['l']), 'this')
                sd = f.single_def(n['d'], ignore=('addr', 'cap'))
                if sd is not None and sd != i:
                    r = self.name(env, sd, depth + 1)
                    if r:
                        return r
                return ('%s::%s#%s' % (f.name, v['n'], v['l']), 'this')
            if v['k'] == 'outer':
                return ('%s#%s' % (v['n'], v['l']), 'this')
            if v['k'] == 'param':
                return ('P:%s::%s' % (f.name, v['n']), 'this')
            if v['k'] in ('global', 'static', 'sfield'):
                return ('G:' + v['q'], 'this')
        return None

    def guard_of(self, env, i, depth=0):
        """an expression creating a guard: list of (lock, mode, inst) ; None if not a guard; [] deferred/empty"""
        f = env.fn
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] == 'init' and n.get('a'):
            return None
        if n['k'] == 'ctor' and n.get('cls') in self.guards:
            mode = self.guards[n['cls']]
            if n.get('move') or n.get('copy'):
                return self.guard_of(env, n['a'][0], depth + 1) if n['a'] else []
            if any('defer_lock' in f.nodes[strip(f, a)].get('t', '') for a in n['a']):
                return []
            out = []
            adopt = any('adopt_lock' in f.nodes[strip(f, a)].get('t', '') for a in n['a'])
            for a in n['a']:
                t = f.nodes[strip(f, a)].get('t', '')
                if any(z in t for z in ('_lock_t', 'duration', 'time_point', 'adopt_lock', 'try_to_lock')):
                    continue
                r = self.name(env, a)
                if r:
                    out.append((r[0], mode if not adopt else mode, r[1]))
            return out
        if n['k'] == 'call' and bare(n.get('t', '')) in self.guards and depth < 4:
            if n.get('q') in ('std::move',) and n['a']:
                a = f.nodes[strip(f, n['a'][0])]
                return ('var', a.get('d')) if a['k'] == 'ref' else None
            g = self.p.get(n.get('f'))
            if g is not None:
                for x in g.walk():
                    m = g.nodes[x]
                    if m['k'] == 'ret' and 'e' in m:
                        e = strip(g, m['e'])
                        me = g.nodes[e]
                        if me['k'] == 'ref' and 'd' in me:
                            sd = g.single_def(me['d'], ignore=('addr', 'cap', 'ref'))
                            e = sd if sd is not None else e
                        r = self.guard_of(child_env(env, i, g), e, depth + 1)
                        if isinstance(r, list) and r:
                            return r
        return None

    # ---- one function
    def local(self, f):
        L = self
        acqs, calls = [], []
        rec = {}
        env0 = Env(f)

        class H(Hooks):
            def descend(s, F, env, i, g):
                return False

            def throws(s, F, env, i, u):
                # a throwing call matters only while a lock is held without a guard
                return any(h[0] == 'raw' for h in u) and not (f.nodes[i].get('nt') or bname(f.nodes[i]) in LOCK_CALLS)

            def call(s, F, env, i, u):
                if env.fn is not f:
                    return [('ok', u, None)]
                n = f.nodes[i]
                rec.setdefault(i, set()).add(u)
                plain = [('ok', u, None)] + ([('exc', u, None)] if s.throws(F, env, i, u) else [])
                if n.get('nr'):
                    return [('exc', u, None)]
                if n['k'] != 'call':
                    return [('ok', u, None)] if n.get('cls') in L.guards else plain
                b = bname(n)
                if b in LOCK_CALLS and 'obj' in n:
                    ob = strip(f, n['obj'])
                    on = f.nodes[ob]
                    t = on.get('t', '')
                    m = LOCK_CALLS[b]
                    if bare(t) in L.guards:
                        d = on.get('d')
                        if m == 'u':
                            return [('ok', frozenset(h if not (h[0] == d and not h[4]) else h[:4] + (True,) for h in u), None)]
                        if m == 't':
                            return [('ok', u, None)]
                        nu = frozenset(h if h[0] != d else h[:4] + (False,) for h in u)
                        for h in nu - u:
                            acqs.append((i, h[1], h[2], L.locks(u), h[3]))
                        return [('ok', nu, None)]
                    if L.mutexish(t) or any(z in t for z in MUTEX_T):
                        r = L.name(env, n['obj'])
                        if r is None:
                            return plain
                        if f.cls and f.cls in L.guards or f.cls and L.mutexish(f.cls):
                            return [('ok', u, None)]
                        if m in ('x', 's'):
                            acqs.append((i, r[0], m, L.locks(u), r[1]))
                            return [('ok', u | {('raw', r[0], m, r[1], False)}, None)]
                        if m == 'u':
                            return [('ok', frozenset(h for h in u if not (h[0] == 'raw' and h[1] == r[0])), None)]
                        return [('ok', u, None)]
                if n.get('op') == '=' and 'obj' in n and bare(f.nodes[strip(f, n['obj'])].get('t', '')) in L.guards:
                    d = f.nodes[strip(f, n['obj'])].get('d')
                    g = L.guard_of(env, n['a'][0]) if n['a'] else None
                    nu = frozenset(h for h in u if h[0] != d)
                    if isinstance(g, list):
                        for nm, mode, inst in g:
                            acqs.append((i, nm, mode, L.locks(nu), inst))
                            nu |= {(d, nm, mode, inst, False)}
                    elif isinstance(g, tuple):
                        nu |= {(d,) + h[1:] for h in nu if h[0] == g[1]}
                        nu = frozenset(h for h in nu if h[0] != g[1])
                    return [('ok', nu, None)]
                return plain

            def elem(s, F, env, i, u):
                if env.fn is not f:
                    return u
                n = f.nodes[i]
                if n['k'] == 'decl':
                    for v in n['vs']:
                        if bare(v['t']) in L.guards and not v['t'].endswith('&') and v.get('init') is not None:
                            g = L.guard_of(env, v['init'])
                            if isinstance(g, list):
                                for nm, mode, inst in g:
                                    raw = [h for h in u if h[0] == 'raw' and h[1] == nm]
                                    if raw:      # adopts the lock taken before
                                        u = u - frozenset(raw)
                                    else:
                                        acqs.append((i, nm, mode, L.locks(u), inst))
                                    u = u | {(v['d'], nm, mode, inst, False)}
                                if not g:
                                    # deferred: remember which mutex
                                    m = f.nodes[strip(f, v['init'])]
                                    if m['k'] == 'ctor' and m['a']:
                                        r = L.name(env, m['a'][0])
                                        if r:
                                            u = u | {(v['d'], r[0], L.guards[bare(v['t'])], r[1], True)}
                            elif isinstance(g, tuple):
                                u = frozenset((v['d'],) + h[1:] if h[0] == g[1] else h for h in u)
                rec.setdefault(i, set()).add(u)
                return u

            def dtor(s, F, env, var, t, u, exc):
                if any(h[0] == var for h in u):
                    u = frozenset(h for h in u if h[0] != var)
                return u

            def tracks(s, t):
                return bare(t) in L.guards

        interesting = any(n['k'] in ('decl',) and any(bare(v['t']) in self.guards for v in n['vs']) or
                          n['k'] == 'call' and bname(n) in LOCK_CALLS for n in f.nodes if n)
        if interesting:
            F = Flow(self.p, H())
            res = F.run(f, frozenset())
            for k, u, r in res:
                for h in u:
                    if h[0] == 'raw' and not (f.cls and (f.cls in self.guards or self.mutexish(f.cls))):
                        self.leaks.append((f, k, h[1]))
        self.acq[f.id] = list(dict.fromkeys(acqs))
        self.held[f.id] = {i: ([self.locks(u) for u in us]) for i, us in rec.items()} if interesting else None

    @staticmethod
    def locks(u):
        return frozenset((h[1], h[2]) for h in u if not h[4])

    def _elem(self, f, i):
        """the evaluated CFG element a node belongs to"""
        pos = f.pos()
        H = self.held[f.id]
        while i is not None and i not in H:
            i = f.parent().get(i)
        return i

    def must(self, f, i):
        H = self.held.get(f.id)
        if not H:
            return frozenset()
        e = self._elem(f, i)
        if e is None:
            return frozenset()
        L = H[e]
        r = None
        for u in L:
            r = u if r is None else self.meet(r, u)
        return r or frozenset()

    @staticmethod
    def meet(a, b):
        out = set()
        for l, m in a:
            for l2, m2 in b:
                if l == l2:
                    out.add((l, 's' if 's' in (m, m2) else 'x'))
        return frozenset(out)

    def may(self, f, i):
        H = self.held.get(f.id)
        if not H:
            return frozenset()
        e = self._elem(f, i)
        if e is None:
            return frozenset()
        return frozenset().union(*H[e])

    # ---- interprocedural
    def sites(self):
        """(caller, node, callee, kind) with kind call | lambda (handed to something) """
        if hasattr(self, '_sites'):
            return self._sites
        S = []
        V = {}
        for g in self.p.fns.values():
            if g.cls and g.d.get('virt'):
                V.setdefault(g.name, []).append(g)
        for f in self.fns.values():
            for x in range(len(f.nodes)):
                n = f.nodes[x]
                if not n:
                    continue
                if n['k'] in ('call', 'ctor') and n.get('f'):
                    g = self.p.get(n['f'])
                    if g is not None and g.blocks and not g.d.get('lambda'):
                        S.append((f, x, g, 'call'))
                    if g is not None and n.get('virt'):
                        for o in V.get(g.name, []):
                            if o is not g and len(o.params) == len(g.params) and o.blocks:
                                S.append((f, x, o, 'call'))
                elif n['k'] == 'lam':
                    for k in ([n['f']] if n.get('f') else n.get('gen', [])):
                        g = self.p.get(k)
                        if g is not None and g.blocks:
                            for y in self.lambda_points(f, x):
                                S.append((f, y, g, 'lambda'))
                elif n['k'] in ('ref', 'mem') and n.get('isfn') and n.get('f'):
                    g = self.p.get(n['f'])
                    par = f.parent().get(x)
                    if g is not None and g.blocks and par is not None and not (f.nodes[par]['k'] == 'call' and x not in f.nodes[par].get('a', [])):
                        S.append((f, x, g, 'lambda'))
        self._sites = S
        return S

    def lambda_points(self, f, x):
        """where a lambda expression is used: the uses of the variable it initialises, or its own place"""
        par = f.parent().get(x)
        while par is not None and f.nodes[par]['k'] in ('cast', 'ctor'):
            par = f.parent().get(par)
        if par is not None and f.nodes[par]['k'] == 'decl':
            for v in f.nodes[par]['vs']:
                i = v.get('init')
                if i is not None and x in set(f.walk(i)):
                    uses = [y for y in f.all() if f.nodes[y]['k'] == 'ref' and f.nodes[y].get('d') == v['d']]
                    outs = []
                    for y in uses:
                        outs.append(y)
                    if outs:
                        return outs
        return [x]

    def entry_must(self, roots):
        """greatest fixpoint of the locks held on entry of each function; roots are entered with none"""
        TOP = None
        E = {f.id: TOP for f in self.fns.values()}
        S = {}
        for f, x, g, k in self.sites():
            S.setdefault(g.id, []).append((f, x))
        for f in self.fns.values():
            if roots(f) or f.id not in S:
                E[f.id] = frozenset()
        local = {}
        ch = True
        while ch:
            ch = False
            for gid, L in S.items():
                if E.get(gid) == frozenset() or gid not in E:
                    continue
                r = TOP
                for f, x in L:
                    if E[f.id] is TOP:
                        continue
                    if (f.id, x) not in local:
                        local[(f.id, x)] = self.must(f, x)
                    h = self.join(E[f.id], local[(f.id, x)])
                    r = h if r is TOP else self.meet(r, h)
                if r is not TOP and r != E[gid]:
                    if E[gid] is not TOP:
                        r = self.meet(r, E[gid])
                    if r != E[gid]:
                        E[gid] = r
                        ch = True
        return {k: (v if v is not None else frozenset()) for k, v in E.items()}

    def entry_may(self):
        E = {f.id: frozenset() for f in self.fns.values()}
        ch = True
        while ch:
            ch = False
            for f, x, g, k in self.sites():
                if g.id not in E:
                    continue
                r = E[g.id] | E[f.id] | self.may(f, x)
                if r != E[g.id]:
                    E[g.id] = r
                    ch = True
        return E

    @staticmethod
    def join(a, b):
        d = {}
        for l, m in list(a) + list(b):
            if d.get(l) != 'x':
                d[l] = m
        return frozenset(d.items())

    def acquired(self):
        """fn id -> {lock: (inst, chain)} acquired by the function or anything it calls"""
        A = {}
        for fid, L in self.acq.items():
            A[fid] = {}
            for i, l, m, h, inst in L:
                A[fid].setdefault((l, inst), [(self.fns[fid], i, m)])
        ch = True
        while ch:
            ch = False
            for f, x, g, k in self.sites():
                n = f.nodes[x]
                for (l, inst), chain in list(A.get(g.id, {}).items()):
                    # 'this' of the callee is 'this' of the caller only for calls on this
                    i2 = inst
                    if inst == 'this' and k == 'call' and not (l.startswith(('G:', 'P:')) or '#' in l):
                        o = n.get('obj')
                        if o is not None and f.nodes[strip(f, o)]['k'] != 'this':
                            i2 = ''
                    if (l, i2) not in A.setdefault(f.id, {}) and len(chain) < 8:
                        A[f.id][(l, i2)] = [(f, x, chain[0][2])] + chain
                        ch = True
        return A
