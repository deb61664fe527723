"""Interprocedural, context-sensitive typestate analysis over the clang CFGs.

State of a path: (u, vals, live)
  u    - the checker's automaton state (hashable)
  vals - known truth values of boolean locals / call results / pure conditions on this path
  live - automatic objects (of types the checker cares about) constructed and not destroyed
Every call that is not known not to throw also yields an exceptional continuation, routed to the
enclosing handlers or out of the function, with the live guards destroyed on the way.
"""
from .prog import *

BOOLISH = ('bool',)


class Hooks:
    """Override what the rule needs. All defaults: no event."""
    inline_threads = True

    def call(self, F, env, i, u):
        """None: default treatment. Else list of (kind, u', retval) with kind 'ok' | 'exc'"""
        return None

    def after(self, F, env, i, u, kind, rv):
        """called after a descended call returns (kind ok/exc); may change u"""
        return u

    def elem(self, F, env, i, u):
        return u

    def branch(self, F, env, cond, pol, u):
        """return new u or None to prune"""
        return u

    def case(self, F, env, cond, label, u):
        return u

    def rangeloop(self, F, env, term, enter, u):
        return u

    def dtor(self, F, env, var, t, u, exc):
        return u

    def tracks(self, t):
        return False

    def descend(self, F, env, i, g):
        return True

    def throws(self, F, env, i, u):
        """may an external call at i throw?"""
        return True

    def enter(self, F, env, u):
        return u


class Flow:
    def __init__(self, prog, hooks, maxdepth=40):
        self.p = prog
        self.h = hooks
        self.memo = {}
        self.active = set()
        self.stack = []
        self.visited = set()
        self.points = 0
        self.maxdepth = maxdepth
        hooks.F = self

    # ---- boolean reasoning
    def fold(self, t):
        """truth value of a canonical expression if constant"""
        if t[0] == 'lit':
            v = t[1]
            if v in ('true', 'false'):
                return v == 'true'
            if v == 'null':
                return False
            try:
                return int(v) != 0
            except ValueError:
                return None
        if t[0] == 'un' and t[1] == '!':
            r = self.fold(t[2])
            return None if r is None else (not r)
        if t[0] == 'bin':
            op, a, b = t[1], t[2], t[3]
            if op in ('&&', '||'):
                x, y = self.fold(a), self.fold(b)
                if op == '&&':
                    if x is False or y is False:
                        return False
                    return True if x and y else None
                if x or y:
                    return True
                return False if x is False and y is False else None
            if op in FLIP:
                if a[0] == b[0] == 'enum' and op in ('==', '!='):
                    return (a[1] == b[1]) == (op == '==')
                if a[0] == b[0] == 'lit':
                    try:
                        x, y = int(a[1]), int(b[1])
                    except ValueError:
                        return None
                    return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        return None

    def key(self, env, i):
        """(key, polarity) under which the truth of node i is remembered"""
        f = env.fn
        n = f.nodes[i]
        k = n['k']
        if k == 'un' and n['op'] == '!':
            kk, p = self.key(env, n['e'])
            return kk, not p
        if k == 'call' and n.get('op') == '!' and 'obj' in n:
            kk, p = self.key(env, n['obj'])
            return kk, not p
        if k == 'call' and n.get('q', '').rsplit('::', 1)[-1] in ('operator bool', 'has_value') and 'obj' in n:
            return self.key(env, n['obj'])
        if k == 'bin' and n['op'] in ('==', '!='):
            for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
                nb = f.nodes[b]
                if nb['k'] == 'lit' and nb['v'] in ('true', 'false', 'null') or nb.get('cv') in () :
                    kk, p = self.key(env, a)
                    truth = (nb['v'] == 'true') if nb['v'] != 'null' else False
                    return kk, p if truth == (n['op'] == '==') else not p
        if k == 'ref' and not n.get('isfn'):
            v = f.vars[str(n['d'])]
            if v['k'] == 'local':
                sd = f.single_def(n['d'])
                if sd is not None and f.nodes[sd]['k'] in ('un', 'bin', 'ref') and f.nodes[sd].get('t') == 'bool':
                    return self.key(env, sd)
            return ('d', n['d']), True
        if k == 'call':
            return ('n', i), True
        if k == 'cast':
            return self.key(env, n['e'])
        if k in ('bin', 'mem') and self.pure(f, i):
            c = canon(env, i)
            if c[0] == 'bin' and c[1] in ('!=', '>=', '>'):
                return ('x', ('bin', NEG[c[1]]) + c[2:]), False
            return ('x', c), True
        return None, True

    def pure(self, f, i):
        for x in f.walk(i):
            n = f.nodes[x]
            if n['k'] in ('asg', 'new', 'del', 'lam', 'await'):
                return False
            if n['k'] == 'un' and n['op'] in ('++', '--'):
                return False
            if n['k'] == 'call':
                return False
            if n['k'] == 'ref' and not n.get('enum') and not n.get('isfn'):
                v = f.vars[str(n['d'])]
                if v['k'] == 'local' and f.single_def(n['d']) is None:
                    return False
        return True

    def truth(self, env, i, vals):
        f = env.fn
        n = f.nodes[i]
        k = n['k']
        if k == 'bin' and n['op'] in ('&&', '||'):
            a, b = self.truth(env, n['e'], vals), self.truth(env, n['r'], vals)
            if n['op'] == '&&':
                if a is False or (a and b is False):
                    return False
                return True if a and b else None
            if a or (a is False and b):
                return True
            return False if a is False and b is False else None
        if k == 'un' and n['op'] == '!':
            r = self.truth(env, n['e'], vals)
            return None if r is None else not r
        if k == 'cond':
            c = self.truth(env, n['c'], vals)
            if c is not None:
                return self.truth(env, n['a1'] if c else n['a2'], vals)
        kk, p = self.key(env, i)
        if kk is not None:
            for q, v in vals:
                if q == kk:
                    return v == p
            if kk[0] == 'd':
                sd = f.single_def(kk[1])
                if sd is not None and f.nodes[sd]['k'] == 'call':
                    for q, v in vals:
                        if q == ('n', sd):
                            return v == p
        r = self.fold(canon(env, i))
        return r

    @staticmethod
    def setval(vals, key, v):
        return frozenset([x for x in vals if x[0] != key] + [(key, v)])

    # ---- engine
    def run(self, f, u, env=None):
        env = env or Env(f)
        key = (f.id, env.key(), u)
        if key in self.memo:
            return self.memo[key]
        if key in self.active or len(self.stack) > self.maxdepth:
            return set()
        self.active.add(key)
        self.stack.append((env.up[0].fn if env.up else None, env.up[1] if env.up else None, f))
        self.visited.add(f.id)
        try:
            res = self._run(f, self.h.enter(self, env, u), env)
        finally:
            self.stack.pop()
            self.active.discard(key)
        self.memo[key] = res
        return res

    def trace(self):
        out = []
        for cf, cn, f in self.stack:
            out.append(f.at() if cf is None else '%s calls %s' % (cf.at(cn), f.q))
        return out

    def _run(self, f, u0, env):
        out = set()
        if not f.blocks:
            return {('ok', u0, None)}
        seen = {}
        work = []

        def push(b, st):
            s = seen.setdefault(b, set())
            if len(s) > 64:
                st = (st[0], frozenset(), st[2], st[3])
            if st not in s:
                s.add(st)
                work.append((b, st))
        push(f.entry, (u0, frozenset(), (), None))
        while work:
            b, st = work.pop()
            blk = f.blocks[b]
            if b == f.exit:
                u, vals, live, rv = st
                out.add(('ok', u, rv))
                continue
            states = [st]
            for e in blk['els']:
                self.points += 1
                nxt = []
                for s in states:
                    for kind, s2 in self.step(f, env, e, s):
                        if kind == 'ok':
                            nxt.append(s2)
                        else:
                            self.unwind(f, env, e, s2, push, out, kind)
                states = list(dict.fromkeys(nxt))
                if not states:
                    break
            for s in states:
                self.succ(f, env, blk, s, push)
        return out

    def unwind(self, f, env, e, st, push, out, kind):
        u, vals, live, rv = st
        t = None
        etype = None
        if isinstance(e, int):
            n = f.nodes[e]
            t = n.get('y')
            if n['k'] == 'throw':
                etype = n.get('tt')
        elif isinstance(e, dict) and isinstance(e.get('init'), int):
            t = f.nodes[e['init']].get('y')
        while t is not None:
            # destroy guards declared inside the try body
            inner = [d for d in live if self.inside_try(f, d, t)]
            for d in reversed(inner):
                u = self.h.dtor(self, env, d, f.vars[str(d)]['t'], u, True)
            live = tuple(d for d in live if d not in inner)
            stop = False
            for h, hb in f.handlers(t):
                hn = f.nodes[h]
                if hb is None:
                    continue
                if hn.get('all') or hn.get('ct', '').replace('const ', '').strip(' &') == 'std::exception':
                    push(hb, (u, vals, live, rv))
                    stop = True
                    break
                ct = hn.get('ct', '').replace('const ', '').strip(' &')
                if etype and ct == etype:
                    push(hb, (u, vals, live, rv))
                    stop = True
                    break
                if etype is None or not etype.startswith('std::') or not ct.startswith('std::') or etype != ct:
                    push(hb, (u, vals, live, rv))
            if stop:
                return
            t = f.nodes[t].get('y')
        for d in reversed(live):
            u = self.h.dtor(self, env, d, f.vars[str(d)]['t'], u, True)
        out.add(('exc', u, None))

    def inside_try(self, f, d, t):
        ds = f.defs().get(d, [])
        for v, k, x in ds:
            if k == 'decl':
                y = f.nodes[x].get('y')
                while y is not None:
                    if y == t:
                        return True
                    y = f.nodes[y].get('y')
        return False

    def step(self, f, env, e, st):
        u, vals, live, rv = st
        if isinstance(e, dict):
            if 'dtor' in e:
                d = e['dtor']
                if d in live:
                    u = self.h.dtor(self, env, d, e['t'], u, False)
                    live = tuple(x for x in live if x != d)
                return [('ok', (u, vals, live, rv))]
            if 'minit' in e and hasattr(self.h, 'minit'):
                u = self.h.minit(self, env, e, u)
            return [('ok', (u, vals, live, rv))]
        n = f.nodes[e]
        k = n['k']
        if k in ('call', 'ctor'):
            return self.do_call(f, env, e, st)
        if k == 'throw':
            u = self.h.elem(self, env, e, u)
            return [('exc', (u, vals, live, rv))]
        if k in ('block', 'loop', 'if', 'switch', 'try'):
            return [('ok', st)]
        u = self.h.elem(self, env, e, u)
        if u is None:
            return []
        if k == 'ret':
            if 'e' in n:
                rn = f.nodes[n['e']]
                t = rn.get('t', '')
                if t == 'bool':
                    rv = self.truth(env, n['e'], vals)
                else:
                    ty = f.d['rt']
                    if rn['k'] == 'lit' and rn['v'] == 'null' or 'nullopt' in f.text(n['e']):
                        rv = False
                    elif ty.startswith('std::optional') or ty.endswith('*') or 'unique_ptr' in ty or 'shared_ptr' in ty:
                        rv = self.truth(env, n['e'], vals) if rn['k'] in ('call', 'ref') else True
                        if rn['k'] == 'ctor' and not rn['a']:
                            rv = False
                    else:
                        rv = None
        elif k == 'decl':
            for v in n['vs']:
                vals = frozenset(x for x in vals if x[0] != ('d', v['d']))
                if 'init' in v and v['init'] >= 0:
                    tv = self.truth(env, v['init'], vals) if (v['t'] in BOOLISH or f.nodes[v['init']]['k'] == 'call') else None
                    if tv is not None:
                        vals = self.setval(vals, ('d', v['d']), tv)
                if self.h.tracks(v['t']):
                    live = tuple(x for x in live if x != v['d']) + (v['d'],)
        elif k == 'asg':
            t = f.nodes[n['e']]
            if t['k'] == 'ref':
                vals = frozenset(x for x in vals if x[0] != ('d', t['d']))
                if t.get('t') == 'bool' and n['op'] == '=':
                    tv = self.truth(env, n['r'], vals)
                    if tv is not None:
                        vals = self.setval(vals, ('d', t['d']), tv)
            elif t['k'] == 'mem':
                c = canon(env, n['e'])
                vals = frozenset(x for x in vals if not (x[0][0] == 'x' and c in set(subterms(x[0][1]))))
        return [('ok', (u, vals, live, rv))]

    def lam_targets(self, f, i):
        """lambda functions denoted by argument node i"""
        n = f.nodes[i]
        if n['k'] == 'lam':
            return [n['f']] if n.get('f') else n.get('gen', [])
        if n['k'] == 'ref' and not n.get('isfn'):
            sd = f.single_def(n['d'], ignore=('addr', 'cap'))
            if sd is not None and f.nodes[sd]['k'] == 'lam':
                return self.lam_targets(f, sd)
        if n['k'] in ('ctor', 'call') and len(n.get('a', [])) == 1 and ('function' in n.get('cls', '') or n.get('q', '') in PASS_CALLS):
            return self.lam_targets(f, n['a'][0])
        if n['k'] == 'cast':
            return self.lam_targets(f, n['e'])
        return []

    def forget(self, f, i, vals):
        """drop the known truth of objects this call may change"""
        n = f.nodes[i]
        drop = set()

        def root(x):
            while True:
                m = f.nodes[x]
                if m['k'] == 'cast' or m['k'] == 'un' and m['op'] in ('&', '*'):
                    x = m['e']
                elif m['k'] == 'call' and 'obj' in m and not m.get('f') in self.p.fns and not m.get('a'):
                    x = m['obj']
                else:
                    break
            return m['d'] if m['k'] == 'ref' and not m.get('isfn') and 'd' in m else None
        if n['k'] == 'call' and n.get('obj') is not None and not n.get('cm'):
            d = root(n['obj'])
            if d is not None:
                drop.add(d)
        g = self.p.get(n.get('f'))
        pts = [g.vars[str(q)]['t'] if str(q) in g.vars else '' for q in (g.d.get('ps') or [])] if g is not None else []
        for k, a in enumerate(n.get('a', [])):
            m = f.nodes[a]
            d = root(a)
            if d is None:
                continue
            t = f.vars[str(d)]['t']
            if m['k'] == 'un' and m['op'] == '&':
                drop.add(d)
            elif k < len(pts) and pts[k]:
                if '&' in pts[k] and not pts[k].startswith('const '):
                    drop.add(d)
            elif t not in BOOLISH and not t.startswith('const ') and '*' not in t and n['k'] == 'call':
                drop.add(d)
        lam = g if g is not None and g.d.get('lambda') else None
        if lam is not None:
            names = {(v['n'], v.get('l')) for v in lam.vars.values() if v.get('k') == 'outer'}
            for q, _ in vals:
                if q[0] == 'd' and (f.vars[str(q[1])]['n'], f.vars[str(q[1])].get('l')) in names and f.vars[str(q[1])]['t'] not in BOOLISH:
                    drop.add(q[1])
        return frozenset(x for x in vals if not (x[0][0] == 'd' and x[0][1] in drop)) if drop else vals

    def do_call(self, f, env, i, st):
        u, vals, live, rv = st
        n = f.nodes[i]
        vals = frozenset(x for x in vals if x[0] != ('n', i))
        if vals:
            vals = self.forget(f, i, vals)
        res = self.h.call(self, env, i, u)
        g = self.p.get(n.get('f'))
        if res is None:
            if g is not None and g.blocks and not g.d.get('defaulted') and self.h.descend(self, env, i, g):
                cenv = child_env(env, i, g)
                res = []
                for kind, u2, r in self.run(g, u, cenv):
                    u3 = self.h.after(self, env, i, u2, kind, r)
                    if u3 is not None:
                        res.append((kind, u3, r))
                # std::function parameters receiving lambdas are handled at the call of the parameter
            else:
                res = [('ok', u, None)]
                lams = []
                for a in n.get('a', []):
                    lams += self.lam_targets(f, a)
                q = n.get('q', '')
                if lams and not q.startswith('std::function') and n.get('cls') not in ('std::function',):
                    thread = 'thread' in q or 'async' in q or (n.get('obj') is not None and 'thread' in f.nodes[n['obj']].get('t', ''))
                    if thread and not self.h.inline_threads:
                        pass
                    else:
                        us = {u}
                        work = [u]
                        exc = set()
                        while work:
                            x = work.pop()
                            for l in lams:
                                lg = self.p.get(l)
                                if lg is None:
                                    continue
                                lenv = child_env(env, i, lg)
                                lenv.params = {k: v for k, v in lenv.params.items() if isinstance(k, tuple)}
                                for kind, u2, r in self.run(lg, x, lenv):
                                    if kind == 'ok':
                                        if u2 not in us:
                                            us.add(u2)
                                            work.append(u2)
                                    elif not thread:
                                        exc.add(u2)
                        res = [('ok', x, None) for x in us] + [('exc', x, None) for x in exc]
                if not n.get('nt') and self.h.throws(self, env, i, u):
                    res.append(('exc', u, None))
                if n.get('nr'):
                    res = [r for r in res if r[0] == 'exc']
        out = []
        for kind, u2, r in res:
            v2 = vals
            if r is not None and kind == 'ok':
                v2 = self.setval(vals, ('n', i), r)
            out.append((kind, (u2, v2, live, rv)))
        return out

    def succ(self, f, env, blk, st, push):
        u, vals, live, rv = st
        term = blk.get('term')
        su = blk['succ']
        if not term or len(su) < 2 or 'c' not in term:
            for s in su:
                if s is not None:
                    push(s, st)
            return
        k = term['k']
        if k == 'SwitchStmt':
            c = canon(env, term['c'])
            labs = []
            for s in su:
                if s is None:
                    continue
                lb = f.blocks[s].get('label')
                lab = ('default',)
                if lb and lb['k'] == 'case':
                    lab = canon(env, lb['v'])
                labs.append((s, lab))
            known = c[0] in ('enum', 'lit')
            matched = [x for x in labs if x[1] == c]
            for s, lab in labs:
                if known and matched and lab != c:
                    continue
                if known and not matched and lab != ('default',):
                    continue
                u2 = self.h.case(self, env, term['c'], lab, u)
                if u2 is not None:
                    push(s, (u2, vals, live, rv))
            return
        if k == 'CXXTryStmt':
            if su and su[0] is not None:
                push(su[0], st)
            return
        if k == 'CXXForRangeStmt' or len(su) != 2:
            for j, s in enumerate(su):
                if s is not None:
                    u2 = self.h.rangeloop(self, env, term, j == 0, u) if k == 'CXXForRangeStmt' else u
                    if u2 is not None:
                        push(s, (u2, vals, live, rv))
            return
        c = term['c']
        tv = self.truth(env, c, vals)
        for pol, s in ((True, su[0]), (False, su[1])):
            if s is None or (tv is not None and tv != pol):
                continue
            v2 = vals
            kk, p = self.key(env, c)
            if kk is not None:
                v2 = self.setval(vals, kk, pol == p)
            if k == 'logical':
                pass
            u2 = self.h.branch(self, env, c, pol, u)
            if u2 is None:
                continue
            push(s, (u2, v2, live, rv))


# ---------------------------------------------------------------- conditions that must hold
def atoms(env, i, pol, depth=0):
    """conjunction of atomic canonical facts implied by node i having truth value pol"""
    f = env.fn
    n = f.nodes[i]
    k = n['k']
    if depth > 8:
        return []
    if k == 'un' and n['op'] == '!':
        return atoms(env, n['e'], not pol, depth + 1)
    if k == 'call' and n.get('op') == '!' and 'obj' in n:
        return atoms(env, n['obj'], not pol, depth + 1)
    if k == 'bin' and n['op'] in ('&&', '||'):
        if (n['op'] == '&&') == pol:
            return atoms(env, n['e'], pol, depth + 1) + atoms(env, n['r'], pol, depth + 1)
        return []
    if k == 'ref' and not n.get('isfn') and not n.get('enum'):
        v = f.vars[str(n['d'])]
        if v['k'] == 'local' and v['t'] in ('bool', 'const bool'):
            sd = f.single_def(n['d'])
            if sd is not None:
                return atoms(env, sd, pol, depth + 1)
    if k == 'call':
        g = f.p.get(n.get('f'))
        if g is not None and g.d['rt'] == 'bool' and not g.d.get('virt'):
            r = single_return(g)
            if r is not None:
                return atoms(child_env(env, i, g), r, pol, depth + 1)
            extra = pred_facts(g, pol, child_env(env, i, g), depth + 1)
            return [(canon(env, i), pol)] + extra
    c = canon(env, i)
    if c[0] == 'bin' and c[1] in NEG and not pol:
        return [(('bin', NEG[c[1]]) + c[2:], True)]
    return [(c, pol)]


def pred_facts(g, pol, env, depth):
    """facts that hold on every return of `pol` from a bool function with several literal returns"""
    if depth > 6 or g.id in _inprog:
        return []
    _inprog.add(g.id)
    try:
        return _pred_facts(g, pol, env, depth)
    finally:
        _inprog.discard(g.id)


def _pred_facts(g, pol, env, depth):
    rets = [x for x in g.walk() if g.nodes[x]['k'] == 'ret' and 'e' in g.nodes[x]]
    acc = None
    for r in rets:
        e = g.nodes[g.nodes[r]['e']]
        if e['k'] == 'lit' and e['v'] == ('false' if pol else 'true'):
            continue
        fs = set(guards(env, r, local=True))
        if not (e['k'] == 'lit'):
            fs |= set(atoms(env, g.nodes[r]['e'], pol, depth + 1))
        acc = fs if acc is None else acc & fs
    return list(acc or [])


_inprog = set()


def post_facts(env, depth=0):
    """facts (canonical, in terms of the caller's expressions) that hold whenever g returns normally"""
    g = env.fn
    if not g.blocks or g.id in _inprog or depth > 4:
        return frozenset()
    _inprog.add(g.id)
    try:
        fa = must_facts(env, depth + 1)
        return fa.get(('in', g.exit), frozenset()) or frozenset()
    finally:
        _inprog.discard(g.id)


def must_facts(env, depth=0):
    """forward must-analysis: block -> facts known at its entry, and node -> facts at the element"""
    f = env.fn
    cache = f.__dict__.setdefault('_mf', {})
    ck = (env.key(), bool(env.up), depth > 0 and depth)
    if ck in cache:
        return cache[ck]
    IN = {f.entry: frozenset()}
    work = [f.entry]
    at = {}
    it = 0
    cache[ck] = {}
    while work:
        it += 1
        if it > 6000:
            break
        b = work.pop(0)
        blk = f.blocks[b]
        cur = set(IN[b])
        dead = False
        for e in blk['els']:
            if not isinstance(e, int):
                continue
            at[e] = frozenset(cur)
            n = f.nodes[e]
            if n['k'] in ('asg', 'decl') or (n['k'] == 'un' and n['op'] in ('++', '--')):
                tgt = None
                if n['k'] == 'asg' or n['k'] == 'un':
                    tgt = [canon(env, n['e'], subst=False)]
                else:
                    tgt = [('v', 'L:%s#%s@%s' % (v['n'], f.vars[str(v['d'])]['l'], f.name)) for v in n['vs']]
                for t in tgt:
                    cur = {c for c in cur if t not in set(subterms(c[0]))}
            if n['k'] == 'call':
                # reference/pointer out-arguments invalidate facts about that local
                for a in n.get('a', []):
                    na = f.nodes[a]
                    if na['k'] == 'un' and na['op'] == '&':
                        t = canon(env, na['e'], subst=False)
                        cur = {c for c in cur if t not in set(subterms(c[0]))}
                g = f.p.get(n.get('f'))
                if g is not None and depth < 3 and g.blocks and len(g.nodes) < 900:
                    cur |= {c for c in post_facts(child_env(env, e, g), depth) if not local_only(c[0], g)}
            if n['k'] == 'throw' or n.get('nr'):
                dead = True
                break
        if dead:
            continue
        term = blk.get('term')
        for j, s in enumerate(blk['succ']):
            if s is None:
                continue
            new = set(cur)
            if term and 'c' in term and len(blk['succ']) == 2 and term['k'] not in ('SwitchStmt', 'CXXTryStmt'):
                for a in atoms(env, term['c'], j == 0):
                    new.add(a)
            elif term and term['k'] == 'SwitchStmt':
                lb = f.blocks[s].get('label')
                if lb and lb['k'] == 'case':
                    new.add((('bin', '==', canon(env, term['c']), canon(env, lb['v'])), True))
            new = frozenset(new)
            if s not in IN:
                IN[s] = new
                work.append(s)
            else:
                m = IN[s] & new
                if m != IN[s]:
                    IN[s] = m
                    work.append(s)
        if term and term['k'] == 'CXXTryStmt':
            pass
    # handlers: entry facts unknown -> give them the empty set and continue
    for b in f.blocks.values():
        lb = b.get('label')
        if lb and lb['k'] == 'catch' and b['id'] not in IN:
            IN[b['id']] = frozenset()
            work = [b['id']]
            while work:
                x = work.pop(0)
                blk = f.blocks[x]
                for e in blk['els']:
                    if isinstance(e, int):
                        at.setdefault(e, frozenset())
                for s in blk['succ']:
                    if s is None:
                        continue
                    if s not in IN:
                        IN[s] = frozenset()
                        work.append(s)
                    elif IN[s]:
                        IN[s] = frozenset()
    res = dict(at)
    for b, v in IN.items():
        res[('in', b)] = v
    cache[ck] = res
    return res


def local_only(t, g):
    for s in subterms(t):
        if s[0] == 'v' and s[1].startswith('L:') and s[1].endswith('@' + g.name):
            return True
    return False


def guards(env, i, local=False):
    """facts that hold whenever node i is evaluated in env.fn (plus those holding at the call sites in env)"""
    f = env.fn
    mf = must_facts(env)
    x = i
    par = f.parent()
    while x not in mf and x in par:
        x = par[x]
    fs = mf.get(x, frozenset())
    if env.up and not local:
        fs = fs | guards(env.up[0], env.up[1])
    return fs


def loop_paths(env, loop, limit=4000):
    """one iteration of a loop: list of (facts on the path, outcome) with outcome in next/throw/return/leave; inner loops are passed at most twice"""
    f = env.fn
    head = next((b for b in f.blocks.values() if b.get('term') and b['term'].get('s') == loop), None)
    if head is None:
        return []
    inside = set(f.walk(loop))
    out = []
    st = [(head['succ'][0], frozenset(), (head['id'],))]
    while st and len(out) < limit:
        b, fs, seen = st.pop()
        if b is None:
            continue
        if b == head['id']:
            out.append((fs, 'next'))
            continue
        if b == f.exit:
            out.append((fs, 'return'))
            continue
        if seen.count(b) > 1:
            continue
        blk = f.blocks[b]
        stop = None
        cur = set(fs)
        for e in blk['els']:
            if isinstance(e, int):
                n = f.nodes[e]
                if n['k'] == 'throw' or n.get('nr'):
                    stop = 'throw'
                    break
                if n['k'] == 'ret':
                    stop = 'return'
                    break
                if n['k'] == 'call':
                    cur.add((('called', n.get('q', ''), e), True))
                    g = f.p.get(n.get('f'))
                    if g is not None and g.blocks and len(g.nodes) < 900:
                        cur |= {c for c in post_facts(child_env(env, e, g), 0) if not local_only(c[0], g)}
                elif n['k'] in ('asg',):
                    cur.add((('assigned', e), True))
        fs = frozenset(cur)
        if stop:
            out.append((fs, stop))
            continue
        els = [e for e in blk['els'] if isinstance(e, int)]
        if els and all(e not in inside for e in els):
            out.append((fs, 'leave'))
            continue
        term = blk.get('term')
        for j, s in enumerate(blk['succ']):
            if s is None:
                continue
            new = set(fs)
            if term and 'c' in term and len(blk['succ']) == 2 and term['k'] not in ('SwitchStmt', 'CXXTryStmt'):
                at = atoms(env, term['c'], j == 0)
                if any((c, not p) in fs for c, p in at):
                    continue
                new |= set(at)
            st.append((s, frozenset(new), seen + (b,)))
    return out
