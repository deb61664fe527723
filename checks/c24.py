"""C24: exceptions that can leave work run on another thread, and the joins, waits and rethrows on every way out of the operation that started it."""
import re
from vf.flow import *
from vf.util import *
from vf.throws import Throws, chain
from vf.prog import ALL, OMP

THREADT = re.compile(r'std::thread\b')
VEC = re.compile(r'^(const )?std::(vector|deque|list|array)<std::thread\b')
FUTV = re.compile(r'std::(shared_)?future<')
UNITS = ['core', 'disk', 'diskann', 'space', 'lasertp', 'py', 'pydiskann'] + OMP


def meths(p, q):
    ix = p.__dict__.get('_bycls')
    if ix is None:
        ix = p.__dict__['_bycls'] = {}
        for g in p.fns.values():
            if g.cls:
                ix.setdefault(g.cls, []).append(g)
    return ix.get(q, [])


def st(f, x):
    while x is not None and x >= 0 and f.nodes[x]['k'] == 'cast':
        x = f.nodes[x]['e']
    return x


def callee(p, f, x, depth=0):
    """functions denoted by an argument: a lambda, a local holding one, a function or member function"""
    x = st(f, x)
    n = f.nodes[x]
    if n['k'] == 'lam':
        return [p.get(i) for i in ([n['f']] if n.get('f') else n.get('gen', []))]
    if n['k'] == 'ref' and n.get('isfn'):
        return [p.get(n.get('f'))] if n.get('f') else [g for g in p.fns.values() if g.q == n.get('q')]
    if n['k'] == 'ref' and depth < 4:
        sd = f.single_def(n['d'], ignore=('addr', 'cap'))
        return callee(p, f, sd, depth + 1) if sd is not None else []
    if n['k'] == 'un' and n['op'] == '&':
        m = f.nodes[n['e']]
        if m.get('isfn'):
            return [p.get(m['f'])] if m.get('f') else [g for g in p.fns.values() if g.q == m.get('q') and (g.blocks or g.body is not None)]
    if n['k'] in ('ctor', 'call') and len(n.get('a', [])) >= 1 and depth < 4:
        return callee(p, f, n['a'][0], depth + 1)
    return []


def root(f, x):
    """(name, line) of the variable, or field, an expression is rooted at"""
    while True:
        x = st(f, x)
        n = f.nodes[x]
        if n['k'] == 'ref' and 'd' in n:
            v = f.vars.get(str(n['d']), {})
            return (v.get('n'), v.get('l'))
        if n['k'] == 'mem':
            b = f.nodes[st(f, n['b'])] if n.get('b', -1) is not None and n.get('b', -1) >= 0 else {'k': 'this'}
            if b['k'] == 'this':
                return ('this', n['n'])
            x = n['b']
        elif n['k'] == 'call' and n.get('obj') is not None:
            x = n['obj']
        elif n['k'] == 'idx':
            x = n['b']
        elif n['k'] == 'un':
            x = n['e']
        elif n['k'] in ('call', 'ctor') and n.get('a'):
            x = n['a'][0]
        else:
            return None


class Worker:
    def __init__(self, p):
        self.p, self.T = p, Throws(p, self.fobj)
        self._clo = {}

    def fobj(self, f, i):
        """calling a stored function object: what may have been stored"""
        n = f.nodes[i]
        q = str(n.get('q', ''))
        if re.match(r'std::function(<.*>)?::operator\(\)$', q):
            o = st(f, n.get('obj'))
            t = str(f.nodes[o].get('t', ''))
            T = re.sub(r'^const |[ &]+$', '', t)
            # every lambda of this program turned into a function object of this type
            hit = False
            for g in self.p.fns.values():
                for j, m in enumerate(g.nodes):
                    if m and m['k'] in ('ctor', 'call') and m.get('a') and (m.get('cls') == 'std::function' and re.sub(r'^const |[ &]+$', '', str(m.get('t', ''))) == T or m['k'] == 'call' and m.get('obj') is not None and T in str(g.nodes[m['obj']].get('t', '')) and re.search(r'::(emplace|push|emplace_back|push_back)$', str(m.get('q', '')))):
                        for a in m['a']:
                            for h in callee(self.p, g, a):
                                if h is not None:
                                    hit = True
                                    w = self.T.may(h)
                                    if w:
                                        return 'runs a task, which ' + chain(w)
            return None if hit else None
        return None

    def closure(self, f, pred, seen=None):
        """some call in f or what it calls satisfies pred(node)"""
        key = (f.id, pred.__name__)
        if key in self._clo:
            return self._clo[key]
        self._clo[key] = False
        r = False
        for n in f.nodes:
            if n and n['k'] in ('call', 'ctor') and pred(n):
                r = True
                break
        if not r:
            for n in f.nodes:
                if n and n['k'] in ('call', 'ctor') and n.get('f'):
                    g = self.p.get(n['f'])
                    if g is not None and g.body is not None and self.closure(g, pred):
                        r = True
                        break
                if n and n['k'] == 'lam':
                    for i in ([n['f']] if n.get('f') else n.get('gen', [])):
                        g = self.p.get(i)
                        if g is not None and g.body is not None and self.closure(g, pred):
                            r = True
        self._clo[key] = r
        return r


def rethrows(n):
    q = str(n.get('q', ''))
    return q == 'std::rethrow_exception' or bool(re.search(r'future(<.*>)?::get$', q)) or q.endswith('::return_value') and q.startswith('coro::') or q.endswith('::result') and 'coro::' in q


def currents(n):
    return str(n.get('q', '')) == 'std::current_exception'


def joins(n):
    return str(n.get('q', '')) == 'std::thread::join'


def waits(n):
    return bool(re.search(r'condition_variable(_any)?::wait$|condition_variable(_any)?::wait<', str(n.get('q', '')))) or str(n.get('q', '')) == 'std::thread::join'


def loopjoins(W, f, body, sel):
    """the loop body executes sel(node) on each iteration, possibly only for joinable threads"""
    for x in f.walk(body):
        n = f.nodes[x]
        if n['k'] in ('break', 'ret', 'throw'):
            return False
        if n['k'] == 'continue':
            par = f.parent().get(x)
            while par is not None and f.nodes[par]['k'] in ('block',):
                par = f.parent().get(par)
            if par is None or f.nodes[par]['k'] != 'if' or 'joinable' not in f.text(f.nodes[par]['c']):
                return False
    for x in f.walk(body):
        if f.nodes[x]['k'] == 'call' and sel(f.nodes[x]):
            y = f.parent().get(x)
            ok = True
            while y is not None and y != body:
                m = f.nodes[y]
                if m['k'] == 'if' and not re.search(r'joinable|valid|!= nullptr|error|ex', f.text(m['c'])):
                    ok = False
                if m['k'] in ('loop', 'switch', 'lam'):
                    ok = False
                y = f.parent().get(y)
            if ok:
                return True
    return False


def absent(f, c, pol):
    """the kept exception this condition, having this outcome, says there is none in"""
    c = st(f, c)
    n = f.nodes[c]
    if n['k'] == 'un' and n['op'] == '!':
        return absent(f, n['e'], not pol)
    if n['k'] == 'call' and n.get('op') == '!':
        return absent(f, n['obj'] if n.get('obj') is not None else n['a'][0], not pol)
    if n['k'] == 'bin' and n['op'] in ('&&', '||'):
        if pol == (n['op'] == '&&'):
            return absent(f, n['e'], pol) or absent(f, n['r'], pol)
        return None
    ops = [n[k] for k in ('e', 'r') if k in n] if n['k'] == 'bin' else ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a', [])) if n['k'] == 'call' else [c]
    op = n.get('op') if n['k'] in ('bin', 'call') else None
    xs = [x for x in ops if 'exception_ptr' in str(f.nodes[st(f, x)].get('t', '')) and f.nodes[st(f, x)]['k'] in ('ref', 'mem', 'idx')]
    if not xs:
        return None
    if op in ('==', '!=') and (op == '==') == pol or op is None and not pol or n['k'] == 'call' and str(n.get('q', '')).endswith('operator bool') and not pol:
        return root(f, xs[0])
    return None


def flagged(W, f, c, busy=set()):
    """a flag that is only ever set together with keeping the exception"""
    X = root(f, c)
    if X is None or str(f.nodes[c].get('t', '')).replace('const ', '').replace('volatile ', '') not in ('bool', 'std::atomic<bool>', 'std::atomic_bool', 'atomic<bool>') and f.nodes[c]['k'] != 'call':
        return False
    if f.nodes[c]['k'] == 'call' and not re.search(r'atomic.*::(load|operator bool|operator.*bool)$', str(f.nodes[c].get('q', ''))):
        return False
    g = f
    while g.d.get('parent') and f.p.get(g.d['parent']) is not None:
        g = f.p.get(g.d['parent'])
    gs = [g] + [h for h in f.p.fns.values() if h.id.startswith(g.id + '/lambda')] if X[0] != 'this' else [h for h in f.p.fns.values() if h.body is not None and (h.cls == f.cls or h.d.get('parent') and f.cls and f.cls in h.q)]
    sets = 0
    for h in gs:
        for x, n in enumerate(h.nodes):
            if not n:
                continue
            v = None
            if n['k'] == 'asg' and root(h, n['e']) == X:
                v = n['r']
            elif n['k'] == 'call' and n.get('obj') is not None and root(h, n['obj']) == X and (n.get('op') == '=' or re.search(r'::store$', str(n.get('q', '')))) and n.get('a'):
                v = n['a'][0]
            if v is None or h.nodes[st(h, v)].get('v') in (False, 0, 'false') or h.nodes[st(h, v)].get('cv') in (0, '0', False):
                continue
            y = h.parent().get(x)
            while y is not None and h.nodes[y]['k'] != 'block':
                y = h.parent().get(y)
            if y is None:
                return False
            if (h.id, y) not in busy:
                # where this is already being asked, whatever set the flag first has kept the exception
                busy.add((h.id, y))
                try:
                    ok = keeps(W, h, y)[0]
                finally:
                    busy.discard((h.id, y))
                if not ok:
                    return False
            sets += 1
    return sets > 0


def present(W, f, c, pol):
    """this condition, having this outcome, says that an exception is kept already"""
    c = st(f, c)
    n = f.nodes[c]
    if n['k'] == 'un' and n['op'] == '!':
        return present(W, f, n['e'], not pol)
    if n['k'] == 'call' and n.get('op') == '!':
        return present(W, f, n['obj'] if n.get('obj') is not None else n['a'][0], not pol)
    if n['k'] == 'bin' and n['op'] in ('&&', '||'):
        a, b = present(W, f, n['e'], pol), present(W, f, n['r'], pol)
        return a or b if pol == (n['op'] == '&&') else a and b
    if n['k'] == 'call' and re.search(r'::(exchange|test_and_set)$', str(n.get('q', ''))) and pol:
        return True
    if n['k'] == 'call' and re.search(r'::compare_exchange_(strong|weak)$', str(n.get('q', ''))) and not pol:
        return str(n.get('q', '')).endswith('strong')
    if n['k'] == 'bin' and n['op'] == '==' and not pol or n['k'] == 'bin' and n['op'] == '!=' and pol:
        for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
            m = f.nodes[st(f, a)]
            if m['k'] == 'call' and re.search(r'::(exchange|fetch_add|fetch_or)$', str(m.get('q', ''))) and f.nodes[st(f, b)].get('cv') in (0, '0', False):
                return True
    if pol and flagged(W, f, c):
        return True
    return bool(absent(f, c, not pol))


def stores(W, f, x):
    """the expression keeps the current exception, or hands it on, whenever it is evaluated"""
    for y in f.walk(x):
        m = f.nodes[y]
        if m['k'] == 'lam':
            continue
        if m['k'] == 'throw':
            return True
        if m['k'] == 'call' and (currents(m) or str(m.get('q', '')) == 'std::rethrow_exception'):
            return True
        if m['k'] == 'call' and str(m.get('q', '')) == 'std::call_once':
            return any(currents(f.nodes[z]) or f.nodes[z].get('f') and W.p.get(f.nodes[z]['f']) is not None and W.closure(W.p.get(f.nodes[z]['f']), currents) for a in m.get('a', []) for z in f.walk(a) if f.nodes[z]['k'] in ('call', 'lam')) or any(g is not None and W.closure(g, currents) for a in m.get('a', []) for g in callee(W.p, f, a))
        if m['k'] == 'call' and m.get('f'):
            h = W.p.get(m['f'])
            if h is not None and h.body is not None and W.closure(h, currents):
                return True   # the helper has an obligation of its own
    return False


def keeps(W, f, x):
    """(stored on every way through, left early without) of a statement of a handler"""
    n = f.nodes[x]
    k = n['k']
    if k in ('block', 'silist'):
        for y in n.get('ss', []):
            a, early = keeps(W, f, y)
            if early:
                return False, early
            if a:
                return True, None
        return False, None
    if k == 'if':
        for y in (n.get('init'),):
            if y is not None and y >= 0 and stores(W, f, y):
                return True, None
        a, ea = keeps(W, f, n['th']) if n.get('th') is not None and n['th'] >= 0 else (False, None)
        b, eb = keeps(W, f, n['el']) if n.get('el') is not None and n['el'] >= 0 else (False, None)
        if present(W, f, n['c'], True):
            a, ea = True, None
        if present(W, f, n['c'], False):
            b, eb = True, None
        return a and b, ea or eb
    if k in ('ret', 'break', 'continue'):
        if any(stores(W, f, y) for y in f.walk(x) if y != x):
            return True, None
        return False, x
    if k in ('try', 'omp', 'captured') and n.get('body') is not None:
        return keeps(W, f, n['body'])
    if k in ('loop', 'switch', 'lam', 'decl') and k != 'decl':
        return False, None
    return stores(W, f, x), None


def keepers(W, f):
    """(node, what, body) of the handlers of f that keep the exception, or of f when it is a helper that keeps the current one"""
    out = []
    inside = set()
    for x, n in enumerate(f.nodes):
        if n and n['k'] == 'catch':
            ys = list(f.walk(n['body']))
            inside |= set(ys)
            if any(f.nodes[y]['k'] == 'call' and (currents(f.nodes[y]) or f.nodes[y].get('f') and W.p.get(f.nodes[y]['f']) is not None and W.p.get(f.nodes[y]['f']).body is not None and W.closure(W.p.get(f.nodes[y]['f']), currents)) for y in ys):
                out.append((x, n['body']))
    if any(n and n['k'] == 'call' and currents(n) and x not in inside for x, n in enumerate(f.nodes)):
        out.append((f.body, f.body))
    return out


class H(Hooks):
    """u: ('run', V) thread of V started and not joined; ('err', X) outcome kept in X not looked at; ('task', P) task of pool P not waited for; ('fut', P) its outcome not looked at"""
    inline_threads = False

    def __init__(self, R, W, own):
        self.R, self.W, self.own = R, W, own
        self.sites = {}

    def V(self, f, x):
        return root(f, x)

    def cap(self, g):
        """variables in which the handlers of a worker keep the exception"""
        out = set()
        if g is None:
            return out
        for x in (range(len(g.nodes))):
            n = g.nodes[x]
            if n and n['k'] == 'catch':
                for y in g.walk(n['body']):
                    m = g.nodes[y]
                    if m['k'] in ('asg',) and any(g.nodes[z]['k'] == 'call' and currents(g.nodes[z]) for z in g.walk(m['r'])):
                        out.add(root(g, m['e']))
                    if m['k'] == 'call' and m.get('op') == '=' and m.get('obj') is not None and any(g.nodes[z]['k'] == 'call' and currents(g.nodes[z]) for a in m.get('a', []) for z in g.walk(a)):
                        out.add(root(g, m['obj']))
                    if m['k'] == 'call' and m.get('obj') is not None and m.get('f'):
                        h = self.W.p.get(m['f'])
                        if h is not None and h.body is not None and self.W.closure(h, currents):
                            out.add(root(g, m['obj']))
                    if m['k'] == 'call' and m.get('f') and m.get('obj') is None:
                        h = self.W.p.get(m['f'])
                        if h is not None and h.body is not None and self.W.closure(h, currents):
                            for a in m.get('a', []):
                                out.add(root(g, a))
                    if m['k'] == 'call' and re.search(r'::(push_back|emplace_back|push)$', str(m.get('q', ''))) and any(g.nodes[z]['k'] == 'call' and currents(g.nodes[z]) for a in m.get('a', []) for z in g.walk(a)):
                        out.add(root(g, m['obj']))
        out.discard(None)
        return out

    def started(self, F, env, i, u, V, args, base=0):
        f = env.fn
        self.sites[f.at(i)] = (f, i)
        add = {('run', V, f.at(i))}
        for a in args:
            for g in callee(self.W.p, f, a):
                for X in self.cap(g):
                    add.add(('err', X, f.at(i)))
        return [('ok', u | frozenset(add), None), ('exc', u, None)]

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = str(n.get('q', ''))
        b = q.rsplit('::', 1)[-1]
        p = self.W.p
        if n['k'] == 'ctor':
            if re.match(r'std::thread$', str(n.get('cls', ''))) and n.get('a') and not n.get('move') and not n.get('copy'):
                par = f.parent().get(i)
                V = None
                x = i
                while par is not None and f.nodes[par]['k'] in ('cast',):
                    x, par = par, f.parent().get(par)
                m = f.nodes[par] if par is not None else {'k': ''}
                if m['k'] == 'decl':
                    v = [v for v in m['vs'] if v.get('init') is not None and i in set(f.walk(v['init']))]
                    V = (v[0]['n'], f.vars[str(v[0]['d'])].get('l')) if v else None
                elif m['k'] == 'call' and m.get('obj') is not None:
                    V = root(f, m['obj'])
                elif m['k'] == 'asg':
                    V = root(f, m['e'])
                return self.started(F, env, i, u, V or ('temporary', f.at(i)), n['a'])
        if n.get('obj') is not None:
            ot = str(f.nodes[n['obj']].get('t', ''))
            V = root(f, n['obj'])
            if 'std::thread' in ot and 'std::thread::id' not in ot and b in ('emplace_back', 'emplace') and n.get('a') and not any('std::thread' == str(f.nodes[st(f, a)].get('t', '')).replace('const ', '').strip(' &') for a in n['a']):
                return self.started(F, env, i, u, V, n['a'])
            if q == 'std::thread::join' or q == 'std::thread::detach':
                return [('ok', frozenset(t for t in u if not (t[0] == 'run' and t[1] == V)), None)]
            if q.endswith('ThreadPool::enqueue') or b == 'enqueue' and p.get(n.get('f')) is not None and self.pool(f, n['obj']):
                return self.task(F, env, i, u, V)
            g = p.get(n.get('f'))
            if g is not None and g.body is not None:
                if self.W.closure(g, rethrows):
                    u = frozenset(t for t in u if not (t[0] in ('err', 'fut') and t[1] == V))
                    keep = frozenset(t for t in u if not (t[0] == 'task' and t[1] == V and self.W.closure(g, waits)))
                    return [('ok', keep, None), ('exc', keep, None)]
                if self.pool(f, n['obj']) and self.W.closure(g, waits):
                    return [('ok', frozenset(t for t in u if not (t[0] == 'task' and t[1] == V)), None)]
        if q == 'std::rethrow_exception':
            X = root(f, n['a'][0])
            return [('exc', frozenset(t for t in u if not (t[0] == 'err' and t[1] == X)), None)]
        if re.search(r'future(<.*>)?::(get|wait)$', q):
            V = root(f, n['obj'])
            if self.inloop(f, i):
                return [('ok', u, None)] + ([('exc', u, None)] if b == 'get' else [])
            k = frozenset(t for t in u if not (t[0] == 'task' and len(t) > 3 and t[3] == V))
            if b == 'get':
                k2 = frozenset(t for t in k if not (t[0] == 'fut' and len(t) > 3 and t[3] == V))
                return [('ok', k2, None), ('exc', k2, None)]
            return [('ok', k, None)]
        g = p.get(n.get('f'))
        if g is not None and (g.blocks or g.body is not None):
            if g.d.get('lambda') or self.interesting(g):
                return None
            w = self.W.T.may(g)
            return [('ok', u, None)] + ([('exc', u, None)] if w else [])
        return None

    def interesting(self, g):
        if g.id not in self.__dict__.setdefault('_int', {}):
            self._int[g.id] = any(THREADT.search(str(v.get('t', ''))) or FUTV.search(str(v.get('t', ''))) for v in (g.vars[str(d)] for d in g.params if str(d) in g.vars))
        return self._int[g.id]

    def inloop(self, f, i):
        x = f.parent().get(i)
        while x is not None:
            if f.nodes[x]['k'] == 'loop':
                return True
            x = f.parent().get(x)
        return False

    def pool(self, f, x):
        t = re.sub(r'const |std::shared_ptr<|std::unique_ptr<|[ &*>]+$', '', str(f.nodes[st(f, x)].get('t', '')))
        n = f.nodes[st(f, x)]
        if n['k'] == 'call' and n.get('obj') is not None:
            t = re.sub(r'const |std::shared_ptr<|std::unique_ptr<|[ &*>]+$', '', str(f.nodes[st(f, n['obj'])].get('t', '')))
        t = t.split(',')[0].strip()
        return any(c['q'] == t or c['q'].endswith('::' + t) for c in self.W.p.classes.values() if any(VEC.match(str(y.get('t', ''))) for y in c.get('fields', []))) if t else False

    def task(self, F, env, i, u, V):
        f = env.fn
        n = f.nodes[i]
        self.sites[f.at(i)] = (f, i)
        # where the future goes
        par, x = f.parent().get(i), i
        while par is not None and f.nodes[par]['k'] in ('cast', 'ctor'):
            x, par = par, f.parent().get(par)
        fut = None
        if par is not None:
            m = f.nodes[par]
            if m['k'] == 'call' and m.get('obj') is not None and x in m.get('a', []):
                fut = root(f, m['obj'])
            elif m['k'] == 'decl':
                v = [v for v in m['vs'] if v.get('init') is not None and v['init'] >= 0 and i in set(f.walk(v['init']))]
                fut = (v[0]['n'], f.vars[str(v[0]['d'])].get('l')) if v else None
        gs = [g for a in n.get('a', [])[:1] for g in callee(self.W.p, f, a)]
        w = None
        for g in gs:
            w = w or (self.W.T.may(g) if g is not None else None)
        add = {('task', V, f.at(i), fut)}
        if w or not gs:
            add.add(('fut', V, f.at(i), fut))
        return [('ok', u | frozenset(add), None), ('exc', u, None)]

    def throws(self, F, env, i, u):
        return bool(self.W.T.external(env.fn, i))

    def rangeloop(self, F, env, term, enter, u):
        f = env.fn
        if enter:
            return u
        n = f.nodes[term['s']] if isinstance(term.get('s'), int) else None
        if n is None or n.get('range') is None:
            return u
        V = root(f, n['range'])
        if loopjoins(self.W, f, n['body'], joins):
            u = frozenset(t for t in u if not (t[0] == 'run' and t[1] == V))
        if loopjoins(self.W, f, n['body'], lambda m: re.search(r'future(<.*>)?::(get|wait)$', str(m.get('q', '')))):
            u = frozenset(t for t in u if not (t[0] == 'task' and len(t) > 3 and t[3] == V))
        if loopjoins(self.W, f, n['body'], lambda m: re.search(r'future(<.*>)?::get$', str(m.get('q', '')))):
            u = frozenset(t for t in u if not (t[0] == 'fut' and len(t) > 3 and t[3] == V))
        if loopjoins(self.W, f, n['body'], rethrows):
            u = frozenset(t for t in u if not (t[0] == 'err' and t[1] == V))
        return u

    def branch(self, F, env, cond, pol, u):
        f = env.fn
        if u:
            X = absent(f, cond, pol)
            if X:
                u = frozenset(t for t in u if not (t[0] == 'err' and t[1] == X))
            # counted loops that join
            b = self.loopof(f, cond)
            if b is not None and not pol:
                for x in f.walk(f.nodes[b]['body']):
                    m = f.nodes[x]
                    if m['k'] == 'call' and joins(m) and m.get('obj') is not None and loopjoins(self.W, f, f.nodes[b]['body'], joins):
                        V = root(f, m['obj'])
                        u = frozenset(t for t in u if not (t[0] == 'run' and t[1] == V))
        return u

    def loopof(self, f, cond):
        if '_loopc' not in f.__dict__:
            f.__dict__['_loopc'] = {n['c']: i for i, n in enumerate(f.nodes) if n and n['k'] == 'loop' and isinstance(n.get('c'), int)}
        return f.__dict__['_loopc'].get(cond)

    def guardcls(self, t):
        t = re.sub(r'^const |[ &]+$', '', t)
        for c in self.W.p.classes.values():
            if c['q'] == t or c['q'].endswith('::' + t):
                d = [g for g in meths(self.W.p, c['q']) if g.d.get('dtor')]
                if d and self.W.closure(d[0], joins):
                    return c
        return None

    def tracks(self, t):
        if t.strip().endswith(('&', '*')):
            return False
        return self.guardcls(t) is not None

    def dtor(self, F, env, d, t, u, exc):
        f = env.fn
        v = f.vars[str(d)]
        me = (v['n'], v.get('l'))
        drop = {me}
        for val, k, x in f.defs().get(d, []):
            if k == 'decl' and val is not None and isinstance(val, int) and val >= 0:
                for y in f.nodes[st(f, val)].get('a', []):
                    drop.add(root(f, y))
        late = set()
        for x in u:
            if not exc and x[0] in ('run', 'task') and x[1] in drop and x[2] in self.sites:
                g, i = self.sites[x[2]]
                for a in g.nodes[i].get('a', []):
                    y = st(g, a)
                    for c in g.nodes[y].get('caps', []) if g.nodes[y]['k'] == 'lam' else ():
                        w = g.vars.get(str(c.get('d')), {})
                        if c.get('ref') and w.get('k') == 'local' and g is f and (w.get('l') or 0) > (v.get('l') or 0):
                            late.add(('late', x[1], x[2], w['n']))
        return frozenset(x for x in u if not (x[0] in ('run', 'task') and x[1] in drop) and not (x[0] == 'task' and x[1] == me)) | frozenset(late)


def owners(p):
    """classes with a field holding threads"""
    out = []
    for c in p.classes.values():
        for x in c.get('fields', []):
            t = str(x.get('t', ''))
            if (t == 'std::thread' or VEC.match(t)) and c.get('file', '') and not c['q'].startswith('std::'):
                out.append((c, x['n']))
    return out


def dropped(R, W, f, g, what):
    """a handler of a worker that keeps nothing loses the failure"""
    h = H(R, W, None)
    for x, m in enumerate(g.nodes):
        if m and m['k'] == 'try' and x in W.T.live(g):
            w = W.T.within(g, sorted(y for y in g.walk(m['body'])), m['body'])
            if w and not h.cap(g) and not any(g.nodes[y]['k'] == 'throw' for hh in m['hs'] for y in g.walk(hh)):
                R.bad('delivered', g.at(x), 'a handler on the %s started by %s drops the exception: it %s' % (what, f.q, chain(w)), key='drop:' + f.q)


def run(R):
    R.rule('captured', 'no exception leaves work that runs on a thread of its own or in a parallel region', 4)
    R.rule('joined', 'threads started by an operation are joined, and tasks given to a pool are finished, on every way out of it', 4)
    R.rule('delivered', 'an exception kept by a worker or a task is looked at after it has finished', 2)
    R.rule('owned', 'an object that keeps threads joins them when it is destroyed and when its construction fails', 2)
    R.rule('kept', 'a handler that keeps the exception for another thread keeps it on every way through, unless one is kept already', 4)
    done = set()
    for us in UNITS:
        p = R.program(us)
        W = Worker(p)
        fns = sorted((f for f in p.fns.values() if f.body is not None and not f.d.get('implicit')), key=lambda f: (f.rel(), f.line, f.id))
        for f in fns:
            live = W.T.live(f)
            for x, b in keepers(W, f):
                ok, early = keeps(W, f, b)
                R.saw([f])
                R.ob('kept', ok, f.at(early if early is not None else x), 'the exception can be lost here: %s does not keep it on every way through, and none is kept already' % f.q, key='keep:' + f.q)
            starts, tasks, alls, scheds = [], [], [], []
            for i in sorted(live):
                n = f.nodes[i]
                q = str(n.get('q', ''))
                if n['k'] == 'omp' and us in OMP and 'body' in n:
                    w = W.T.within(f, sorted(x for x in f.walk(n['body']) if x in live), n['body'])
                    R.saw([f])
                    R.ob('captured', not w, f.at(w[0][1]) if w else f.at(i), 'an exception can leave a parallel region of %s: it %s' % (f.q, chain(w) if w else ''), key=f.q)
                if us in OMP:
                    continue
                if n['k'] == 'ctor' and n.get('cls') == 'std::thread' and n.get('a') and not n.get('move') and not n.get('copy'):
                    starts.append((i, n['a']))
                if n['k'] == 'call' and n.get('obj') is not None and re.search(r'::(emplace_back|emplace)$', q) and 'std::thread' in str(f.nodes[n['obj']].get('t', '')) and 'thread::id' not in str(f.nodes[n['obj']].get('t', '')) and n.get('a'):
                    if not any('std::thread' == str(f.nodes[st(f, a)].get('t', '')).replace('const ', '').strip(' &') for a in n['a']):
                        starts.append((i, n['a']))
                if n['k'] == 'call' and q.endswith('ThreadPool::enqueue'):
                    tasks.append(i)
                if n['k'] == 'call' and q == 'coro::when_all':
                    alls.append(i)
                if n['k'] == 'call' and q.endswith('Scheduler::schedule') and n.get('a'):
                    scheds.append(i)
            hook = None
            for i, args in starts:
                gs = [g for a in args for g in callee(p, f, a) if g is not None]
                R.saw([f] + gs)
                if not gs:
                    R.bad('captured', f.at(i), 'what %s runs on a new thread cannot be determined' % f.q, key='?' + f.q) if False else R.notes.append('what the thread started at %s runs is not known' % f.at(i))
                    continue
                for g in gs:
                    w = W.T.may(g)
                    R.ob('captured', not w, g.at(w[0][1]) if w else f.at(i), 'an exception can leave the thread started by %s and end the process: it %s' % (f.q, chain(w) if w else ''), key='thread:' + f.q)
                    if local(f, i):
                        dropped(R, W, f, g, 'thread')
            for i in tasks:
                for g in [g for a in f.nodes[i].get('a', [])[:1] for g in callee(p, f, a) if g is not None]:
                    dropped(R, W, f, g, 'pool task')
            if (starts and any(local(f, i) for i, _ in starts)) or tasks:
                hook = H(R, W, None)
                F = Flow(p, hook)
                out = F.run(f, frozenset(), Env(f))
                R.points(F.points) if callable(getattr(R, 'points', None)) else None
                bad = {}
                for kind, u, _ in out:
                    for t in u:
                        if t[0] == 'run' and t[1] and t[1][0] != 'this':
                            bad.setdefault(('joined', t[2]), 'the threads started here by %s are not joined when it %s' % (f.q, 'returns' if kind == 'ok' else 'is left by an exception'))
                        if t[0] == 'task':
                            if kind == 'ok' or True:
                                bad.setdefault(('joined', t[2]), 'tasks given to a pool here by %s can still be running when it %s' % (f.q, 'returns' if kind == 'ok' else 'is left by an exception'))
                        if t[0] == 'late':
                            bad.setdefault(('joined', t[2]), 'work started here by %s refers to %s, which is destroyed before the work is waited for' % (f.q, t[3]))
                        if t[0] in ('err',) and kind == 'ok' and t[1][0] != 'this':
                            bad.setdefault(('delivered', t[2]), '%s returns without looking at the exception its workers kept in %s' % (f.q, t[1][0]))
                        if t[0] == 'fut' and kind == 'ok':
                            bad.setdefault(('delivered', t[2]), '%s returns without looking at the outcome of a task that can fail' % f.q)
                for i in [x for x, _ in starts if local(f, x)] + tasks:
                    for r in ('joined', 'delivered'):
                        m = bad.get((r, f.at(i)))
                        R.ob(r, not m, f.at(i), m or '', key=f.q)
                # a pool is destroyed after what its tasks refer to, unless they were waited for
            for i in alls:
                R.saw([f])
                r = used(f, i)
                gs = members(p, f, i)
                w = None
                for g in gs:
                    w = w or W.T.may(g)
                fail = bool(w) or not gs
                R.ob('delivered', r or not fail, f.at(i), 'the failures of the tasks joined here by %s are never looked at%s' % (f.q, ': one %s' % chain(w) if w else ''), key='when_all:' + f.q)
                if gs and not w and not r:
                    X = set()
                    for g in gs:
                        dropped(R, W, f, g, 'task')
                        X |= H(R, W, None).cap(g)
                    o = owner(p, f)
                    ok = not X or any(n and n['k'] == 'call' and (n.get('q') == 'std::rethrow_exception' and root(o, n['a'][0]) in X or n.get('obj') is not None and root(o, n['obj']) in X and p.get(n.get('f')) is not None and W.closure(p.get(n['f']), rethrows)) for n in o.nodes)
                    R.ob('delivered', ok, f.at(i), '%s does not rethrow the exception its tasks kept' % f.q, key='kept:' + f.q)
            for i in scheds:
                R.saw([f])
                src = handle_of(f, i)
                gs, cont = src
                w = None
                for g in gs:
                    w = w or W.T.may(g)
                ok = not w and gs or any(n and n['k'] == 'call' and rethrows(n) and n.get('obj') is not None and seqroot(f, n['obj']) == cont for n in f.nodes)
                R.ob('delivered', bool(ok), f.at(i), 'the failure of a task scheduled by %s is never looked at%s' % (f.q, ': it %s' % chain(w) if w else ''), key='sched:' + f.q)
        if us in OMP:
            continue
        for c, fld in owners(p):
            if (c['q'], fld) in done:
                continue
            ms = [g for g in meths(p, c['q']) if g.body is not None]
            if not ms:
                continue
            done.add((c['q'], fld))
            R.saw(ms)
            dt = [g for g in ms if g.d.get('dtor') and g.body is not None]
            ok = any(W.closure(g, joins) for g in dt)
            if not ok:
                ok, why = elsewhere(p, W, c)
            R.ob('owned', ok, dt[0].at() if dt else '%s:%s' % (c.get('file', ''), c.get('l', '')), '%s keeps threads in %s and neither it nor its owner joins them when destroyed' % (c['q'], fld), key='%s.%s' % (c['q'], fld))
            for g in ms:
                if not g.d.get('ctor'):
                    continue
                if not any(n and n['k'] == 'call' and n.get('obj') is not None and VEC.match(str(g.nodes[n['obj']].get('t', ''))) and re.search(r'emplace_back$', str(n.get('q', ''))) or n and n['k'] == 'call' and n.get('f') and p.get(n['f']) in ms and any(m and m['k'] == 'call' and m.get('obj') is not None and VEC.match(str(p.get(n['f']).nodes[m['obj']].get('t', ''))) and re.search(r'emplace_back$', str(m.get('q', ''))) for m in p.get(n['f']).nodes) for n in g.nodes):
                    continue
                hk = CtorHook(R, W, None)
                F = Flow(p, hk)
                bad = None
                for kind, u, _ in F.run(g, frozenset(), Env(g)):
                    if kind == 'exc' and any(t[0] == 'run' for t in u):
                        bad = [t for t in u if t[0] == 'run'][0]
                R.ob('owned', not bad, bad[2] if bad else g.at(), 'when a later thread of %s cannot be started, the ones already running are destroyed unjoined, which ends the process' % c['q'], key='ctor:' + c['q'])
    R.assume('running out of memory is not considered', 'locking a mutex does not fail', 'a destructor runs on every way out of the scope of its object')


class CtorHook(H):
    def interesting(self, g):
        return True


def elsewhere(p, W, c):
    """every class that owns objects of class c joins them in its destructor"""
    short = c['q'].rsplit('::', 1)[-1]
    own = [k for k in p.classes.values() if k['q'] != c['q'] and any(re.search(r'\b%s\b' % short, str(x.get('t', ''))) for x in k.get('fields', []))]
    own = [k for k in own if not k['q'].startswith('std::')]
    if not own:
        return False, ''
    for k in own:
        d = [g for g in meths(p, k['q']) if g.d.get('dtor') and g.body is not None]
        if not any(W.closure(g, joins) for g in d):
            return False, k['q']
    # joining an object whose thread never started must be harmless
    for g in meths(p, c['q']):
        for i, n in enumerate(g.nodes):
            if n and n['k'] == 'call' and joins(n):
                par = g.parent().get(i)
                ok = False
                while par is not None:
                    m = g.nodes[par]
                    if m['k'] == 'if' and 'joinable' in g.text(m['c']):
                        ok = True
                    par = g.parent().get(par)
                if not ok and not any(m and m['k'] == 'if' and 'joinable' in g.text(m['c']) for m in g.nodes):
                    return False, g.q
    return True, ''


def local(f, i):
    """the thread started at i is kept in a local object"""
    n = f.nodes[i]
    x = n.get('obj') if n['k'] == 'call' else None
    if x is not None:
        r = root(f, x)
        return bool(r) and r[0] != 'this'
    par = f.parent().get(i)
    while par is not None and f.nodes[par]['k'] == 'cast':
        par = f.parent().get(par)
    m = f.nodes[par] if par is not None else {'k': ''}
    if m['k'] == 'asg':
        return (root(f, m['e']) or ('this',))[0] != 'this'
    if m['k'] == 'call' and m.get('obj') is not None:
        return (root(f, m['obj']) or ('this',))[0] != 'this'
    return True


def used(f, i):
    """the outcomes of a joined group are looked at: kept in a variable on which a rethrowing access is made, or passed on"""
    x = i
    par = f.parent().get(x)
    while par is not None and f.nodes[par]['k'] in ('cast', 'await', 'ctor') or par is not None and f.nodes[par]['k'] == 'call' and f.nodes[par].get('q', '').startswith('coro::'):
        x, par = par, f.parent().get(par)
    if par is None:
        return False
    m = f.nodes[par]
    if m['k'] == 'ret':
        return True
    if m['k'] == 'call':
        return True
    if m['k'] == 'loop' and m.get('range') is not None:
        return loopjoins(None, f, m['body'], rethrows)
    if m['k'] == 'decl':
        for v in m['vs']:
            if v.get('init') is not None and v['init'] >= 0 and i in set(f.walk(v['init'])):
                d = v['d']
                for y, k in enumerate(f.nodes):
                    if k and k['k'] == 'loop' and k.get('range') is not None and any(f.nodes[z]['k'] == 'ref' and f.nodes[z].get('d') == d for z in f.walk(k['range'])):
                        if loopjoins(None, f, k['body'], rethrows):
                            return True
                    if k and k['k'] == 'call' and any(f.nodes[z]['k'] == 'ref' and f.nodes[z].get('d') == d for a in k.get('a', []) for z in f.walk(a)) and k.get('f'):
                        g = f.p.get(k['f'])
                        if g is not None and g.body is not None and any(z and z['k'] == 'call' and rethrows(z) for z in g.nodes):
                            return True
                    if k and k['k'] == 'call' and rethrows(k) and k.get('obj') is not None and any(f.nodes[z]['k'] == 'ref' and f.nodes[z].get('d') == d for z in f.walk(k['obj'])):
                        return True
    return False


def members(p, f, i):
    """coroutines put into the container joined at i"""
    out = []
    n = f.nodes[i]
    r = None
    for a in n.get('a', []):
        r = root(f, a)
    if r is None:
        return out
    for x, m in enumerate(f.nodes):
        if m and m['k'] == 'call' and m.get('obj') is not None and re.search(r'::(emplace_back|push_back)$', str(m.get('q', ''))) and root(f, m['obj']) == r:
            for a in m.get('a', []):
                y = st(f, a)
                while f.nodes[y]['k'] == 'ctor' and len(f.nodes[y].get('a', [])) == 1:
                    y = st(f, f.nodes[y]['a'][0])
                g = p.get(f.nodes[y].get('f')) if f.nodes[y]['k'] == 'call' else None
                if g is None:
                    return []
                out.append(g)
    return out


def owner(p, f):
    while f.d.get('lambda') and f.d.get('parent') and p.get(f.d['parent']) is not None:
        f = p.get(f.d['parent'])
    return f


def seqroot(f, x):
    """variable a value is taken from, through the variable of a range loop"""
    r = root(f, x)
    for n in f.nodes:
        if n and n['k'] == 'loop' and n.get('range') is not None and n.get('var') is not None:
            v = n['var']
            vs = f.nodes[v]['vs'] if isinstance(v, int) and f.nodes[v]['k'] == 'decl' else []
            for w in vs:
                if (w['n'], f.vars[str(w['d'])].get('l')) == r:
                    return root(f, n['range'])
            if isinstance(v, int) and str(v) in f.vars and (f.vars[str(v)]['n'], f.vars[str(v)].get('l')) == r:
                return root(f, n['range'])
    return r


def handle_of(f, i):
    """(coroutines whose handle is scheduled, the container they are kept in)"""
    n = f.nodes[i]
    p = f.p
    c = root(f, n['a'][0])
    gs = []
    for x, m in enumerate(f.nodes):
        if m and m['k'] == 'call' and m.get('obj') is not None and re.search(r'::(emplace_back|push_back)$', str(m.get('q', ''))) and root(f, m['obj']) == c:
            for a in m.get('a', []):
                y = st(f, a)
                while f.nodes[y]['k'] == 'ctor' and len(f.nodes[y].get('a', [])) == 1:
                    y = st(f, f.nodes[y]['a'][0])
                g = p.get(f.nodes[y].get('f')) if f.nodes[y]['k'] == 'call' else None
                if g is not None:
                    gs.append(g)
    return gs, c
