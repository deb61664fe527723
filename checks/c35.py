"""C35: scopes in which the interpreter lock is released or a native lock is held, closed over the call graph; no operation on a Python object may be reachable inside them."""
import re
from vf.flow import *
from vf.util import *

PLAIN = re.compile(r'pybind11::(\w+_error|stop_iteration|ssize_t|size_t|gil_scoped_\w+|call_guard|reference_cast_error)\b')
CAPI = re.compile(r'^(_?Py[A-Z]\w*|_Py\w+)$')
GIL_FREE = {'PyGILState_Check', 'Py_IsInitialized'}
LOCKS = re.compile(r'std::(lock_guard|unique_lock|shared_lock|scoped_lock)<')


def pytype(p, t, depth=0):
    """values of this type hold references to Python objects"""
    t = str(t)
    if 'pybind11::' in t:
        if PLAIN.search(t) and not re.search(r'pybind11::(?!\w+_error|stop_iteration|ssize_t|size_t|gil_scoped_|call_guard|reference_cast_error)', t) and 'error_already_set' not in t:
            return False
        return True
    b = t.replace('const ', '').replace('&', '').strip()
    if depth < 3 and not b.endswith('*'):
        for c in holders(p).get(b, ()):
            return True
    return False


def holders(p):
    """classes of the bindings with a field that holds Python objects"""
    if '_pyholders' not in p.__dict__:
        H = {}
        for c in p.classes.values():
            if c['q'].startswith(('pybind11::', 'std::')):
                continue
            for x in c.get('fields', []):
                if 'pybind11::' in str(x.get('t', '')) and not str(x['t']).strip().endswith(('*', '&')):
                    H.setdefault(c['q'], []).append(x['n'])
        p.__dict__['_pyholders'] = H
    return p.__dict__['_pyholders']


def op(p, f, i):
    """what node i does to Python objects, or None"""
    n = f.nodes[i]
    if n['k'] == 'call':
        q = n.get('q', '')
        if CAPI.match(q.rsplit('::', 1)[-1]) and not q.startswith(('alaya::', 'std::')) and q.rsplit('::', 1)[-1] not in GIL_FREE:
            return 'calls %s' % q
        if q.startswith('pybind11::') and not PLAIN.match(q):
            return 'calls %s' % q
    if n['k'] == 'ctor':
        c = str(n.get('cls', ''))
        if pytype(p, c):
            return 'creates a %s' % c
    if n['k'] == 'decl':
        for v in n['vs']:
            t = str(v.get('t', ''))
            if pytype(p, t) and not t.strip().endswith(('&', '*')) :
                return 'holds %s of type %s' % (v['n'], t)
    if n['k'] == 'lam':
        for c in n.get('caps', []):
            if c.get('ref') or c.get('this'):
                continue
            t = str(f.vars.get(str(c.get('d')), {}).get('t', ''))
            if pytype(p, t) and not t.strip().endswith('*') or 'init' in c and pytype(p, str(f.nodes[c['init']].get('t', ''))):
                return 'copies %s, of type %s, into a lambda' % (c.get('n'), t)
    if n['k'] == 'cast' and pytype(p, n.get('t', '')) and str(n.get('ck', '')) in ('ConstructorConversion', 'UserDefinedConversion'):
        return 'converts to %s' % n['t']
    return None


def regions(f):
    """(kind, decl node, nodes of the scope after it): release / acquire / lock"""
    out = []
    par = f.parent()
    for i in f.walk():
        n = f.nodes[i]
        if n['k'] != 'decl':
            continue
        for v in n['vs']:
            t = str(v.get('t', ''))
            kind = 'release' if re.search(r'pybind11::gil_scoped_release\b', t) else 'acquire' if re.search(r'pybind11::gil_scoped_acquire\b', t) else 'lock' if LOCKS.search(t) and not t.strip().endswith('&') else None
            if not kind:
                continue
            x = i
            while x in par and f.nodes[par[x]]['k'] != 'block':
                x = par[x]
            b = par.get(x)
            if b is None:
                continue
            ss = f.nodes[b]['ss']
            nodes = set()
            for s in ss[ss.index(x) + 1:]:
                nodes |= set(f.walk(s))
            out.append((kind, i, nodes, v['n']))
    return out


class Reach:
    def __init__(self, p):
        self.p, self.memo = p, {}

    def regs(self, f):
        if '_pyreg' not in f.__dict__:
            f.__dict__['_pyreg'] = regions(f)
        return f.__dict__['_pyreg']

    def inside(self, f, nodes, kind, seen):
        """first Python operation reachable from these nodes while the GIL is as at their start, not counting inner scopes that change it; kind: what ends the search ('acquire' when released, 'release' when held)"""
        skip = set()
        for k, d, ns, _ in self.regs(f):
            if k == kind and d in nodes:
                skip |= ns
        for i in sorted(nodes, key=lambda i: (f.nodes[i]['l'], i)):
            if i in skip:
                continue
            w = op(self.p, f, i)
            if w:
                return [(f, i, w)]
            n = f.nodes[i]
            for g in self.targets(f, i):
                if g.id in seen or not (g.rel().startswith(('python/', 'include/'))):
                    continue
                r = self.inside(g, set(g.walk()), kind, seen | {g.id})
                if r:
                    return [(f, i, 'calls %s' % g.q)] + r
        return None

    def targets(self, f, i):
        n = f.nodes[i]
        out = []
        if n['k'] in ('call', 'ctor'):
            g = self.p.get(n.get('f'))
            if g is not None and (g.blocks or g.body is not None):
                out.append(g)
        if n['k'] == 'lam':
            fs = n['f'] if isinstance(n.get('f'), list) else [n.get('f')]
            out += [g for g in (self.p.get(x) for x in fs) if g is not None]
        return out


THREADS = re.compile(r'(::enqueue|::submit|std::async|::post|::spawn)$')


def starts(f, n):
    """node n hands its arguments to another thread"""
    if n['k'] == 'ctor':
        return bool(re.match(r'std::j?thread\b', str(n.get('cls', ''))))
    if n['k'] != 'call':
        return False
    o = n.get('obj')
    if isinstance(o, int) and o >= 0 and re.search(r'std::vector<std::j?thread', str(f.nodes[o].get('t', ''))):
        return True
    return bool(THREADS.search(n.get('q', '')))


def run(R):
    R.rule('released', 'no operation on a Python object is reachable while the interpreter lock is released', 15)
    R.rule('threads', 'work handed to other threads performs no operation on a Python object', 1)
    R.rule('locks', 'the interpreter lock is not taken, given up or needed while a native lock is held', 5)
    done = set()
    for u in ('py', 'pydiskann'):
        p = R.program(u)
        X = Reach(p)
        for f in sorted(p.fns.values(), key=lambda f: (f.rel(), f.line, f.id)):
            if not f.rel().startswith('python/') or f.body is None or f.d.get('implicit'):
                continue
            for kind, d, nodes, name in X.regs(f):
                R.saw([f])
                key = '%s:%s' % (f.q, name)
                if kind == 'release':
                    r = X.inside(f, nodes, 'acquire', {f.id})
                    R.ob('released', not r, f.at(r[0][1]) if r else f.at(d), '%s %s while the interpreter lock is released' % (f.q, chain(r)), key=key)
                elif kind == 'lock':
                    bad = None
                    for k2, d2, n2, nm in X.regs(f):
                        if k2 in ('release', 'acquire') and d2 in nodes:
                            bad = (f, d2, 'waits for the interpreter lock (%s)' % nm)
                    # is the interpreter lock held here at all?
                    rel = [ns for k2, d2, ns, _ in X.regs(f) if k2 == 'release' and d in ns]
                    if not bad and not rel:
                        r = X.inside(f, nodes, 'release', {f.id})
                        if r:
                            bad = (f, r[0][1], chain(r))
                    if not bad:
                        r = changes(X, f, nodes, {f.id})
                        if r:
                            bad = (f, r[0][1], chain(r))
                    R.ob('locks', not bad, f.at(bad[1]) if bad else f.at(d), '%s %s while it holds %s' % (f.q, bad[2] if bad else '', name), key=key)
            for i in f.walk():
                n = f.nodes[i]
                if starts(f, n):
                    for a in n.get('a', []):
                        for x in f.walk(a):
                            if f.nodes[x]['k'] == 'lam':
                                for g in X.targets(f, x):
                                    r = X.inside(g, set(g.walk()), 'acquire', {g.id})
                                    R.saw([g])
                                    R.ob('threads', not r, g.at(r[0][1]) if r else f.at(i), 'work started by %s on another thread %s' % (f.q, chain(r)), key=f.q)
                # a guard that covers the whole call
                if n['k'] in ('call', 'ctor') and any(re.search(r'call_guard<.*gil_scoped_release', str(f.nodes[strip(f, a)].get('t', ''))) for a in n.get('a', [])):
                    for g in bound(p, X, f, n):
                        r = X.inside(g, set(g.walk()), 'acquire', {g.id})
                        py = [v for v in (g.vars[str(d)] for d in g.params) if pytype(p, v.get('t', '')) and not str(v.get('t', '')).strip().endswith('&')]
                        R.ob('released', not r and not py, g.at(r[0][1]) if r else g.at(), '%s, bound with a guard that releases the interpreter lock, %s' % (g.q, chain(r) if r else 'takes Python objects by value'), key='guard:' + g.q)
    R.assume('pybind11 holds the interpreter lock when it calls a bound function without a call guard, and converts arguments and results outside the guard', 'throwing the plain exception types of pybind11 (value_error, type_error, key_error, ...) touches no Python object')


def bound(p, X, f, n):
    out = []
    for a in n.get('a', []):
        for x in f.walk(a):
            m = f.nodes[x]
            if m['k'] == 'lam':
                out += X.targets(f, x)
            if m['k'] in ('ref', 'mem') and m.get('isfn'):
                out += [g for g in p.fns.values() if g.q == m.get('q') and g.body is not None]
    return out


def changes(X, f, nodes, seen):
    """a call reachable from these nodes that gives up or takes the interpreter lock"""
    for i in sorted(nodes):
        for g in X.targets(f, i):
            if g.id in seen or not g.rel().startswith('python/'):
                continue
            for k, d, ns, nm in X.regs(g):
                if k in ('release', 'acquire'):
                    return [(f, i, 'calls %s' % g.q), (g, d, 'waits for the interpreter lock (%s)' % nm)]
            r = changes(X, g, set(g.walk()), seen | {g.id})
            if r:
                return [(f, i, 'calls %s' % g.q)] + r
    return None


def chain(r):
    if not r:
        return ''
    return ', which '.join('%s' % w for _, _, w in r) + ' (%s)' % r[-1][0].at(r[-1][1]).split(' ')[0]
