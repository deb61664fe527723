"""C36: which ranges of each output array every way through a search writes, composed over helpers, against the requested number; padding values; what callers of a prefix-writing search put into the array before."""
import re
from vf.prog import *
from vf.util import *

KNAMES = ('topk', 'top_k', 'k', 'knn', 'topk_')
UNITS = ('space', 'diskann', 'py', 'pydiskann')


def st(f, x):
    while x is not None and x >= 0 and f.nodes[x]['k'] == 'cast':
        x = f.nodes[x]['e']
    return x


class Frame:
    def __init__(self, f, up=None, call=None):
        self.f, self.up, self.call = f, up, call

    def depth(self):
        return 0 if self.up is None else 1 + self.up.depth()

    def arg(self, d):
        """(frame, node) of the argument of parameter d"""
        if self.up is None or d not in self.f.params:
            return None
        a = self.up.f.nodes[self.call].get('a', [])
        i = self.f.params.index(d)
        return (self.up, a[i]) if i < len(a) else None


def outer_decl(f, v):
    """(enclosing function, decl) of a captured variable"""
    g = f
    while g.d.get('parent'):
        g = f.p.get(g.d['parent'])
        if g is None:
            return None
        for dk, w in g.vars.items():
            if w['k'] in ('local', 'param') and w['n'] == v['n'] and w.get('l') == v.get('l'):
                return g, int(dk)
    return None


def term(fr, x, depth=0):
    f = fr.f
    x = st(f, x)
    if x is None or x < 0 or depth > 30:
        return ('?', f.id, x)
    n = f.nodes[x]
    k = n['k']
    cv = n.get('cv', n.get('v') if k == 'lit' else None)
    if cv is not None and k != 'str':
        try:
            return ('lit', int(cv))
        except (TypeError, ValueError):
            return ('lit', str(cv))
    if k == 'ref' and 'd' in n:
        d = n['d']
        v = f.vars[str(d)]
        if v['k'] == 'param':
            a = fr.arg(d)
            if a is not None:
                return term(a[0], a[1], depth + 1)
            return ('p', v['n'], f.id)
        if v['k'] == 'local':
            sd = f.single_def(d)
            if sd is not None and sd >= 0:
                return term(fr, sd, depth + 1)
            return ('l', d, f.id)
        if v['k'] == 'outer':
            o = outer_decl(f, v)
            if o is not None:
                if o[0].vars[str(o[1])]['k'] == 'param':
                    return ('p', v['n'], o[0].id)
                sd = o[0].single_def(o[1])
                if sd is not None and sd >= 0:
                    return term(Frame(o[0]), sd, depth + 1)
                return ('l', o[1], o[0].id)
        return ('g', n.get('n'))
    if k == 'mem':
        b = st(f, n['b']) if n.get('b') is not None else None
        bt = term(fr, b, depth + 1) if b is not None and b >= 0 else ('this',)
        if bt[0] == 'init':
            for fl, t in bt[2]:
                if fl == n['n']:
                    return t
        return ('m', bt, n['n'])
    if k == 'init':
        fs = n.get('fs') or []
        return ('init', x, tuple((fs[j] if j < len(fs) else j, term(fr, a, depth + 1)) for j, a in enumerate(n.get('a', [])) if a is not None and a >= 0))
    if k == 'ctor' and n.get('a') and (n.get('copy') or n.get('move')):
        return term(fr, n['a'][0], depth + 1)
    if k == 'this':
        if fr.up is not None and not f.d.get('lambda'):
            o = fr.up.f.nodes[fr.call].get('obj')
            if o is not None and o >= 0:
                return term(fr.up, o, depth + 1)
        return ('this',)
    if k == 'call':
        q = str(n.get('q', ''))
        g = f.p.get(n.get('f')) if n.get('f') else None
        if g is not None and not n.get('a') and n.get('obj') is not None and n['obj'] >= 0 and fr.depth() < 12 and g.body is not None and g.body >= 0:
            # a getter is what it returns
            ss = g.nodes[g.body].get('ss', [])
            if len(ss) == 1 and g.nodes[ss[0]]['k'] == 'ret' and g.nodes[ss[0]].get('e') is not None and g.nodes[st(g, g.nodes[ss[0]]['e'])]['k'] == 'mem':
                return term(Frame(g, fr, x), g.nodes[ss[0]]['e'], depth + 1)
        if q in ('std::min', 'std::max'):
            return (q[5:],) + tuple(sorted((term(fr, a, depth + 1) for a in n['a']), key=repr))
        return ('c', q, term(fr, n['obj'], depth + 1) if n.get('obj') is not None and n['obj'] >= 0 else None) + tuple(term(fr, a, depth + 1) for a in n.get('a', []))
    if k == 'bin':
        a, b = term(fr, n['e'], depth + 1), term(fr, n['r'], depth + 1)
        if n['op'] == '+':
            return add(a, b)
        if n['op'] == '-' and b == ZERO:
            return a
        if n['op'] == '*' and repr(b) < repr(a):
            a, b = b, a
        return ('bin', n['op'], a, b)
    if k == 'cond':
        return ('cond', term(fr, n['c'], depth + 1), term(fr, n['a1'], depth + 1), term(fr, n['a2'], depth + 1))
    if k == 'un':
        return ('un', n['op'], term(fr, n['e'], depth + 1))
    if k == 'idx':
        return ('idx', term(fr, n['b'], depth + 1), term(fr, n['i'], depth + 1))
    return ('?', f.id, x)


ZERO = ('lit', 0)


def add(a, b):
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    for x, y in ((a, b), (b, a)):
        # from + (to - from)
        if y[0] == 'bin' and y[1] == '-' and y[3] == x:
            return y[2]
    if repr(b) < repr(a):
        a, b = b, a
    return ('bin', '+', a, b)


def ptr(fr, x, stop=(), depth=0):
    """(root, offset) of a pointer expression; root is the variable, seen from the outermost frame"""
    f = fr.f
    x = st(f, x)
    if x is None or x < 0 or depth > 30:
        return None
    n = f.nodes[x]
    if n['k'] == 'ref' and 'd' in n:
        d = n['d']
        v = f.vars[str(d)]
        if (f.id, d) in stop:
            return (f.id, d), ZERO
        if v['k'] == 'param':
            a = fr.arg(d)
            return ptr(a[0], a[1], stop, depth + 1) if a is not None else ((f.id, d), ZERO)
        if v['k'] == 'local':
            sd = f.single_def(d)
            if sd is not None and sd >= 0 and ('*' in str(v.get('t', '')) or 'iterator' in str(v.get('t', ''))):
                r = ptr(fr, sd, stop, depth + 1)
                if r is not None:
                    return r
            return (f.id, d), ZERO
        if v['k'] == 'outer':
            o = outer_decl(f, v)
            if o is not None:
                if o[0].vars[str(o[1])]['k'] == 'local' and o not in stop:
                    sd = o[0].single_def(o[1])
                    if sd is not None and sd >= 0 and '*' in str(v.get('t', '')):
                        r = ptr(Frame(o[0]), sd, stop, depth + 1)
                        if r is not None:
                            return r
                return (o[0].id, o[1]), ZERO
        return None
    if n['k'] == 'bin' and n['op'] == '+':
        for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
            if '*' in str(f.nodes[st(f, a)].get('t', '')) or 'iterator' in str(f.nodes[st(f, a)].get('t', '')):
                r = ptr(fr, a, stop, depth + 1)
                if r is not None:
                    return r[0], add(r[1], term(fr, b))
        return None
    if n['k'] == 'un' and n['op'] == '&':
        m = f.nodes[st(f, n['e'])]
        if m['k'] == 'idx':
            r = ptr(fr, m['b'], stop, depth + 1)
            return (r[0], add(r[1], term(fr, m['i']))) if r is not None else None
    if n['k'] == 'call' and n.get('obj') is not None and re.search(r'::(data|begin)$', str(n.get('q', ''))):
        return ptr(fr, n['obj'], stop, depth + 1)
    if n['k'] == 'call' and str(n.get('q', '')) in ('std::next',) and len(n.get('a', [])) == 2:
        r = ptr(fr, n['a'][0], stop, depth + 1)
        return (r[0], add(r[1], term(fr, n['a'][1]))) if r is not None else None
    return None


class Cover:
    """ranges (root, lo, hi) of the watched arrays written on every way through"""

    def __init__(self, p, roots, stop=()):
        self.p, self.roots, self.stop = p, set(roots), set(stop)
        self.values = []
        self.exits = []
        self.seen = set()
        self.zero = set()

    def at(self, fr, x):
        r = ptr(fr, x, self.stop)
        return r if r is not None and r[0] in self.roots else None

    def fn(self, fr, S, ways=False):
        """state after the function returns normally (None: never); returns inside are joined"""
        f = fr.f
        if f.body is None or f.body < 0:
            return S
        self.seen.add(f.id)
        saved, self.exits = self.exits, []
        out = self.stmt(fr, f.body, frozenset(S))
        if fr.up is None:
            tops = [(s, x) for s, x, kind in self.exits if kind in ('ret', 'retT')] + ([(out, None)] if out is not None else [])
            self.exits = saved
            return tops
        outs = [(s, kind) for s, x, kind in self.exits if kind.startswith('ret')] + ([(out, 'ret')] if out is not None else [])
        self.exits = saved
        if ways:
            return self.joined(s for s, k in outs if k != 'retF'), self.joined(s for s, k in outs if k != 'retT')
        return self.joined(s for s, k in outs)

    def joined(self, outs):
        r = None
        for s in outs:
            r = self.join(r, s)
        return r

    def branch(self, fr, c, S):
        """states where the condition holds and where it does not"""
        f = fr.f
        c = st(f, c)
        n = f.nodes[c]
        if n['k'] == 'un' and n['op'] == '!':
            a, b = self.branch(fr, n['e'], S)
            return b, a
        if n['k'] == 'lit' and n.get('v') in ('true', 'false'):
            return (S, None) if n['v'] == 'true' else (None, S)
        if n['k'] == 'call' and str(n.get('t', '')) == 'bool':
            r = self.expr(fr, c, S, True)
            if isinstance(r, tuple):
                return r
            S = r
        elif not (n['k'] == 'ref' or n['k'] == 'lit'):
            S = self.expr(fr, c, S)
        if S is None:
            return None, None
        return self.assume(fr, c, True, S), self.assume(fr, c, False, S)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        # what one side writes element-wise up to a point and the other in one piece agree only when equal or covered
        return frozenset(x for x in a | b if self.covers(a, x) and self.covers(b, x))

    def covers(self, S, x):
        if x in S:
            return True
        root, lo, hi = x
        if ('all', root) in {(y[1], y[0]) for y in S if y[1] == 'all'}:
            return True
        return self.chain(S, root, lo, hi)

    def chain(self, S, root, lo, hi):
        here, seen = {lo}, {lo}
        ivs = [(y[1], y[2]) for y in S if y[0] == root and len(y) == 3 and y[1] != 'all']
        if any(y[0] == root and y[1] == 'all' for y in S):
            return True
        while here:
            nxt = set()
            for a, b in ivs:
                if a in here and b not in seen:
                    nxt.add(b)
                    seen.add(b)
            if hi in seen:
                return True
            here = nxt
        return hi in seen or lo == hi

    # ---- statements
    def stmt(self, fr, x, S):
        f = fr.f
        if x is None or x < 0:
            return S
        n = f.nodes[x]
        k = n['k']
        if k in ('block', 'cobody', 'captured', 'omp'):
            ss = n.get('ss')
            if ss is None:
                ss = [n['body']] if n.get('body') is not None else []
            for y in ss:
                S = self.stmt(fr, y, S)
                if S is None:
                    return None
            return S
        if k == 'if':
            for y in (n.get('init'),):
                if y is not None and y >= 0:
                    S = self.stmt(fr, y, S)
            if n.get('cx'):
                # the other branch does not exist in this instance
                cv = f.nodes[n['c']].get('cv')
                cv = f.nodes[st(f, n['c'])].get('cv') if cv is None else cv
                if cv is not None:
                    y = n['th'] if int(cv) else n.get('el')
                    return self.stmt(fr, y, S) if y is not None and y >= 0 else S
            a, b = self.branch(fr, n['c'], S)
            a = self.stmt(fr, n['th'], a) if a is not None else None
            b = self.stmt(fr, n['el'], b) if b is not None and n.get('el') is not None and n['el'] >= 0 else b
            return self.join(a, b)
        if k == 'loop':
            return self.loop(fr, x, S)
        if k == 'switch':
            return self.switch(fr, n, S)
        if k == 'try':
            out = self.stmt(fr, n['body'], S)
            for h in n.get('hs', []):
                hb = f.nodes[h].get('body', -1)
                out = self.join(out, self.stmt(fr, hb, S))
            return out
        if k == 'ret':
            if n.get('e') is not None and n['e'] >= 0:
                if str(f.nodes[n['e']].get('t', '')) == 'bool':
                    a, b = self.branch(fr, n['e'], S)
                    self.exits += [(s, x, kd) for s, kd in ((a, 'retT'), (b, 'retF')) if s is not None]
                    return None
                S = self.expr(fr, n['e'], S)
            if S is not None:
                self.exits.append((S, x, 'ret'))
            return None
        if k in ('break', 'continue'):
            self.exits.append((S, x, k))
            return None
        if k == 'decl':
            for v in n['vs']:
                if v.get('init') is not None and v['init'] >= 0:
                    S = self.expr(fr, v['init'], S)
                    if S is None:
                        return None
            return S
        return self.expr(fr, x, S)

    def switch(self, fr, n, S):
        f = fr.f
        mark = len(self.exits)
        body = f.nodes[n['body']].get('ss', [n['body']])
        ends, cur, default = [], None, False
        for y in body:
            z = y
            while f.nodes[z]['k'] in ('case', 'default'):
                cur = self.join(cur, S) if cur is not None else S
                default = default or f.nodes[z]['k'] == 'default'
                z = f.nodes[z].get('s', -1)
                if z is None or z < 0:
                    break
            if cur is not None and z is not None and z >= 0:
                cur = self.stmt(fr, z, cur)
        for s, x, kind in self.exits[mark:]:
            if kind == 'break':
                ends.append(s)
        self.exits[mark:] = [e for e in self.exits[mark:] if e[2] != 'break']
        if cur is not None:
            ends.append(cur)
        if not default and not n.get('enum'):
            ends.append(S)
        out = None
        for s in ends:
            out = self.join(out, s)
        return out

    def assume(self, fr, c, pol, S):
        """a null output asks for nothing; a request for zero results is satisfied by writing none"""
        f = fr.f
        c = st(f, c)
        n = f.nodes[c]
        if n['k'] == 'un' and n['op'] == '!':
            return self.assume(fr, n['e'], not pol, S)
        if n['k'] == 'bin' and n['op'] in ('&&', '||'):
            if pol == (n['op'] == '&&'):
                return self.assume(fr, n['r'], pol, self.assume(fr, n['e'], pol, S))
            return S
        if n['k'] == 'bin' and n['op'] in ('==', '!=', '>', '<', '>=', '<='):
            for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
                m = f.nodes[st(f, b)]
                r = self.at(fr, a)
                if r is not None and m['k'] == 'lit' and m.get('v') == 'null' and (n['op'] == '==') == pol and n['op'] in ('==', '!='):
                    return S | {(r[0], 'all', 'all')}
            t, u = term(fr, n['e']), term(fr, n['r'])
            eq = n['op'] == '==' and pol or n['op'] == '!=' and not pol
            le = n['op'] == '>=' and pol or n['op'] == '<' and not pol
            for a, b, w in ((t, u, n['op']), (u, t, {'>=': '<=', '<': '>'}.get(n['op'], n['op']))):
                if eq and b == ZERO or w == '>' and not pol and b == ZERO:
                    self.zero.add(a)
                    S = S | {(r, ZERO, a) for r in self.roots}
            if le and (t[0] != 'lit' or t == ZERO) or eq and t[0] != 'lit' and u[0] != 'lit':
                # lo >= hi: the range [lo, hi) is empty
                S = S | {(r, t, u) for r in self.roots}
        elif n['k'] == 'ref' or n['k'] == 'mem':
            r = self.at(fr, c)
            if r is not None and not pol:
                return S | {(r[0], 'all', 'all')}
        return S

    def loop(self, fr, x, S):
        f = fr.f
        n = f.nodes[x]
        if n.get('init') is not None and n['init'] >= 0:
            S = self.stmt(fr, n['init'], S)
        c = n.get('c')
        var, bound, lo = self.counter(fr, x)
        mark = len(self.exits)
        out = self.stmt(fr, n['body'], frozenset())
        conts = [s for s, y, k in self.exits[mark:] if k == 'continue']
        brk = any(k == 'break' or k.startswith('ret') for s, y, k in self.exits[mark:])
        rets = [(s | S, y, k) for s, y, k in self.exits[mark:] if k.startswith('ret')]
        self.exits[mark:] = rets
        each = out
        for s in conts:
            each = self.join(each, s)
        if n.get('lk') == 'do' and not brk and each:
            S = S | {w for w in each if w[1] != ('it', x)}
        if each and var is not None and not brk:
            for w in each:
                if len(w) == 3 and w[1] == var and w[2] == ('next', var):
                    S = S | {(w[0], lo, bound)}
        if each and not brk and var is not None:
            # rows: [i*K, i*K + K)
            for w in each:
                if len(w) == 3 and isinstance(w[1], tuple) and w[1][:2] == ('bin', '*') and var in w[1][2:]:
                    K = w[1][3] if w[1][2] == var else w[1][2]
                    if lo == ZERO and w[2] == add(w[1], K):
                        S = S | {(w[0], ZERO, mul(bound, K))}
        return S

    def counter(self, fr, x):
        """(variable term, bound, start) of a loop that takes every value from start to bound"""
        f = fr.f
        n = f.nodes[x]
        c = n.get('c')
        if c is None or c < 0:
            return None, None, None
        m = f.nodes[st(f, c)]
        if m['k'] != 'bin' or m['op'] not in ('<', '!=', '>'):
            return None, None, None
        for a, b, op in ((m['e'], m['r'], m['op']), (m['r'], m['e'], {'<': '>', '>': '<'}.get(m['op'], m['op']))):
            v = f.nodes[st(f, a)]
            if v['k'] != 'ref' or 'd' not in v or op == '>':
                continue
            d = v['d']
            incs = [y for y in f.walk(x) if f.nodes[y]['k'] == 'un' and f.nodes[y]['op'] == '++' and f.nodes[st(f, f.nodes[y]['e'])].get('d') == d or f.nodes[y]['k'] == 'asg' and f.nodes[st(f, f.nodes[y]['e'])].get('d') == d and f.nodes[y]['op'] == '+=' and f.nodes[st(f, f.nodes[y]['r'])].get('v', f.nodes[st(f, f.nodes[y]['r'])].get('cv')) in ('1', 1)]
            others = [y for y in f.walk(x) if f.nodes[y]['k'] == 'asg' and f.nodes[st(f, f.nodes[y]['e'])].get('d') == d and y not in incs and f.nodes[y] is not None and not (n.get('init') is not None and n['init'] >= 0 and y in set(f.walk(n['init'])))]
            if len(incs) != 1 or others:
                continue
            start = None
            for val, kind, node in f.defs().get(d, []):
                if kind == 'decl' and val is not None and val >= 0:
                    start = term(fr, val)
            if start is None:
                continue
            if node_before(f, d, x) is not None:
                start = node_before(f, d, x) if not isinstance(node_before(f, d, x), int) else term(fr, node_before(f, d, x))
            return ('l', d, f.id), term(fr, b), start
        return None, None, None

    # ---- expressions
    def expr(self, fr, x, S, ways=False):
        f = fr.f
        x = st(f, x)
        if x is None or x < 0:
            return S
        n = f.nodes[x]
        k = n['k']
        if k == 'throw':
            return None
        if k == 'lam':
            return S
        if k == 'asg':
            S = self.expr(fr, n['r'], S)
            if S is None:
                return None
            return self.write(fr, n['e'], n['r'], S)
        if k == 'call' and n.get('op') == '=' and n.get('obj') is not None:
            S = self.expr(fr, n['a'][0], S)
            if S is None:
                return None
            return self.write(fr, n['obj'], n['a'][0], S)
        if k == 'cond':
            S = self.expr(fr, n['c'], S)
            return self.join(self.expr(fr, n['a1'], S), self.expr(fr, n['a2'], S))
        if k == 'bin' and n['op'] in ('&&', '||'):
            return self.expr(fr, n['e'], S)
        for a in ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a', [])) + [n[z] for z in ('e', 'r', 'b', 'i') if isinstance(n.get(z), int)]:
            if a is not None and a >= 0:
                S = self.expr(fr, a, S)
                if S is None:
                    return None
        if k == 'call':
            return self.call(fr, x, n, S, ways)
        return S

    def write(self, fr, l, v, S):
        f = fr.f
        m = f.nodes[st(f, l)]
        if m['k'] == 'idx' or m['k'] == 'call' and m.get('op') == '[]' and m.get('a'):
            b, i = (m['b'], m['i']) if m['k'] == 'idx' else (m['obj'] if m.get('obj') is not None else m['a'][0], m['a'][-1])
            r = self.at(fr, b)
            if r is not None:
                i = term(fr, i)
                lo = add(r[1], i)
                self.values.append((r[0], fr, v, 'element'))
                return S | {(r[0], lo, ('next', lo))}
        if m['k'] == 'un' and m['op'] == '*':
            r = self.at(fr, m['e'])
            if r is not None:
                return S | {(r[0], r[1], ('next', r[1]))}
        return S

    def call(self, fr, x, n, S, ways=False):
        f = fr.f
        q = str(n.get('q', '')).split('<')[0]
        a = n.get('a', [])
        if q in ('std::fill', 'std::iota', 'std::generate') and len(a) >= 2:
            r, e = self.at(fr, a[0]), ptr(fr, a[1], self.stop)
            if r is not None and e is not None and e[0] == r[0]:
                if q == 'std::fill':
                    self.values.append((r[0], fr, a[2], 'fill'))
                return S | {(r[0], r[1], e[1])}
        elif q in ('std::fill_n', 'std::generate_n') and len(a) >= 2:
            r = self.at(fr, a[0])
            if r is not None:
                if q == 'std::fill_n':
                    self.values.append((r[0], fr, a[2], 'fill'))
                return S | {(r[0], r[1], add(r[1], term(fr, a[1])))}
        elif q == 'std::copy_n' and len(a) == 3:
            r = self.at(fr, a[2])
            if r is not None:
                return S | {(r[0], r[1], add(r[1], term(fr, a[1])))}
        elif q in ('std::copy', 'std::move', 'std::transform') and len(a) >= 3:
            r = self.at(fr, a[2])
            if r is not None:
                s, e = ptr(fr, a[0]), ptr(fr, a[1])
                if s is not None and e is not None and s[0] == e[0] and s[1] == ZERO:
                    return S | {(r[0], r[1], add(r[1], e[1]))}
                t = term(fr, a[1])
                if t[0] == 'c' and t[1] in ('std::vector::end', 'std::vector::cend'):
                    sz = vecsize(fr, f.nodes[st(f, a[1])]['obj'])
                    if sz is not None:
                        return S | {(r[0], r[1], add(r[1], sz))}
                if t[0] == 'c' and t[1].endswith('::end'):
                    return S | {(r[0], r[1], add(r[1], ('c', t[1][:-3] + 'size', t[2])))}
        elif q.endswith('memcpy') or q.endswith('memset') or q == 'std::memmove':
            r = self.at(fr, a[0]) if a else None
            if r is not None:
                t = term(fr, a[2])
                if t[0] == 'bin' and t[1] == '*':
                    for cnt, sz in ((t[2], t[3]), (t[3], t[2])):
                        if sz[0] == 'lit':
                            return S | {(r[0], r[1], add(r[1], cnt))}
        g = self.p.get(n.get('f')) if n.get('f') else None
        if g is not None and g.body is not None and g.body >= 0 and '/usr/' not in g.file and fr.depth() < 8 and not self.rec(fr, g):
            if g.d.get('lambda') or any(self.at(fr, y) is not None for y in a):
                return self.fn(Frame(g, fr, x), S, ways)
        if n.get('nr'):
            return None
        return S

    def rec(self, fr, g):
        while fr is not None:
            if fr.f is g:
                return True
            fr = fr.up
        return False


def vecsize(fr, x):
    """number of elements of a local vector that is made with a size and never resized"""
    f = fr.f
    n = f.nodes[st(f, x)]
    row = False
    if n['k'] == 'call' and n.get('op') == '[]' and n.get('obj') is not None:
        # a row of a vector of vectors
        n, row = f.nodes[st(f, n['obj'])], True
    if n['k'] != 'ref' or 'd' not in n or f.vars[str(n['d'])]['k'] != 'local':
        return None
    d = n['d']
    for y, m in enumerate(f.nodes):
        if row and m and m['k'] == 'call' and m.get('obj') is not None and re.search(r'::(resize|push_back|emplace_back|clear|insert|erase|assign|pop_back|swap|operator=)$', str(m.get('q', ''))):
            o = f.nodes[st(f, m['obj'])]
            if o['k'] == 'call' and o.get('op') == '[]' and f.nodes[st(f, o['obj'])].get('d') == d:
                return None
    for m in f.nodes:
        if m and m['k'] == 'call' and m.get('obj') is not None and m['obj'] >= 0 and f.nodes[st(f, m['obj'])].get('d') == d and re.search(r'::(resize|push_back|emplace_back|clear|insert|erase|assign|pop_back|swap|shrink_to_fit|operator=)$', str(m.get('q', ''))):
            return None
    for val, kind, node in f.defs().get(d, []):
        if kind != 'decl' or val is None or val < 0:
            return None
        m = f.nodes[st(f, val)]
        if row:
            if m['k'] != 'ctor' or len(m.get('a', [])) < 2:
                return None
            m = f.nodes[st(f, m['a'][1])]
        if m['k'] == 'ctor' and m.get('a') and not m.get('copy') and not m.get('move') and re.search(r'(int|long|size_t)', str(f.nodes[st(f, m['a'][0])].get('t', ''))) and 'list' not in str(f.nodes[m['a'][0]].get('t', '')):
            return term(fr, m['a'][0])
    return None


def mul(a, b):
    if repr(b) < repr(a):
        a, b = b, a
    return ('bin', '*', a, b)


def node_before(f, d, x):
    """the value of a counter when a loop starts, where it is declared outside of the loop"""
    return None


def kterm(fr, f):
    """what the number of requested results is called in f"""
    for d in f.params:
        v = f.vars[str(d)]
        t = str(v.get('t', '')).replace('const ', '').replace('&', '').strip()
        if v['n'] in KNAMES and re.match(r'^(unsigned |int|uint|size_t|long)', t):
            return ('p', v['n'], f.id)
    for d in f.params:
        v = f.vars[str(d)]
        if 'SearchInfo' in str(v.get('t', '')):
            return ('m', ('p', v['n'], f.id), 'topk_')
        if 'SearchOptions' in str(v.get('t', '')):
            return ('m', ('p', v['n'], f.id), 'top_k')
    return None


def outs(f):
    """output arrays of a search"""
    r = []
    for d in f.params:
        v = f.vars[str(d)]
        t = str(v.get('t', ''))
        if re.match(r'^(unsigned int|unsigned long|uint32_t|uint64_t|float|std::string|std::basic_string<char>|IDType|DistanceType|PID|long|int) \*$', t) and not v['n'].startswith(('quer', 'data', 'vec', 'per_', 'stat')):
            r.append(d)
    return r


def marker(f, x):
    """a value no real result has"""
    n = f.nodes[st(f, x)]
    v = n.get('cv')
    t = str(f.nodes[x].get('t', ''))
    return v


def run(R):
    R.rule('defined', 'every way out of a search has written each of its output arrays up to the requested number', 20)
    R.rule('marker', 'positions without a result hold the marker for "no result"', 8)
    R.rule('rows', 'a search over several queries gives each query its own row of the requested length', 2)
    R.rule('prefilled', 'an array handed to a search that writes only the results found was filled with the marker before', 3)
    R.rule('written', 'an array made for the caller is written over its whole length', 2)
    done = set()
    for us in UNITS:
        p = R.program(us)
        for f in sorted(p.fns.values(), key=lambda f: (f.rel(), f.line, f.id)):
            if f.body is None or f.body < 0 or f.d.get('implicit') or '/usr/' in f.file or not f.rel().startswith(('include/', 'python/')):
                continue
            key = (f.rel(), f.line, tuple(str(f.vars[str(d)].get('t')) for d in f.params), f.id.split('/lambda')[0] if us == 'space' else '')
            if key in done:
                continue
            if not f.d.get('lambda') and entry(f):
                done.add(key)
                search(R, p, f)
            rows(R, p, f, done)
            arrays(R, p, f, done)
    R.assume('a copy of one array to another of the same index range leaves the rest alone', 'the graph search and the beam search return no more results than they are asked for')


def entry(f):
    if 'search' not in f.name or f.name.startswith(('prepare', 'beam_', 'cached_', 'make_', 'disk_search')) or f.rel().startswith('include/index/graph/laser'):
        return False
    if not outs(f) or kterm(None, f) is None:
        return False
    # a batch takes the number of queries as well: its rows are judged where they are written
    return not any(f.vars[str(d)]['n'] in ('n_queries', 'num_queries') for d in f.params)


def search(R, p, f):
    K = kterm(None, f)
    os = outs(f)
    rts = {(f.id, d): f.vars[str(d)]['n'] for d in os}
    C = Cover(p, rts)
    ends = C.fn(Frame(f), frozenset())
    R.saw([p.get(x) for x in C.seen if p.get(x)])
    nm = '%s:%s' % (f.cls.rsplit('::', 1)[-1] if f.cls else f.rel(), f.name)
    for root, name in rts.items():
        if not any(v[0] == root for v in C.values) and not any(y[0] == root for s, x in ends for y in s):
            if not touched(C, p, f, root):
                continue
        for s, x in ends:
            if refused(f, x):
                continue
            ok = C.chain(s, root, ZERO, K)
            R.ob('defined', ok, f.at(x) if x is not None else f.at(), '%s can return without having set every position of %s' % (f.q, name), key='%s:%s' % (nm, name))
    for root, fr, v, how in C.values:
        if how != 'fill' and value(fr, v) is None:
            continue
        mark(R, fr, v, f, rts.get(root, '?'))


def touched(C, p, f, root):
    return any(n and n['k'] == 'ref' and n.get('d') == root[1] for n in f.nodes)


def refused(f, x):
    """the search says that it did not do anything: false"""
    if x is None:
        return False
    n = f.nodes[x]
    e = st(f, n['e']) if n.get('e') is not None and n['e'] >= 0 else None
    return e is not None and f.nodes[e]['k'] == 'lit' and f.nodes[e].get('v') == 'false'


def value(fr, v):
    """constant a fill writes: 'max', 'nan', 'empty', 'inf', a number or None"""
    f = fr.f
    x = st(f, v)
    n = f.nodes[x]
    if n['k'] == 'ref' and 'd' in n:
        d = n['d']
        vv = f.vars[str(d)]
        if vv['k'] == 'param':
            a = fr.arg(d)
            return value(*a) if a else None
        if vv['k'] == 'local' and f.single_def(d) is not None:
            return value(fr, f.single_def(d))
    if n['k'] == 'call':
        q = str(n.get('q', ''))
        if q.startswith('std::numeric_limits'):
            return {'max': 'max', 'quiet_NaN': 'nan', 'infinity': 'inf'}.get(q.rsplit('::', 1)[-1], q.rsplit('::', 1)[-1])
    if n['k'] in ('ctor', 'init') and 'string' in str(n.get('t', '')) + str(n.get('cls', '')):
        return 'empty' if not n.get('a') else None
    cv = n.get('cv', n.get('v') if n['k'] == 'lit' else None)
    if cv is not None:
        try:
            c = int(cv)
            return 'max' if c in (-1, 2**32 - 1, 2**64 - 1, 2**31 - 1, 2**63 - 1) else c
        except (TypeError, ValueError):
            try:
                return 'max' if float(cv) >= 3.4e38 else 'nan' if float(cv) != float(cv) else float(cv)
            except (TypeError, ValueError):
                return str(cv)
    if n['k'] == 'ref':
        return 'const:' + str(n.get('n'))
    return None


def mark(R, fr, v, f, name):
    x = value(fr, v)
    if x is None or str(x).startswith('const:'):
        t = str(fr.f.nodes[st(fr.f, v)].get('n', ''))
        c = constant(fr.f.p, fr.f, t)
        x = c if c is not None else x
    if x is None:
        R.notes.append('marker of %s in %s is not a constant' % (name, f.q))
        return
    R.ob('marker', x in ('max', 'nan', 'inf', 'empty') or str(x).startswith('const:'), fr.f.at(v), 'positions of %s without a result are filled with %s, which is a possible result' % (name, x), key='%s:%s' % (f.name, name))


def constant(p, f, name):
    for c in p.classes.values():
        for s in c.get('sfields', []) or []:
            if s.get('n') == name and s.get('cv') is not None:
                return 'max' if int(s['cv']) in (-1, 2**32 - 1, 2**64 - 1) else s['cv']
    return None


def rows(R, p, f, done):
    """pointers to the row of one query: all of the row is written before the block of the pointer ends; rows passed on"""
    for x, n in enumerate(f.nodes):
        if n and n['k'] == 'decl':
            for v in n['vs']:
                t = str(f.vars[str(v['d'])].get('t', ''))
                if not re.match(r'^(unsigned int|unsigned long|float|uint64_t|uint32_t|IDType) \*(const)?$', t) or v.get('init') is None or v['init'] < 0:
                    continue
                fr = Frame(f)
                r = ptr(fr, v['init'])
                if r is None or r[1] == ZERO or not isout(p, r[0]):
                    continue
                K = stride(r[1])
                if K is None:
                    continue
                k = (f.rel(), n['l'], v['n'])
                if k in done:
                    continue
                done.add(k)
                root = (f.id, v['d'])
                C = Cover(p, [root], [root])
                blk = f.parent().get(x)
                while blk is not None and f.nodes[blk]['k'] not in ('block', 'cobody'):
                    blk = f.parent().get(blk)
                S = frozenset()
                ss = f.nodes[blk]['ss']
                j = next(i for i, y in enumerate(ss) if x in set(f.walk(y)))
                for y in ss[j:]:
                    S = C.stmt(fr, y, S)
                    if S is None:
                        break
                R.saw([f])
                ends = [(s, y) for s, y, kk in C.exits] + ([(S, x)] if S is not None else [])
                for s, y in ends:
                    R.ob('defined', C.chain(s, root, ZERO, K), f.at(y), '%s can go on to the next query without having set every position of the row %s' % (outermost(f).q, v['n']), key='row:%s:%s' % (outermost(f).name, v['n']))
        if n and n['k'] == 'call' and n.get('f'):
            g = p.get(n['f'])
            if g is None or g.d.get('lambda') or not entry(g):
                continue
            fr = Frame(f)
            os = [(i, d) for i, d in enumerate(g.params) if d in outs(g)]
            K = kterm(None, g)
            for i, d in os:
                if i >= len(n.get('a', [])):
                    continue
                r = ptr(fr, n['a'][i])
                if r is None or r[1] == ZERO or not isout(p, r[0]):
                    continue
                k = (f.rel(), n['l'], i)
                if k in done:
                    continue
                done.add(k)
                s = stride(r[1])
                kk = None
                if K[0] == 'p':
                    kk = term(fr, n['a'][next(j for j, dd in enumerate(g.params) if g.vars[str(dd)]['n'] == K[1])])
                R.saw([f])
                R.ob('rows', s is not None and (kk is None or s == kk), f.at(n['a'][i]), '%s gives a query a row that is not as far from the others as the number of its results' % outermost(f).q, key='%s:%d' % (outermost(f).name, i))


def outermost(f):
    while f.d.get('parent') and f.p.get(f.d['parent']) is not None:
        f = f.p.get(f.d['parent'])
    return f


def isout(p, root):
    g = p.get(root[0])
    return g is not None and root[1] in outs(g) and 'search' in g.name and not g.rel().startswith('include/index/graph/laser')


def stride(t):
    """K of an offset i * K"""
    if t[0] == 'bin' and t[1] == '*':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == 'p' and a[1] in KNAMES or a[0] == 'm' and a[2] in KNAMES:
                return a
    return None


def arrays(R, p, f, done):
    """numpy arrays made for the caller"""
    if not f.rel().startswith('python/') or '/laser/' in f.rel():
        return
    for x, n in enumerate(f.nodes):
        if not (n and n['k'] == 'decl'):
            continue
        for v in n['vs']:
            t = str(f.vars[str(v['d'])].get('t', ''))
            if 'array_t<' not in t or v.get('init') is None or v['init'] < 0 or f.vars[str(v['d'])].get('ref'):
                continue
            k = (f.rel(), n['l'], v['n'])
            if k in done:
                continue
            size = shape(f, v['init'])
            if size is None:
                continue
            done.add(k)
            R.saw([f])
            fr = Frame(f)
            # pointers into the array
            ps = set()
            for y, m in enumerate(f.nodes):
                if m and m['k'] == 'decl':
                    for w in m['vs']:
                        if '*' in str(f.vars[str(w['d'])].get('t', '')) and w.get('init') is not None and w['init'] >= 0 and any(f.nodes[z].get('d') == v['d'] and f.nodes[z]['k'] == 'ref' for z in f.walk(w['init'])):
                            ps.add((f.id, w['d']))
            roots = ps | {(f.id, v['d'])}
            C = Direct(p, roots, v['d'])
            C.stop = set(roots)
            ends = C.fn(fr, frozenset())
            prefix = passed(p, f, roots)
            okall = True
            for s, e in ends:
                if e is not None and not later(f, x, e):
                    continue
                ok = any(C.chain(s, r, ZERO, size) for r in roots) or any(same(h, size) and l == ZERO for r, l, h in s if r in roots)
                okall = okall and ok
            rule = 'prefilled' if prefix else 'written'
            R.ob(rule, okall, f.at(x), '%s makes the array %s for the caller and does not write all of it%s' % (f.q, v['n'], ' before the search, which writes only the results it finds' if prefix else ''), key='%s:%s' % (f.name, v['n']))
            if prefix:
                for root, fr2, val, how in C.values:
                    if how == 'fill':
                        mark(R, fr2, val, f, v['n'])


class Direct(Cover):
    """a.data() / a.mutable_data() / a.request().ptr of the array itself"""

    def __init__(self, p, roots, d):
        Cover.__init__(self, p, roots)
        self.d = d

    def at(self, fr, x):
        r = Cover.at(self, fr, x)
        if r is not None:
            return r
        f = fr.f
        x = st(f, x)
        if x is None or x < 0:
            return None
        n = f.nodes[x]
        if n['k'] == 'bin' and n['op'] == '+':
            a = self.at(fr, n['e'])
            return (a[0], add(a[1], term(fr, n['r']))) if a is not None else None
        if n['k'] == 'call' and n.get('obj') is not None and re.search(r'::(mutable_data|data)$', str(n.get('q', ''))) and f.nodes[st(f, n['obj'])].get('d') == self.d:
            return (f.id, self.d), ZERO
        return None


def flat(t):
    if t[0] == 'bin' and t[1] == '*':
        return flat(t[2]) + flat(t[3])
    return [t]


def same(a, b):
    return sorted(map(repr, flat(a))) == sorted(map(repr, flat(b)))


def shape(f, x):
    """number of elements of an array made by this expression, as a term"""
    fr = Frame(f)
    x = st(f, x)
    n = f.nodes[x]
    if n['k'] == 'ctor' and n.get('a'):
        if n.get('copy') or n.get('move'):
            return shape(f, n['a'][0])
        m = dims(f, n['a'][0])
        if m['k'] == 'init' and m.get('a'):
            t = None
            for y in m['a']:
                z = term(fr, y)
                t = z if t is None else mul(t, z)
            return t
        tt = str(m.get('t', ''))
        if re.search(r'(int|long|size_t|uint)', tt) and 'vector' not in tt and len(n['a']) >= 1 and m['k'] in ('ref', 'call', 'bin', 'mem', 'lit'):
            return term(fr, n['a'][0])
    return None


def dims(f, x, hops=0):
    """the braces or the number a shape is made from"""
    m = f.nodes[st(f, x)]
    t = str(m.get('t', ''))
    if hops > 8:
        return m
    if m['k'] == 'ref' and 'd' in m and f.vars[str(m['d'])]['k'] == 'local' and 'vector' in t and f.single_def(m['d']) is not None:
        return dims(f, f.single_def(m['d']), hops + 1)
    if m['k'] == 'silist':
        return dims(f, m['e'], hops + 1)
    if m['k'] == 'ctor' and m.get('a') and re.search(r'any_container|vector|initializer_list', t):
        return dims(f, m['a'][0], hops + 1)
    return m


def passed(p, f, roots):
    """the array is given to a search of the collection, which writes a prefix only"""
    for n in f.nodes:
        if n and n['k'] == 'call' and str(n.get('q', '')).endswith('DiskCollection::batch_search'):
            for a in n.get('a', []):
                r = ptr(Frame(f), a, roots)
                if r is not None and r[0] in roots:
                    return True
    return False


def later(f, x, e):
    return f.nodes[e]['l'] >= f.nodes[x]['l']
