"""Abstract evaluation of a function's syntax tree over a small value domain: booleans, integers, enumerators,
optionals, lists and uninterpreted terms.  A branch on a term that the domain does not decide is taken both ways;
each outcome comes with the branch assumptions it was reached under."""
from .prog import AnalysisError


class Obj:
    def __init__(self, cls='', **f):
        self.cls = cls
        self.f = f

    def __repr__(self):
        return 'Obj(%s %s)' % (self.cls, self.f)


class Lst:
    def __init__(self, x=()):
        self.x = list(x)

    def __repr__(self):
        return 'Lst%r' % (self.x,)


class It:
    """position in a list"""

    def __init__(self, l, i):
        self.l, self.i = l, i

    def __eq__(self, o):
        return isinstance(o, It) and o.l is self.l and o.i == self.i

    def __hash__(self):
        return hash((id(self.l), self.i))


class Opt:
    def __init__(self, has, v=None):
        self.has, self.v = has, v

    def __repr__(self):
        return 'Opt(%r)' % (self.v,) if self.has else 'nullopt'


class Lam:
    def __init__(self, f, node, env, this):
        self.f, self.node, self.env, self.this = f, node, env, this


class Ref:
    """address of / reference to a slot"""

    def __init__(self, get, set):
        self.get, self.set = get, set


class Ptr:
    """pointer to a scalar slot"""

    def __init__(self, get, set):
        self.get, self.set = get, set


class Throw(Exception):
    def __init__(self, what):
        self.what = what


class Stuck(Exception):
    pass


NULLOPT = object()
SCALARS = {'bool', 'char', 'int', 'unsigned int', 'long', 'unsigned long', 'float', 'double', 'short', 'unsigned short', 'unsigned char', 'signed char', 'long long', 'unsigned long long',
           'size_t', 'std::size_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'std::uint32_t', 'std::uint64_t', 'std::int64_t'}
UNK = ('unknown',)


def isterm(v):
    return isinstance(v, tuple)


def same(a, b):
    if isinstance(a, (bool, int, float, str)) and isinstance(b, (bool, int, float, str)):
        return a == b
    if isterm(a) and isterm(b) and a == b:
        return True
    if isterm(a) and isterm(b) and a[0] == 'enum' and b[0] == 'enum':
        return a == b
    if isinstance(a, It) and isinstance(b, It):
        return a == b
    return None


class Domain:
    """what the caller knows; every hook may return NotImplemented"""

    def call(self, ev, f, i, n, q, obj, args):
        return NotImplemented

    def truth(self, ev, t):
        return NotImplemented

    def member(self, ev, f, i, n, base):
        return NotImplemented

    def inline(self, g):
        return True


class Outcome:
    def __init__(self, kind, value, facts, log):
        self.kind, self.value, self.facts, self.log = kind, value, facts, log

    def __repr__(self):
        return '%s %r %r' % (self.kind, self.value, self.facts)


class Eval:
    MAXSTEP = 4000
    PTR = False      # model pointers to scalar variables

    def __init__(self, p, dom, maxpaths=400):
        self.p, self.dom, self.maxpaths = p, dom, maxpaths

    # ---- path enumeration by replaying decisions
    def outcomes(self, f, make):
        """make() -> (args, this) fresh for every path"""
        out = []
        work = [[]]
        self.visited = set()
        while work:
            self.pre = work.pop()
            self.dec = []
            self.facts = []
            self.log = []
            self.steps = 0
            if len(out) > self.maxpaths:
                raise AnalysisError('too many abstract paths in %s: %s' % (f.q, sorted({str(t)[:90] for o in out for t, _ in o.facts})[:6]))
            try:
                args, this = make()
                r = ('ret', self.invoke(f, args, this))
            except Throw as t:
                r = ('throw', t.what)
            except Stuck as s:
                r = ('stuck', str(s))
            out.append(Outcome(r[0], r[1], list(self.facts), list(self.log)))
            for k in range(len(self.pre), len(self.dec)):
                work.append(self.dec[:k] + [not self.dec[k]])
        return out

    def truth(self, t):
        if isinstance(t, Opt):
            return t.has
        if isinstance(t, (bool, int, float)):
            return bool(t)
        if isinstance(t, (Obj, Lst, Lam)):
            return True
        if t is None:
            return False
        neg = False
        while isterm(t) and t[0] == 'un' and t[1] == '!':
            neg = not neg
            t = t[2]
        if isterm(t) and t[0] == 'bin' and t[1] == '!=':
            t = ('bin', '==') + t[2:]
            neg = not neg
        r = self.dom.truth(self, t)
        if r is NotImplemented:
            for ft, fv in self.facts:
                if ft == t:
                    r = fv
                    break
            else:
                if len(self.dec) < len(self.pre):
                    r = self.pre[len(self.dec)]
                else:
                    r = False
                self.dec.append(r)
                self.facts.append((t, r))
        return r != neg

    # ---- calls
    def invoke(self, g, args, this=None, outer=None):
        if not hasattr(self, 'visited'):
            self.visited = set()
        self.visited.add(g.id)
        env = {}
        for d, a in zip(g.params, args):
            env[d] = a
        fr = Frame(g, env, this, outer)
        if not hasattr(self, 'stack'):
            self.stack = []
        if len(self.stack) > 40:
            raise Stuck('recursion in ' + g.q)
        self.stack.append(fr)
        try:
            if g.d.get('ctor'):
                for it in g.d.get('inits', []):
                    if it.get('m') and 'init' in it and isinstance(this, Obj):
                        this.f[it['m'].rsplit('::', 1)[-1]] = self.copied(self.ev(fr, it['init']))
            s = self.ex(fr, g.body)
        finally:
            self.stack.pop()
        if s and s[0] == 'ret':
            v = s[1]
            if g.d.get('rt', '').startswith(('std::optional', 'class std::optional')) and v is not None and not isinstance(v, Opt) and not isterm(v):
                v = Opt(True, v)
            return v
        return None

    def apply(self, fn, args):
        if isinstance(fn, Lam):
            return self.invoke(fn.f, args, fn.this, fn.env)
        if isinstance(fn, Ref):
            return self.apply(fn.get(), args)
        return ('app', fn) + tuple(args)

    # ---- statements
    def ex(self, fr, i):
        if i is None or i < 0:
            return None
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise Stuck('no end in sight in ' + fr.f.q)
        n = fr.f.nodes[i]
        k = n['k']
        if k == 'block':
            for s in n['ss']:
                r = self.ex(fr, s)
                if r:
                    return r
            return None
        if k == 'decl':
            for v in n['vs']:
                val = self.ev(fr, v['init']) if v.get('init', -1) is not None and v.get('init', -1) >= 0 else None
                t = v.get('t', '')
                if not t.endswith('&') and 'init' in v:
                    val = self.copied(val, fr.f.nodes[v['init']])
                if v.get('init') is None:
                    val = self.default(t)
                if t.startswith(('std::optional<', 'const std::optional<')) and not isinstance(val, Opt) and not isterm(val):
                    val = Opt(True, val) if val is not None else Opt(False)
                fr.env[v['d']] = val
                for j, b in enumerate(v.get('bind', [])):
                    fr.env[b] = self.bound(val, j)
            return None
        if k == 'if':
            if n.get('init', -1) is not None and n.get('init', -1) >= 0:
                self.ex(fr, n['init'])
            if n.get('cv_', -1) is not None and n.get('cv_', -1) >= 0:
                self.ex(fr, n['cv_'])
            c = fr.f.nodes[n['c']]
            if n.get('cx') and 'cv' in c:
                t = c['cv'] not in ('0', 'false')
            else:
                t = self.truth(self.ev(fr, n['c']))
            return self.ex(fr, n['th'] if t else n.get('el', -1))
        if k == 'ret':
            return ('ret', self.copied(self.ev(fr, n['e']), fr.f.nodes[n['e']]) if n.get('e', -1) is not None and n.get('e', -1) >= 0 else None)
        if k == 'switch':
            return self.switch(fr, n)
        if k in ('case', 'default'):
            return self.ex(fr, n['s'])
        if k == 'break':
            return ('break',)
        if k == 'loop':
            return self.loop(fr, n)
        if k == 'try':
            try:
                return self.ex(fr, n['body'])
            except Throw as t:
                for h in n['hs']:
                    return self.ex(fr, fr.f.nodes[h]['body'])
                raise
        if k == 'other' or k == 'silist':
            if n.get('w') == 'continue' or n.get('what') == 'ContinueStmt' or n.get('c') == 'ContinueStmt':
                return ('cont',)
        if k == 'continue':
            return ('cont',)
        self.ev(fr, i)
        return None

    def switch(self, fr, n):
        v = self.ev(fr, n['c'])
        L = []

        def flat(i):
            labs = []
            while fr.f.nodes[i]['k'] in ('case', 'default'):
                c = fr.f.nodes[i]
                if c['k'] == 'default':
                    labs.append('default')
                else:
                    labs.append(self.ev(fr, c['lo']))
                i = c['s']
            L.append((labs, i))
        b = fr.f.nodes[n['body']]
        for s in (b['ss'] if b['k'] == 'block' else [n['body']]):
            flat(s)
        start = None
        for j, (labs, s) in enumerate(L):
            for lb in labs:
                if lb != 'default':
                    r = same(v, lb)
                    if r is None:
                        r = self.truth(('bin', '==', v, lb))
                    if r:
                        start = j
                        break
            if start is not None:
                break
        if start is None:
            for j, (labs, s) in enumerate(L):
                if 'default' in labs:
                    start = j
        if start is None:
            return None
        for labs, s in L[start:]:
            r = self.ex(fr, s)
            if r:
                if r[0] == 'break':
                    return None
                return r
        return None

    def loop(self, fr, n):
        if n.get('lk') == 'range':
            c = self.ev(fr, n['range']) if fr.f.nodes[n['range']]['k'] != 'decl' else None
            if fr.f.nodes[n['range']]['k'] == 'decl':
                c = self.ev(fr, fr.f.nodes[n['range']]['vs'][0]['init'])
            if isinstance(c, Ref):
                c = c.get()
            if not isinstance(c, Lst):
                c = self.dom_iter(fr, c)
            var = fr.f.nodes[n['var']]['vs'][0]
            for x in list(c.x):
                fr.env[var['d']] = x if var.get('t', '').endswith('&') else self.copied(x)
                for j, b in enumerate(var.get('bind', [])):
                    fr.env[b] = self.bound(x, j)
                r = self.ex(fr, n['body'])
                if r:
                    if r[0] == 'break':
                        break
                    if r[0] == 'ret':
                        return r
            return None
        if n.get('init', -1) is not None and n.get('init', -1) >= 0:
            self.ex(fr, n['init'])
        first = n.get('lk') == 'do'
        while True:
            self.steps += 1
            if self.steps > self.MAXSTEP:
                raise Stuck('no end in sight in ' + fr.f.q)
            if not first and n.get('c', -1) is not None and n.get('c', -1) >= 0:
                if not self.truth(self.ev(fr, n['c'])):
                    return None
            first = False
            r = self.ex(fr, n['body'])
            if r:
                if r[0] == 'break':
                    return None
                if r[0] == 'ret':
                    return r
            if n.get('inc', -1) is not None and n.get('inc', -1) >= 0:
                self.ev(fr, n['inc'])

    def dom_iter(self, fr, c):
        raise Stuck('iteration over %r' % (c,))

    def bound(self, v, j):
        if isinstance(v, Obj):
            return v.f.get(['first', 'second'][j] if 'first' in v.f else list(v.f)[j])
        if isinstance(v, Lst):
            return v.x[j]
        return ('bind', v, j)

    def default(self, t):
        t = t.replace('const ', '')
        if t.startswith(('std::vector', 'std::list', 'std::deque', 'std::set', 'std::unordered_set', 'std::initializer_list')):
            return Lst()
        if t.startswith('std::optional'):
            return Opt(False)
        if t.startswith('std::string') or t.startswith('std::basic_string'):
            return ''
        return UNK

    def copied(self, v, n=None):
        if isinstance(v, Ref):
            return v
        if isinstance(v, Lst):
            return Lst(v.x)
        if isinstance(v, Obj) and (n is None or n.get('copy')):
            o = Obj(v.cls, **v.f)
            return o
        return v

    # ---- expressions
    def lookup(self, fr, d):
        if d in fr.env:
            v = fr.env[d]
            return v
        v = fr.f.vars.get(str(d), {})
        if v.get('k') == 'outer' or fr.outer is not None:
            o = fr.outer
            while o is not None:
                for dd, val in o.env.items():
                    w = o.f.vars.get(str(dd), {})
                    if w.get('n') == v.get('n') and w.get('l') == v.get('l'):
                        return val
                o = o.outer
        if v.get('q') == 'std::nullopt':
            return Opt(False)
        return ('v', v.get('q') or v.get('n'))

    def assign(self, fr, i, val):
        n = fr.f.nodes[i]
        k = n['k']
        if k == 'cast':
            return self.assign(fr, n['e'], val)
        if k == 'ref':
            d = n['d']
            cur = fr.env.get(d)
            if isinstance(cur, Ref):
                cur.set(val)
                return
            if d in fr.env:
                fr.env[d] = val
                return
            v = fr.f.vars.get(str(d), {})
            o = fr.outer
            while o is not None:
                for dd in list(o.env):
                    w = o.f.vars.get(str(dd), {})
                    if w.get('n') == v.get('n') and w.get('l') == v.get('l'):
                        if isinstance(o.env[dd], Ref):
                            o.env[dd].set(val)
                        else:
                            o.env[dd] = val
                        return
                o = o.outer
            self.log.append(('store', ('v', v.get('q')), val))
            return
        if k == 'mem':
            b = self.ev(fr, n['b'])
            if isinstance(b, Obj):
                b.f[n['n']] = val
                return
            self.log.append(('store', ('mem', b, n['n']), val))
            return
        if k == 'idx' or k == 'call' and n.get('op') == '[]':
            b = self.ev(fr, n['b'] if k == 'idx' else n['obj'])
            ix = self.ev(fr, n['i'] if k == 'idx' else n['a'][0])
            if isinstance(b, It) and isinstance(ix, int):
                b, ix = b.l, b.i + ix
            if isinstance(b, Lst) and isinstance(ix, int) and 0 <= ix < len(b.x):
                b.x[ix] = val
                return
            self.log.append(('store', ('idx', b, ix), val))
            return
        if k == 'un' and n['op'] == '*':
            b = self.ev(fr, n['e'])
            if isinstance(b, (Ref, Ptr)):
                b.set(val)
                return
            if isinstance(b, It) and 0 <= b.i < len(b.l.x):
                b.l.x[b.i] = val
                return
        if k == 'call' and n.get('op') == '*':
            b = self.ev(fr, n['obj'] if 'obj' in n else n['a'][0])
            if isinstance(b, Opt):
                b.v = val
                return
            if isinstance(b, It) and b.i < len(b.l.x):
                b.l.x[b.i] = val
                return
        self.log.append(('store', self.ev(fr, i), val))

    def ev(self, fr, i):
        n = fr.f.nodes[i]
        k = n['k']
        r = self.dom.call(self, fr, i, n, None, None, None) if k not in ('call', 'ctor') else NotImplemented
        if r is not NotImplemented:
            return r
        if k == 'lit':
            return self.lit(n)
        if k == 'str':
            return n['v']
        if k == 'cast':
            v = self.ev(fr, n['e'])
            if n.get('t') == 'bool' and isinstance(v, int):
                return bool(v)
            return v
        if k == 'silist':
            return self.ev(fr, n['e']) if 'e' in n else UNK
        if k == 'this':
            return fr.this
        if k == 'ref':
            if 'enum' in n:
                return ('enum', n['enum'] + '::' + n['n'])
            if 'd' in n:
                v = fr.f.vars.get(str(n['d']), {})
                if n['d'] not in fr.env and 'cv' in n:
                    return self.num(n['cv'])
                x = self.lookup(fr, n['d'])
                return x.get() if isinstance(x, Ref) else x
            return ('v', n.get('q') or n['n'])
        if k == 'mem':
            b = self.ev(fr, n['b'])
            r = self.dom.member(self, fr.f, i, n, b)
            if r is not NotImplemented:
                return r
            if isinstance(b, It):
                b = b.l.x[b.i] if b.i < len(b.l.x) else UNK
            if isinstance(b, Opt):
                b = b.v
            if isinstance(b, Obj):
                if n['n'] in b.f:
                    return b.f[n['n']]
                v = ('mem', b.cls, n['n'])
                return v
            return ('mem', b, n['n'])
        if 'cv' in n and k in ('bin', 'un', 'sizeof', 'cond', 'other'):
            v = self.num(n['cv'])
            if v is not None:
                return v
        if k == 'bin':
            return self.binop(fr, n)
        if k == 'un':
            return self.unop(fr, n)
        if k == 'asg':
            v = self.ev(fr, n['r'])
            if n['op'] != '=':
                v = self.arith(n['op'][:-1], self.ev(fr, n['e']), v)
            v = self.copied(v, fr.f.nodes[n['r']])
            self.assign(fr, n['e'], v)
            return v
        if k == 'cond':
            return self.ev(fr, n['a1'] if self.truth(self.ev(fr, n['c'])) else n['a2'])
        if k == 'idx':
            b, ix = self.ev(fr, n['b']), self.ev(fr, n['i'])
            if isinstance(b, It) and isinstance(ix, int):
                b, ix = b.l, b.i + ix
            if isinstance(b, Lst) and isinstance(ix, int):
                if 0 <= ix < len(b.x):
                    return b.x[ix]
                self.log.append(('oob', i))
                return UNK
            return ('idx', b, ix)
        if k == 'lam':
            return Lam(None, (fr.f, i), fr, fr.this) if 'f' not in n else Lam(self.p.fns[n['f']] if hasattr(self.p, 'fns') else self.p.get(n['f']), (fr.f, i), fr, fr.this)
        if k == 'throw':
            raise Throw(n.get('tt'))
        if k == 'init':
            fs = n.get('fs')
            vals = [self.ev(fr, a) for a in n.get('a', [])]
            t = n.get('t', '')
            if fs:
                return Obj(t, **{x if isinstance(x, str) else x['n']: v for x, v in zip(fs, vals)})
            if t.replace('const ', '') in SCALARS or t.endswith('*'):
                return vals[0] if vals else None if t.endswith('*') else False if t == 'bool' else 0
            return Lst(vals)
        if k in ('call', 'ctor'):
            return self.callx(fr, i, n)
        if k == 'new':
            return ('new', n.get('nt_'))
        return UNK

    def num(self, s):
        try:
            return int(s)
        except (TypeError, ValueError):
            return {'true': True, 'false': False}.get(s)

    def lit(self, n):
        s = n['v']
        if s in ('true', 'false'):
            return s == 'true'
        if s in ('nullptr', 'null'):
            return None
        if n.get('t') == 'char' and 'cv' in n:
            return int(n['cv'])
        try:
            return int(s, 0)
        except ValueError:
            pass
        try:
            return float(s)
        except ValueError:
            return ('lit', s)

    def arith(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b if isinstance(a, int) and isinstance(b, int) else a / b,
                        '%': lambda: a % b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b,
                        '==': lambda: a == b, '!=': lambda: a != b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                        '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            except (KeyError, ZeroDivisionError, TypeError, ValueError):
                return UNK
        if op in ('==', '!='):
            r = same(a, b)
            if r is None and (a is None) != (b is None) and not isterm(a) and not isterm(b):
                r = False
            if r is None and a is None and b is None:
                r = True
            if r is not None:
                return r == (op == '==')
        if op in ('|', '&') and isinstance(a, bool) and isinstance(b, bool):
            return a or b if op == '|' else a and b
        if op == '+' and isinstance(a, It) and isinstance(b, int):
            return It(a.l, a.i + b)
        if op == '-' and isinstance(a, It) and isinstance(b, It):
            return a.i - b.i
        return ('bin', op, a, b)

    def binop(self, fr, n):
        op = n['op']
        if op == '&&':
            return self.truth(self.ev(fr, n['e'])) and self.truth(self.ev(fr, n['r']))
        if op == '||':
            return self.truth(self.ev(fr, n['e'])) or self.truth(self.ev(fr, n['r']))
        if op == ',':
            self.ev(fr, n['e'])
            return self.ev(fr, n['r'])
        return self.arith(op, self.ev(fr, n['e']), self.ev(fr, n['r']))

    def unop(self, fr, n):
        op = n['op']
        if op in ('++', '--'):
            v = self.ev(fr, n['e'])
            w = self.arith(op[0], v, 1)
            self.assign(fr, n['e'], w)
            return v if n.get('post') else w
        if op == '&' and self.PTR:
            x = fr.f.nodes[n['e']]
            if x['k'] in ('ref', 'mem'):
                w = self.ev(fr, n['e'])
                if not isinstance(w, (Obj, Lst, Opt, Lam)):
                    return Ptr(lambda e=n['e']: self.ev(fr, e), lambda v, e=n['e']: self.assign(fr, e, v))
        v = self.ev(fr, n['e'])
        if op == '!':
            if isterm(v):
                return ('un', '!', v)
            return not self.truth(v)
        if op == '-':
            return -v if isinstance(v, (int, float)) else ('un', '-', v)
        if op == '*':
            if isinstance(v, (Ref, Ptr)):
                return v.get()
            if isinstance(v, It):
                return v.l.x[v.i] if 0 <= v.i < len(v.l.x) else UNK
            if isinstance(v, Obj):
                return v
            if isinstance(v, Lam):
                return v
        if op == '&' and isinstance(v, (Obj, Lst)):
            return v
        return ('un', op, v)

    OPS = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}

    def callx(self, fr, i, n):
        q = n.get('q') or ''
        name = q.rsplit('::', 1)[-1]
        obj = self.ev(fr, n['obj']) if 'obj' in n and n['obj'] is not None and n['obj'] >= 0 else None
        args = [self.argval(fr, a) for a in n.get('a', [])]
        if isinstance(obj, Ref):
            obj = obj.get()
        r = self.dom.call(self, fr, i, n, q, obj, args)
        if r is not NotImplemented:
            return r
        if n['k'] == 'ctor':
            return self.ctor(fr, i, n, q, args)
        r = self.lib(fr, n, q, name, obj, args)
        if r is not NotImplemented:
            return r
        g = self.p.get(n['f']) if n.get('f') else None
        if isinstance(obj, Lam) and n.get('op') == '()':
            return self.applyn(fr, n, obj, args)
        if g is not None and g.body is not None and g.body >= 0 and self.dom.inline(g):
            return self.invoke(g, self.byref(fr, n, g, args), obj)
        if isinstance(obj, (Lst, Opt, It)):
            raise Stuck('%s on a modelled value' % q)
        if n.get('ind') is not None and isinstance(n.get('ind'), int) and n['ind'] >= 0:
            c = self.ev(fr, n['ind'])
            if isinstance(c, (Lam, Ref)):
                return self.apply(c, args)
        if isinstance(obj, Lam) and n.get('op') == '()':
            return self.applyn(fr, n, obj, args)
        if name in self.OPS or n.get('op') in ('==', '!=', '<', '>', '<=', '>='):
            xs = ([obj] if 'obj' in n else []) + args
            return self.arith(n.get('op') or self.OPS[name], *xs[:2]) if len(xs) == 2 else UNK
        return ('call', q, obj) + tuple(args) if isinstance(obj, (tuple, type(None), int, str)) else ('call', q, self.name_of(obj)) + tuple(args)

    def byref(self, fr, n, g, args):
        """scalars passed by non-const reference alias the caller's variable"""
        out = list(args)
        for j, (a, d) in enumerate(zip(n.get('a', []), g.params)):
            t = g.vars.get(str(d), {}).get('t', '')
            if t.endswith('&') and not t.endswith('&&') and not t.startswith('const ') and j < len(out) and not isinstance(out[j], (Obj, Lst, Opt, It, Lam, Ref)):
                x = fr.f.nodes[a]
                if x['k'] in ('ref', 'mem', 'idx') or x['k'] == 'un' and x['op'] == '*':
                    out[j] = Ref(lambda a=a: self.ev(fr, a), lambda v, a=a: self.assign(fr, a, v))
        return out

    def name_of(self, o):
        if isinstance(o, Obj):
            return ('obj', o.cls)
        return ('val', repr(o))

    def argval(self, fr, a):
        return self.ev(fr, a)

    def applyn(self, fr, n, lam, args):
        if lam.f is not None:
            return self.invoke(lam.f, args, lam.this, lam.env)
        g = self.p.get(n['f']) if n.get('f') else None
        if g is not None:
            return self.invoke(g, args, lam.this, lam.env)
        raise Stuck('generic lambda')

    def ctor(self, fr, i, n, q, args):
        cls = n.get('cls', '')
        if n.get('copy') or n.get('move'):
            v = args[0] if args else UNK
            if cls == 'std::nullopt_t':
                return NULLOPT
            return self.copied(v) if n.get('copy') else v
        if cls == 'std::optional':
            if not args or args[0] is NULLOPT or isinstance(args[0], Opt):
                return args[0] if args and isinstance(args[0], Opt) else Opt(False)
            return Opt(True, args[0])
        if cls in ('std::vector', 'std::deque', 'std::list', 'std::set', 'std::unordered_set'):
            if not args:
                return Lst()
            if isinstance(args[0], Lst):
                return Lst(args[0].x)
            if isinstance(args[0], It) and len(args) >= 2 and isinstance(args[1], It):
                return Lst(args[0].l.x[args[0].i:args[1].i])
            if isinstance(args[0], int) and args[0] <= 64:
                return Lst([args[1] if len(args) > 1 and not (isterm(args[1]) and 'allocator' in str(args[1])) else 0] * args[0])
            return Lst([('fill',) + tuple(args)])
        if cls in ('std::basic_string', 'std::string', 'std::basic_string_view') :
            return args[0] if args and (isinstance(args[0], (str, tuple))) else ''
        if cls.startswith('std::') and len(args) == 1 and cls in ('std::function', 'std::shared_ptr', 'std::unique_ptr', 'std::reference_wrapper', 'std::variant'):
            return args[0]
        if cls == 'std::pair' and len(args) == 2:
            return Obj(cls, first=args[0], second=args[1])
        if len(args) == 1 and isinstance(args[0], It) and 'iterator' in cls:
            return args[0]
        if cls.startswith('std::') and not args:
            return self.default(cls)
        g = self.p.get(n['f']) if n.get('f') else None
        if g is not None and g.body is not None and g.body >= 0 and self.dom.inline(g):
            o = Obj(cls)
            self.invoke(g, args, o)
            return o
        return ('ctor', cls) + tuple(args)

    def lib(self, fr, n, q, name, obj, args):
        """standard-library vocabulary"""
        op = n.get('op')
        if isinstance(obj, Opt):
            if name in ('has_value', 'operator bool'):
                return obj.has
            if op in ('*', '->') or name == 'value':
                return obj.v
            if name == 'value_or':
                return obj.v if obj.has else args[0]
            if name == 'reset':
                obj.has, obj.v = False, None
                return None
            if op == '=' and args:
                a = args[0]
                if isinstance(a, Opt):
                    obj.has, obj.v = a.has, a.v
                elif a is NULLOPT:
                    obj.has, obj.v = False, None
                else:
                    obj.has, obj.v = True, a
                return obj
            if name == 'emplace':
                obj.has, obj.v = True, args[0] if args else UNK
                return obj.v
        if isinstance(obj, Lst):
            L = obj.x
            if name in ('push_back', 'emplace_back', 'push'):
                L.append(args[0] if args else UNK)
                return args[0] if args else UNK
            if name in ('reserve', 'shrink_to_fit'):
                return None
            if name in ('size', 'length'):
                return len(L)
            if name == 'empty':
                return not L
            if name in ('begin', 'cbegin'):
                return It(obj, 0)
            if name in ('end', 'cend'):
                return It(obj, len(L))
            if name in ('front', 'back'):
                if not L:
                    self.log.append(('oob', n['l']))
                    return UNK
                return L[0 if name == 'front' else -1]
            if name == 'clear':
                L.clear()
                return None
            if name == 'pop_back':
                if L:
                    L.pop()
                return None
            if name in ('at',) or op == '[]':
                ix = args[0]
                if isinstance(ix, int) and not isinstance(ix, bool):
                    if 0 <= ix < len(L):
                        return L[ix]
                    self.log.append(('oob', n['l']))
                    return UNK
            if name == 'data':
                return It(obj, 0)
            if name == 'assign' and len(args) == 2 and isinstance(args[0], int) and args[0] <= 64:
                L[:] = [args[1]] * args[0]
                return None
            if name == 'resize' and isinstance(args[0], int) and args[0] <= 64:
                del L[args[0]:]
                while len(L) < args[0]:
                    L.append(args[1] if len(args) > 1 else 0)
                return None
            if name == 'insert':
                if len(args) == 1:
                    L.append(args[0])
                    return None
                if isinstance(args[0], It):
                    k = args[0].i
                    if len(args) == 2:
                        L.insert(k, args[1])
                        return args[0]
                    if len(args) == 3 and isinstance(args[1], It):
                        L[k:k] = args[1].l.x[args[1].i:args[2].i]
                        return args[0]
                    if len(args) == 3:
                        L.append(('spread', args[1], args[2]))
                        return args[0]
            if name == 'erase' and args and isinstance(args[0], It):
                e = args[1].i if len(args) > 1 and isinstance(args[1], It) else args[0].i + 1
                del L[args[0].i:e]
                return args[0]
            if name in ('contains', 'count'):
                rs = [same(x, args[0]) for x in L]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
            if op == '=' and args and isinstance(args[0], Lst):
                obj.x = list(args[0].x)
                return obj
        if isinstance(obj, It):
            if op in ('*', '->'):
                return obj.l.x[obj.i] if obj.i < len(obj.l.x) else UNK
            if op in ('==', '!=') and isinstance(args[0], It):
                return (obj == args[0]) == (op == '==')
            if op == '+' and isinstance(args[0], int):
                return It(obj.l, obj.i + args[0])
            if op == '-' and isinstance(args[0], It):
                return obj.i - args[0].i
            if op == '++':
                old = It(obj.l, obj.i)
                obj.i += 1
                return old if args else obj
            if op == '[]':
                return obj.l.x[obj.i + args[0]]
        if len(args) == 2 and op in ('==', '!=') and isinstance(args[0], It) and isinstance(args[1], It):
            return (args[0] == args[1]) == (op == '==')
        if len(args) == 2 and op == '-' and isinstance(args[0], It) and isinstance(args[1], It):
            return args[0].i - args[1].i
        if name == 'operator bool' and isinstance(obj, bool):
            return obj
        base = name
        if q.startswith('std::'):
            if base in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof') and len(args) == 1:
                return args[0]
            if base in ('all_of', 'any_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'for_each', 'operator()'):
                rng = self.rng(args)
                if rng is not None and args and isinstance(args[-1], Lam):
                    l, a, b = rng
                    g = args[-1]

                    def t(x):
                        if g.f is None:
                            raise Stuck('generic lambda')
                        return self.truth(self.invoke(g.f, [x], g.this, g.env))
                    if base == 'all_of':
                        return all(t(x) for x in l.x[a:b])
                    if base == 'any_of':
                        return any(t(x) for x in l.x[a:b])
                    if base == 'none_of':
                        return not any(t(x) for x in l.x[a:b])
                    if base == 'count_if':
                        return sum(1 for x in l.x[a:b] if t(x))
                    if base == 'for_each':
                        for x in l.x[a:b]:
                            self.invoke(g.f, [x], g.this, g.env)
                        return None
                    for j in range(a, b):
                        if t(l.x[j]) == (base == 'find_if'):
                            return It(l, j)
                    return It(l, b)
            if base in ('find', 'count'):
                rng = self.rng(args)
                if rng is not None:
                    l, a, b = rng
                    hits = 0
                    for j in range(a, b):
                        r = self.eq(l.x[j], args[-1])
                        if r and base == 'find':
                            return It(l, j)
                        hits += bool(r)
                    return hits if base == 'count' else It(l, b)
            if base in ('sort', 'stable_sort', 'reverse', 'shuffle'):
                return None
            if base == 'unique':
                rng = self.rng(args)
                if rng is not None:
                    l, a, b = rng
                    seen = []
                    for x in l.x[a:b]:
                        if x not in seen:
                            seen.append(x)
                    k = len(seen)
                    l.x[a:b] = seen + [UNK] * (b - a - k)
                    return It(l, a + k)
            if base in ('min', 'max') and q in ('std::min', 'std::max') and len(args) == 2 and all(isinstance(x, int) for x in args):
                return min(args) if base == 'min' else max(args)
            if base in ('make_unique', 'make_shared', 'make_optional') and len(args) == 1:
                return Opt(True, args[0]) if base == 'make_optional' else args[0]
            if op in ('*', '->') and len(args) == 0 and isinstance(obj, (Obj, Lam)):
                return obj
            if name == 'get' and isinstance(obj, Obj) and not args:
                return obj
            if name == 'operator bool' and isinstance(obj, Obj):
                return True
            if op == '()' and isinstance(obj, Lam):
                return self.applyn(fr, n, obj, args)
        return NotImplemented

    def eq(self, a, b):
        return self.truth(self.arith('==', a, b))

    def rng(self, args):
        if args and isinstance(args[0], Lst):
            return args[0], 0, len(args[0].x)
        if len(args) >= 2 and isinstance(args[0], It) and isinstance(args[1], It) and args[0].l is args[1].l:
            return args[0].l, args[0].i, args[1].i
        return None


class Frame:
    def __init__(self, f, env, this, outer):
        self.f, self.env, self.this, self.outer = f, env, this, outer
