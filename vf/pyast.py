"""Path-sensitive abstract interpretation of Python source over its syntax tree (no code of the project is run).

Every path of a function is followed with loops taken zero, one and two times; helper functions of the project are
inlined. Values are abstract terms; conditions that cannot be decided branch both ways."""
import ast, os
from .prog import ROOT, AnalysisError


class Mod:
    def __init__(self, rel):
        self.rel = rel
        p = os.path.join(ROOT, rel)
        if not os.path.exists(p):
            raise AnalysisError('anchor not found: %s' % rel)
        try:
            self.tree = ast.parse(open(p, encoding='utf-8').read(), rel)
        except SyntaxError as e:
            raise AnalysisError('%s does not parse: %s' % (rel, e))
        self.fns, self.classes, self.consts, self.imports = {}, {}, {}, {}
        for s in self.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.fns[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
                for t in s.body:
                    if isinstance(t, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        self.fns[s.name + '.' + t.name] = t
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = ((s.module or ''), a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name] = (a.name, None)

    def fn(self, q):
        if q not in self.fns:
            raise AnalysisError('anchor not found: %s in %s' % (q, self.rel))
        return self.fns[q]

    def at(self, node, q=''):
        return '%s:%s%s' % (self.rel, getattr(node, 'lineno', 0), ' (%s)' % q if q else '')


def dotted(e):
    """'a.b.c' of a name or attribute chain, else None"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return None if b is None else b + '.' + e.attr
    return None


class St:
    __slots__ = ('env', 'facts', 'ev')

    def __init__(self, env=None, facts=frozenset(), ev=()):
        self.env, self.facts, self.ev = env or {}, facts, ev

    def copy(self):
        return St(dict(self.env), self.facts, self.ev)

    def key(self):
        return (tuple(sorted((repr(k), repr(v)) for k, v in self.env.items())), self.facts, self.ev)


def kwmap(kws, vs):
    m = {}
    for k, v in zip(kws, vs):
        if k.arg is None and v[0] == 'dict' and all(x[0] == 'const' for x, _ in v[1]):
            m.update({x[1]: y for x, y in v[1]})
        else:
            m[k.arg] = v
    return m


class PyFlow:
    """Values: ('const', v) ('param', name) ('attr', base, name) ('call', name, args...) ('join', parts...) ('elem', v) ('tuple', ...) ('unk', id)"""
    loops = (0, 1, 2)
    maxpaths = 4000

    def __init__(self, mods, exceptions=True):
        self.mods = mods          # name -> Mod, for import resolution by module tail
        self.depth = 0
        self.visited = set()
        self.points = 0
        self.modstack = []
        self.exceptions = exceptions

    # ---- hooks
    def on_call(self, node, name, recv, args, kw, st):
        """None: default. else list of (outcome 'ok'|'raise', st, value)"""
        return None

    def on_store(self, node, target, value, st):
        return st

    def decide(self, v, st):
        """truth value of an abstract value, or None"""
        return None

    def on_branch(self, node, v, pol, st):
        return st

    def inline(self, name):
        return True

    # ---- values
    @property
    def mod(self):
        return self.modstack[-1][0]

    @property
    def cls(self):
        return self.modstack[-1][1]

    def truth(self, v, st):
        r = self.decide(v, st)
        if r is not None:
            return r
        k = v[0]
        if k == 'const':
            try:
                return bool(v[1])
            except Exception:
                return None
        if k == 'not':
            r = self.truth(v[1], st)
            return None if r is None else not r
        if k in ('and', 'or'):
            rs = [self.truth(x, st) for x in v[1:]]
            if k == 'and':
                return False if False in rs else (True if all(rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if k == 'cmp':
            return self.compare(v, st)
        if k in ('dict', 'list', 'tuple', 'set'):
            return len(v) > 1 if k != 'dict' else len(v[1]) > 0
        if k == 'new':
            return True
        return None

    def compare(self, v, st):
        op, a, b = v[1], v[2], v[3]
        if a[0] == b[0] == 'const':
            x, y = a[1], b[1]
            try:
                return {'==': lambda: x == y, '!=': lambda: x != y, 'is': lambda: x is y or x == y and type(x) is type(y), 'is not': lambda: not (x is y or x == y and type(x) is type(y)),
                        '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, 'in': lambda: x in y, 'not in': lambda: x not in y}[op]()
            except Exception:
                return None
        if op in ('in', 'not in') and b[0] in ('tuple', 'list', 'set') and a[0] == 'const':
            rs = [self.compare(('cmp', '==', a, x), st) for x in b[1:]]
            r = True if True in rs else (False if all(q is False for q in rs) else None)
            return r if r is None or op == 'in' else not r
        if op in ('in', 'not in') and b[0] == 'dict' and a[0] == 'const' and all(k[0] == 'const' for k, _ in b[1]):
            return any(k == a for k, _ in b[1]) == (op == 'in')
        if op in ('is', 'is not') and b == ('const', None) and (a[0] in ('new', 'dict', 'list', 'tuple', 'join', 'fstr', 'value', 'field') or a[0] == 'attr' and a[1][0] == 'new'):
            return op == 'is not'
        if a == b and op in ('==', 'is') and a[0] != 'unk':
            return True
        return None

    # ---- expressions: returns list of (outcome, st, value)
    def ev(self, e, st):
        self.points += 1
        if e is None:
            return [('ok', st, ('const', None))]
        T = type(e)
        if T is ast.Constant:
            return [('ok', st, ('const', e.value))]
        if T is ast.Name:
            if e.id in st.env:
                return [('ok', st, st.env[e.id])]
            if e.id in self.mod.consts:
                c = self.mod.consts[e.id]
                if isinstance(c, (ast.Constant, ast.Tuple, ast.List, ast.Set, ast.Dict)):
                    return self.ev(c, st)
            return [('ok', st, ('glob', e.id))]
        if T is ast.Attribute:
            return self.seq([e.value], st, lambda vs, s: self.attr(e, vs[0], s))
        if T in (ast.Tuple, ast.List, ast.Set):
            k = {ast.Tuple: 'tuple', ast.List: 'list', ast.Set: 'set'}[T]
            return self.seq(e.elts, st, lambda vs, s: [('ok', s, (k,) + tuple(vs))])
        if T is ast.Starred:
            return self.seq([e.value], st, lambda vs, s: [('ok', s, ('star', vs[0]))])
        if T is ast.Dict:
            flat = [x for k, v in zip(e.keys, e.values) for x in ((k, v) if k is not None else (v,))]

            def mk(vs, s):
                kv, j = {}, 0
                for k in e.keys:
                    if k is not None:
                        kv[vs[j]] = vs[j + 1]
                        j += 2
                    else:
                        if vs[j][0] == 'dict':
                            kv.update(dict(vs[j][1]))
                        else:
                            kv[('star', vs[j])] = ('unk', '**')
                        j += 1
                return [('ok', s, ('dict', tuple(kv.items())))]
            return self.seq(flat, st, mk)
        if T is ast.UnaryOp:
            if isinstance(e.op, ast.Not):
                return self.seq([e.operand], st, lambda vs, s: [('ok', s, ('not', vs[0]))])
            return self.seq([e.operand], st, lambda vs, s: [('ok', s, ('const', -vs[0][1]) if isinstance(e.op, ast.USub) and vs[0][0] == 'const' and isinstance(vs[0][1], (int, float)) else ('un', type(e.op).__name__, vs[0]))])
        if T is ast.BoolOp:
            return self.boolop(e, 0, st, [])
        if T is ast.BinOp:
            def f(vs, s):
                a, b = vs
                if isinstance(e.op, ast.Div) and (a[0] in ('join',) or a[0] == 'path'):
                    return [('ok', s, ('join', a, b))]
                return [('ok', s, ('bin', type(e.op).__name__, a, b))]
            return self.seq([e.left, e.right], st, f)
        if T is ast.Compare:
            def f(vs, s):
                cs = []
                for j, op in enumerate(e.ops):
                    cs.append(('cmp', OPS.get(type(op), '?'), vs[j], vs[j + 1]))
                return [('ok', s, cs[0] if len(cs) == 1 else ('and',) + tuple(cs))]
            return self.seq([e.left] + e.comparators, st, f)
        if T is ast.IfExp:
            out = []
            for o, s, v in self.ev(e.test, st):
                if o != 'ok':
                    out.append((o, s, v))
                    continue
                for pol, s2 in self.fork(e.test, v, s):
                    out += self.ev(e.body if pol else e.orelse, s2)
            return out
        if T is ast.JoinedStr:
            return self.seq([x.value for x in e.values if isinstance(x, ast.FormattedValue)], st,
                            lambda vs, s: [('ok', s, ('fstr',) + tuple(vs))])
        if T is ast.Subscript:
            if isinstance(e.slice, ast.Slice):
                def sl(vs, s):
                    v = vs[0]
                    bs = [x.value if isinstance(x, ast.Constant) else (None if x is None else '?') for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                    if v[0] in ('list', 'tuple') and '?' not in bs:
                        return [('ok', s, (v[0],) + v[1:][slice(*bs)])]
                    return [('ok', s, ('slice', v))]
                return self.seq([e.value], st, sl)
            def f(vs, s):
                b, i = vs
                if b[0] in ('tuple', 'list') and i[0] == 'const' and isinstance(i[1], int) and -len(b) < i[1] < len(b) - 1:
                    return [('ok', s, b[1 + i[1]] if i[1] >= 0 else b[i[1]])]
                if b[0] == 'dict':
                    for k, v in b[1]:
                        if k == i:
                            return [('ok', s, v)]
                return [('ok', s, ('idx', b, i))]
            return self.seq([e.value, e.slice], st, f)
        if T is ast.Call:
            return self.evcall(e, st)
        if T in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.comp(e, st)
        if T is ast.NamedExpr:
            out = []
            for o, s, v in self.ev(e.value, st):
                if o == 'ok':
                    s = s.copy()
                    s.env[e.target.id] = v
                out.append((o, s, v))
            return out
        if T is ast.Await:
            return self.ev(e.value, st)
        if T is ast.Lambda:
            return [('ok', st, ('lambda', id(e)))]
        return [('ok', st, ('unk', ast.dump(e)[:80]))]

    def attr(self, e, b, s):
        return [('ok', s, s.env.get(('@', b, e.attr), ('attr', b, e.attr)))]

    def comp(self, e, st):
        g = e.generators[0]
        out = []
        for o, s, v in self.ev(g.iter, st):
            if o != 'ok':
                out.append((o, s, v))
                continue
            s2 = s.copy()
            self.bind(g.target, ('elem', v), s2, e)
            els = self.elements(v)
            if els is not None and not g.ifs and len(e.generators) == 1 and len(els) < 40:
                k = {ast.DictComp: 'dict', ast.SetComp: 'set'}.get(type(e), 'list')
                cur = [(s, [])]
                for x in els:
                    nxt = []
                    for q, acc in cur:
                        q = q.copy()
                        self.bind(g.target, x, q, e)
                        for o2, q2, vs in self.seq([e.key, e.value] if k == 'dict' else [e.elt], q, lambda vs, q: [('ok', q, vs)]):
                            if o2 != 'ok':
                                out.append((o2, s, vs))
                            else:
                                nxt.append((q2, acc + [tuple(vs) if k == 'dict' else vs[0]]))
                    cur = nxt
                for q, acc in cur:
                    out.append(('ok', St(s.env, q.facts, q.ev), ('dict', tuple(acc)) if k == 'dict' else (k,) + tuple(acc)))
                continue
            elt = e.value if isinstance(e, ast.DictComp) else e.elt
            conds = list(g.ifs)
            rs = self.seq(conds + [elt], s2, lambda vs, q: [('ok', q, vs)])
            for o2, s3, vs in rs:
                if o2 != 'ok':
                    out.append((o2, s, vs))
                else:
                    out.append(('ok', St(s.env, s3.facts, s3.ev), ('comp', v, vs[-1], tuple(vs[:-1]))))
        return out

    def boolop(self, e, j, st, acc):
        out = []
        k = 'and' if isinstance(e.op, ast.And) else 'or'
        for o, s, v in self.ev(e.values[j], st):
            if o != 'ok':
                out.append((o, s, v))
                continue
            t = self.truth(v, s)
            last = j + 1 == len(e.values)
            if last or t is (k == 'or'):
                vs = acc + [v]
                out.append(('ok', s, v if len(vs) == 1 else (k,) + tuple(vs)))
            else:
                out += self.boolop(e, j + 1, s, acc + [v])
        return out

    def seq(self, es, st, k):
        outs = []

        def go(j, s, vs):
            if j == len(es):
                outs.extend(k(vs, s))
                return
            for o, s2, v in self.ev(es[j], s):
                if o != 'ok':
                    outs.append((o, s2, v))
                else:
                    go(j + 1, s2, vs + [v])
        go(0, st, [])
        return outs

    def evcall(self, e, st):
        args = [a for a in e.args]
        kws = [k for k in e.keywords]
        recv = e.func.value if isinstance(e.func, ast.Attribute) else None
        if not isinstance(e.func, ast.Attribute) and not (isinstance(e.func, ast.Name) and e.func.id not in st.env):
            # a computed callee
            def g(vs, s):
                fv, va = vs[0], vs[1:]
                a, kv = va[:len(args)], kwmap(kws, va[len(args):])
                if fv[0] == 'attr':
                    return self.callval(e, fv[2], fv[1], a, kv, s)
                return self.callval(e, fv[1] if fv[0] == 'glob' else '?', None, a, kv, s)
            return self.seq([e.func] + args + [k.value for k in kws], st, g)
        es = ([recv] if recv is not None else []) + args + [k.value for k in kws]

        def f(vs, s):
            r = vs[0] if recv is not None else None
            va = vs[1:] if recv is not None else vs
            a, kv = va[:len(args)], kwmap(kws, va[len(args):])
            return self.docall(e, r, a, kv, s)
        return self.seq(es, st, f)

    def callval(self, e, name, r, args, kw, st):
        res = self.on_call(e, name, r, args, kw, st)
        if res is not None:
            return res
        v = ('call', name) + ((r,) if r is not None else ()) + tuple(args) + tuple(('kw', k, kw[k]) for k in sorted(kw, key=str))
        return [('ok', st, v)]

    def resolve(self, e, r):
        """(mod, class, FunctionDef, is method) of the called project function"""
        if isinstance(e.func, ast.Name):
            n = e.func.id
            if n in self.mod.fns:
                return self.mod, None, self.mod.fns[n], False
            if n in self.mod.imports:
                m, a = self.mod.imports[n]
                m2 = self.mods.get(m.lstrip('.').rsplit('.', 1)[-1])
                if m2 and a in m2.fns:
                    return m2, None, m2.fns[a], False
        elif isinstance(e.func, ast.Attribute):
            b = e.func.value
            if isinstance(b, ast.Name) and (b.id in ('self', 'cls') or b.id == self.cls) and self.cls:
                q = self.cls + '.' + e.func.attr
                if q in self.mod.fns:
                    return self.mod, self.cls, self.mod.fns[q], True
            if isinstance(b, ast.Name) and b.id in self.mod.imports:
                m, a = self.mod.imports[b.id]
                m2 = self.mods.get((a or m).rsplit('.', 1)[-1])
                if m2 and e.func.attr in m2.fns:
                    return m2, None, m2.fns[e.func.attr], False
        return None

    def docall(self, e, r, args, kw, st):
        name = dotted(e.func) or (e.func.attr if isinstance(e.func, ast.Attribute) else '?')
        res = self.on_call(e, name, r, list(args), kw, st)
        if res is not None:
            return res
        if name in ('list', 'tuple') and len(args) == 1 and not kw:
            els = self.elements(args[0])
            if els is not None:
                return [('ok', st, (name,) + tuple(els))]
        if name == 'getattr' and len(args) >= 2 and args[1][0] == 'const':
            return [('ok', st, ('attr', args[0], args[1][1]))]
        if r is not None and r[0] == 'dict' and name.rsplit('.', 1)[-1] == 'get' and args and args[0][0] == 'const' and all(k[0] == 'const' for k, _ in r[1]):
            return [('ok', st, next((x for k, x in r[1] if k == args[0]), args[1] if len(args) > 1 else ('const', None)))]
        t = self.resolve(e, r)
        if t and self.depth < 12 and self.inline(t[2].name):
            m, c, fd, meth = t
            static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fd.decorator_list)
            a = list(args)
            if meth and not static:
                a = [r if r is not None else ('glob', 'self')] + a
            return self.run(m, c, fd, a, kw, st)
        root = r
        while root is not None and root[0] == 'attr':
            root = root[1]
        if root is not None and root[0] == 'glob' and self.mod.imports.get(root[1], ('', ''))[1] is None and root[1] in self.mod.imports:
            r = None      # a function of an imported module
        v = ('call', name) + ((r,) if r is not None else ()) + tuple(args) + tuple(('kw', k, x) for k, x in sorted(kw.items(), key=lambda t: t[0] or ''))
        out = [('ok', st, v)]
        if self.exceptions and self.may_raise(name, st):
            out.append(('raise', st, ('exc', name)))
        return out

    def may_raise(self, name, st):
        return False

    # ---- functions
    def run(self, mod, cls, fd, args, kw, st):
        """outcomes ('ok', st, value) / ('raise', st, exc) of calling fd; the caller's variables are kept"""
        self.depth += 1
        self.modstack.append((mod, cls))
        self.visited.add('%s:%s%s' % (mod.rel, cls + '.' if cls else '', fd.name))
        try:
            env = {k: v for k, v in st.env.items() if isinstance(k, tuple)}
            ps = fd.args.posonlyargs + fd.args.args
            defs = [None] * (len(ps) - len(fd.args.defaults)) + list(fd.args.defaults)
            for j, p in enumerate(ps):
                if j < len(args):
                    env[p.arg] = args[j]
                elif p.arg in kw:
                    env[p.arg] = kw[p.arg]
                elif defs[j] is not None and isinstance(defs[j], ast.Constant):
                    env[p.arg] = ('const', defs[j].value)
                else:
                    env[p.arg] = ('param', p.arg)
            for j, p in enumerate(fd.args.kwonlyargs):
                d = fd.args.kw_defaults[j]
                env[p.arg] = kw[p.arg] if p.arg in kw else (('const', d.value) if isinstance(d, ast.Constant) else ('param', p.arg))
            if fd.args.vararg:
                env[fd.args.vararg.arg] = ('tuple',) + tuple(args[len(ps):])
            if fd.args.kwarg:
                env[fd.args.kwarg.arg] = ('param', '**' + fd.args.kwarg.arg)
            out = []
            seen = set()
            for o, s, v in self.block(fd.body, St(env, st.facts, st.ev)):
                env2 = {k: x for k, x in st.env.items() if not isinstance(k, tuple)}
                env2.update({k: x for k, x in s.env.items() if isinstance(k, tuple)})
                s2 = St(env2, s.facts, s.ev)
                if o == 'raise':
                    t = ('raise', s2, v)
                else:
                    t = ('ok', s2, v if o == 'ret' else ('const', None))
                kk = (t[0], s2.key(), repr(t[2]))
                if kk not in seen:
                    seen.add(kk)
                    out.append(t)
            return out
        finally:
            self.modstack.pop()
            self.depth -= 1

    def start(self, mod, q, args=None, kw=None, st=None):
        fd = mod.fn(q)
        cls = q.split('.')[0] if '.' in q else None
        ps = [p.arg for p in fd.args.posonlyargs + fd.args.args]
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fd.decorator_list)
        a = []
        for j, p in enumerate(ps):
            if cls and j == 0 and not static:
                a.append(('self',))
            else:
                a.append((args or {}).get(p, ('param', p)))
        k = {p.arg: (args or {}).get(p.arg, ('param', p.arg)) for p in fd.args.kwonlyargs}
        return self.run(mod, cls, fd, a, k, st or St())

    # ---- statements
    def block(self, stmts, st):
        states = [st]
        out = []
        for s in stmts:
            nxt = []
            seen = set()
            for x in states:
                for o, y, v in self.stmt(s, x):
                    if o == 'next':
                        k = y.key()
                        if k not in seen:
                            seen.add(k)
                            nxt.append(y)
                    else:
                        out.append((o, y, v))
            states = nxt
            if len(states) + len(out) > self.maxpaths:
                raise AnalysisError('too many paths in %s' % self.mod.rel)
            if not states:
                break
        return out + [('next', s, None) for s in states]

    def fork(self, node, v, st):
        t = self.truth(v, st)
        out = []
        for pol in (True, False):
            if t is None or t == pol:
                s = self.on_branch(node, v, pol, st)
                if s is not None:
                    out.append((pol, s))
        return out

    def bind(self, target, v, st, node):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            for j, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    self.bind(t.value, ('unk', 'star'), st, node)
                elif v[0] in ('tuple', 'list') and len(v) == len(target.elts) + 1:
                    self.bind(t, v[1 + j], st, node)
                else:
                    self.bind(t, ('idx', v, ('const', j)), st, node)
        elif isinstance(target, ast.Attribute):
            for o, s, b in self.ev(target.value, st):
                if o == 'ok':
                    st.env[('@', b, target.attr)] = v
        return st

    def assign(self, s, targets, value, st):
        out = []
        for o, s1, v in self.ev(value, st):
            if o != 'ok':
                out.append(('raise', s1, v))
                continue
            s1 = s1.copy()
            for t in targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    r = self.seq([t.value] + ([t.slice] if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) else []), s1, lambda vs, q: [('ok', q, vs)])
                    for o2, q, vs in r:
                        if o2 == 'ok':
                            tv = ('idx',) + tuple(vs) if isinstance(t, ast.Subscript) else ('attr', vs[0], t.attr)
                            q = self.on_store(s, tv, v, q)
                            s1 = q.copy()
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and tv[0] == 'idx' and len(tv) == 3 and tv[1][0] == 'dict' and t.value.id in s1.env:
                                kv = [(k, x) for k, x in tv[1][1] if k != tv[2]]
                                s1.env[t.value.id] = ('dict', tuple(kv + [(tv[2], v)]))
                self.bind(t, v, s1, s)
            out.append(('next', s1, None))
        return out

    def stmt(self, s, st):
        T = type(s)
        if T is ast.Expr:
            return [('next', y, None) if o == 'ok' else ('raise', y, v) for o, y, v in self.ev(s.value, st)]
        if T is ast.Assign:
            return self.assign(s, s.targets, s.value, st)
        if T is ast.AnnAssign:
            return self.assign(s, [s.target], s.value, st) if s.value is not None else [('next', st, None)]
        if T is ast.AugAssign:
            out = []
            for o, s1, v in self.ev(s.value, st):
                if o != 'ok':
                    out.append(('raise', s1, v))
                    continue
                s1 = s1.copy()
                if isinstance(s.target, ast.Name):
                    s1.env[s.target.id] = ('bin', type(s.op).__name__, s1.env.get(s.target.id, ('glob', s.target.id)), v)
                    if len(repr(s1.env[s.target.id])) > 300:
                        s1.env[s.target.id] = ('unk', s.target.id)
                out.append(('next', s1, None))
            return out
        if T is ast.Return:
            return [('ret', y, v) if o == 'ok' else ('raise', y, v) for o, y, v in self.ev(s.value, st)]
        if T is ast.Raise:
            return [('raise', y, v) for o, y, v in self.ev(s.exc, st)]
        if T is ast.If:
            out = []
            for o, y, v in self.ev(s.test, st):
                if o != 'ok':
                    out.append(('raise', y, v))
                    continue
                for pol, z in self.fork(s.test, v, y):
                    out += self.block(s.body if pol else s.orelse, z)
            return out
        if T is ast.Assert:
            # assertions are removed by -O: they decide nothing
            return [('next', st, None)]
        if T in (ast.For, ast.AsyncFor):
            out = []
            for o, y, v in self.ev(s.iter, st):
                if o != 'ok':
                    out.append(('raise', y, v))
                    continue
                out += self.forloop(s, v, y)
            return out
        if T is ast.While:
            return self.whileloop(s, st)
        if T in (ast.With, ast.AsyncWith):
            r = self.seq([i.context_expr for i in s.items], st, lambda vs, q: [('ok', q, vs)])
            out = []
            for o, y, vs in r:
                if o != 'ok':
                    out.append(('raise', y, vs))
                    continue
                y = y.copy()
                for i, v in zip(s.items, vs):
                    if i.optional_vars is not None:
                        self.bind(i.optional_vars, v, y, s)
                out += self.block(s.body, y)
            return out
        if T is ast.Try:
            return self.trystmt(s, st)
        if T is ast.Break:
            return [('break', st, None)]
        if T is ast.Continue:
            return [('cont', st, None)]
        if T in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            y = st.copy()
            y.env[s.name] = ('localfn', s.name)
            return [('next', y, None)]
        if T is ast.Match:
            out = []
            for o, y, v in self.ev(s.subject, st):
                if o != 'ok':
                    out.append(('raise', y, v))
                    continue
                cur = [y]
                for c in s.cases:
                    nxt = []
                    for z in cur:
                        pv = self.patval(c.pattern, v)
                        forks = [(True, z)] if pv is None else self.fork(s, pv, z)
                        for pol, w in forks:
                            if pol:
                                if c.guard is not None:
                                    for o2, w2, gv in self.ev(c.guard, w):
                                        for p2, w3 in self.fork(c.guard, gv, w2):
                                            if p2:
                                                out += self.block(c.body, w3)
                                            else:
                                                nxt.append(w3)
                                else:
                                    out += self.block(c.body, w)
                            else:
                                nxt.append(w)
                    cur = nxt
                out += [('next', z, None) for z in cur]
            return out
        return [('next', st, None)]

    def patval(self, p, v):
        if isinstance(p, ast.MatchValue):
            if isinstance(p.value, ast.Constant):
                return ('cmp', '==', v, ('const', p.value.value))
            return ('cmp', '==', v, ('unk', ast.dump(p.value)))
        if isinstance(p, ast.MatchOr):
            return ('or',) + tuple(self.patval(x, v) or ('const', True) for x in p.patterns)
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            return None
        return ('unk', 'pattern')

    def elements(self, v):
        """concrete elements of an iterated value, or None"""
        if v[0] in ('tuple', 'list', 'set'):
            return list(v[1:])
        if v[0] == 'dict':
            return [k for k, x in v[1]]
        if v[0] == 'call' and v[1].endswith('.items') and v[2][0] == 'dict':
            return [('tuple', k, x) for k, x in v[2][1]]
        return None

    def iter_elem(self, v, k):
        return ('elem', v)

    def forloop(self, s, v, st):
        out = []
        els = self.elements(v)
        rounds = els if els is not None else None
        cur = [st]
        n = 0
        while True:
            if rounds is not None:
                if n == len(rounds):
                    break
            else:
                # the loop may end before every iteration
                for x in cur:
                    out += self.block(s.orelse, x) if s.orelse else [('next', x, None)]
                if n == max(self.loops):
                    cur = []
                    break
            nxt = []
            for x in cur:
                y = x.copy()
                self.bind(s.target, rounds[n] if rounds is not None else self.iter_elem(v, n), y, s)
                for o, z, r in self.block(s.body, y):
                    if o in ('next', 'cont'):
                        nxt.append(z)
                    elif o == 'break':
                        out.append(('next', z, None))
                    else:
                        out.append((o, z, r))
            cur = nxt
            n += 1
            if not cur:
                break
        for x in cur:
            out += self.block(s.orelse, x) if s.orelse else [('next', x, None)]
        return out

    def whileloop(self, s, st):
        out = []
        cur = [st]
        for n in range(max(self.loops) + 1):
            nxt = []
            for x in cur:
                for o, y, v in self.ev(s.test, x):
                    if o != 'ok':
                        out.append(('raise', y, v))
                        continue
                    for pol, z in self.fork(s.test, v, y):
                        if not pol:
                            out += self.block(s.orelse, z) if s.orelse else [('next', z, None)]
                        elif n < max(self.loops):
                            for o2, w, r in self.block(s.body, z):
                                if o2 in ('next', 'cont'):
                                    nxt.append(w)
                                elif o2 == 'break':
                                    out.append(('next', w, None))
                                else:
                                    out.append((o2, w, r))
            cur = nxt
        return out

    def trystmt(self, s, st):
        body = self.block(s.body, st)
        mid = []
        for o, y, v in body:
            if o == 'raise' and s.handlers:
                for h in s.handlers:
                    z = y.copy()
                    if h.name:
                        z.env[h.name] = ('exc', v)
                    for o2, w, r in self.block(h.body, z):
                        mid.append(('raise', w, v) if o2 == 'raise' and r == ('const', None) else (o2, w, r))
                    if self.catches_all(h):
                        break
                else:
                    mid.append((o, y, v))
            elif o == 'next' and s.orelse:
                mid += self.block(s.orelse, y)
            else:
                mid.append((o, y, v))
        if not s.finalbody:
            return mid
        out = []
        for o, y, v in mid:
            for o2, z, r in self.block(s.finalbody, y):
                out.append((o, z, v) if o2 == 'next' else (o2, z, r))
        return out

    def catches_all(self, h):
        return h.type is None or dotted(h.type) in ('Exception', 'BaseException')


OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
