"""Program facts: loads the JSON written by alayafacts and offers trees, CFGs, paths and canonical expressions."""
import hashlib, json, os, re, subprocess, sys, tempfile, concurrent.futures as cf

ROOT = os.environ.get('ALAYA_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXE = os.path.join(HERE, 'build', 'alayafacts')


ALL = ['core', 'disk', 'diskann', 'space', 'vamana', 'lasertp', 'py', 'pydiskann']
OMP = ['vamanaomp', 'spaceomp']  # the same code with OpenMP regions visible


class AnalysisError(Exception):
    pass


def _sha(path):
    try:
        with open(path, 'rb') as fh:
            return hashlib.sha256(fh.read()).hexdigest()[:16]
    except OSError:
        return '-'


def build_exporter():
    if os.path.exists(EXE) and os.path.getmtime(EXE) >= os.path.getmtime(os.path.join(HERE, 'facts', 'alayafacts.cpp')):
        return
    r = subprocess.run(['bash', os.path.join(HERE, 'setup.sh')], capture_output=True, text=True)
    if r.returncode or not os.path.exists(EXE):
        raise AnalysisError('cannot build the fact exporter: ' + r.stderr[-2000:])


def extract(tus, extra_roots=()):
    """Run the exporter over the driver units; returns the parsed JSON documents."""
    build_exporter()
    cdir = os.path.join(HERE, 'build', 'cache')
    os.makedirs(cdir, exist_ok=True)
    base = hashlib.sha256((_sha(os.path.join(HERE, 'facts', 'alayafacts.cpp')) + _sha(os.path.join(HERE, 'facts', 'flags')) + ROOT + HERE).encode()).hexdigest()[:12]
    flags = open(os.path.join(HERE, 'facts', 'flags')).read().split()
    flags = [f.replace('/verif/', HERE + '/').replace('/repo', ROOT) for f in flags]
    shas = {}

    def sha(path):
        if path not in shas:
            shas[path] = _sha(path)
        return shas[path]

    def one(t):
        # an entry is reused only if every file the unit was parsed from still has the same content
        pre = '%s.%s.' % (t, base)
        ents = sorted(f for f in os.listdir(cdir) if f.startswith(pre) and f.endswith('.deps'))
        for e in ents:
            try:
                deps = json.load(open(os.path.join(cdir, e)))
                if all(sha(k) == v for k, v in deps.items()):
                    out = os.path.join(cdir, e[:-5] + '.json')
                    os.utime(os.path.join(cdir, e))
                    with open(out) as f:
                        return json.load(f)
            except (OSError, ValueError):
                continue
        fd, tmp = tempfile.mkstemp(dir=cdir, suffix='.tmp')
        os.close(fd)
        r = subprocess.run([EXE, tmp, os.path.join(HERE, 'tu', t + '.cpp'), '--root', ROOT + '/', '--root', os.path.join(HERE, 'tu', 'selfex'), '--excl', 'third_party', '--'] + flags + (['-fopenmp'] if t.endswith('omp') else []),
                           capture_output=True, text=True)
        if r.returncode:
            os.unlink(tmp)
            raise AnalysisError('unit %s does not parse:\n%s' % (t, '\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:3000] or r.stderr[-2000:]))
        with open(tmp) as f:
            doc = json.load(f)
        deps = {k: sha(k) for k in doc['deps']}
        name = pre + hashlib.sha256(json.dumps(deps, sort_keys=True).encode()).hexdigest()[:16]
        os.replace(tmp, os.path.join(cdir, name + '.json'))
        with open(os.path.join(cdir, name + '.deps.tmp%d' % os.getpid()), 'w') as f:
            json.dump(deps, f)
        os.replace(f.name, os.path.join(cdir, name + '.deps'))
        def age(x):
            try:
                return os.path.getmtime(os.path.join(cdir, x))
            except OSError:
                return 0
        old = sorted((f for f in os.listdir(cdir) if f.startswith(t + '.') and f.endswith('.deps')), key=age)
        for f in old[:-6]:
            for g in (f, f[:-5] + '.json'):
                try:
                    os.unlink(os.path.join(cdir, g))
                except OSError:
                    pass
        return doc
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, tus))


class Fn:
    def __init__(self, prog, d):
        self.p = prog
        self.d = d
        self.id = d['id']
        self.q = d['q']
        self.file = d['file']
        self.line = d['l']
        self.nodes = d['nodes']
        self.vars = d['vars']
        self.cls = d.get('cls')
        self.name = self.q.rsplit('::', 1)[-1]
        self.params = d['ps']
        self.body = d['body']
        self.blocks = {b['id']: b for b in d.get('blocks', [])}
        self.entry = d.get('entry')
        self.exit = d.get('exit')
        self._defs = None
        self._parent = None
        self._dom = None

    def __repr__(self):
        return 'Fn(%s)' % self.q

    def rel(self):
        return os.path.relpath(self.file, ROOT) if self.file.startswith(ROOT) else self.file

    def at(self, nid=None):
        l = self.nodes[nid]['l'] if nid is not None and nid >= 0 else self.line
        return '%s:%s (%s)' % (self.rel(), l, self.q)

    def n(self, i):
        return self.nodes[i]

    KEYS1 = ('e', 'r', 'b', 'i', 'c', 'a1', 'a2', 'obj', 'ind', 'init', 'cv_', 'th', 'el', 'body', 'inc', 'range', 'var', 'lo', 's', 'size')
    KEYSL = ('a', 'ss', 'ch', 'hs', 'pl')

    def kids(self, i):
        n = self.nodes[i]
        r = []
        k = n['k']
        for key in ('init', 'cv_', 'c', 'range', 'var', 'obj', 'ind', 'b', 'i', 'e', 'r', 'a1', 'a2', 'size'):
            v = n.get(key)
            if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
                r.append(v)
        for key in ('a', 'pl', 'ss', 'ch'):
            v = n.get(key)
            if isinstance(v, list):
                r += [x for x in v if isinstance(x, int) and x >= 0]
        for key in ('lo', 's', 'th', 'el', 'body', 'inc'):
            v = n.get(key)
            if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
                r.append(v)
        if isinstance(n.get('hs'), list):
            r += n['hs']
        if k == 'decl':
            for v in n['vs']:
                if 'init' in v and v['init'] >= 0:
                    r.append(v['init'])
        if k == 'lam':
            for c in n.get('caps', []):
                if 'init' in c:
                    r.append(c['init'])
        return r

    def walk(self, i=None):
        if i is None:
            i = self.body
        stack = [i]
        seen = set()
        while stack:
            x = stack.pop()
            if x is None or x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(reversed(self.kids(x)))

    def all(self):
        """body and constructor initialisers"""
        yield from self.walk()
        for it in self.d.get('inits', []):
            if 'init' in it:
                yield from self.walk(it['init'])

    def parent(self):
        if self._parent is None:
            p = {}
            for x in list(self.all()):
                for k in self.kids(x):
                    p.setdefault(k, x)
            self._parent = p
        return self._parent

    def ancestors(self, i):
        p = self.parent()
        while i in p:
            i = p[i]
            yield i

    def calls(self, i=None):
        for x in (self.walk(i) if i is not None else self.all()):
            if self.nodes[x]['k'] in ('call', 'ctor'):
                yield x

    # --- definitions of locals
    def defs(self):
        """decl id -> list of (node id of value or None, kind, node)"""
        if self._defs is None:
            D = {}
            for x in list(self.all()):
                n = self.nodes[x]
                k = n['k']
                for r in n.get('ra', ()) if k == 'call' else ():
                    t = self.nodes[n['a'][r]]
                    if t['k'] == 'ref' and 'd' in t:
                        D.setdefault(t['d'], []).append((None, 'ref', x))
                if k == 'decl':
                    for v in n['vs']:
                        D.setdefault(v['d'], []).append((v.get('init'), 'decl', x))
                        for b in v.get('bind', []):
                            D.setdefault(b, []).append((v.get('init'), 'bind', x))
                elif k == 'asg':
                    t = self.nodes[n['e']]
                    if t['k'] == 'ref':
                        D.setdefault(t['d'], []).append((n['r'] if n['op'] == '=' else None, 'asg' + n['op'], x))
                elif k == 'un' and n['op'] in ('++', '--'):
                    t = self.nodes[n['e']]
                    if t['k'] == 'ref':
                        D.setdefault(t['d'], []).append((None, 'inc', x))
                elif k == 'un' and n['op'] == '&':
                    t = self.nodes[n['e']]
                    if t['k'] == 'ref':
                        D.setdefault(t['d'], []).append((None, 'addr', x))
                elif k == 'call' and n.get('op') == '=' and 'obj' in n:
                    t = self.nodes[n['obj']]
                    if t['k'] == 'ref':
                        D.setdefault(t['d'], []).append((n['a'][0] if n['a'] else None, 'asg=', x))
                elif k == 'lam':
                    for c in n.get('caps', []):
                        if c.get('ref') and 'd' in c:
                            D.setdefault(c['d'], []).append((None, 'cap', x))
            self._defs = D
        return self._defs

    def single_def(self, d, ignore=('addr',)):
        v = self.vars.get(str(d), {})
        if v.get('k') == 'local' and (v.get('t', '').startswith('const ') and not v['t'].endswith('*') or v.get('t', '').endswith('*const')):
            ignore = ('addr', 'cap')   # a const object cannot be changed through a capture or its address
        L = [t for t in self.defs().get(d, []) if t[1] not in ignore]
        if len(L) == 1 and L[0][1] == 'decl':
            return L[0][0]
        return None

    MUT_OPS = ('+=', '/=', '-=', '*=', '<<=', '>>=', '|=', '&=', '^=', '++', '--', '=')
    MUT_NAMES = ('append', 'replace_extension', 'replace_filename', 'remove_filename', 'concat', 'assign', 'push_back', 'emplace_back',
                 'resize', 'clear', 'insert', 'erase', 'reset', 'swap', 'pop_back', 'emplace', 'push', 'pop', 'store', 'fetch_add',
                 'fetch_sub', 'exchange')

    def mutated(self, d):
        """is the class-type local d changed by a member call after its declaration"""
        if not hasattr(self, '_mut'):
            M = set()
            for x in list(self.all()):
                n = self.nodes[x]
                if n['k'] == 'call' and 'obj' in n:
                    o = self.nodes[n['obj']]
                    if o['k'] == 'ref' and 'd' in o and (n.get('op') in self.MUT_OPS or n.get('q', '').rsplit('::', 1)[-1] in self.MUT_NAMES):
                        M.add(o['d'])
            self._mut = M
        return d in self._mut

    # --- CFG helpers
    def elems(self):
        for b in self.blocks.values():
            for j, e in enumerate(b['els']):
                yield b['id'], j, e

    def pos(self):
        """node id -> (block, index)"""
        if not hasattr(self, '_pos'):
            P = {}
            for bid, j, e in self.elems():
                if isinstance(e, int):
                    P.setdefault(e, (bid, j))
            self._pos = P
        return self._pos

    def preds(self):
        if not hasattr(self, '_preds'):
            P = {b: [] for b in self.blocks}
            for b in self.blocks.values():
                for s in b['succ']:
                    if s is not None:
                        P[s].append(b['id'])
            self._preds = P
        return self._preds

    def handlers(self, tryid):
        """list of (catch node id, block id)"""
        if not hasattr(self, '_hb'):
            H = {}
            for b in self.blocks.values():
                lb = b.get('label')
                if lb and lb['k'] == 'catch':
                    H[lb['s']] = b['id']
            self._hb = H
        return [(h, self._hb.get(h)) for h in self.nodes[tryid]['hs']]

    def text(self, i, depth=0):
        """compact source-like rendering"""
        if i is None or i < 0 or depth > 12:
            return '?'
        n = self.nodes[i]
        k = n['k']
        T = lambda x: self.text(x, depth + 1)
        if k == 'ref':
            return n['n']
        if k == 'this':
            return 'this'
        if k == 'mem':
            b = self.nodes[n['b']]
            return n['n'] if b['k'] == 'this' else T(n['b']) + '.' + n['n']
        if k == 'lit':
            return n['v']
        if k == 'str':
            return json.dumps(n['v'])
        if k == 'bin':
            return '%s %s %s' % (T(n['e']), n['op'], T(n['r']))
        if k == 'asg':
            return '%s %s %s' % (T(n['e']), n['op'], T(n['r']))
        if k == 'un':
            return n['op'] + T(n['e'])
        if k == 'cast':
            return T(n['e'])
        if k == 'idx':
            return '%s[%s]' % (T(n['b']), T(n['i']))
        if k == 'call':
            a = ', '.join(T(x) for x in n['a'])
            nm = n.get('q', '?').rsplit('::', 1)[-1]
            if n.get('op') and 'obj' in n:
                if n['op'] == '()':
                    return '%s(%s)' % (T(n['obj']), a)
                if n['op'] == '[]':
                    return '%s[%s]' % (T(n['obj']), a)
                return '%s%s%s' % (T(n['obj']), n['op'], a)
            if 'obj' in n and self.nodes[n['obj']]['k'] != 'this':
                return '%s.%s(%s)' % (T(n['obj']), nm, a)
            return '%s(%s)' % (nm, a)
        if k == 'ctor':
            return '%s(%s)' % (n['cls'].rsplit('::', 1)[-1], ', '.join(T(x) for x in n['a']))
        if k == 'init':
            return '{%s}' % ', '.join(T(x) for x in n['a'])
        if k == 'cond':
            return '%s ? %s : %s' % (T(n['c']), T(n['a1']), T(n['a2']))
        if k == 'decl':
            return '; '.join('%s = %s' % (v['n'], T(v['init'])) if 'init' in v else v['n'] for v in n['vs'])
        if k == 'ret':
            return 'return ' + (T(n['e']) if 'e' in n else '')
        if k == 'throw':
            return 'throw ' + (n.get('tt') or '')
        if k == 'sizeof':
            return 'sizeof(%s)' % n['st_']
        if k == 'lam':
            return '[lambda]'
        return k


class Program:
    def __init__(self, tus):
        self.tus = tus
        docs = extract(tus)
        self.fns = {}
        self.classes = {}
        self.enums = {}
        for d in docs:
            if d['errors']:
                raise AnalysisError('parse errors')
            for f in d['functions']:
                if f['id'] not in self.fns:
                    self.fns[f['id']] = Fn(self, f)
            for c in d['classes']:
                self.classes.setdefault(c['q'], c)
            for e in d['enums']:
                self.enums.setdefault(e['q'], e)
        self.byq = {}
        for f in self.fns.values():
            self.byq.setdefault(f.q, []).append(f)
        self.nodecount = sum(len(f.nodes) for f in self.fns.values())

    def fn(self, q, need=True):
        """functions whose qualified name ends with q (on a :: boundary)"""
        r = [f for f in self.fns.values() if f.q == q or f.q.endswith('::' + q)]
        if need and not r:
            raise AnalysisError('anchor not found: no function %s in the analysed program' % q)
        return r

    def get(self, fid):
        return self.fns.get(fid)

    def methods(self, cls, need=True):
        r = [f for f in self.fns.values() if f.cls and (f.cls == cls or f.cls.endswith('::' + cls)) and not f.d.get('implicit')]
        if need and not r:
            raise AnalysisError('anchor not found: class %s' % cls)
        return r

    def cls(self, q, need=True):
        r = [c for k, c in self.classes.items() if k == q or k.endswith('::' + q)]
        if not r:
            if need:
                raise AnalysisError('anchor not found: class %s' % q)
            return None
        return r[0]

    def enum(self, q):
        r = [c for k, c in self.enums.items() if k == q or k.endswith('::' + q)]
        if not r:
            raise AnalysisError('anchor not found: enum %s' % q)
        return r[0]

    def infile(self, *rels):
        return [f for f in self.fns.values() if any(f.rel() == r or (r.endswith('/') and f.rel().startswith(r)) for r in rels)]

    def lambdas_of(self, f):
        return [g for g in self.fns.values() if g.d.get('parent') == f.id]

    def callers(self):
        if not hasattr(self, '_callers'):
            C = {}
            for f in self.fns.values():
                for x in range(len(f.nodes)):
                    n = f.nodes[x]
                    if n['k'] in ('call', 'ctor') and n.get('f'):
                        C.setdefault(n['f'], []).append((f, x))
            self._callers = C
        return self._callers

    def reach(self, roots, stop=lambda f: False):
        """functions reachable from the given ones (calls, constructed and nested lambdas)"""
        seen = {}
        st = list(roots)
        while st:
            f = st.pop()
            if f.id in seen:
                continue
            seen[f.id] = f
            if stop(f):
                continue
            for n in f.nodes:
                if n['k'] in ('call', 'ctor', 'ref', 'mem') and n.get('f'):
                    g = self.get(n['f'])
                    if g:
                        st.append(g)
                elif n['k'] == 'lam':
                    for k in ([n['f']] if n.get('f') else n.get('gen', [])):
                        g = self.get(k)
                        if g:
                            st.append(g)
        return list(seen.values())


PASS_CALLS = ('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::launder', 'std::get', 'std::__addressof', 'std::ref', 'std::cref')
PASS_METHODS = ('get', 'operator->', 'operator*', 'value', 'operator bool')


class Env:
    """Maps parameters and `this` of a frame to access paths of the root frame."""
    __slots__ = ('fn', 'this', 'params', 'up')

    def __init__(self, fn, this='this', params=None, up=None):
        self.fn = fn
        self.this = this
        self.params = params or {}
        self.up = up

    def key(self):
        return (self.this, frozenset(self.params.items()))


def path(env, i, depth=0):
    """Canonical access path of an expression ('this.x.y', 'L:var@fn', 'P:param', ...), or '?...'"""
    f = env.fn
    if i is None or i < 0 or depth > 25:
        return '?'
    n = f.nodes[i]
    k = n['k']
    if k == 'this':
        return env.this
    if k == 'ref':
        if n.get('enum') or n.get('isfn'):
            return 'C:' + n['n']
        d = n['d']
        v = f.vars[str(d)]
        if v['k'] == 'param':
            return env.params.get(d, 'P:' + v['n'])
        if v['k'] in ('global', 'static', 'sfield'):
            return 'G:' + v['q']
        if v['k'] == 'outer':
            return env.params.get(('o', v['n'], v['l'])) or 'O:%s#%s' % (v['n'], v['l'])
        t = v['t']
        if v.get('ref') or t.endswith('*') or t.endswith('*const') or 'unique_ptr' in t or v.get('binding') or 'iterator' in t:
            sd = f.single_def(d)
            if sd is not None and sd != i:
                p = path(env, sd, depth + 1)
                if v.get('binding'):
                    return p + '.' + v['n']
                if not p.startswith('?'):
                    return p
        return 'L:%s#%s@%s' % (v['n'], v['l'], f.name)
    if k == 'mem':
        return path(env, n['b'], depth + 1) + '.' + n['n']
    if k == 'un' and n['op'] in ('*', '&'):
        return path(env, n['e'], depth + 1)
    if k in ('cast', 'silist'):
        return path(env, n['e'], depth + 1)
    if k == 'idx':
        return path(env, n['b'], depth + 1) + '[]'
    if k == 'lit':
        return 'K:' + n['v']
    if k == 'str':
        return 'S:' + n['v']
    if k == 'ctor' and len(n['a']) == 1 and (n.get('copy') or n.get('move')):
        return path(env, n['a'][0], depth + 1)
    if k == 'call':
        q = n.get('q', '')
        base = q.rsplit('::', 1)[-1]
        if q in PASS_CALLS or base in ('move', 'forward', 'exchange') and q.startswith('std'):
            return path(env, n['a'][0], depth + 1) if n['a'] else '?'
        if 'obj' in n:
            if n.get('op') in ('->', '*') and not n['a']:
                return path(env, n['obj'], depth + 1)
            if n.get('op') == '[]':
                return path(env, n['obj'], depth + 1) + '[]'
            if base in ('get', 'value', 'native_handle') and q.startswith('std::'):
                return path(env, n['obj'], depth + 1)
            if base in ('data', 'begin', 'front', 'back', 'at', 'cbegin') and q.startswith('std::'):
                return path(env, n['obj'], depth + 1) + '[]'
        # single-return accessor
        g = f.p.get(n.get('f'))
        if g is not None:
            r = single_return(g)
            if r is not None and not g.d.get('virt'):
                p = path(child_env(env, i, g), r, depth + 1)
                if not p.startswith('?') and not p.startswith('L:'):
                    return p
        return '?' + base + '@' + str(n['l'])
    if k == 'cond':
        return '?cond'
    return '?' + k


def idle(g, s):
    """a statement without effect: empty, a discarded pure expression, or the declaration of a local that is set only there"""
    n = g.nodes[s]
    if n['k'] == 'other':
        return n.get('c') == 'NullStmt' or 'c' not in n or not g.kids(s)
    if n['k'] == 'decl':
        return all(v.get('init') is None or g.single_def(v['d']) is not None and pure(g, v['init']) for v in n['vs'])
    return n['k'] in ('cast', 'lit', 'ref', 'mem', 'bin', 'un') and pure(g, s)


def pure(g, i):
    return all(g.nodes[x]['k'] in ('cast', 'lit', 'str', 'ref', 'mem', 'this', 'bin', 'cond', 'sizeof', 'idx') or
               g.nodes[x]['k'] == 'un' and g.nodes[x]['op'] not in ('++', '--') or
               g.nodes[x]['k'] == 'call' and (g.nodes[x].get('cm') and not g.nodes[x].get('f') or g.nodes[x].get('op') in ('*', '->', '[]')) or
               g.nodes[x]['k'] == 'ctor' and g.nodes[x].get('copy') for x in g.walk(i))


def single_return(g):
    """the returned expression of a function whose body is one return statement (else None)"""
    b = g.nodes[g.body]
    if b['k'] != 'block':
        return None
    ss = [s for s in b['ss'] if not idle(g, s)]
    if len(ss) == 1 and g.nodes[ss[0]]['k'] == 'ret' and 'e' in g.nodes[ss[0]]:
        return g.nodes[ss[0]]['e']
    return None


def child_env(env, call, g):
    """environment of callee g entered through call node `call` of env.fn"""
    f = env.fn
    n = f.nodes[call]
    this = env.this
    if g.d.get('lambda'):
        this = env.this
    elif 'obj' in n:
        this = path(env, n['obj'])
    elif n['k'] == 'ctor':
        this = '?new'
    params = {}
    args = n.get('a', [])
    for d, a in zip(g.params, args):
        params[d] = path(env, a)
    if g.d.get('lambda'):
        # captured variables of the creator are visible under the 'outer' key
        for dk, v in f.vars.items():
            if v['k'] in ('local', 'param', 'outer', 'static'):
                pp = None
                if v['k'] == 'param':
                    pp = env.params.get(int(dk), 'P:' + v['n'])
                elif v['k'] == 'outer':
                    pp = env.params.get(('o', v['n'], v['l']))
                elif v['k'] == 'local':
                    if v.get('ref') or v['t'].endswith('*'):
                        sd = f.single_def(int(dk))
                        if sd is not None:
                            q = path(env, sd)
                            if not q.startswith('?'):
                                pp = q
                    pp = pp or 'L:%s#%s@%s' % (v['n'], v['l'], f.name)
                if pp:
                    params[('o', v['n'], v['l'])] = pp
    return Env(g, this, params, (env, call))


NOEXPAND = re.compile(r'error_code|stream|lock_guard|unique_lock|shared_lock|scoped_lock|thread|atomic<|mutex|WriteBatch|BinaryReader|BinaryWriter')
FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}


def canon(env, i, depth=0, subst=True):
    """Canonical, location-independent expression (nested tuples); single-assignment locals and accessors are expanded."""
    f = env.fn
    if i is None or i < 0:
        return ('none',)
    if depth > 30:
        return ('deep',)
    n = f.nodes[i]
    k = n['k']
    C = lambda x: canon(env, x, depth + 1, subst)
    if n.get('cv') is not None and k not in ('lit',) and not (k == 'ref' and n.get('enum')):
        return ('lit', n['cv'])
    if k == 'lit':
        return ('lit', n['v'])
    if k == 'str':
        return ('str', n['v'])
    if k == 'ref':
        if n.get('enum'):
            return ('enum', n['enum'] + '::' + n['n'])
        if n.get('isfn'):
            return ('fn', n['q'])
        v = f.vars[str(n['d'])]
        if v['k'] == 'local' and subst and not v.get('binding'):
            sd = f.single_def(n['d'])
            if sd is not None and (f.nodes[sd]['k'] in ('lit', 'init') or f.nodes[sd]['k'] == 'ctor' and not f.nodes[sd]['a']) and any(t[1] == 'addr' for t in f.defs()[n['d']]):
                sd = None   # initialised, then filled through its address
            if sd is not None and f.nodes[sd]['k'] not in ('lam',) and not NOEXPAND.search(v['t']) and (v.get('ref') or v['t'].endswith('*') or not f.mutated(n['d'])):
                return C(sd)
        if v['k'] == 'outer' and subst and env.up:
            ue = env.up[0]
            while ue is not None:
                for dk, ov in ue.fn.vars.items():
                    if ov['n'] == v['n'] and ov['l'] == v['l'] and ov['k'] == 'local' and not ov.get('binding') and not NOEXPAND.search(ov['t']):
                        sd = ue.fn.single_def(int(dk))
                        if sd is not None and ue.fn.nodes[sd]['k'] != 'lam' and not ue.fn.mutated(int(dk)):
                            return canon(ue, sd, depth + 1, subst)
                        break
                ue = ue.up[0] if ue.up and ue.fn.d.get('lambda') else None
        if v['k'] == 'param' and n['d'] in env.params and env.up:
            uenv, call = env.up
            args = uenv.fn.nodes[call].get('a', [])
            j = f.params.index(n['d']) if n['d'] in f.params else -1
            if 0 <= j < len(args) and not [t for t in f.defs().get(n['d'], []) if t[1] != 'addr']:
                return canon(uenv, args[j], depth + 1, subst)
        return ('v', path(env, i))
    if k in ('this', 'mem'):
        return ('v', path(env, i))
    if k == 'cast':
        return C(n['e'])
    if k == 'un':
        if n['op'] in ('*', '&'):
            return C(n['e']) if n['op'] == '*' else ('addr', C(n['e']))
        return ('un', n['op'], C(n['e']))
    if k == 'bin':
        return ('bin', n['op'], C(n['e']), C(n['r']))
    if k == 'idx':
        return ('idx', C(n['b']), C(n['i']))
    if k == 'cond':
        return ('cond', C(n['c']), C(n['a1']), C(n['a2']))
    if k == 'ctor':
        if len(n['a']) == 1 and (n.get('copy') or n.get('move')):
            return C(n['a'][0])
        return ('ctor', n['cls']) + tuple(C(x) for x in n['a'])
    if k == 'init':
        if len(n['a']) == 1:
            return C(n['a'][0])
        return ('init',) + tuple(C(x) for x in n['a'])
    if k == 'sizeof':
        return ('sizeof', n['st_'])
    if k == 'call':
        q = n.get('q', '?')
        base = q.rsplit('::', 1)[-1]
        if q in PASS_CALLS and len(n['a']) >= 1:
            return C(n['a'][0])
        if 'obj' in n and n.get('op') in ('->', '*') and not n['a']:
            return C(n['obj'])
        if n.get('op') in FLIP and ('obj' in n or len(n['a']) == 2):
            aa = ([n['obj']] if 'obj' in n else []) + n['a']
            if len(aa) == 2:
                return ('bin', n['op'], C(aa[0]), C(aa[1]))
        if n.get('op') == '[]' and 'obj' in n:
            return ('idx', C(n['obj']), C(n['a'][0]))
        g = f.p.get(n.get('f'))
        if g is not None and not g.d.get('virt'):
            r = single_return(g)
            if r is not None:
                e = canon(child_env(env, i, g), r, depth + 1, subst)
                if 'deep' not in str(e)[:2000]:
                    return e
        o = C(n['obj']) if 'obj' in n else None
        return ('call', q, o) + tuple(C(x) for x in n['a'])
    if k == 'await':
        return C(n['e'])
    return (k,)


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == 'lit':
        return t[1]
    if k == 'v':
        p = t[1]
        p = re.sub(r'L:([^#]*)#\d+@\w+', r'\1', p)
        return p.replace('P:', '').replace('G:', '').replace('this.', '')
    if k == 'bin':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'un':
        return t[1] + show(t[2])
    if k == 'enum':
        return t[1].rsplit('::', 1)[-1]
    if k == 'call':
        o = show(t[2]) + '.' if t[2] else ''
        return '%s%s(%s)' % (o, t[1].rsplit('::', 1)[-1], ', '.join(show(x) for x in t[3:]))
    if k == 'idx':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'str':
        return json.dumps(t[1])
    return '%s(%s)' % (k, ', '.join(show(x) for x in t[1:]))
