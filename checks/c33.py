"""C33: abstract interpretation of the Python client over classes of names (empty, '.', '..', names with separators): none may reach a registry entry or a file operation; file operations of the client only on children of its root named by registered names; deletion only when requested."""
import ast
from vf.pyast import *

BAD = {'empty': '', 'dot': '.', 'dotdot': '..', 'nested': None, 'absolute': None}
FSOPS = {'rmtree': 0, 'remove': 0, 'unlink': 0, 'rmdir': 0, 'removedirs': 0, 'makedirs': 0, 'mkdir': 0, 'rename': 1, 'replace': 1, 'move': 1, 'copytree': 1, 'copy': 1, 'copyfile': 1, 'symlink': 1, 'open': 0, 'save_schema': 0, 'write_text': -1, 'write_bytes': -1, 'touch': -1}
DELETES = ('rmtree', 'remove', 'unlink', 'rmdir', 'removedirs')


def mods():
    b = 'python/src/alayalite/'
    return {m: Mod(b + m + '.py') for m in ('client', 'collection', 'index', 'schema', 'common', 'utils')}


def subterms(v):
    yield v
    if isinstance(v, tuple):
        for x in v[1:]:
            if isinstance(x, tuple):
                yield from subterms(x)


class Names(PyFlow):
    """follows one entry point with the name parameter in one class"""
    loops = (0, 1)

    def __init__(self, ms, cls):
        super().__init__(ms)
        self.nc = cls
        self.sinks = []

    # the class of the name
    def isname(self, v):
        return v[0] == 'name'

    def decide(self, v, st):
        c = self.nc
        if v[0] == 'name':
            return c != 'empty'
        if v[0] == 'cmp':
            op, a, b = v[1:4]
            if op in ('==', '!=', 'is', 'is not'):
                r = self.equal(a, b, st)
                return None if r is None else r == (op in ('==', 'is'))
            if op in ('in', 'not in'):
                r = None
                if a[0] == 'name' and b[0] in ('tuple', 'list', 'set'):
                    rs = [self.equal(a, x, st) for x in b[1:]]
                    r = True if True in rs else (False if all(x is False for x in rs) else None)
                elif a[0] == 'name' and b[0] == 'const' and isinstance(b[1], str) and BAD.get(c) is not None:
                    r = BAD[c] in b[1]
                elif b[0] == 'name':
                    r = self.contains(a)
                elif a[0] == 'name' and self.registry(b) and ('registered', b) not in st.facts:
                    # by induction over the operations no name of a bad class is registered
                    r = False
                return None if r is None else r == (op == 'in')
            if op in ('<', '>', '<=', '>=') and a[0] == 'call' and a[1] == 'len':
                inner = a[2]
                if inner == ('name',) and b[0] == 'const' and BAD.get(c) is not None:
                    return self.compare(('cmp', op, ('const', len(BAD[c])), b), st)
                if self.parts(inner) and b == ('const', 1):
                    n = {'empty': 0, 'dot': 0, 'dotdot': 1, 'nested': 2, 'absolute': 2}[c]
                    return self.compare(('cmp', op, ('const', n), b), st)
        if v[0] == 'call':
            q = v[1].rsplit('.', 1)[-1]
            a = v[2:]
            if q == 'isabs' and a and a[0] == ('name',):
                return c == 'absolute'
            if q == 'is_absolute' and a and self.pathof(a[0]):
                return c == 'absolute'
            if q == 'isinstance' and a and a[0] == ('name',):
                return True
            if q == 'startswith' and a[0] == ('name',) and len(a) > 1:
                w = [x[1] for x in a[1][1:] if x[0] == 'const'] if a[1][0] == 'tuple' else [a[1][1]] if a[1][0] == 'const' else [self.sep(a[1])]
                if any(x in ('/',) for x in w) and c == 'absolute':
                    return True
                if '.' in w and c in ('dot', 'dotdot'):
                    return True
                if '..' in w and c == 'dotdot':
                    return True
                return False if BAD.get(c) is not None and not any(isinstance(x, str) and BAD[c].startswith(x) for x in w) else None
            if q == 'any' and a and a[0][0] == 'comp':
                return self.anyall(a[0], st)
            if q == 'dirname' and a and a[0] == ('name',):
                return c in ('nested', 'absolute')
            if q == 'basename' and a and a[0] == ('name',):
                return {'empty': False, 'dot': True, 'dotdot': True}.get(c)
            if q == 'strip' and a and a[0] == ('name',):
                return False if c == 'empty' else None
            if q in ('fullmatch', 'match') and v[1].startswith('re.') and len(a) > 1 and a[1] == ('name',) and a[0][0] == 'const':
                return self.regex(a[0][1], q)
            if q in ('isalnum', 'isidentifier', 'isalpha', 'isdigit') and a and a[0] == ('name',):
                return False
        return None

    def registry(self, v):
        return v[0] == 'attr' and v[2].endswith('_map')

    def sep(self, v):
        if v[0] == 'const':
            return v[1]
        if v[0] == 'attr' and v[2] in ('sep', 'altsep', 'curdir', 'pardir'):
            return {'sep': '/', 'altsep': None, 'curdir': '.', 'pardir': '..'}[v[2]]
        return None

    def contains(self, a):
        s = self.sep(a)
        c = self.nc
        if not isinstance(s, str):
            return None
        if s == '/':
            return c in ('nested', 'absolute')
        if BAD.get(c) is not None:
            return s in BAD[c]
        if s in ('.', '..'):
            return None
        return None

    def anyall(self, comp, st):
        _, it, body, conds = comp
        els = self.elements(it)
        if els is None:
            if it[0] == 'tuple':
                els = list(it[1:])
            elif it == ('name',):
                return None
            elif it[0] == 'const' and isinstance(it[1], str):
                els = [('const', x) for x in it[1]]
            else:
                return None
        res = []
        for e in els:
            def sub(v):
                if v == ('elem', it):
                    return e
                return tuple(sub(x) if isinstance(x, tuple) else x for x in v)
            cs = [self.truth(sub(x), st) if self.sep(sub(x)) is None and sub(x)[0] != 'const' else bool(self.sep(sub(x))) for x in conds]
            b = sub(body)
            if b[0] == 'and':
                b = ('and',) + tuple(('const', bool(self.sep(x))) if x[0] in ('attr', 'const') else x for x in b[1:])
            t = self.truth(b, st)
            res.append(False if False in cs else (t if all(cs) else (False if t is False else None)))
        return True if True in res else (False if all(x is False for x in res) else None)

    def pathof(self, v):
        return v[0] == 'call' and v[1].rsplit('.', 1)[-1] in ('Path', 'PurePath', 'PurePosixPath') and v[2:] == (('name',),)

    def parts(self, v):
        return v[0] == 'attr' and v[2] == 'parts' and self.pathof(v[1]) or v[0] == 'call' and v[1].endswith('.split') and v[2:3] == (('name',),) and self.nc in ('nested', 'absolute')

    def equal(self, a, b, st):
        c = self.nc
        for x, y in ((a, b), (b, a)):
            s = self.sep(y)
            if x == ('name',) and isinstance(s, str):
                if BAD.get(c) is not None:
                    return BAD[c] == s
                return False if '/' not in s else None
            if y == ('name',):
                q = x[1].rsplit('.', 1)[-1] if x[0] == 'call' else None
                if q == 'basename' and x[2:] == (('name',),):
                    return c in ('empty', 'dot', 'dotdot')
                if x[0] == 'attr' and x[2] == 'name' and self.pathof(x[1]):
                    # PurePath('.').name and PurePath('').name are '', PurePath('..').name is '..'
                    return c in ('empty', 'dotdot')
                if q == 'normpath' and x[2:] == (('name',),):
                    return {'empty': False, 'dot': True, 'dotdot': True}.get(c)
                if q == 'secure_filename':
                    return c == 'empty'
            # the parent of the resolved path is the root
            if x[0] == 'call' and x[1].rsplit('.', 1)[-1] == 'dirname' and any(t == ('name',) for t in subterms(x)) and \
                    any(t[0] == 'call' and t[1].rsplit('.', 1)[-1] in ('abspath', 'realpath', 'normpath') for t in subterms(x)):
                return False
            if x[0] == 'call' and x[1].rsplit('.', 1)[-1] == 'dirname' and x[2:] == (('name',),) and y == ('const', ''):
                return c not in ('nested', 'absolute')
        return None

    def regex(self, pat, q):
        import re
        try:
            from re import _parser as sp
            tree = sp.parse(pat)
        except Exception:
            return None
        if BAD.get(self.nc) is not None:
            return getattr(re, q)(pat, BAD[self.nc]) is not None

        def slash(t):
            for op, av in t:
                o = str(op)
                if o == 'LITERAL' and av == 47 or o in ('ANY', 'NOT_LITERAL', 'CATEGORY'):
                    return True
                if o == 'IN':
                    neg = any(str(x) == 'NEGATE' for x, _ in av)
                    hit = False
                    for x, y in av:
                        sx = str(x)
                        if sx == 'LITERAL' and y == 47 or sx == 'RANGE' and y[0] <= 47 <= y[1] or sx == 'CATEGORY' and 'NOT' in str(y):
                            hit = True
                    if hit != neg:
                        return True
                if o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT') and slash(av[2]):
                    return True
                if o == 'SUBPATTERN' and slash(av[-1]):
                    return True
                if o == 'BRANCH' and any(slash(x) for x in av[1]):
                    return True
            return False
        if q == 'fullmatch' or pat.endswith('$') or pat.endswith('\\Z'):
            return None if slash(tree) else False
        return None

    # sinks
    def on_call(self, node, name, recv, args, kw, st):
        op = name.rsplit('.', 1)[-1]
        if name in ('os.path.join', 'join') and (recv is None or recv == ('attr', ('glob', 'os'), 'path')):
            return [('ok', st, ('join',) + tuple(args))]
        if op in ('Path', 'PurePath') and len(args) > 1:
            return [('ok', st, ('join',) + tuple(args))]
        if op in FSOPS and FSOPS[op] < max(len(args), 1):
            k = FSOPS[op]
            tgt = recv if k < 0 else args[k]
            if any(t == ('name',) for t in subterms(tgt)) or any(t[0] in ('attr',) and t[2].endswith('rocksdb_path') for t in ()):
                self.sinks.append(('fs', op, node, self.mod, tgt))
        if op in ('save', 'load', 'Collection', 'Index') and any(t == ('name',) for a in args for t in subterms(a)) and self.mod.rel.endswith('client.py'):
            self.sinks.append(('handoff', op, node, self.mod, args))
        return None

    def on_store(self, node, target, value, st):
        if target[0] == 'idx' and self.registry(target[1]) and target[2] == ('name',):
            self.sinks.append(('register', target[1][2], node, self.mod, target))
            st = St(st.env, st.facts | {('registered', target[1])}, st.ev)
        if target[0] == 'attr' and any(t == ('name',) for t in subterms(value)) and 'path' in target[2]:
            self.sinks.append(('path', target[2], node, self.mod, value))
        return st

    def inline(self, name):
        return True


class Scope(PyFlow):
    """where the file operations of the client point, and under which conditions they happen"""
    loops = (0, 1)

    def __init__(self, ms):
        super().__init__(ms)
        self.ops = []

    def decide(self, v, st):
        for f in st.facts:
            if f[0] == 'branch' and f[1] == v:
                return f[2]
        return None

    def on_branch(self, node, v, pol, st):
        return St(st.env, st.facts | {('branch', v, pol)}, st.ev)

    def on_call(self, node, name, recv, args, kw, st):
        op = name.rsplit('.', 1)[-1]
        if name in ('os.path.join',):
            return [('ok', st, ('join',) + tuple(args))]
        if op in ('abspath', 'realpath') and len(args) == 1:
            return [('ok', st, ('call', name) + tuple(args))]
        if op in ('Path', 'PurePath') and len(args) > 1:
            return [('ok', st, ('join',) + tuple(args))]
        if op in FSOPS and (recv is None or recv[0] in ('glob', 'attr')) and not (recv is not None and FSOPS[op] < 0) and FSOPS[op] < len(args):
            self.ops.append((op, node, self.mod, args[FSOPS[op]], frozenset(st.facts)))
        if op == 'save_schema':
            return [('ok', st, ('const', None))]
        if op == 'save' and args and self.mod.rel.endswith('client.py'):
            self.ops.append((op, node, self.mod, args[0], frozenset(st.facts)))
        if op == 'load' and len(args) == 2 and self.mod.rel.endswith('client.py'):
            self.ops.append((op, node, self.mod, ('join',) + tuple(args), frozenset(st.facts)))
            return [('ok', st, ('call', name) + tuple(args))]
        return None

    def inline(self, name):
        return self.mod.rel.endswith('client.py') and name not in ('load', 'save')


def flat(v):
    """components of a joined path"""
    if v[0] == 'join':
        out = []
        for x in v[1:]:
            out += flat(x) if x[0] == 'join' else [x]
        return out
    return [v]


def root_of(v):
    return v[0] == 'attr' and v[1] == ('self',) or v[0] == 'call' and v[1].endswith('abspath')


def known_name(x, facts):
    """x is a key of a registry of the client or a directory entry of its root"""
    if x[0] in ('elem', 'idx'):
        for t in subterms(x):
            if t[0] == 'attr' and t[2].endswith('_map'):
                return True
            if t[0] == 'call' and t[1].rsplit('.', 1)[-1] in ('listdir', 'scandir'):
                return 'listed'
    for f in facts:
        if f[0] == 'branch':
            v, pol = f[1], f[2]
            for op, want in (('in', True), ('not in', False)):
                if v[0] == 'cmp' and v[1] == op and v[2] == x and v[3][0] == 'attr' and v[3][2].endswith('_map') and pol == want:
                    return True
    return False


def conj(facts):
    for f in facts:
        if f[0] != 'branch':
            continue
        st = [(f[1], f[2])]
        while st:
            v, p = st.pop()
            if v[0] == 'not':
                st.append((v[1], not p))
            elif v[0] == 'and' and p or v[0] == 'or' and not p:
                st += [(x, p) for x in v[1:]]
            else:
                yield v, p


def requested(facts):
    return any(v[0] == 'param' and 'delete' in v[1] and p or v[0] == 'cmp' and v[2][0] == 'param' and 'delete' in v[2][1] and v[3] == ('const', True) and p == (v[1] in ('==', 'is')) for v, p in conj(facts))


def run(R):
    ms = mods()
    cm = ms['client']
    R.rule('bad-names', 'with a name that is empty, ".", "..", absolute or contains a separator, no path of a Client operation reaches a registry entry, a path of the storage or a file operation', 8)
    R.rule('below-root', 'every file operation of the client is on its root or on root / registered-name [/ constant]', 6)
    R.rule('requested', 'every deletion by the client happens only where the caller asked for deletion on disk, and only for registered names', 3)
    R.rule('service', 'the HTTP handlers pass request data only to operations of the client and its collections: no file operation, path or collection is made from request data directly', 5)
    R.rule('own-files', 'removing a storage directory after a failed build happens only if it was absent or empty before the build', 1)
    entries = [q for q, f in cm.fns.items() if q.startswith('Client.') and not q.split('.')[1].startswith('_')]
    npaths = 0
    for q in sorted(entries):
        fd = cm.fn(q)
        ps = [a.arg for a in fd.args.args[1:] + fd.args.kwonlyargs if 'name' in a.arg]
        if not ps:
            continue
        for c in BAD:
            N = Names(ms, c)
            out = N.start(cm, q, {p: ('name',) for p in ps})
            npaths += len(out)
            R.points += N.points
            s = N.sinks
            R.saw(N.visited)
            site = cm.at(fd, q)
            if s:
                kind, what, node, m, t = s[0]
                R.bad('bad-names', m.at(node, q), 'a name of class "%s" reaches %s %s without being rejected' % (c, {'fs': 'the file operation', 'register': 'the registry', 'path': 'the storage path', 'handoff': 'the call'}[kind], what),
                      '%s|%s|%s' % (q, c, kind))
            else:
                R.good('bad-names', '%s, class %s: %d paths' % (site, c, len(out)))
    # scope of file operations
    for q in sorted(cm.fns):
        if not q.startswith('Client.') or q.split('.')[1].startswith('_') and not q.endswith('__'):
            continue      # helpers are followed from the operations that use them
        S = Scope(ms)
        S.start(cm, q)
        R.points += S.points
        seen = {}
        for op, node, m, tgt, facts in S.ops:
            comps = flat(tgt)
            ok = root_of(comps[0])
            msg = ''
            if not ok:
                msg = '%s on a path that is not below the data directory' % op
            elif len(comps) == 1:
                ok = op in ('makedirs', 'mkdir')
                msg = '%s on the whole data directory' % op
            else:
                kn = known_name(comps[1], facts)
                ok = bool(kn)
                msg = '%s below the data directory under a name that is not one of the registered entries' % op
                if kn == 'listed' and op in DELETES:
                    ok = False
                    msg = '%s of every entry found in the data directory, not only of those the client manages' % op
                for x in comps[2:]:
                    if x[0] != 'const' or not isinstance(x[1], str) or x[1] in ('', '.', '..') or '/' in x[1]:
                        ok, msg = False, '%s on a path component that is not a constant' % op
            k = (op, node.lineno, node.col_offset)
            seen.setdefault(k, []).append((ok, msg, m, node))
            if op in DELETES:
                R.ob('requested', requested(facts) and (known_name(comps[1], facts) is True if len(comps) > 1 else False), m.at(node, q),
                     '%s can happen although deletion on disk was not requested or for an entry that is not registered' % op, '%s|%s' % (q, op))
        for k, L in seen.items():
            badl = [x for x in L if not x[0]]
            m, node = L[0][2], L[0][3]
            R.ob('below-root', not badl, m.at(node, q), badl[0][1] if badl else '', '%s|%s' % (q, k[0]))
    # HTTP service
    for rel in service_files():
        m = Mod(rel)
        for q, fd in sorted(m.fns.items()):
            reqs = {a.arg for a in fd.args.args + fd.args.kwonlyargs}
            bad = None
            n = 0
            tainted = set(reqs)
            for _ in range(3):
                for x in ast.walk(fd):
                    if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in tainted for y in ast.walk(x.value)):
                        for t in x.targets:
                            # results of client operations are objects, not names
                            if isinstance(t, ast.Name) and not (isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute)):
                                tainted.add(t.id)
            for x in ast.walk(fd):
                if isinstance(x, ast.Call):
                    d = dotted(x.func) or ''
                    op = d.rsplit('.', 1)[-1]
                    uses = any(isinstance(y, ast.Name) and y.id in tainted for a in list(x.args) + [k.value for k in x.keywords] for y in ast.walk(a))
                    if uses:
                        n += 1
                        if d.split('.')[0] in ('os', 'shutil', 'pathlib', 'Path', 'subprocess') or op in ('open', 'Collection', 'Index', 'Path', 'eval', 'exec', 'save_schema', 'load_schema') or \
                                op in FSOPS and d.split('.')[0] not in ('client', 'collection', 'msg'):
                            bad = x
            if n or bad is not None:
                R.ob('service', bad is None, m.at(bad or fd, q), 'request data is passed to %s' % (dotted(bad.func) if bad is not None else ''), q)
    # clean-up of a failed build
    im = ms['index']

    class Fit(PyFlow):
        loops = (0, 1)

        def may_raise(self, name, st):
            return name.endswith('.fit')

        def on_branch(self, node, v, pol, st):
            return St(st.env, st.facts | {('branch', v, pol)}, st.ev)

        def on_call(self, node, name, recv, args, kw, st):
            op = name.rsplit('.', 1)[-1]
            if op in ('exists', 'listdir', 'isdir') and args:
                s = st.copy()
                after = any(e[0] == 'fit' for e in st.ev)
                return [('ok', s, ('call', name + ('#after' if after else '')) + tuple(args))]
            if op == 'fit' and recv is not None:
                s = St(st.env, st.facts, st.ev + (('fit',),))
                return [('ok', s, ('unk', 'fit')), ('raise', s, ('exc', 'fit'))]
            if op in DELETES and args:
                self.ops.append((op, node, args[0], frozenset(st.facts)))
            return None
    F = Fit(ms)
    F.ops = []
    F.start(im, 'Index.fit')
    R.points += F.points
    seen = {}
    for op, node, tgt, facts in F.ops:
        ok = False
        for v, p in conj(facts):
            if v[0] == 'call' and v[1].endswith('exists') and v[2] == tgt and not p:
                ok = True
            if v[0] == 'call' and v[1].endswith('listdir') and v[2] == tgt and not p:
                ok = True
        if not tgt or tgt[0] == 'const':
            ok = False
        seen.setdefault((op, node.lineno), []).append((ok, node))
    for (op, ln), L in seen.items():
        bad = [n for ok, n in L if not ok]
        R.ob('own-files', not bad, im.at(L[0][1], 'Index.fit'), '%s of a storage directory that was not found absent or empty before the build' % op, op)
    R.saw(F.visited)
    R.assume('the operating system resolves root/name to a direct child of root when name has no separator and is not empty, "." or ".."', 'the directory entries of the root and the constructor argument url are the operator\'s choice')
    R.notes.append('%d paths of client operations followed over %d classes of names' % (npaths, len(BAD)))
    return __doc__


def service_files():
    import glob
    return sorted(os.path.relpath(f, ROOT) for f in glob.glob(os.path.join(ROOT, 'app', '**', '*.py'), recursive=True) if '/tests/' not in f and '/models/' not in f and not f.endswith('__init__.py'))
