"""C38: composition of the schema writer and reader evaluated symbolically per parameter; keyword, binding and constructor tables matched name by name down to the native members; save and load use the same path functions in the same roles."""
import ast
from vf.pyast import *
from vf.util import *

SELF = ('self',)
TEXT = {'valid_index_type': ('IndexType', {'hnsw': 'HNSW', 'nsg': 'NSG', 'fusion': 'FUSION', 'HNSW': 'HNSW'}),
        'valid_metric_type': ('MetricType', {'l2': 'L2', 'euclidean': 'L2', 'ip': 'IP', 'cosine': 'COS', 'cos': 'COS', 'L2': 'L2', 'IP': 'IP'}),
        'valid_quantization_type': ('QuantizationType', {None: 'NONE', 'none': 'NONE', 'sq8': 'SQ8', 'sq4': 'SQ4', 'rabitq': 'RABITQ', 'SQ8': 'SQ8'})}


def subs(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from subs(x)


def attrs(v):
    return {x[2] for x in subs(v) if len(x) == 3 and x[0] == 'attr' and x[1] == SELF}


class S(PyFlow):
    loops = (0, 1)

    def __init__(self, ms, only=None, present=None):
        super().__init__(ms)
        self.only = only
        self.present = present

    def inline(self, name):
        return not name.startswith('valid_') and not name.startswith('assert_valid') and name != '_assert'

    def decide(self, v, st):
        if self.present is not None and v[0] == 'cmp' and v[1] in ('is', 'is not') and v[3] == ('const', None):
            k = kwkey(v[2])
            if k:
                return (v[1] == 'is not') == (k == self.present)
        if self.present is not None and kwkey(v):
            return kwkey(v) == self.present
        if self.present is not None and v[0] == 'cmp' and v[1] in ('in', 'not in') and v[2][0] == 'const' and v[3][0] == 'param':
            return (v[1] == 'in') == (v[2][1] == self.present)
        for f in st.facts:
            if f[0] == 'b' and f[1] == v:
                return f[2]
        return None

    def on_branch(self, node, v, pol, st):
        return St(st.env, st.facts | {('b', v, pol)}, st.ev)

    def on_call(self, node, name, recv, args, kw, st):
        op = name.rsplit('.', 1)[-1]
        if op in ('lower', 'upper') and recv is not None and recv[0] == 'const' and isinstance(recv[1], str):
            return [('ok', st, ('const', getattr(recv[1], op)()))]
        return None


def kwkey(v):
    if v[0] == 'call' and v[1].endswith('.get') and len(v) >= 4 and v[2][0] == 'param' and v[3][0] == 'const':
        return v[3][1]
    if v[0] == 'idx' and v[1][0] == 'param' and v[2][0] == 'const':
        return v[2][1]
    return None


def norm(v):
    """undo the conversions that are inverse to each other"""
    if not isinstance(v, tuple):
        return v
    v = tuple(norm(x) for x in v)
    if v[0] == 'attr' and v[2] == 'type' and v[1][0] == 'call' and v[1][1].endswith('dtype'):
        a = v[1][2]
        if a[0] == 'attr' and a[2] == 'name' and a[1][0] == 'call' and a[1][1].endswith('dtype'):
            return a[1][2]
    if v[0] == 'call' and v[1] in ('list', 'tuple', 'str', 'int') and len(v) == 3:
        return v[2]
    if v[0] == 'call' and v[1] == 'bool' and len(v) == 3 and v[2] == ('attr', SELF, 'has_scalar_data'):
        return v[2]
    if v[0] == 'or' and len(v) == 3 and v[2] in (('const', None), ('const', ''), ('const', False), ('list',), ('const', 0)):
        return v[1]
    return v


def roundtrip(R, ms):
    sm = ms['schema']
    cls = sm.classes.get('IndexParams')
    if cls is None:
        raise AnalysisError('anchor not found: IndexParams in schema.py')
    fields = [s.target.id for s in cls.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    w = S(ms)
    outs = w.start(sm, 'IndexParams.to_json_dict')
    R.points += w.points
    site = sm.at(sm.fn('IndexParams.to_json_dict'), 'IndexParams.to_json_dict')
    bad = {}
    n = 0
    for o, st, d in outs:
        if o != 'ok' or d[0] != 'dict':
            bad.setdefault('*', 'the schema is not a dictionary of the parameters')
            continue
        falsy = {f[1] for f in st.facts if f[0] == 'b' and f[2] is False}
        r = S(ms)
        prm = [a.arg for a in sm.fn('IndexParams.from_str_dict').args.args][1]
        for o2, st2, c in r.start(sm, 'IndexParams.from_str_dict', {prm: d}, st=St({}, st.facts)):
            if o2 != 'ok':
                bad.setdefault('*', 'a written schema is rejected by the reader')
                continue
            n += 1
            kws = {x[1]: x[2] for x in c[2:] if x[0] == 'kw'} if c[0] == 'call' else {}
            for f in fields:
                t = norm(kws.get(f, ('missing',)))
                a = ('attr', SELF, f)
                ok = t == a or t in (('list',), ('const', None), ('const', ''), ('const', 0), ('const', False)) and a in falsy
                if t[0] == 'const' and a not in falsy:
                    ok = False
                if not ok:
                    bad.setdefault(f, 'after saving and loading, %s is %s' % (f, disp(t)))
    for f in fields:
        R.ob('roundtrip', n > 0 and f not in bad and '*' not in bad, site + ' ' + f, bad.get(f) or bad.get('*', ''), f)
    return fields


def disp(t):
    if t == ('missing',):
        return 'not restored'
    if t[0] == 'attr' and t[1] == SELF:
        return 'the value of ' + t[2]
    if t[0] == 'idx':
        return 'missing from the written schema'
    return str(t)[:80]


def tocpp(R, ms, fields, nfields):
    sm = ms['schema']
    w = S(ms)
    q = 'IndexParams.to_cpp_params'
    site = sm.at(sm.fn(q), q)
    bad = {}
    got = set()
    for o, st, c in w.start(sm, q):
        if o != 'ok':
            continue
        if c[0] != 'call':
            bad.setdefault('*', 'no native parameter object is made')
            continue
        kws = {x[1]: x[2] for x in c[2:] if x[0] == 'kw'}
        pos = [x for x in c[2:] if x[0] != 'kw']
        for j, x in enumerate(pos):
            if j < len(nfields):
                kws[nfields[j][0]] = x
        falsy = {f[1] for f in st.facts if f[0] == 'b' and f[2] is False}
        for f in fields:
            v = kws.get(f + '_')
            if v is None:
                bad.setdefault(f, '%s is not passed to the native layer' % f)
                continue
            got.add(f)
            at = attrs(v)
            if at - {f} or not at and not (('attr', SELF, f) in falsy):
                bad.setdefault(f, 'the native parameter %s_ is given %s' % (f, ', '.join(sorted(at - {f})) or 'a constant'))
            nt = dict(nfields).get(f + '_', '')
            cs = [x[1] for x in subs(v) if x[0] == 'call' and x[1].startswith('valid_')]
            for cname in cs:
                e = TEXT.get(cname.rsplit('.', 1)[-1])
                if e and not nt.endswith(e[0]):
                    bad.setdefault(f, '%s is converted by %s' % (f, cname))
    for f in fields:
        R.ob('to-native', f not in bad and '*' not in bad, site + ' ' + f, bad.get(f) or bad.get('*', ''), f)


def fromkw(R, ms, fields):
    sm = ms['schema']
    q = 'IndexParams.from_kwargs'
    site = sm.at(sm.fn(q), q)
    for f in fields:
        w = S(ms, present=f)
        ok, why = True, ''
        outs = [x for x in w.start(sm, q) if x[0] == 'ok']
        if not outs:
            ok, why = False, 'the keyword %s is always rejected' % f
        for o, st, c in outs:
            kws = {x[1]: x[2] for x in c[2:] if x[0] == 'kw'} if c[0] == 'call' else {}
            for g, t in kws.items():
                ks = {kwkey(x) for x in subs(t)} - {None}
                if g == f and ks != {f}:
                    # has_scalar_data is set by the collection itself
                    ok, why = False, 'the keyword %s does not set the parameter' % f
                if g != f and f in ks:
                    ok, why = False, 'the keyword %s sets %s' % (f, g)
            if f not in kws:
                if f == 'has_scalar_data':
                    continue
                ok, why = False, 'the keyword %s is ignored' % f
        R.ob('keywords', ok, site + ' ' + f, why, f)


def texts(R, ms):
    cm = ms['common']
    for fn, (en, mp) in TEXT.items():
        for s, want in mp.items():
            w = S(ms)
            prm = cm.fn(fn).args.args[0].arg
            outs = w.start(cm, fn, {prm: ('const', s)})
            ok = bool(outs) and all(o == 'ok' and v[0] == 'attr' and v[2] == want and v[1][0] == 'glob' and v[1][1].endswith(en) for o, st, v in outs)
            R.ob('kinds', ok, cm.at(cm.fn(fn), fn) + ' %r' % (s,), '%s(%r) is not %s.%s' % (fn, s, en, want), '%s|%s' % (fn, s))


def native(R, p):
    c = p.cls('alaya::IndexParams')
    fl = [(x['n'], x['t']) for x in c['fields']]
    names = [n for n, _ in fl]
    for f in p.methods('alaya::IndexParams'):
        if not f.d.get('ctor') or len(f.params) < len(names):
            continue
        R.saw([f])
        ps = [f.vars[str(d)]['n'] for d in f.params]
        ini = {}
        for it in f.d.get('inits', []):
            if 'init' in it:
                ini[it.get('m', '').rsplit('::', 1)[-1]] = {f.nodes[x]['n'] for x in f.walk(it['init']) if f.nodes[x]['k'] == 'ref' and not f.nodes[x].get('isfn')}
        for n in names:
            R.ob('constructor', ini.get(n) == {n.rstrip('_')}, f.at() + ' ' + n, 'the member %s is initialised from %s' % (n, ', '.join(sorted(ini.get(n, []))) or 'nothing'), n)
        ctorps = ps
        break
    else:
        raise AnalysisError('anchor not found: constructor of IndexParams')
    done = False
    for f in p.fns.values():
        if not f.rel().endswith('pybind.cpp'):
            continue
        for x in f.calls():
            n = f.nodes[x]
            if bname(n) == 'def' and 'IndexParams' in f.nodes[n.get('obj', n['a'][0] if n['a'] else x)].get('t', '') and len(n['a']) > len(names):
                got = []
                for a in n['a'][1:]:
                    ss = [f.nodes[y]['v'] for y in f.walk(a) if f.nodes[y]['k'] == 'str']
                    got.append(ss[0] if ss else '?')
                R.ob('binding', got == [q + '_' for q in ctorps], f.at(x), 'the Python keywords %s do not name the constructor parameters in their order' % [a for a, b in zip(got, ctorps) if a != b + '_'], 'init')
                done = True
            if bname(n) == 'def_readwrite' and len(n['a']) >= 2:
                s = strip(f, n['a'][0])
                t = strip(f, n['a'][1])
                if f.nodes[s]['k'] == 'str' and f.nodes[t]['k'] == 'un' and 'IndexParams::*' in f.nodes[t]['t']:
                    m = f.nodes[f.nodes[t]['e']]['n']
                    R.ob('binding', f.nodes[s]['v'] == m, f.at(x), 'the Python attribute %s is the native member %s' % (f.nodes[s]['v'], m), f.nodes[s]['v'])
    if not done:
        raise AnalysisError('anchor not found: binding of the IndexParams constructor')
    # uses: an argument that is a parameter goes to a parameter of the same name
    stems = {n.rstrip('_') for n in names}
    for f in p.fns.values():
        if not f.cls or not any(f.nodes[x]['k'] == 'mem' and 'IndexParams::' in f.nodes[x]['q'] for x in f.all()):
            continue
        R.saw([f])
        for x in f.all():
            n = f.nodes[x]
            if n['k'] in ('call', 'ctor') and n.get('f') and p.get(n['f']) is not None:
                g = p.get(n['f'])
                for j, a in enumerate(n['a']):
                    m = f.nodes[strip(f, a)]
                    if m['k'] == 'mem' and 'IndexParams::' in m['q'] and j < len(g.params):
                        pn = g.vars[str(g.params[j])]['n'].strip('_')
                        pn2 = {'max_neighbors': 'max_nbrs', 'M': 'max_nbrs', 'R': 'max_nbrs', 'num_threads': 'build_threads'}.get(pn, pn)
                        if pn2 in stems:
                            R.ob('native-use', pn2 == m['n'].rstrip('_'), f.at(x), 'the parameter %s of %s is given %s' % (pn, g.q, m['n']), '%s|%s' % (g.q, pn))
            if n['k'] in ('asg', 'call') and (n['k'] == 'asg' and n['op'] == '=' or n.get('op') == '=' and 'obj' in n):
                t = f.nodes[n['e'] if n['k'] == 'asg' else n['obj']]
                r = f.nodes[strip(f, n['r'] if n['k'] == 'asg' else n['a'][0])]
                if t['k'] == 'mem' and r['k'] == 'mem' and 'IndexParams::' in r['q']:
                    tn = {'db_path': 'rocksdb_path'}.get(t['n'].strip('_'), t['n'].strip('_'))
                    if tn in stems:
                        R.ob('native-use', tn == r['n'].rstrip('_'), f.at(x), '%s is set from %s' % (t['n'], r['n']), '%s|%s' % (f.q, t['n']))
    return fl


def saveload(R, ms):
    im, cm, sm = ms['index'], ms['collection'], ms['schema']

    class P(S):
        def on_call(self, node, name, recv, args, kw, st):
            op = name.rsplit('.', 1)[-1]
            if op in ('index_path', 'data_path', 'quant_path') and recv is not None:
                return [('ok', st, ('file', op) + tuple(('dir', a) for a in args))]
            if op in ('save', 'load') and len(args) == 3:
                self.hits.append((op, node, [a[1] if a[0] == 'file' else str(a) for a in args], [a[2:] for a in args]))
            if op == 'from_str_dict':
                self.reads.append((node, args[0] if args else None))
            if op == 'to_json_dict' and recv is not None:
                return [('ok', st, ('json', recv))]
            if op == 'save_schema' and len(args) == 2:
                self.writes.append((node, args[0], args[1]))
                return [('ok', st, ('const', None))]
            if op == 'load_schema':
                return [('ok', st, ('loaded', args[0] if args else None))]
            return S.on_call(self, node, name, recv, args, kw, st)
    roles = {}
    for q in ('Index.save', 'Index.load'):
        A = P(ms)
        A.hits, A.reads, A.writes = [], [], []
        rets = A.start(im, q)
        for op, node, files, dirs in A.hits:
            roles.setdefault(op, []).append((node, files, dirs))
        if q == 'Index.save':
            for o, st, v in rets:
                if o == 'ok':
                    d = dict(v[1]) if v[0] == 'dict' else {}
                    R.ob('schema', d.get(('const', 'index'), ('?',))[0] == 'json' and d.get(('const', 'type')) == ('const', 'index'), im.at(im.fn(q), q), 'the saved schema does not hold the parameters of the index', 'index-save')
        for node, a in A.reads:
            R.ob('schema', a is not None and a[0] == 'idx' and a[1][0] == 'loaded' and a[2] == ('const', 'index'), im.at(node, q), 'the parameters are not read from the entry they are written to', 'index-load')
    want = None
    for op, L in sorted(roles.items()):
        for node, files, dirs in L:
            if want is None:
                want = files
            R.ob('files', files == want and set(files) == {'index_path', 'data_path', 'quant_path'} and len(set(map(repr, dirs))) == 1, im.at(node, 'Index.' + op),
                 'save and load do not use the same files in the same roles: %s' % files, op)
    # collection schema
    for q in ('Collection._maybe_persist_schema_for_recovery', 'Collection.save', 'Collection.load'):
        A = P(ms)
        A.hits, A.reads, A.writes = [], [], []
        st = St()
        for o, s, v in A.start(cm, q):
            pass
        for node, path, m in A.writes:
            d = dict(m[1]) if m[0] == 'dict' else {}
            R.ob('schema', d.get(('const', 'index'), ('?',))[0] == 'json' and d.get(('const', 'type')) == ('const', 'collection'), cm.at(node, q), 'the schema written does not hold the parameters of the collection', 'coll-write')
        for node, a in A.reads:
            R.ob('schema', a is not None and a[0] == 'idx' and a[1][0] == 'loaded' and a[2] == ('const', 'index'), cm.at(node, q), 'the parameters are not read from the entry they are written to', 'coll-load')
    for fn, t in (('is_index_url', 'index'), ('is_collection_url', 'collection')):
        w = P(ms)
        w.hits, w.reads, w.writes = [], [], []
        rs = [v for o, s, v in w.start(sm, fn) if o == 'ok' and v[0] != 'const']
        ok = bool(rs) and all(v[0] == 'cmp' and v[1] == '==' and ('const', t) in v[2:] and any(x[0] == 'idx' and x[1][0] == 'loaded' and x[2] == ('const', 'type') or x[0] == 'call' and x[1].endswith('get') and x[3] == ('const', 'type') for x in v[2:]) for v in rs)
        R.ob('schema', ok, sm.at(sm.fn(fn), fn), 'the kind of a stored entry is not decided by the type it was saved with', fn)
    # save_schema writes what it was given, completely, before it replaces the old one
    class W(S):
        def on_call(self, node, name, recv, args, kw, st):
            op = name.rsplit('.', 1)[-1]
            if op == 'open':
                return [('ok', St(st.env, st.facts, st.ev + (('open', args[0]),)), ('fh', args[0]))]
            if op in ('dump', 'flush', 'fsync', 'replace', 'rename'):
                s = St(st.env, st.facts, st.ev + ((op,) + tuple(args),))
                return [('ok', s, ('const', None))]
            return None
    w = W(ms)
    ps = [a.arg for a in sm.fn('save_schema').args.args]
    for o, s, v in w.start(sm, 'save_schema'):
        if o != 'ok':
            continue
        ev = [e[0] for e in s.ev]
        ok = 'dump' in ev and 'replace' in ev and ev.index('dump') < ev.index('replace') and 'fsync' in ev and ev.index('fsync') < ev.index('replace')
        if ok:
            d = s.ev[ev.index('dump')]
            r = s.ev[ev.index('replace')]
            op = s.ev[ev.index('open')]
            ok = d[1] == ('param', ps[1]) and r[2] == ('param', ps[0]) and op[1] == r[1] and op[1] != r[2]
        R.ob('schema', ok, sm.at(sm.fn('save_schema'), 'save_schema'), 'the schema file is not written completely to a temporary file and synced before it replaces the old one', 'save_schema')


def run(R):
    R.rule('roundtrip', 'for every parameter, the reader applied to the written schema gives back the value of that same parameter', 10)
    R.rule('to-native', 'every parameter is passed to the native layer under its own name, converted by the conversion of its kind', 10)
    R.rule('keywords', 'every keyword argument sets the parameter of its name and no other', 9)
    R.rule('kinds', 'every textual kind is converted to its own native enumerator', 15)
    R.rule('constructor', 'each native member is initialised from the constructor parameter of its name', 10)
    R.rule('binding', 'the Python keywords and attributes of the native parameters name the members they set, in the order of the constructor', 10)
    R.rule('native-use', 'a native function parameter or configuration field with the name of an index parameter is given that parameter', 5)
    R.rule('files', 'saving and loading an index use the same files in the same roles', 2)
    R.rule('schema', 'the schema entry and type written by save are the ones read by load; the schema file is replaced only by a complete and synced one', 6)
    ms = {m: Mod('python/src/alayalite/%s.py' % m) for m in ('schema', 'common', 'index', 'collection', 'utils')}
    p = R.program('py')
    fl = native(R, p)
    fields = roundtrip(R, ms)
    tocpp(R, ms, fields, fl)
    fromkw(R, ms, fields)
    texts(R, ms)
    saveload(R, ms)
    R.saw(['schema.py:IndexParams', 'index.py:Index.save', 'index.py:Index.load', 'collection.py:Collection.load'])
    R.assume('json.dump and json.load are inverse on strings, numbers, booleans, None and lists of them', 'np.dtype(np.dtype(t).name).type is t for the scalar types accepted')
    return __doc__
