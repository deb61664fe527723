"""C34: abstract interpretation of the filter translator over symbolic dictionaries; the boolean formula of the filter it builds is compared with the meaning of the dictionary; the native builders and the binding table are followed to the operator constants."""
from vf.pyast import *
from vf.util import *

OPMAP = {'$eq': 'EQ', '$gt': 'GT', '$ge': 'GE', '$lt': 'LT', '$le': 'LE', '$in': 'IN_SET'}
OPTIONAL = {'$ne': 'NE', '$not_in': 'NOT_IN_SET', '$nin': 'NOT_IN_SET', '$contains': 'CONTAINS', '$gte': 'GE', '$lte': 'LE'}


class Build(PyFlow):
    """objects: env[('obj', k)] = (logic, items)"""
    loops = (0, 1, 2)

    def __init__(self, ms, builders):
        super().__init__(ms)
        self.nobj = 0
        self.builders = builders    # native method -> operator name
        self.odd = []

    def decide(self, v, st):
        if v[0] == 'call' and v[1] == 'isinstance' and len(v) == 4:
            a, t = v[2], v[3]
            names = [x for x in ([t] if t[0] != 'tuple' else t[1:])]
            ks = []
            for x in names:
                n = x[1] if x[0] == 'glob' else x[2] if x[0] == 'attr' else '?'
                ks.append({'dict': 'dict', 'list': 'list', 'tuple': 'list', 'str': 'str', 'Mapping': 'dict', 'Sequence': 'list'}.get(n, 'new' if 'MetadataFilter' in n else '?'))
            kind = {'dict': 'dict', 'list': 'list', 'new': 'new', 'field': 'str', 'value': 'value'}.get(a[0], 'str' if a[0] == 'const' and isinstance(a[1], str) else '?')
            if '?' in ks or kind == '?':
                return None
            return kind in ks
        if v[0] == 'call' and v[1].endswith('.startswith') and len(v) == 4 and v[3] == ('const', '$'):
            if v[2][0] == 'field':
                return False
            if v[2][0] == 'const' and isinstance(v[2][1], str):
                return v[2][1].startswith('$')
        if v[0] == 'cmp' and v[1] in ('==', '!=', 'in', 'not in') and v[2][0] == 'field':
            if v[3][0] == 'const':
                return v[1] in ('!=', 'not in')
            if v[3][0] in ('tuple', 'list', 'set') and all(x[0] == 'const' for x in v[3][1:]):
                return v[1] == 'not in'
            if v[3][0] == 'dict' and all(k[0] == 'const' for k, _ in v[3][1]):
                return v[1] == 'not in'
        if v[0] == 'cmp' and v[1] in ('is', 'is not', '==', '!=') and v[3] == ('const', None) and v[2][0] in ('value', 'field', 'dict', 'list', 'new'):
            return v[1] in ('is not', '!=')
        return None

    def on_call(self, node, name, recv, args, kw, st):
        op = name.rsplit('.', 1)[-1]
        if 'MetadataFilter' in name and recv is None and not args:
            s = st.copy()
            o = ('new', len([k for k in s.env if isinstance(k, tuple) and k[0] == 'obj']))
            s.env[('obj', o[1])] = ('AND', ())
            return [('ok', s, o)]
        if recv is not None and recv[0] == 'new' and ('obj', recv[1]) in st.env:
            s = st.copy()
            lg, items = s.env[('obj', recv[1])]
            a = list(args) + [kw[k] for k in ('field', 'value', 'values', 'sub_filter') if k in kw]
            if op == 'is_empty':
                return [('ok', s, ('const', not items))]
            if op == 'add_sub_filter' and len(a) == 1:
                s.env[('obj', recv[1])] = (lg, items + (self.formula(a[0], s),))
                return [('ok', s, recv)]
            if op in self.builders and len(a) == 2:
                s.env[('obj', recv[1])] = (lg, items + (('cond', self.builders[op], a[0], a[1]),))
                return [('ok', s, recv)]
            s.env[('obj', recv[1])] = (lg, items + (('cond', 'unknown builder ' + op, a[0] if a else None, a[1] if len(a) > 1 else None),))
            return [('ok', s, recv)]
        return None

    def on_store(self, node, target, value, st):
        if target[0] == 'attr' and target[1][0] == 'new' and target[2] == 'logic_op':
            s = st.copy()
            k = ('obj', target[1][1])
            lg, items = s.env[k]
            v = value[2] if value[0] == 'attr' else '?'
            s.env[k] = (v, items)
            return s
        return st

    def elements(self, v):
        if v[0] == 'call' and v[1].rsplit('.', 1)[-1] in ('items', 'keys', 'values') and v[2][0] == 'dict':
            k = v[1].rsplit('.', 1)[-1]
            return [('tuple', a, b) if k == 'items' else a if k == 'keys' else b for a, b in v[2][1]]
        if v[0] == 'dict':
            return [a for a, _ in v[1]]
        if v[0] == 'call' and v[1] in ('list', 'tuple', 'sorted', 'iter') and len(v) == 3:
            return self.elements(v[2])
        return super().elements(v)

    def formula(self, v, st):
        if v[0] != 'new' or ('obj', v[1]) not in st.env:
            return ('opaque', v)
        lg, items = st.env[('obj', v[1])]
        return (lg,) + items


def norm(f):
    if f[0] in ('AND', 'OR'):
        its = []
        for x in f[1:]:
            y = norm(x)
            if y == ('TRUE',):
                if f[0] == 'AND':
                    continue
            if y[0] == f[0]:
                its += list(y[1:])
            else:
                its.append(y)
        if not its:
            return ('TRUE',)        # an empty filter matches everything
        its = sorted(set(its), key=repr)
        return its[0] if len(its) == 1 else (f[0],) + tuple(its)
    return f


def meaning(d):
    out = ['AND']
    for k, v in d[1]:
        if k == ('const', '$and'):
            out.append(('AND',) + tuple(meaning(x) for x in v[1:]))
        elif k == ('const', '$or'):
            out.append(('OR',) + tuple(meaning(x) for x in v[1:]))
        elif v[0] == 'dict':
            for o, x in v[1]:
                out.append(('cond', OPMAP.get(o[1]) or OPTIONAL.get(o[1]), k, x))
        else:
            out.append(('cond', 'EQ', k, v))
    return tuple(out)


def show(v):
    k = v[0]
    if k == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (show(a), show(b)) for a, b in v[1])
    if k == 'list':
        return '[%s]' % ', '.join(show(x) for x in v[1:])
    if k in ('field', 'value', 'const'):
        return str(v[1])
    if k == 'cond':
        return '%s %s %s' % (show(v[2]) if v[2] else '?', v[1], show(v[3]) if v[3] else '?')
    if k in ('AND', 'OR', 'NOT'):
        return '%s(%s)' % (k, ', '.join(show(x) for x in v[1:]))
    return str(v)


def scenarios():
    n = [0]

    def f():
        n[0] += 1
        return ('field', 'f%d' % n[0])

    def v():
        n[0] += 1
        return ('value', 'v%d' % n[0])
    C = lambda s: ('const', s)
    D = lambda *kv: ('dict', tuple(kv))
    plain = lambda: (f(), v())
    opd = lambda o: (f(), D((C(o), v())))
    two = lambda: (f(), D((C('$gt'), v()), (C('$le'), v())))
    orr = lambda: (C('$or'), ('list', D(plain()), D(opd('$lt'))))
    orr2 = lambda: (C('$or'), ('list', D(plain(), opd('$gt')), D(two())))
    andd = lambda: (C('$and'), ('list', D(plain()), D(opd('$ge'))))
    mixed = lambda: (C('$and'), ('list', D(orr()), D(plain(), orr())))
    nest = lambda: (C('$or'), ('list', D(andd(), plain()), D((C('$or'), ('list', D(plain()), D(plain()))), opd('$in'))))
    entries = [plain, lambda: opd('$eq'), lambda: opd('$gt'), lambda: opd('$ge'), lambda: opd('$lt'), lambda: opd('$le'), lambda: opd('$in'), two, orr, orr2, andd, mixed, nest]
    yield D()
    for a in entries:
        yield D(a())
    for a in entries:
        for b in entries:
            x, y = a(), b()
            if x[0] != y[0]:
                yield D(x, y)
    st = [plain, two, orr, andd, nest]
    for a in st:
        for b in st:
            for c in st:
                x, y, z = a(), b(), c()
                if len({repr(x[0]), repr(y[0]), repr(z[0])}) == 3:
                    yield D(x, y, z)


def run(R):
    R.rule('translation', 'the filter built from a dictionary has the formula that the dictionary means, for every entry kind, every ordered pair and the triples of structural kinds, nested', 100)
    R.rule('unknown', 'an operator that is not known raises an exception', 3)
    R.rule('none-native', 'None gives the empty filter and a native filter is passed through unchanged', 2)
    R.rule('builder', 'each native builder appends one condition with its own operator, the field given first and the value given second', 6)
    R.rule('binding', 'each Python method and enumerator of the filter is bound to the native one of the same meaning', 8)
    R.rule('uses', 'every native call of the collection that takes a filter is given the translation of the caller\'s filter', 2)
    # native side
    p = R.program('py')
    builders = {}
    for f in p.methods('MetadataFilter'):
        if not f.name.startswith('add_') or f.name == 'add_sub_filter':
            continue
        R.saw([f])
        env = Env(f)
        pushes = [x for x in f.calls() if bname(f.nodes[x]) in ('push_back', 'emplace_back') and f.nodes[x].get('obj') is not None and canon(env, f.nodes[x]['obj'])[-1] == 'conditions' or
                  bname(f.nodes[x]) in ('push_back', 'emplace_back') and 'conditions' in f.text(f.nodes[x].get('obj', -1))]
        ok, why, opname = False, 'no single condition is appended', None
        if len(pushes) == 1:
            n = f.nodes[pushes[0]]
            arg = n['a'][0]
            got = {}
            for fld in ('field', 'op', 'value', 'values'):
                e = field_expr(env, arg, fld)
                got[fld] = canon(*e) if e else None
            if got['op'] and got['op'][0] == 'enum':
                opname = got['op'][1].rsplit('::', 1)[-1]
                want = {'add_eq': 'EQ', 'add_ne': 'NE', 'add_gt': 'GT', 'add_ge': 'GE', 'add_lt': 'LT', 'add_le': 'LE', 'add_in': 'IN_SET', 'add_not_in': 'NOT_IN_SET', 'add_contains': 'CONTAINS'}.get(f.name, opname)
                vf = 'values' if opname in ('IN_SET', 'NOT_IN_SET') else 'value'
                ps = [f.vars[str(d)]['n'] for d in f.params]
                why = ''
                if opname != want:
                    why = 'the operator is %s' % opname
                elif not names(got['field']) == {ps[0]}:
                    why = 'the field is not the first argument'
                elif not names(got[vf]) == {ps[1]}:
                    why = '%s is not the second argument' % vf
                ok = not why
            else:
                why = 'the operator of the condition is not a constant'
        builders[f.name] = opname
        R.ob('builder', ok, f.at(), '%s: %s' % (f.name, why), f.name)
    # binding table
    n = 0
    for f in p.fns.values():
        if 'pybind11_init' not in f.name and not f.rel().endswith('pybind.cpp'):
            continue
        for x in f.calls():
            nd = f.nodes[x]
            q = nd.get('q', '')
            if bname(nd) in ('def', 'def_readwrite', 'value') and len(nd['a']) >= 2:
                s = strip(f, nd['a'][0])
                if f.nodes[s]['k'] != 'str':
                    continue
                nm = f.nodes[s]['v']
                tgt = target(f, nd['a'][1])
                if not tgt or '::' not in tgt:
                    continue
                cls, m = tgt.rsplit('::', 2)[-2:]
                if cls == 'MetadataFilter' and (nm.startswith('add_') or nm in ('logic_op', 'is_empty')):
                    R.ob('binding', nm == m, f.at(x), '%s is bound to %s' % (nm, tgt), nm)
                elif cls in ('FilterOp', 'LogicOp'):
                    R.ob('binding', nm == m or nm + '_SET' == m, f.at(x), 'enumerator %s is bound to %s' % (nm, tgt), cls + nm)
                n += 1
    # Python side
    cm = Mod('python/src/alayalite/collection.py')
    ms = {m: Mod('python/src/alayalite/%s.py' % m) for m in ('common', 'utils', 'schema', 'index')}
    ms['collection'] = cm
    fq = 'Collection._build_filter'
    fd = cm.fn(fq)
    prm = [a.arg for a in fd.args.args if a.arg not in ('self', 'cls')][0]
    keys = set()
    for d in scenarios():
        B = Build(ms, builders)
        out = B.start(cm, fq, {prm: d})
        R.points += B.points
        want = norm(meaning(d))
        site = cm.at(fd, fq)
        for o, st, v in out:
            if o != 'ok':
                R.bad('translation', site, 'the dictionary %s is rejected' % show(d), kind(d))
                break
            got = norm(B.formula(v, st)) if v[0] == 'new' else ('opaque', v)
            if got != want:
                R.bad('translation', site, 'the dictionary %s is translated to %s' % (show(d), show(got)), kind(d))
                break
        else:
            R.ob('translation', bool(out), '%s %s' % (site, show(d)))
    for op in ('$foo', '$regex', 'eq', '', '$EQ') + tuple(OPTIONAL):
        d = ('dict', ((('field', 'f'), ('dict', ((('const', op), ('value', 'v')),))),))
        B = Build(ms, builders)
        out = B.start(cm, fq, {prm: d})
        bad = [1 for o, st, v in out if o == 'ok' and not (op in OPTIONAL and v[0] == 'new' and norm(B.formula(v, st)) == norm(meaning(d)))]
        R.ob('unknown', bool(out) and not bad, cm.at(fd, fq) + ' ' + op, 'the operator %r is accepted without being translated' % op, 'op' + op)
    for d, w in ((('const', None), ('TRUE',)), (('new', 'given'), None)):
        B = Build(ms, builders)
        out = B.start(cm, fq, {prm: d})
        ok = bool(out) and all(o == 'ok' and (norm(B.formula(v, st)) == w if w else v == d) for o, st, v in out)
        R.ob('none-native', ok, cm.at(fd, fq), 'None is not translated to the empty filter' if w else 'a native filter is not passed through unchanged', str(d[0]))
    # uses: natives that take a filter get the result of the translator on the caller's argument
    class Uses(PyFlow):
        loops = (0, 1)

        def on_call(self, node, name, recv, args, kw, st):
            op = name.rsplit('.', 1)[-1]
            if op in ('_build_filter', 'build_filter') and args:
                return [('ok', st, ('filter', args[0]))]
            if op in ('hybrid_search', 'batch_hybrid_search', 'filter_query') and recv is not None and recv != ('self',):
                self.hits.append((node, list(args) + list(kw.values())))
            return None

        def inline(self, name):
            return name not in ('_get_cpp_index', 'delete_by_id')
    for q in sorted(cm.fns):
        a = [x.arg for x in cm.fn(q).args.args + cm.fn(q).args.kwonlyargs if 'filter' in x.arg and 'hint' not in x.arg]
        if not q.startswith('Collection.') or q == fq or not a:
            continue
        U = Uses(ms)
        U.hits = []
        U.start(cm, q)
        for node, args in U.hits:
            R.ob('uses', ('filter', ('param', a[0])) in args, cm.at(node, q), 'the native call is not given the translation of %s' % a[0], q)
    R.saw(['%s:%s' % (cm.rel, fq)])
    R.assume('pybind11 converts dictionary values to the native value of the same type; the native filter copies a sub-filter when it is added')
    return __doc__


def kind(d):
    ks = []
    for k, v in d[1]:
        ks.append(k[1] if k[0] == 'const' else ('field:' + '+'.join(o[1] for o, _ in v[1]) if v[0] == 'dict' else 'field'))
    return 'dict|' + ','.join(ks[:2])


def names(t):
    """names of the parameters in a canonical term"""
    return {x[1][2:] for x in subterms(t) if x[0] == 'v' and isinstance(x[1], str) and x[1].startswith('P:')} if t is not None else set()


def target(f, i):
    i = strip(f, i)
    n = f.nodes[i]
    if n['k'] == 'un' and n['op'] == '&':
        r = target(f, n['e'])
        if r and '::' not in r and '::*' in n['t']:
            return n['t'].rsplit('::*', 1)[0].rsplit(' ', 1)[-1] + '::' + r
        return r
    if n['k'] == 'ref':
        return n.get('q') or (n['enum'] + '::' + n['n'] if n.get('enum') else n['n'])
    if n['k'] == 'mem':
        return n['q']
    return None
