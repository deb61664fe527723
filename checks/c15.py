"""C15: each dispatch on a kind is specialised to every value of the kind (conditions on the kind resolved, all others followed both ways) and what remains reachable is compared with what that kind means; constant tables are decided by static_assert in a witness unit."""
import os
import re
import subprocess
import tempfile
from vf.kind import *
from vf.util import *

A = 'alaya::'
METRICS = ['L2', 'IP', 'COS', 'NONE']


def enumv(p, q, name):
    """('enum', …) and its integer value"""
    e = next((e for e in p.enums.values() if e['q'] == q), None) if isinstance(p.enums, dict) else next((e for e in p.enums if e['q'] == q), None)
    if e is None:
        return None
    vs = e['vals']
    for j, v in enumerate(vs):
        n = v['n'] if isinstance(v, dict) else v[0] if isinstance(v, (list, tuple)) else v
        if n == name:
            x = v.get('v') if isinstance(v, dict) else v[1] if isinstance(v, (list, tuple)) else None
            r = [('enum', q + '::' + name)]
            if x is not None:
                r.append(('int', int(x)))
            return r
    return None


def names(p, q):
    e = next((e for e in (p.enums.values() if isinstance(p.enums, dict) else p.enums) if e['q'] == q), None)
    return [v['n'] if isinstance(v, dict) else v[0] if isinstance(v, (list, tuple)) else v for v in e['vals']] if e else []


def by_type(enum):
    """any variable, field or parameter of the enum's type"""
    short = enum.rsplit('::', 1)[-1]

    def isk(env, i):
        n = env.fn.nodes[i]
        t = str(n.get('t', '')).replace('const ', '').replace('&', '').strip()
        if t.rsplit('::', 1)[-1] != short:
            return False
        return n['k'] in ('mem', 'ref') and not n.get('enum') and not n.get('isfn') and (n['k'] == 'mem' or env.fn.vars.get(str(n.get('d')), {}).get('k') == 'param')
    return isk


def by_param(name_or_pos):
    def isk(env, i):
        n = env.fn.nodes[i]
        if env.up or n['k'] != 'ref' or 'd' not in n:
            return False
        ps = env.fn.params
        return n['d'] in ps and ps.index(n['d']) == name_or_pos
    return isk


def fns(p, q):
    return [f for f in p.fns.values() if f.q == q and f.blocks and not f.d.get('lambda')]


class T:
    def __init__(self, R, p):
        self.R, self.p = R, p

    def spec(self, f, isk, values, follow=None):
        K = Kind(self.p, isk, values, follow)
        ex = K.run(f)
        self.R.saw([f])
        self.R.points += len(K.reached)
        return K, ex

    def nodes(self, K, pred):
        out = []
        for fid, i, ek in K.reached:
            g = self.p.get(fid)
            n = g.nodes[i]
            if pred(g, i, n):
                out.append((g, i))
        return out


def kernel(n):
    """'l2' / 'ip' for a reference to, or call of, a distance kernel or its selector"""
    q = str(n.get('q', ''))
    if 'simd' not in q:
        return None
    b = q.rsplit('::', 1)[-1]
    if re.search(r'(^|_)l2(_|$)', b):
        return 'l2'
    if re.search(r'(^|_)ip(_|$)', b):
        return 'ip'
    return None


WANT = {'L2': 'l2', 'IP': 'ip', 'COS': 'ip'}


def metrics(R, t):
    p = t.p
    isk = by_type(A + 'MetricType')
    for cls in ('RawSpace', 'SQ8Space', 'SQ4Space', 'RaBitQSpace'):
        done = set()
        mine = sorted((f for f in p.fns.values() if f.cls is not None and f.cls.rsplit('::', 1)[-1] == cls and not f.d.get('lambda') and f.blocks), key=lambda f: f.q)
        setters = {f.id for f in mine if any(f.nodes[i]['k'] == 'asg' and f.nodes[f.nodes[i]['e']]['k'] == 'mem' and any(kernel(f.nodes[y]) for y in f.walk(f.nodes[i]['r'])) for i in f.walk())}
        leaf = {i for i in setters if not any(p.get(i).nodes[c].get('f') in setters - {i} for c in p.get(i).calls())}
        afterset(R, p, cls, mine, setters)
        for f in mine:
            if f.id in setters and f.id not in leaf:
                continue
            writes = [i for i in f.walk() if f.nodes[i]['k'] == 'asg' and f.nodes[f.nodes[i]['e']]['k'] == 'mem' and any(kernel(f.nodes[y]) for y in f.walk(f.nodes[i]['r']))]
            if not writes or (f.file, f.line) in done:
                continue
            done.add((f.file, f.line))
            for m in METRICS + ['?']:
                vals = [OTHER] if m == '?' else enumv(p, A + 'MetricType', m)
                K, ex = t.spec(f, isk, vals)
                got = {kernel(g.nodes[y]) for g, i in t.nodes(K, lambda g, i, n: n['k'] == 'asg') if g.nodes[g.nodes[i]['e']]['k'] == 'mem' for y in g.walk(g.nodes[i]['r']) if kernel(g.nodes[y])}
                site = '%s %s under %s' % (f.at(), f.q, m)
                if m in WANT:
                    if K.incomplete or len(got) != 1:
                        if not got:
                            R.ob('metric', False, site, '%s chooses no distance function for metric %s' % (cls, m), key='%s:%s' % (cls, m))
                        elif WANT[m] not in got:
                            R.ob('metric', False, site, '%s chooses the wrong distance function for metric %s' % (cls, m), key='%s:%s' % (cls, m))
                        else:
                            R.notes.append('%s: choice under %s not resolved' % (f.q, m))
                        continue
                    R.ob('metric', got == {WANT[m]}, site, '%s uses the %s kernel for metric %s' % (cls, '/'.join(sorted(got)), m), key='%s:%s' % (cls, m))
                else:
                    R.ob('undefined', not any(x[0] == 'ret' for x in ex), site, '%s accepts an undefined metric (%s) %s' % (cls, m, 'and leaves its distance function unset' if not got else 'as if it were another'), key='%s:undefined' % cls)


def always_after(f, s, good):
    """every normal path from node s (or the entry) to the exit passes an element accepted by good"""
    where = {e: b for b, blk in f.blocks.items() for e in blk['els'] if isinstance(e, int)}
    par = f.parent()
    y = s
    while y is not None and y not in where and y in par:
        y = par[y]
    b0 = f.entry if s is None or y not in where else where[y]
    els = [e for e in f.blocks[b0]['els'] if isinstance(e, int)]
    pos = els.index(y) + 1 if y in els else 0
    seen = set()

    def stop(es):
        return any(good(e) or f.nodes[e]['k'] == 'throw' or f.nodes[e].get('nr') for e in es)
    if stop(els[pos:]):
        return True
    if b0 == f.exit:
        return False
    work = [x for x in f.blocks[b0]['succ'] if x is not None]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == f.exit:
            return False
        if stop([e for e in f.blocks[b]['els'] if isinstance(e, int)]):
            continue
        work += [x for x in f.blocks[b]['succ'] if x is not None]
    return True


def reaches(p, g, want, depth=4):
    if want(g):
        return True
    return depth > 0 and any(h is not None and h.id != g.id and h.cls == g.cls and reaches(p, h, want, depth - 1) for h in (p.get(g.nodes[c].get('f')) for c in g.calls()))


def bname_set(h):
    return any(h.nodes[i]['k'] == 'asg' and h.nodes[h.nodes[i]['e']]['k'] == 'mem' and any(kernel(h.nodes[y]) for y in h.walk(h.nodes[i]['r'])) for i in h.walk())


def loaders(R, p):
    """a space read from a file gets its distance function before it is used"""
    done = set()
    for f in p.fns.values():
        if not f.blocks or not f.rel().startswith(('include/', 'python/')):
            continue
        for i in f.calls():
            n = f.nodes[i]
            q = str(n.get('q', ''))
            m = re.match(r'alaya::(\w*Space)::load$', q)
            if not m or n.get('obj', -1) is None or n.get('obj', -1) < 0 or (f.file, n['l']) in done:
                continue
            if f.cls and f.cls.rsplit('::', 1)[-1].endswith('Space') and f.name == 'load':
                continue
            g = p.get(n.get('f'))
            if g is not None and reaches(p, g, lambda h: bname_set(h)):
                continue
            done.add((f.file, n['l']))
            env = Env(f)
            who = canon(env, n['obj'])

            def good(e):
                c = f.nodes[e]
                return c['k'] == 'call' and bname(c) == 'set_metric_function' and c.get('obj', -1) is not None and canon(env, c['obj']) == who
            ok = always_after(f, i, good)
            R.saw([f])
            R.ob('chosen', ok, f.at(i), 'a space is loaded from a file but its distance function is not chosen afterwards', key='%s:%s' % (f.q, show(who)))


def afterset(R, p, cls, mine, setters):
    """whoever establishes the metric of a space chooses its distance function afterwards"""
    done = set()
    for f in mine:
        if (f.file, f.line) in done or f.d.get('implicit') or f.d.get('defaulted'):
            continue
        start = [None] if f.d.get('ctor') and any(str(x.get('m', '')).endswith('::metric_') and x.get('w') for x in f.d.get('inits', [])) else []
        for i in f.walk():
            n = f.nodes[i]
            e = n.get('e')
            if n['k'] == 'un' and n.get('op') == '&' and f.nodes[e]['k'] == 'mem' and f.nodes[e]['n'] == 'metric_' and reaches(p, f, lambda h: h.id in setters):
                y, par = i, f.parent()
                while y in par and f.nodes[y]['k'] != 'call':
                    y = par[y]
                if bname(f.nodes[y]) == 'read':
                    start.append(i)
            if n['k'] in ('asg',) and e is not None and f.nodes[e]['k'] == 'mem' and f.nodes[e]['n'] == 'metric_':
                start.append(i)
        if not start:
            continue
        done.add((f.file, f.line))

        def sets(e):
            n = f.nodes[e]
            if n['k'] == 'asg' and f.id in setters and f.nodes[n['e']]['k'] == 'mem' and any(kernel(f.nodes[y]) for y in f.walk(n['r'])):
                return True
            g = p.get(n.get('f')) if n['k'] == 'call' else None
            return g is not None and g.cls == f.cls and reaches(p, g, lambda h: h.id in setters) and surely(g)

        def surely(g, depth=3):
            if g.id in setters:
                return True

            def step(e):
                h = p.get(g.nodes[e].get('f')) if g.nodes[e]['k'] == 'call' else None
                return h is not None and h.id != g.id and h.cls == f.cls and reaches(p, h, lambda x: x.id in setters) and depth > 0 and surely(h, depth - 1)
            return always_after(g, None, step)
        for s in start:
            miss = not always_after(f, s, sets)
            R.ob('chosen', not miss, f.at(s) if s is not None else f.at(), '%s establishes the metric of a %s without choosing its distance function afterwards' % (f.q, cls), key='%s:%s' % (cls, f.name))


def flat(R, t):
    p = t.p
    isk = by_type(A + 'MetricType')
    for f in p.fns.values():
        if not f.rel().endswith('index/disk/disk_flat_searcher.hpp') or f.d.get('lambda') or not f.blocks:
            continue
        if not any(kernel(f.nodes[i]) for i in f.calls()):
            continue
        for m in ('L2', 'IP', 'COS'):
            K, ex = t.spec(f, isk, enumv(p, A + 'MetricType', m))
            got = {kernel(g.nodes[i]) for g, i in t.nodes(K, lambda g, i, n: n['k'] == 'call' and kernel(n))}
            R.ob('metric', got == {WANT[m]} if len(got) == 1 else WANT[m] in got and False, f.at(), 'the exact disk scan uses %s for metric %s' % ('the %s kernel' % '/'.join(sorted(got)) if got else 'no kernel', m), key='flat:%s' % m)


def rejects(R, t):
    """functions that must refuse the kinds their engine does not implement"""
    p = t.p
    M, I = A + 'MetricType', A + 'disk::DiskIndexType'
    L2ONLY, ALL3 = {'L2'}, {'L2', 'IP', 'COS'}
    tab = [(A + 'disk::DiskFlatBuilder::DiskFlatBuilder', M, ALL3, 'disk_flat builder'),
           (A + 'disk::DiskCollection::DiskCollection', M, ALL3, 'disk collection'),
           (A + 'disk::VamanaSegmentBuilder::finish', M, L2ONLY, 'disk_vamana builder'),
           (A + 'disk::VamanaSegmentSearcher::VamanaSegmentSearcher', M, L2ONLY, 'disk_vamana searcher'),
           (A + 'disk::VamanaSegmentSearcher::VamanaSegmentSearcher', I, {'Vamana'}, 'disk_vamana searcher'),
           (A + 'disk::DiskFlatSegmentSearcher::DiskFlatSegmentSearcher', I, {'Flat'}, 'disk_flat searcher'),
           (A + 'disk::LaserSegmentSearcher::LaserSegmentSearcher', M, L2ONLY, 'disk_laser searcher'),
           (A + 'disk::LaserSegmentSearcher::LaserSegmentSearcher', I, {'Laser'}, 'disk_laser searcher'),
           (A + 'disk::LaserSegmentImporter::import_from', M, L2ONLY, 'disk_laser importer'),
           (A + 'disk::detail::validate_vamana_manifest_config', M, L2ONLY, 'disk_vamana manifest')]
    for q, e, ok, what in tab:
        for f in fns(p, q):
            n0 = sum(len(g.params) for g in [f])
            if q.endswith('DiskCollection::DiskCollection') and not any(e.rsplit('::', 1)[-1] in f.vars[str(d)].get('t', '') for d in f.params):
                continue
            for m in names(p, e) + ['?']:
                vals = [OTHER] if m == '?' else enumv(p, e, m)
                K, ex = t.spec(f, by_type(e), vals)
                acc = any(x[0] == 'ret' for x in ex)
                if m in ok:
                    R.ob('accept', acc, f.at(), 'the %s refuses %s' % (what, m), key='%s:%s:%s' % (what, e.rsplit('::', 1)[-1], m))
                else:
                    R.ob('undefined', not acc, f.at(), 'the %s accepts %s %s, which it does not implement' % (what, 'an undefined' if m == '?' else e.rsplit('::', 1)[-1], '' if m == '?' else m), key='%s:%s:%s' % (what, e.rsplit('::', 1)[-1], m))


def manifests(R, t):
    """text read from a manifest: a metric that parses to nothing is refused before the manifest is used"""
    p = t.p
    for f in p.fns.values():
        if f.d.get('lambda') or not f.blocks or not f.rel().startswith(('include/index/', 'python/')):
            continue
        calls = [i for i in f.calls() if f.nodes[i].get('op') == '[]' and str(f.nodes[i].get('q', '')).startswith(A + 'MetricMap::')]
        if not calls:
            continue
        for m in ('L2', 'IP', 'COS', 'NONE'):
            def isk(env, i, b=by_type(A + 'MetricType')):
                n = env.fn.nodes[i]
                return b(env, i) or n['k'] == 'call' and str(n.get('q', '')).startswith(A + 'MetricMap::')
            K, ex = t.spec(f, isk, enumv(p, A + 'MetricType', m))
            acc = any(x[0] == 'ret' for x in ex)
            R.ob('undefined' if m == 'NONE' else 'accept', acc == (m != 'NONE'), f.at(), '%s %s' % (f.q, 'goes on with a metric whose text it does not know' if m == 'NONE' else 'refuses metric ' + m), key='%s:metric-text:%s' % (f.q, m))


def texts(R, t, q, table, enum):
    """parser from text: each known text gives its own kind, any other is refused"""
    p = t.p
    for f in fns(p, q):
        for s, want in sorted(table.items()) + [(None, None)]:
            K, ex = t.spec(f, by_param(0), [OTHER] if s is None else [('str', s)])
            rets = {x[1] for x in ex if x[0] == 'ret'}
            if s is None:
                if rets and rets <= {None}:
                    R.notes.append('%s(other text): result not resolved' % q)
                    continue
                R.ob('undefined', not rets, f.at(), '%s accepts a text that names no kind' % q, key=q + ':text')
                continue
            if None in rets:
                R.notes.append('%s(%r): result not resolved' % (q, s))
                continue
            R.ob('text', rets == {('enum', enum + '::' + want)}, f.at(), '%s(%r) is %s, not %s' % (q, s, sorted(map(str, rets)), want), key='%s:%s' % (q, s))


def prints(R, t, q, table, enum):
    p = t.p
    for f in fns(p, q):
        for m, want in sorted(table.items()):
            K, ex = t.spec(f, by_type(enum), enumv(p, enum, m))
            rets = {x[1] for x in ex if x[0] == 'ret'}
            if None in rets or K.incomplete and not rets:
                R.notes.append('%s(%s): result not resolved' % (q, m))
                continue
            R.ob('text', rets == {('str', want)}, f.at(), '%s(%s) is %s, not "%s"' % (q, m, sorted(map(str, rets)), want), key='%s:%s' % (q, m))


def unreachable(R, p):
    """a table lookup whose key is in no row must not end in undefined behaviour"""
    done = set()
    for f in p.fns.values():
        if not f.rel().endswith(('metric_type.hpp', 'quantization_type.hpp', 'index_type.hpp')) or not f.blocks or (f.file, f.line) in done:
            continue
        done.add((f.file, f.line))
        R.saw([f])
        R.ob('undefined', not any('unreachable' in str(f.nodes[i].get('q', '')) + str(f.nodes[i].get('n', '')) for i in f.calls()), f.at(), '%s has undefined behaviour for a kind its table does not list' % f.q, key='%s:unreachable' % f.q)


def factory(R, t):
    """the engine named by a manifest is the engine constructed"""
    p = t.p
    I = A + 'disk::DiskIndexType'
    own = {'Flat': 'DiskFlatSegmentSearcher', 'Vamana': 'VamanaSegmentSearcher', 'Laser': 'LaserSegmentSearcher'}
    build = {'Flat': 'DiskFlatBuilder', 'Vamana': 'VamanaSegmentBuilder', 'Laser': 'LaserSegmentImporter'}
    for q in ('create_segment_from_pending', 'load_segment_from_manifest', 'import_segment_from_artifacts'):
        for f in fns(p, A + 'disk::' + q):
            for m in names(p, I) + ['?']:
                K, ex = t.spec(f, by_type(I), [OTHER] if m == '?' else enumv(p, I, m))
                txt = [str(g.nodes[i].get('t', '')) + ' ' + str(g.nodes[i].get('cls', '')) for g, i in t.nodes(K, lambda g, i, n: n['k'] in ('call', 'ctor', 'new'))]
                made = {k for k, c in list(own.items()) + list(build.items()) if any(re.search(r'\b%s\b' % c, x) for x in txt)}
                acc = any(x[0] == 'ret' for x in ex)
                if m == '?':
                    if K.incomplete:
                        continue
                    R.ob('undefined', not acc, f.at(), '%s accepts an undefined engine' % q, key=q + ':?')
                else:
                    R.ob('engine', made <= {m} and (not acc or made == {m}), f.at(), '%s for %s constructs %s' % (q, m, sorted(made) or 'nothing'), key='%s:%s' % (q, m))
    for cls, m in (('DiskFlatSegmentSearcher', 'Flat'), ('VamanaSegmentSearcher', 'Vamana'), ('LaserSegmentSearcher', 'Laser')):
        for f in fns(p, A + 'disk::%s::type' % cls):
            K, ex = t.spec(f, lambda env, i: False, [OTHER])
            R.ob('engine', {x[1] for x in ex} == {('enum', I + '::' + m)}, f.at(), '%s calls itself %s' % (cls, ex), key=cls + ':type')
    for fl, m in (('disk_flat_builder.hpp', 'Flat'), ('vamana_segment_builder.hpp', 'Vamana'), ('laser_segment_importer.hpp', 'Laser')):
        for f in p.fns.values():
            if not f.rel().endswith('index/disk/' + fl):
                continue
            for i in f.walk():
                n = f.nodes[i]
                if n['k'] == 'asg' and f.nodes[n['e']]['k'] == 'mem' and f.nodes[n['e']]['n'] == 'index_type':
                    c = const_of(f, n['r'])
                    if c:
                        R.ob('engine', c == ('enum', I + '::' + m), f.at(i), 'the %s records its segment as %s' % (fl, c), key=fl + ':records')


def wal(R, t):
    p = t.p
    for q, e in (('parse_frame_type', 'WalFrameType'), ('parse_mutation_type', 'MutationType')):
        E = A + 'recovery::' + e
        for f in fns(p, A + 'recovery::WriteAheadLog::' + q):
            for m in names(p, E) + ['?']:
                vals = [OTHER] if m == '?' else enumv(p, E, m)
                K, ex = t.spec(f, by_param(0), vals)
                rets = {x[1] for x in ex if x[0] == 'ret'}
                if m == '?':
                    ok = rets <= {('nullopt',)} or not rets
                    if None in rets or any(r and r[0] == 'empty' for r in rets if isinstance(r, tuple)):
                        R.notes.append('%s: undefined byte not resolved' % q)
                        continue
                    R.ob('undefined', ok, f.at(), '%s takes an undefined byte for %s' % (q, rets), key=q + ':?')
                else:
                    if None in rets:
                        R.notes.append('%s(%s): not resolved' % (q, m))
                        continue
                    R.ob('stored', rets <= {vals[0], ('kind',)} and rets, f.at(), '%s turns %s into %s' % (q, m, sorted(map(str, rets))), key='%s:%s' % (q, m))


def replay(R, t):
    p = t.p
    E = A + 'recovery::MutationType'
    want = {'kInsert': 'insert', 'kUpsert': 'upsert', 'kRemoveByItemId': 'remove', 'kRemoveByInternalId': 'remove'}
    ids = {'kRemoveByItemId': ('basic_string', 'std::string'), 'kRemoveByInternalId': ('unsigned', 'int', 'IDType', 'long')}
    for f in [f for f in p.fns.values() if f.rel() == 'python/include/index.hpp' and f.name == 'replay_record' and f.blocks]:
        found = {}
        for m in names(p, E):
            K, ex = t.spec(f, by_type(E), enumv(p, E, m), follow=lambda g: False)
            ops = found.setdefault(m, {})
            for g, i in t.nodes(K, lambda g, i, n: n['k'] == 'call'):
                b = bname(g.nodes[i]) or str(g.nodes[i].get('n', ''))
                for o in ('insert', 'upsert', 'remove'):
                    if b.startswith(o + '_') or b == o:
                        ops.setdefault(o, []).append((g, i))
        for m, ops in found.items():
            if not ops and sum(1 for x in found.values() if x) < 2:
                R.notes.append('replay of %s: call not resolved' % m)
                continue
            ok = set(ops) == {want.get(m)}
            R.ob('stored', ok, f.at(), 'a logged %s is replayed as %s' % (m, '/'.join(sorted(ops)) or 'nothing'), key='replay:%s' % m)


def values(R, t):
    """value type tags: the tag written is the variant position, the tag read selects the type at that position"""
    p = t.p
    order = ['long', 'double', 'string', 'bool']

    def isk(env, i):
        n = env.fn.nodes[i]
        return n['k'] == 'ref' and env.fn.vars.get(str(n.get('d')), {}).get('k') == 'local' and str(n.get('t', '')).replace('const ', '') in ('uint8_t', 'unsigned char', 'std::uint8_t')
    size = {'long': 8, 'double': 8, 'bool': 1}
    for f in p.fns.values():
        if f.cls != A + 'ScalarData' or f.name not in ('deserialize_value', 'skip_value') or not f.blocks:
            continue
        tags = {}
        for k in range(4):
            K, ex = t.spec(f, isk, [('int', k)], follow=lambda g: False)
            if f.name == 'deserialize_value':
                got = set()
                for g, i in t.nodes(K, lambda g, i, n: True):
                    n = g.nodes[i]
                    if n['k'] == 'call' and bname(n) == 'memcpy':
                        for y in g.walk(n['a'][0]):
                            if g.nodes[y]['k'] == 'ref':
                                got.add({'int64_t': 'long', 'long': 'long', 'double': 'double', 'bool': 'bool'}.get(str(g.nodes[y].get('t')), '?'))
                    elif n['k'] == 'call' and 'string' in bname(n) and 'serialize' in bname(n):
                        got.add('string')
                tags[k] = got
        for k, got in tags.items():
                if not got and sum(1 for x in tags.values() if x) < 2 or '?' in got:
                    R.notes.append('%s tag %d: not resolved' % (f.q, k))
                    continue
                R.ob('stored', got == {order[k]}, f.at(), 'type tag %d is read as %s, not %s' % (k, '/'.join(sorted(got)) or 'nothing', order[k]), key='tag:%d' % k)
        sized = len(f.params) >= 3
        if f.name == 'deserialize_value' and sized:
            # an undefined tag must not leave the position where it was: some statement on the path marks the input as bad
            K, ex = t.spec(f, isk, [OTHER], follow=lambda g: False)
            marks = [1 for g, i in t.nodes(K, lambda g, i, n: n['k'] == 'asg' and n['op'] == '=') if g.id == f.id and g.nodes[strip(g, g.nodes[i]['e'])].get('d') in f.params]
            rets = any(x[0] == 'ret' for x in ex)
            reads = t.nodes(K, lambda g, i, n: n['k'] == 'call' and (bname(n) == 'memcpy' or 'string' in bname(n)))
            R.ob('undefined', not rets or bool(marks) and not reads, f.at(), 'an undefined value type tag is read as a value', key='tag:?')


def hints(R, t):
    p = t.p
    E = A + 'FilterExecHint'
    ok = {'kAuto': {'kBitsetPrefilter', 'kIndexedExact', 'kPlainSearch'}, 'kIterativeFilter': {'kIterativeFilter', 'kPlainSearch'}, 'kDisableIterative': {'kBitsetPrefilter', 'kPlainSearch'}}
    for f in p.fns.values():
        if f.name == 'build_search_mode' and f.rel().endswith('graph_hybrid_search_job.hpp') and f.blocks:
            for m in names(p, E):
                K, ex = t.spec(f, by_type(E), enumv(p, E, m))
                rets = {x[1][1].rsplit('::', 1)[-1] if isinstance(x[1], tuple) and x[1][0] == 'enum' else None for x in ex if x[0] == 'ret'}
                if None in rets or not rets:
                    R.notes.append('search mode for %s not resolved' % m)
                    continue
                K = Kind(p, by_type(E), enumv(p, E, m))
                K.truth = lambda env, i: False if env.fn.nodes[i]['k'] == 'call' and bname(env.fn.nodes[i]) == 'is_trivially_true' else None
                plain = [x for x in K.run(f) if x[0] == 'ret' and isinstance(x[1], tuple) and x[1][0] == 'enum' and x[1][1].endswith('::kPlainSearch')]
                R.ob('mode', not plain, f.at(), 'under hint %s a filter that is not trivially true is ignored (plain search)' % m, key='plain:%s' % m)
                R.ob('mode', rets <= ok[m], f.at(), 'the hint %s selects %s' % (m, sorted(rets - ok[m])), key='hint:%s' % m)


def covered(R, p):
    """a switch over a project enumeration has a case for each enumerator or a default"""
    done = set()
    for f in p.fns.values():
        for i in f.walk():
            n = f.nodes[i]
            if n['k'] != 'switch' or not n.get('enum') or not n['enum'].startswith(A) or (f.file, n['l']) in done:
                continue
            done.add((f.file, n['l']))
            lab, dflt = set(), False
            for y in f.walk(n['body']):
                c = f.nodes[y]
                if c['k'] == 'case':
                    k = const_of(f, c['lo'])
                    lab.add(k[1].rsplit('::', 1)[-1] if k and k[0] == 'enum' else str(k))
                dflt |= c['k'] == 'default'
            miss = [x for x in names(p, n['enum']) if x not in lab]
            R.ob('covered', dflt or not miss, f.at(i), 'the switch over %s in %s has no case for %s' % (n['enum'].rsplit('::', 1)[-1], f.q, miss), key='%s:%s' % (f.q, ','.join(miss)))


WIT = r'''
#include <string_view>
#include "utils/metric_type.hpp"
#include "utils/quantization_type.hpp"
#include "index/index_type.hpp"
#include "index/disk/types.hpp"
using namespace alaya;
static_assert(kMetricMap["L2"] == MetricType::L2, "W|metric text L2");
static_assert(kMetricMap["IP"] == MetricType::IP, "W|metric text IP");
static_assert(kMetricMap["COS"] == MetricType::COS, "W|metric text COS");
static_assert(kMetricMap["NONE"] == MetricType::NONE, "W|metric text NONE");
static_assert(kMetricMap[""] == MetricType::NONE, "W|empty metric text");
static_assert(kMetricMap["l2x"] == MetricType::NONE, "W|undefined metric text");
static_assert(MetricType::L2 != MetricType::IP && MetricType::IP != MetricType::COS && MetricType::COS != MetricType::L2 && MetricType::NONE != MetricType::L2, "W|distinct metrics");
static_assert(kQuantizationType["NONE"] == QuantizationType::NONE && kQuantizationType2str[QuantizationType::NONE] == "NONE", "W|quantization NONE");
static_assert(kQuantizationType["SQ8"] == QuantizationType::SQ8 && kQuantizationType2str[QuantizationType::SQ8] == "SQ8", "W|quantization SQ8");
static_assert(kQuantizationType["SQ4"] == QuantizationType::SQ4 && kQuantizationType2str[QuantizationType::SQ4] == "SQ4", "W|quantization SQ4");
static_assert(kQuantizationType["RABITQ"] == QuantizationType::RABITQ && kQuantizationType2str[QuantizationType::RABITQ] == "RABITQ", "W|quantization RABITQ");
static_assert(kIndexType["FLAT"] == IndexType::FLAT && kIndexType2str[IndexType::FLAT] == "FLAT", "W|index type FLAT");
static_assert(kIndexType["HNSW"] == IndexType::HNSW && kIndexType2str[IndexType::HNSW] == "HNSW", "W|index type HNSW");
static_assert(kIndexType["QG"] == IndexType::QG && kIndexType2str[IndexType::QG] == "QG", "W|index type QG");
static_assert(kIndexType["NSG"] == IndexType::NSG && kIndexType2str[IndexType::NSG] == "NSG", "W|index type NSG");
static_assert(kIndexType["FUSION"] == IndexType::FUSION && kIndexType2str[IndexType::FUSION] == "FUSION", "W|index type FUSION");
static_assert(disk::index_type_to_string(disk::DiskIndexType::Flat) == "disk_flat", "W|engine name Flat");
static_assert(disk::index_type_to_string(disk::DiskIndexType::Vamana) == "disk_vamana", "W|engine name Vamana");
static_assert(disk::index_type_to_string(disk::DiskIndexType::Laser) == "disk_laser", "W|engine name Laser");
'''


def witness(R):
    repo = os.environ.get('ALAYA_REPO', '/repo')
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, 'kinds.cpp')
        with open(src, 'w') as f:
            f.write(WIT)
        r = subprocess.run(['clang++', '-std=c++20', '-fsyntax-only', '-ferror-limit=0', '-I' + repo + '/include', src], capture_output=True, text=True, timeout=120)
    bad = set(re.findall(r'W\|([^":\n]*)', '\n'.join(l for l in r.stderr.splitlines() if 'error:' in l)))
    # a table that is no longer constant-evaluable for a kind reaches its "unreachable" end
    other = [l for l in r.stderr.splitlines() if 'error:' in l and 'W|' not in l]
    lines = WIT.splitlines()
    notconst = set()
    for l in r.stderr.splitlines():
        m = re.search(r'kinds\.cpp:(\d+):\d+: error: static assertion expression is not an integral constant', l)
        if m:
            x = re.search(r'W\|([^"]*)', lines[int(m.group(1)) - 1])
            if x:
                notconst.add(x.group(1))
    hard = [l for l in other if 'not an integral constant' not in l]
    if hard:
        R.notes.append('constant tables not decided: ' + hard[0][:200])
        return
    for w in re.findall(r'"W\|([^"]*)"', WIT):
        R.ob('table', w not in bad and w not in notconst, 'include/utils/*_type.hpp, include/index/index_type.hpp, include/index/disk/types.hpp', 'the constant tables do not map %s to itself' % w if w in bad else 'looking up %s runs off the end of its table' % w, key=w)


def run(R):
    R.rule('metric', 'under each metric exactly that metric\'s distance function is chosen', 9)
    R.rule('chosen', 'whatever sets a space\'s metric then chooses the distance function', 3)
    R.rule('undefined', 'a kind with no implementation is refused before it is used', 20)
    R.rule('accept', 'a kind with an implementation is not refused', 10)
    R.rule('text', 'the text of a kind parses to that kind, and prints as that text', 3)
    R.rule('table', 'static_assert: constant name tables are total, and inverse to each other', 10)
    R.rule('engine', 'the engine a manifest names is the one built, opened and recorded', 6)
    R.rule('stored', 'a stored mutation, frame or value tag selects exactly its own handling', 8)
    R.rule('mode', 'a filter execution hint selects its own search mode', 2)
    R.rule('covered', 'a switch over an enumeration handles each enumerator or has a default', 8)
    E = A + 'disk::DiskIndexType'
    disk = {'disk_flat': 'Flat', 'disk_vamana': 'Vamana', 'disk_laser': 'Laser'}
    core, dk, sp, py = R.program('core'), R.program('disk'), R.program('space'), R.program('py')
    metrics(R, T(R, sp))
    hints(R, T(R, sp))
    t = T(R, dk)
    flat(R, t)
    rejects(R, t)
    manifests(R, t)
    texts(R, t, A + 'disk::index_type_from_string', disk, E)
    prints(R, t, A + 'disk::index_type_to_string', {v: k for k, v in disk.items()}, E)
    prints(R, t, A + 'disk::detail::metric_name', {'L2': 'l2', 'IP': 'ip', 'COS': 'cos'}, A + 'MetricType')
    prints(R, t, A + 'disk::detail::laser_metric_name', {'L2': 'l2', 'IP': 'ip', 'COS': 'cos', 'NONE': 'none'}, A + 'MetricType')
    factory(R, t)
    t = T(R, core)
    wal(R, t)
    values(R, t)
    t = T(R, py)
    replay(R, t)
    texts(R, t, A + 'disk::pybindings::index_type_from_string_strict', disk, E)
    prints(R, t, A + 'disk::pybindings::metric_name', {'L2': 'L2', 'IP': 'IP', 'COS': 'COS'}, A + 'MetricType')
    texts(R, t, A + 'parse_filter_exec_hint', {'auto': 'kAuto', 'disable': 'kDisableIterative', 'bitset_prefilter': 'kDisableIterative', 'iterative_filter': 'kIterativeFilter'}, A + 'FilterExecHint')
    for p in (core, dk, sp, py):
        covered(R, p)
    for p in (sp, py):
        loaders(R, p)
    unreachable(R, py)
    witness(R)
