"""C30: typestate of the precomputed partitions along every path of a mutation and of a rebuild; path-sensitive decision of which filters they may answer; reachability of a result append while a residual condition rejects its record."""
import re
from vf.flow import *
from vf.kind import Kind
from vf.util import *
from checks.c16 import exact
from checks.c18 import loopnorm, subs

MV = 'alaya::MaterializedViewManager'
PY = 'alaya::PyIndex'
OPS = ('alaya::FilterOp::EQ', 'alaya::FilterOp::IN_SET')
SPACES = ('search_space_', 'build_space_', 'graph_index_', 'update_job_')
GROW = ('push_back', 'emplace_back', 'insert', 'emplace', 'try_emplace', 'insert_or_assign')


def field_of(f, i):
    """name of the member of *this a call's object or an assigned lvalue belongs to, seen through -> and get()"""
    for _ in range(8):
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] == 'mem' and n.get('b') is not None and n['b'] >= 0:
            if f.nodes[strip(f, n['b'])]['k'] == 'this':
                return n['n']
            i = n['b']
            continue
        if n['k'] == 'call' and n.get('obj', -1) is not None and n.get('obj', -1) >= 0 and (n.get('op') in ('->', '*', '[]') or bname(n) in ('get', 'operator->')):
            i = n['obj']
            continue
        if n['k'] == 'call' and n.get('op') in ('->', '*', '[]') and n.get('a'):
            i = n['a'][0]
            continue
        if n['k'] == 'un' and n['op'] in ('*', '&'):
            i = n['e']
            continue
        if n['k'] == 'idx':
            i = n['b']
            continue
        if n['k'] == 'ref' and 'd' in n and not n.get('isfn'):
            sd = f.single_def(n['d'], ignore=('addr', 'cap')) if str(n['d']) in f.vars and f.vars[str(n['d'])]['k'] == 'local' else None
            if sd is not None and sd >= 0:
                i = sd
                continue
        return None
    return None


def named(p, name):
    return [f for f in p.methods(MV) if f.name == name]


class Mutates:
    """a method changes the object it is called on"""

    def __init__(self, p):
        self.p, self.memo = p, {}

    def fn(self, g):
        if g is None:
            return True
        if g.d.get('cm') or g.d.get('st'):
            return False
        if not g.blocks:
            return True
        if g.id in self.memo:
            return self.memo[g.id]
        self.memo[g.id] = False
        if 'Storage' in str(g.cls) and 'RocksDB' in str(g.cls):
            # the records: changed by what reaches a write of the database
            self.memo[g.id] = self.writes(g, set())
            return self.memo[g.id]
        r = False
        for i, n in enumerate(g.nodes):
            if not n:
                continue
            if n['k'] == 'asg' and field_of(g, n['e']) or n['k'] == 'un' and n['op'] in ('++', '--') and field_of(g, n['e']):
                r = True
            if n['k'] == 'call' and n.get('obj', -1) is not None and n.get('obj', -1) >= 0 and not n.get('cm') and n.get('op') not in ('->', '*', '[]', '()') and bname(n) not in ('get', 'data', 'begin', 'end', 'lock', 'unlock') and not (bname(n) == 'reset' and all(g.nodes[x].get('v') in ('null', 'nullptr') for a in n.get('a', []) for x in g.walk(a) if g.nodes[x]['k'] == 'lit') and all(g.nodes[strip(g, a)]['k'] in ('lit', 'other', 'ctor') for a in n.get('a', []))):
                fo = g.nodes[strip(g, n['obj'])]['k'] == 'this' or field_of(g, n['obj'])
                if fo and self.fn(self.p.get(n.get('f'))):
                    r = True
            if r:
                break
        self.memo[g.id] = r
        return r


    def writes(self, g, seen):
        if g.id in seen:
            return False
        seen.add(g.id)
        for i in g.calls():
            q = str(g.nodes[i].get('q', ''))
            if re.fullmatch(r'rocksdb::DB::(Write|Put|Delete|SingleDelete|DeleteRange|Merge|IngestExternalFile)', q):
                return True
            h = self.p.get(g.nodes[i].get('f'))
            if h is not None and h.blocks and self.writes(h, seen):
                return True
        return False


class Use(Hooks):
    """state of the partitions of an index: 'fresh' (describe it), 'off' (not used) or 'stale'"""

    def __init__(self, p, M):
        self.p, self.M = p, M
        self.muts, self.builds, self.by = set(), {}, {}

    def throws(self, F, env, i, u):
        return True

    def descend(self, F, env, i, g):
        return g.cls == PY or g.d.get('lambda')

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = n.get('q', '')
        if q == MV + '::invalidate':
            return [('ok', 'off', None), ('exc', 'off', None)]
        if q == MV + '::rebuild':
            self.builds[(f.id, i)] = [field_of(f, a) for a in n.get('a', [])]
            return [('ok', 'fresh', None), ('exc', 'off', None)]
        w = None
        if f.cls == PY or f.d.get('lambda'):
            o = n.get('obj', -1)
            o = n['a'][0] if (o is None or o < 0) and n.get('op') == '=' and n.get('a') else o
            fo = field_of(f, o) if o is not None and o >= 0 else None
            if fo in SPACES:
                x = strip(f, o)
                direct = f.nodes[x]['k'] == 'mem' and f.nodes[x]['n'] == fo
                if n.get('op') == '=' and direct or bname(n) in ('reset', 'swap') and direct:
                    w = fo
                elif n.get('op') in ('->', '*', '==', '!=', '!') or n.get('cm') or bname(n) in ('get', 'operator bool'):
                    w = None
                elif self.M.fn(self.p.get(n.get('f'))):
                    w = fo
        if w:
            self.muts.add((f.id, i))
            v = u if u == 'off' and w != 'none' else 'stale'
            if v == 'stale':
                self.by[f.id] = i
            return [('ok', v, None), ('exc', v, None)]
        g = self.p.get(n.get('f'))
        if g is not None and g.blocks and (g.cls == PY or g.d.get('lambda')):
            return None
        return [('ok', u, None)] if nothrow_call(n) else [('ok', u, None), ('exc', u, None)]


def mutators(R, p):
    M = Mutates(p)
    for f in sorted(p.methods(PY), key=lambda f: f.line):
        if not f.blocks or f.d.get('ctor') or f.d.get('dtor') or f.d.get('acc') != 'public' or f.d.get('cm'):
            continue
        H = Use(p, M)
        F = Flow(p, H)
        outs = F.run(f, 'fresh', Env(f))
        R.points += F.points
        R.saw([f])
        if not H.muts:
            continue
        stale = sorted({k for k, u, _ in outs if u == 'stale'})
        g, at = (p.get(next(iter(H.by))), next(iter(H.by.values()))) if H.by else (f, None)
        R.ob('mutation', not stale, g.at(at) if at is not None else f.at(),
             '%s %s leaves the partitions built before it in use' % (f.q, 'failing after it has changed the index' if stale == ['exc'] else 'having changed the index'), key='%s:%s' % (f.name, '+'.join(stale)))
        for (fid, i), args in H.builds.items():
            g = p.get(fid)
            R.ob('source', 'search_space_' in args and 'build_space_' in args, g.at(i), '%s rebuilds the partitions from something else than the current vectors' % g.q, key=g.name)


class Build(Hooks):
    """(ready, cleared containers, built since) along rebuild/invalidate"""

    def __init__(self, p):
        self.p = p
        self.early, self.unclean, self.sets = {}, {}, set()

    def throws(self, F, env, i, u):
        return True

    def descend(self, F, env, i, g):
        return g.cls == MV or g.d.get('lambda')

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        ready, clean = u
        o = n.get('obj', -1)
        fo = field_of(f, o) if o is not None and o >= 0 else None
        if fo in ('partitions_', 'partition_lookup_'):
            direct = f.nodes[strip(f, o)]['k'] == 'mem'
            b = bname(n)
            if direct and (b == 'clear' or n.get('op') == '='):
                if ready == 'set':
                    self.early[(f.id, i)] = 'empties'
                return [('ok', (ready, clean | {fo}), None)]
            if b in GROW:
                if ready != 'off':
                    self.early[(f.id, i)] = 'adds to'
                if fo not in clean:
                    self.unclean[(f.id, i)] = fo
                return [('ok', u, None), ('exc', u, None)]
        g = self.p.get(n.get('f'))
        if g is not None and g.blocks and (g.cls == MV or g.d.get('lambda')) and (not g.d.get('cm') or g.d.get('lambda')) and not g.d.get('st'):
            return None
        return [('ok', u, None)] if nothrow_call(n) else [('ok', u, None), ('exc', u, None)]

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        ready, clean = u
        if n['k'] == 'asg' and field_of(f, n['e']) == 'ready_':
            v = f.nodes[strip(f, n['r'])]
            off = v['k'] == 'lit' and v.get('v') == 'false' or v.get('cv') == 'false'
            if not off:
                self.sets.add((f.id, i))
            return ('off' if off else 'set', clean)
        return u


def natural(f, h):
    """blocks of the loop headed by h"""
    pre, work = {h}, [f.entry]
    while work:
        b = work.pop()
        if b is None or b in pre:
            continue
        pre.add(b)
        work += f.blocks[b]['succ']
    back = [b for b, blk in f.blocks.items() if h in blk['succ'] and (b not in pre or b == h)]
    preds = {}
    for b, blk in f.blocks.items():
        for s in blk['succ']:
            if s is not None:
                preds.setdefault(s, []).append(b)
    out, work = {h}, list(back)
    while work:
        b = work.pop()
        if b in out:
            continue
        out.add(b)
        work += preds.get(b, [])
    return out


def every_round(p, f, L, good, K=None):
    """each round of the loop L passes a node accepted by good and the loop ends only at its head (on the edges that
    remain when the conditions K knows are resolved); None or what else can happen"""
    heads = [b for b, blk in f.blocks.items() if (blk.get('term') or {}).get('s') == L and len(blk['succ']) == 2]
    if not heads:
        return 'no loop head'
    h = heads[0]
    env = Env(f)
    inside = natural(f, h)
    seen, work = set(), [(f.blocks[h]['succ'][0], False)]
    while work:
        b, done = work.pop()
        if b is None or (b, done) in seen:
            continue
        seen.add((b, done))
        if b == h:
            if not done:
                return 'a round that skips it'
            continue
        blk = f.blocks[b]
        stop = False
        for e in blk['els']:
            if not isinstance(e, int):
                continue
            m = f.nodes[e]
            if m['k'] == 'throw' or m.get('nr'):
                stop = True
                break
            if m['k'] == 'ret':
                if not good(e) and not nothing(f, m.get('e', -1)):
                    return 'a return inside it'
                stop = True
                break
            if good(e):
                done = True
        if stop or b == f.exit:
            continue
        if b not in inside:
            # a block that ends in a return or throw belongs to no loop: follow it until one is met
            if not leads_out(f, b):
                return 'a break'
        t, su = blk.get('term'), blk['succ']
        if K is not None and t and isinstance(t.get('c'), int) and t['c'] >= 0 and len(su) == 2:
            c = t['c']
            while f.nodes[c]['k'] in ('cast', 'bin') and (f.nodes[c]['k'] == 'cast' or f.nodes[c]['op'] in ('&&', '||')):
                c = f.nodes[c]['e' if f.nodes[c]['k'] == 'cast' else 'r']
            r = K.tv(env, c)
            if r is not None:
                work.append((su[0 if r else 1], done))
                continue
        work += [(s, done) for s in su]
    return None


def leads_out(f, b):
    """every path from b ends in a return or throw statement before anything joins"""
    seen = set()
    work = [b]
    while work:
        x = work.pop()
        if x is None or x in seen:
            continue
        seen.add(x)
        if any(isinstance(e, int) and (f.nodes[e]['k'] in ('ret', 'throw') or f.nodes[e].get('nr')) for e in f.blocks[x]['els']):
            continue
        if x == f.exit or len(seen) > 12:
            return False
        work += f.blocks[x]['succ']
    return True


def rebuild(R, p):
    for f in named(p, 'rebuild'):
        if not f.blocks:
            continue
        H = Build(p)
        F = Flow(p, H)
        outs = F.run(f, ('used', frozenset()), Env(f))
        R.points += F.points
        R.saw([f])
        bad = sorted({'%s with the partitions built before it in use' % ('returns' if k == 'ok' else 'fails') for k, u, _ in outs if u[0] == 'used'})
        R.ob('rebuild', not bad, f.at(), '%s %s' % (f.q, ' and '.join(bad)), key='rebuild')
        R.ob('rebuild', bool(H.sets), f.at(), '%s never declares partitions usable: nothing to decide' % f.q, key='rebuild-sets')
        for (fid, i), w in H.early.items():
            g = p.get(fid)
            R.bad('rebuild', g.at(i), '%s %s the partitions while they are in use' % (g.q, w), key='early:' + g.name)
        for (fid, i), w in H.unclean.items():
            g = p.get(fid)
            R.bad('rebuild', g.at(i), '%s adds to %s without having emptied it' % (g.q, w), key='unclean:' + w)
    for n in named(p, 'invalidate'):
        if n.blocks:
            H2 = Build(p)
            F2 = Flow(p, H2)
            o2 = F2.run(n, ('used', frozenset()), Env(n))
            R.points += F2.points
            R.saw([n])
            R.ob('rebuild', all(u[0] == 'off' for k, u, _ in o2 if k == 'ok'), n.at(), '%s leaves the partitions in use' % n.q, key='invalidate')


def grower(p, f, pred, depth=0, seen=None):
    """does f (or a function of the manager it calls) contain a node accepted by pred"""
    seen = seen or set()
    if f.id in seen or depth > 6:
        return False
    seen.add(f.id)
    for i in f.calls():
        if pred(f, i):
            return True
        g = p.get(f.nodes[i].get('f'))
        if g is not None and g.blocks and (g.cls == MV or g.d.get('lambda')) and grower(p, g, pred, depth + 1, seen):
            return True
    return False


def complete(R, p):
    """each partition seed becomes a partition, each id with a value of the field a member of a seed"""
    from checks.c15 import always_after

    def adds(field):
        def pred(f, i):
            n = f.nodes[i]
            o = n.get('obj', -1)
            return n['k'] == 'call' and bname(n) in GROW and o is not None and o >= 0 and field_of(f, o) == field
        return pred

    def certainly(pred, depth=0):
        def mk(f):
            def good(e):
                if f.nodes[e]['k'] != 'call':
                    return False
                if pred(f, e):
                    return True
                g = p.get(f.nodes[e].get('f'))
                return bool(depth < 4 and g is not None and g.blocks and (g.cls == MV or g.d.get('lambda')) and always_after(g, None, certainly(pred, depth + 1)(g)))
            return good
        return mk
    for field in ('partitions_', 'partition_lookup_'):
        pred = adds(field)
        n = 0
        for f in p.methods(MV):
            if not f.blocks:
                continue
            loops = [i for i, m in enumerate(f.nodes) if m and m['k'] == 'loop']
            for L in loops:
                if not any(f.nodes[x]['k'] == 'call' and (pred(f, x) or (lambda g: g is not None and g.blocks and g.cls == MV and grower(p, g, pred))(p.get(f.nodes[x].get('f')))) for x in f.walk(f.nodes[L]['body'])):
                    continue
                n += 1
                R.saw([f])
                why = every_round(p, f, L, certainly(pred)(f))
                R.ob('complete', why is None, f.at(L), 'the loop of %s over the partition values leaves one out of %s: %s' % (f.q, field, why), key='%s:%s' % (f.name, field))
        R.ob('complete', n > 0, '', 'no loop fills %s' % field, key='fills:' + field)
    members(R, p)


def members(R, p):
    for f in p.methods(MV):
        if not f.blocks:
            continue
        for L, n in enumerate(f.nodes):
            if not n or n['k'] != 'loop':
                continue
            adds = [x for x in f.walk(n['body']) if f.nodes[x]['k'] == 'call' and bname(f.nodes[x]) in ('push_back', 'emplace_back') and f.nodes[x].get('obj', -1) >= 0 and re.search(r'\.(global_ids_)$', show(canon(Env(f), f.nodes[x]['obj'])))]
            if not adds:
                continue
            R.saw([f])
            # a round may end without the id only when the record or its field is absent
            K = Absent(p)
            K.run(f)
            esc = every_round(p, f, L, lambda e: e in adds, K)
            R.ob('complete', esc is None, f.at(L), '%s leaves out a record that has a value of the field: %s' % (f.q, esc), key=f.name + ':ids')
            # the range: every id
            t = canon(Env(f), n['c']) if isinstance(n.get('c'), int) and n['c'] >= 0 else None
            lim = show(t) if t else ''
            R.ob('complete', bool(re.search(r'(search_space_|build_space_)\.(\w*num\w*|item_cnt_)', lim)), f.at(L), '%s does not visit every record of the index (%s)' % (f.q, lim), key=f.name + ':range')


class Absent(Kind):
    """the record and its field are present"""

    def __init__(self, p):
        super().__init__(p, lambda e, i: False, [], lambda g: True)
        self.truth = self.known

    def passes(self, env, i, g):
        return g.cls == MV or g.d.get('lambda')

    def known(self, env, i):
        f = env.fn
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] == 'call':
            q = n.get('q', '')
            if q.endswith('::get_raw_value'):
                return True
            if bname(n) in ('has_value', 'operator bool') and n.get('obj', -1) is not None and n.get('obj', -1) >= 0:
                t = canon(env, n['obj'])
                if 'deserialize_single_metadata_value' in str(t):
                    return True
                o = f.nodes[strip(f, n['obj'])]
                if o['k'] == 'ref' and 'd' in o:
                    sd = f.single_def(o['d'], ignore=('addr', 'cap'))
                    if sd is not None and sd >= 0 and 'deserialize_single_metadata_value' in f.text(sd):
                        return True
        return None


def nothing(f, e):
    """the value means 'no partitions at all'"""
    if e is None or e < 0:
        return False
    return 'nullopt' in f.text(e) or 'nullopt' in str(f.nodes[strip(f, e)].get('t', ''))



from collections import namedtuple
St = namedtuple('St', 'ops key got other target narrow cov')
SEL = 'alaya::MaterializedViewPartitionSelection'
FC = 'alaya::FilterCondition'


def opnames(p):
    e = p.enum('alaya::FilterOp')['vals']
    return ['alaya::FilterOp::' + (v['n'] if isinstance(v, dict) else v[0] if isinstance(v, (list, tuple)) else str(v)) for v in e]


class Elig(Hooks):
    """what is known of the condition being looked at (operators it can have, whether its field is the key, which of its values were taken), whether conditions on other fields or on the key have been seen, and which flags are false"""

    def __init__(self, p, target):
        self.p, self.target = p, target
        self.ALL = frozenset(opnames(p))
        self.faults, self.sites = {}, {}
        self.conds = set()

    def throws(self, F, env, i, u):
        return False

    def about(self, g):
        return any('FilterCondition' in t and '<' not in t for t in (str(g.vars.get(str(d), {}).get('t', '')) for d in g.params)) or bool(g.d.get('lambda'))

    def descend(self, F, env, i, g):
        return True

    def cond(self, env, i):
        """name of the member of a condition that node i denotes"""
        f = env.fn
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] == 'mem' and str(n.get('q', '')).startswith(FC + '::'):
            return n['n']
        if n['k'] == 'ref' and 'd' in n and str(n['d']) in f.vars:
            v = f.vars[str(n['d'])]
            if v['k'] == 'local':
                sd = f.single_def(n['d'])
                return self.cond(env, sd) if sd is not None and sd >= 0 else None
            if v['k'] == 'param' and env.up and n['d'] in f.params:
                ue, call = env.up
                a = ue.fn.nodes[call].get('a', [])
                k = f.params.index(n['d'])
                return self.cond(ue, a[k]) if k < len(a) else None
        return None

    def istarget(self, env, i):
        t = canon(env, i)
        return t == self.target

    def optional(self, f, i):
        t = str(f.nodes[strip(f, i)].get('t', ''))
        return 'optional<' in t and 'vector' in t

    def close(self, f, i, u):
        if u.ops is None:
            return u
        if u.key is False:
            return u._replace(ops=None, key=None, got=frozenset(), other=True, narrow=False)
        bad = u.ops - set(OPS)
        if bad or u.key is None:
            self.faults[('ops', f.id, i)] = 'accepts a filter whose condition on the key has the operator %s' % sorted(bad)[0].rsplit('::', 1)[-1] if bad else 'accepts a filter with a condition whose field it has not compared with the key'
        if OPS[0] in u.ops and 'value' not in u.got:
            self.faults[('values', f.id, i)] = 'accepts an equality condition without taking its value'
        if OPS[1] in u.ops and 'values' not in u.got:
            self.faults[('values', f.id, i)] = 'accepts a set condition without taking all its values'
        if u.target and not u.narrow:
            self.faults[('both', f.id, i)] = 'accepts a second condition on the key without narrowing the values of the first'
        return u._replace(ops=None, key=None, got=frozenset(), target=True, narrow=False)

    def outer(self, f, L):
        if any(f.nodes[x]['k'] in ('loop', 'lam') for x in f.ancestors(L)):
            return False
        return any(f.nodes[x]['k'] == 'mem' and str(f.nodes[x].get('q', '')).startswith(FC + '::') or f.nodes[x]['k'] == 'call' and (lambda g: g is not None and g.blocks and self.about(g))(self.p.get(f.nodes[x].get('f'))) for x in f.walk(f.nodes[L]['body']))

    def rangeloop(self, F, env, term, enter, u):
        f = env.fn
        L = term['s']
        n = f.nodes[L]
        if isinstance(n.get('range'), int) and self.cond(env, n['range']) == 'values':
            if enter:
                return u
            v = n.get('var')
            v = {x['d'] for x in f.nodes[v].get('vs', [])} if isinstance(v, int) and v >= 0 else set()

            def takes(e):
                m = f.nodes[e]
                return m['k'] == 'call' and any(f.nodes[x]['k'] == 'ref' and f.nodes[x].get('d') in v for a in m.get('a', []) for x in f.walk(a)) and bname(m) not in ('find', 'count', 'contains')
            if every_round(self.p, f, L, takes) is None:
                return u._replace(got=u.got | {'values'})
            return u
        if self.outer(f, L):
            self.conds.add((f.id, L))
            u = self.close(f, L, u)
            return u._replace(ops=self.ALL, key=None, got=frozenset(), narrow=False) if enter else u
        return u

    def branch(self, F, env, c, pol, u):
        f = env.fn
        if '_loopc' not in f.__dict__:
            f.__dict__['_loopc'] = {n['c']: i for i, n in enumerate(f.nodes) if n and n['k'] == 'loop' and isinstance(n.get('c'), int)}
        L = f.__dict__['_loopc'].get(c)
        if L is not None and u.ops is not None and not self.outer(f, L):
            if not pol and any(f.nodes[x]['k'] == 'mem' and self.cond(env, x) == 'values' for x in f.walk(c)):
                takes = lambda e: f.nodes[e]['k'] == 'call' and bname(f.nodes[e]) not in ('find', 'count', 'contains', 'size', 'at') and f.nodes[e].get('op') != '[]' and any(f.nodes[x]['k'] == 'mem' and self.cond(env, x) == 'values' for a in f.nodes[e].get('a', []) for x in f.walk(a))
                if every_round(self.p, f, L, takes) is None:
                    return u._replace(got=u.got | {'values'})
            return u
        if L is not None and self.outer(f, L):
            self.conds.add((f.id, L))
            u = self.close(f, L, u)
            return u._replace(ops=self.ALL, key=None, got=frozenset(), narrow=False) if pol else u
        c = strip(f, c)
        n = f.nodes[c]
        while n['k'] == 'un' and n['op'] == '!':
            c, pol = strip(f, n['e']), not pol
            n = f.nodes[c]
        if n['k'] == 'bin' and n['op'] in ('&&', '||'):
            c = strip(f, n['r'])
            n = f.nodes[c]
        if n['k'] == 'call' and bname(n) in ('has_value', 'operator bool') and n.get('obj', -1) >= 0 and self.optional(f, n['obj']) and self.local(f, n['obj']):
            return u if pol == u.target else None
        xs = [n['e'], n['r']] if n['k'] == 'bin' and n['op'] in ('==', '!=') else ([n['obj']] if n.get('obj') is not None and n['obj'] >= 0 else []) + n['a'] if n['k'] == 'call' and n.get('op') in ('==', '!=') else []
        if len(xs) == 2 and u.ops is not None:
            eq = pol == (n['op'] == '==')
            for a, b in (xs, xs[::-1]):
                m = self.cond(env, a)
                if m == 'op':
                    e = f.nodes[strip(f, b)]
                    if e['k'] == 'ref' and e.get('enum'):
                        q = 'alaya::FilterOp::' + e['n']
                        o = u.ops & {q} if eq else u.ops - {q}
                        return u._replace(ops=o) if o else None
                if m == 'field':
                    if self.istarget(env, b):
                        return self.resolve(u._replace(key=eq)) if u.key in (None, eq) else None
        if n['k'] == 'ref' and 'd' in n:
            sd = f.single_def(n['d'], ignore=('addr', 'cap')) if str(n['d']) in f.vars and f.vars[str(n['d'])]['k'] == 'local' else None
            if sd is not None and sd >= 0 and f.nodes[strip(f, sd)]['k'] in ('bin', 'call', 'un'):
                return self.branch(F, env, sd, pol, u)
        return u

    def local(self, f, i):
        n = f.nodes[strip(f, i)]
        return n['k'] == 'ref' and 'd' in n and f.vars.get(str(n['d']), {}).get('k') == 'local' and f.nodes[strip(f, i)].get('t', '').find('MetadataValue') >= 0 or n['k'] == 'ref' and 'vector' in str(n.get('t', ''))

    def case(self, F, env, cond, label, u):
        f = env.fn
        if self.cond(env, cond) != 'op' or u.ops is None:
            return u
        labs = set()
        for i, n in enumerate(f.nodes):
            if n and n['k'] == 'switch' and strip(f, n['c']) == strip(f, cond):
                for x in f.walk(n['body']):
                    if f.nodes[x]['k'] == 'case':
                        labs.add(canon(env, f.nodes[x]['lo']))
        qs = {t[1] for t in labs if t[0] == 'enum'}
        o = u.ops & {label[1]} if label[0] == 'enum' else u.ops - qs
        return u._replace(ops=o) if o else None

    def val(self, env, i, u):
        f = env.fn
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] == 'lit' and n.get('v') in ('true', 'false'):
            return n['v'] == 'true'
        if n['k'] == 'ref' and 'd' in n:
            return dict(u.cov).get((f.id, n['d']))
        if n['k'] == 'mem' and n['n'] in ('filter_covered_', 'eligible_'):
            return dict(u.cov).get(n['n'])
        if n['k'] == 'bin' and n['op'] in ('&&', '&'):
            a, b = self.val(env, n['e'], u), self.val(env, n['r'], u)
            return False if a is False or b is False else a and b
        if n['k'] == 'un' and n['op'] == '!':
            a = self.val(env, n['e'], u)
            return None if a is None else ('key', not a[1]) if isinstance(a, tuple) else not a
        xs = [n['e'], n['r']] if n['k'] == 'bin' and n['op'] in ('==', '!=') else ([n['obj']] if n.get('obj') is not None and n['obj'] >= 0 else []) + n['a'] if n['k'] == 'call' and n.get('op') in ('==', '!=') else []
        if len(xs) == 2:
            for a, b in (xs, xs[::-1]):
                if self.cond(env, a) == 'field' and self.istarget(env, b):
                    return ('key', n['op'] == '==')
        return None

    def put(self, u, k, v):
        d = dict(u.cov)
        d[k] = v
        return u._replace(cov=frozenset(d.items()))

    def site(self, f, i, u, covered):
        k = (f.id, i)
        self.sites.setdefault(k, set())
        if u.ops is not None and u.key is not False:
            u = self.close(f, i, u)
        if not u.target:
            self.sites[k].add('declares a filter without a condition on the key answerable')
        if u.other and covered is not False:
            self.sites[k].add('declares a filter with a condition on another field implied by the key')

    def note(self, F, env, i, u):
        """values of the condition taken by node i"""
        f = env.fn
        n = f.nodes[i]
        for a in n.get('a', []):
            m = self.cond(env, a)
            if m in ('value', 'values') and u.ops is not None and bname(n) not in ('find', 'count') and n.get('op') not in ('==', '!='):
                u = u._replace(got=u.got | {m})
            b = f.nodes[strip(f, a)]
            if b['k'] == 'call' and bname(b) in ('begin', 'cbegin') and b.get('obj', -1) >= 0 and self.cond(env, b['obj']) == 'values':
                u = u._replace(got=u.got | {'values'})
        if u.ops is not None and bname(n) not in ('has_value', 'operator bool', 'value', 'reset') and n.get('op') not in ('*', '->'):
            for x in [y for y in [n.get('obj', -1)] + n.get('a', []) if y is not None and y >= 0]:
                if any('optional<' in str(f.nodes[y].get('t', '')) and f.nodes[y]['k'] == 'ref' for y in f.walk(x)):
                    if n.get('op') != '=':
                        u = u._replace(narrow=True)
        return u

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        g = self.p.get(n.get('f'))
        if n.get('op') == '=':
            xs = ([n['obj']] if n.get('obj') is not None and n['obj'] >= 0 else []) + n['a']
            if xs and self.optional(f, xs[0]) and u.target and u.ops is not None and not u.narrow:
                self.faults[('both', f.id, i)] = 'replaces the values of the first condition on the key by those of a second one'
        u2 = self.note(F, env, i, u)
        if g is not None and g.blocks and g.q.startswith('alaya::') and self.about(g) and g.id != f.id:
            return None if u2 == u else None
        return [('ok', u2, None)]

    def after(self, F, env, i, u, kind, rv):
        return self.note(F, env, i, u)

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'decl':
            for v in n.get('vs', []):
                if v.get('t') in ('bool', 'const bool') and isinstance(v.get('init'), int) and v['init'] >= 0:
                    u = self.put(u, (f.id, v['d']), self.raw(self.val(env, v['init'], u), u))
                if isinstance(v.get('init'), int) and v['init'] >= 0 and u.ops is not None:
                    m = self.cond(env, v['init'])
                    if m in ('value', 'values') and not str(v.get('t', '')).rstrip().endswith('&'):
                        u = u._replace(got=u.got | {m})
        if n['k'] == 'asg':
            e = strip(f, n['e'])
            m = f.nodes[e]
            k = (f.id, m['d']) if m['k'] == 'ref' and 'd' in m and m.get('t') == 'bool' else m['n'] if m['k'] == 'mem' and m['n'] in ('filter_covered_', 'eligible_') else None
            if k is not None:
                v = self.raw(self.val(env, n['r'], u), u)
                if n.get('op') == '&=':
                    o = dict(u.cov).get(k)
                    v = False if v is False or o is False else v and o
                u = self.put(u, k, v)
                if k == 'eligible_' and v is not False:
                    pass
        if n['k'] in ('ctor', 'init', 'silist') and SEL.rsplit('::', 1)[-1] in str(n.get('cls', '')) + str(n.get('t', '')) and not n.get('copy') and not n.get('move'):
            a = [x for x in n.get('a', n.get('e', [])) if isinstance(x, int) and x >= 0] if not isinstance(n.get('e'), int) else n.get('a', [])
            if a and 'PartitionSelection' not in str(f.nodes[strip(f, a[0])].get('t', '')):
                v = self.known(self.val(env, a[0], u), u)
                if v is not False and f.nodes[strip(f, a[0])]['k'] != 'other':
                    self.site(f, i, u, self.known(self.val(env, a[1], u), u) if len(a) > 1 else None)
        if n['k'] == 'ret' and n.get('e', -1) is not None and n.get('e', -1) >= 0 and dict(u.cov).get('eligible_') is not None and dict(u.cov)['eligible_'] is not False:
            self.site(f, i, u, dict(u.cov).get('filter_covered_', False))
        return u

    def raw(self, v, u):
        k = self.known(v, u)
        return v if k is None else k

    def resolve(self, u):
        if u.key is None:
            return u
        return u._replace(cov=frozenset((k, self.known(v, u)) for k, v in u.cov))

    def known(self, v, u):
        if isinstance(v, tuple) and v[0] == 'key':
            if u.key is None:
                return None
            return u.key if v[1] else not u.key
        return v


def eligible(R, p):
    fs = [f for f in p.fns.values() if f.blocks and SEL.rsplit('::', 1)[-1] in str(f.d.get('rt', '')) and any('MetadataFilter' in str(f.vars.get(str(d), {}).get('t', '')) for d in f.params)]
    for f in fs:
        key = [d for d in f.params if 'string' in str(f.vars.get(str(d), {}).get('t', ''))]
        if not key:
            continue
        H = Elig(p, ('v', 'P:' + f.vars[str(key[0])]['n']))
        F = Flow(p, H)
        outs = F.run(f, St(None, None, frozenset(), False, False, False, frozenset()), Env(f))
        R.points += F.points
        R.saw([f])
        R.ob('eligible', bool(H.conds), f.at(), '%s does not look at the conditions of the filter' % f.q, key='conds')
        R.ob('eligible', bool(H.sites), f.at(), '%s never declares a filter answerable: nothing to decide' % f.q, key='sites')
        for (fid, i), bad in H.sites.items():
            g = p.get(fid)
            R.ob('eligible', not bad, g.at(i), '%s %s' % (g.q, ' and '.join(sorted(bad))), key='site:' + ';'.join(sorted(bad)))
        for kind in ('ops', 'values', 'both'):
            hits = {(fid, i): m for (k2, fid, i), m in H.faults.items() if k2 == kind}
            if not hits:
                R.good('eligible', f.at())
            for (fid, i), m in hits.items():
                R.bad('eligible', p.get(fid).at(i), '%s %s' % (f.q, m), key=kind)
        # the field compared and the field partitioned
    conj(R, p)
    inter(R, p)


class Assume(Kind):
    """reachability under known truths of some conditions"""

    def __init__(self, p, truth, inline=lambda g: True, first=lambda env, c: False, values=None, isk=None):
        super().__init__(p, isk or (lambda e, i: False), values or [], lambda g: True)
        self.truth, self.inline, self.first = truth, inline, first

    def passes(self, env, i, g):
        return self.inline(g)

    def enters(self, env, c):
        return self.first(env, c)


def conj(R, p):
    """the conditions handed out are those of a pure conjunction"""
    fs = [f for f in p.fns.values() if f.blocks and f.d.get('rt') == 'bool' and any('FilterCondition' in str(f.vars.get(str(d), {}).get('t', '')) and 'vector' in str(f.vars.get(str(d), {}).get('t', '')) for d in f.params) and any('MetadataFilter' in str(f.vars.get(str(d), {}).get('t', '')) for d in f.params)]
    R.ob('conjunction', bool(fs), '', 'no function collects the conditions of a conjunction', key='anchor')
    for f in fs:
        R.saw([f])

        def empty(env, i):
            n = env.fn.nodes[strip(env.fn, i)]
            if n['k'] == 'call' and n.get('q') == 'alaya::MetadataFilter::is_empty':
                return False
            return None

        def isop(env, i):
            n = env.fn.nodes[strip(env.fn, i)]
            return n['k'] == 'mem' and n['n'] == 'logic_op'
        e = p.enum('alaya::LogicOp')['vals']
        names = [(v['n'] if isinstance(v, dict) else v[0] if isinstance(v, (list, tuple)) else str(v)) for v in e]
        for k, nm in enumerate(names):
            if nm == 'AND':
                continue
            K = Assume(p, empty, values=[('enum', 'alaya::LogicOp::' + nm)], isk=isop)
            out = K.run(f)
            ok = all(v is False for kk, v in out if kk == 'ret')
            R.ob('conjunction', ok, f.at(), '%s treats the conditions of a %s as conditions that must all hold' % (f.q, nm), key=nm)

        def recurses(n):
            return n.get('f') == f.id

        def sub(env, i):
            g = env.fn
            n = g.nodes[strip(g, i)]
            if n['k'] == 'call' and recurses(n):
                return False
            return empty(env, i)

        def issub(g, L):
            n = g.nodes[L]
            return any(g.nodes[x]['k'] == 'call' and recurses(g.nodes[x]) for x in g.walk(n['body']))
        loops = [i for i, n in enumerate(f.nodes) if n and n['k'] == 'loop' and issub(f, i)]

        def first(env, c):
            g = env.fn
            if g.id != f.id:
                return False
            for L in loops:
                n = g.nodes[L]
                if n.get('c') == c:
                    return True
                b = next((blk for blk in g.blocks.values() if (blk.get('term') or {}).get('s') == L), None)
                if b and (b.get('term') or {}).get('c') == c:
                    return True
            return False
        K = Assume(p, sub, first=first, inline=lambda g: g.id != f.id, values=[('enum', 'alaya::LogicOp::AND')], isk=isop)
        out = K.run(f)
        R.ob('conjunction', bool(loops) and all(v is False for kk, v in out if kk == 'ret'), f.at(), '%s accepts a filter although a nested filter is not a conjunction' % f.q, key='nested')
        for L in loops:
            why = every_round(p, f, L, lambda e: f.nodes[e]['k'] == 'call' and recurses(f.nodes[e]) or f.nodes[e]['k'] == 'ret')
            R.ob('conjunction', why in (None, 'a return inside it'), f.at(L), '%s leaves a nested filter out: %s' % (f.q, why), key='nested-all')
        cl = [i for i, n in enumerate(f.nodes) if n and n['k'] == 'loop' and i not in loops and any(f.nodes[x]['k'] == 'call' and bname(f.nodes[x]) in GROW for x in f.walk(n['body']))]
        for L in cl:
            why = every_round(p, f, L, lambda e: f.nodes[e]['k'] == 'call' and bname(f.nodes[e]) in GROW)
            R.ob('conjunction', why is None, f.at(L), '%s leaves a condition out: %s' % (f.q, why), key='conditions')
        R.ob('conjunction', bool(cl) or any(f.nodes[x]['k'] == 'call' and bname(f.nodes[x]) in ('transform', 'for_each', 'insert') for x in f.calls()), f.at(), '%s does not collect the conditions of the filter itself' % f.q, key='own')


def inter(R, p):
    """a value kept of two lists is in both"""
    for f in p.fns.values():
        if not f.blocks or f.cls or 'vector' not in str(f.d.get('rt', '')) or f.file is None or not f.rel().endswith('materialized_view.hpp'):
            continue
        ps = [d for d in f.params if 'vector' in str(f.vars.get(str(d), {}).get('t', '')) and re.search('MetadataValue|variant<', str(f.vars.get(str(d), {}).get('t', '')))]
        if len(ps) != 2:
            continue
        R.saw([f])

        def miss(env, i):
            g = env.fn
            n = g.nodes[strip(g, i)]
            xs = [n['e'], n['r']] if n['k'] == 'bin' and n['op'] in ('==', '!=') else ([n['obj']] if n.get('obj') is not None and n['obj'] >= 0 else []) + n['a'] if n['k'] == 'call' and n.get('op') in ('==', '!=') else []
            if len(xs) == 2:
                a, b = [str(canon(env, x)) for x in xs]
                if any("find" in x for x in (a, b)) and any("'end'" in x or '::end' in x for x in (a, b)):
                    return n['op'] == '=='
            if n['k'] == 'call' and bname(n) in ('contains', 'any_of'):
                return False
            return None
        K = Assume(p, miss, inline=lambda g: False)
        K.run(f)
        grown = [x for x in f.calls() if f.nodes[x]['k'] == 'call' and not bname(f.nodes[x]) == 'move' and (bname(f.nodes[x]) in GROW or any('vector' in str(f.nodes[strip(f, a)].get('t', '')) and f.nodes[strip(f, a)]['k'] == 'ref' and f.nodes[strip(f, a)].get('d') not in ps for a in f.nodes[x].get('a', [])))]
        hit = [x for x in grown if any(e == x and fid == f.id for fid, e, _ in K.reached)]
        R.ob('eligible', not hit, f.at(hit[0]) if hit else f.at(), '%s keeps a value that only one of the two conditions allows' % f.q, key='intersection')


def encoded(g, i, depth=0):
    i = strip(g, i)
    n = g.nodes[i]
    if depth > 5:
        return False
    if n['k'] == 'call':
        return str(n.get('q', '')).startswith('alaya::index_encoding::') or bname(n) == 'move' and n.get('a') and encoded(g, n['a'][0], depth + 1)
    if n['k'] == 'ctor' and n.get('a'):
        return encoded(g, n['a'][0], depth + 1)
    if n['k'] == 'ref' and 'd' in n and str(n['d']) in g.vars and g.vars[str(n['d'])]['k'] == 'local':
        sd = g.single_def(n['d'], ignore=('addr', 'cap'))
        return sd is not None and sd >= 0 and encoded(g, sd, depth + 1)
    return n['k'] == 'mem' and n['n'] == 'encoded_value_'


def used(R, p):
    """no partition answers while the partitions are off or the filter is not answerable"""
    for f in named(p, 'try_hybrid_search'):
        if not f.blocks:
            continue
        R.saw([f])
        for what, msg in (('ready_', 'the partitions are not in use'), ('eligible_', 'the filter is not answerable from the key')):
            def truth(env, i):
                n = env.fn.nodes[strip(env.fn, i)]
                if n['k'] == 'mem' and n['n'] == what:
                    return False
                return None
            K = Assume(p, truth, inline=lambda g: g.cls == MV)
            out = K.run(f)
            hit = [(fid, e) for fid, e, _ in K.reached if p.get(fid).nodes[e]['k'] == 'mem' and p.get(fid).nodes[e]['n'] in ('partitions_', 'partition_lookup_') and p.get(fid).cls == MV]
            R.ob('used', not hit and all(v is False for k, v in out if k == 'ret'), p.get(hit[0][0]).at(hit[0][1]) if hit else f.at(), '%s answers a search although %s' % (f.q, msg), key=what)
        # the partition of a value is found by the same encoding it was filed under
        enc = set()
        for g in p.methods(MV):
            if not g.blocks:
                continue
            for i in g.calls():
                q = str(g.nodes[i].get('q', ''))
                if q.startswith('alaya::index_encoding::'):
                    enc.add(q)
        R.ob('keyed', len(enc) == 1, f.at(), 'the partition of a value is filed and looked up by different encodings: %s' % ', '.join(sorted(enc)), key='encoding')
    for g in p.methods(MV):
        if not g.blocks:
            continue
        for i in g.calls():
            n = g.nodes[i]
            if bname(n) in ('find', 'count', 'at', 'contains') and n.get('obj', -1) is not None and n.get('obj', -1) >= 0 and field_of(g, n['obj']) == 'partition_lookup_':
                R.ob('keyed', encoded(g, n['a'][0]), g.at(i), '%s looks a partition up by something else than the encoding of its value' % g.q, key='lookup')
            if n.get('q', '').endswith('::deserialize_single_metadata_value') or n.get('q', '').endswith('::analyze_materialized_view_filter'):
                ok = any(g.nodes[x]['k'] == 'mem' and g.nodes[x]['n'] == 'field_' for a in n.get('a', []) for x in g.walk(a))
                R.ob('keyed', ok, g.at(i), '%s uses another field than the one partitioned' % g.q, key=bname(n))


def residual(R, p):
    """while conditions on other fields remain, they are applied to every candidate"""
    for f in named(p, 'try_hybrid_search'):
        if not f.blocks:
            continue
        R.saw([f])

        def isblocked(env, i, depth=0):
            """pointer to the bitset of records the remaining conditions reject"""
            g = env.fn
            i = strip(g, i)
            n = g.nodes[i]
            if depth > 8:
                return False
            if n['k'] == 'un' and n['op'] == '&':
                m = g.nodes[strip(g, n['e'])]
                return m['k'] == 'mem' and m['n'] == 'blocked_'
            if n['k'] == 'ref' and 'd' in n and str(n['d']) in g.vars:
                v = g.vars[str(n['d'])]
                if v['k'] == 'param' and env.up and n['d'] in g.params:
                    ue, call = env.up
                    a = ue.fn.nodes[call].get('a', [])
                    k = g.params.index(n['d'])
                    return k < len(a) and isblocked(ue, a[k], depth + 1)
                if v['k'] == 'local' and 'DynamicBitset' in str(v.get('t', '')):
                    ds = [x for x, kind, _ in g.defs().get(n['d'], []) if x is not None and x >= 0]
                    vals = [x for x in ds if g.nodes[strip(g, x)].get('v') not in ('null', 'nullptr', '0') and g.nodes[strip(g, x)]['k'] != 'lit']
                    return bool(vals) and all(isblocked(env, x, depth + 1) for x in vals)
            if n['k'] == 'cond':
                return isblocked(env, n['a1'], depth + 1) or isblocked(env, n['a2'], depth + 1)
            return False

        def covered(env, i, depth=0):
            g = env.fn
            n = g.nodes[strip(g, i)]
            return n['k'] == 'mem' and n['n'] == 'filter_covered_'

        def mktruth(rejected):
            def truth(env, i):
                g = env.fn
                j = strip(g, i)
                n = g.nodes[j]
                if covered(env, i):
                    return False
                if n['k'] in ('bin',) and n['op'] in ('==', '!='):
                    for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
                        m = g.nodes[strip(g, b)]
                        if m['k'] == 'lit' and m.get('v') in ('null', 'nullptr', '0') and isblocked(env, a):
                            return n['op'] == '!='
                if isblocked(env, j) and n['k'] == 'ref':
                    return True
                if rejected and n['k'] == 'call' and bname(n) in ('get', 'test') and n.get('obj', -1) is not None and n.get('obj', -1) >= 0:
                    o = strip(g, n['obj'])
                    if g.nodes[o]['k'] == 'un' and g.nodes[o]['op'] == '*':
                        o = g.nodes[o]['e']
                    if isblocked(env, o) and n.get('a') and exact(env, n['a'][0]) in localids(env):
                        return True
                return None
            return truth
        K = Assume(p, mktruth(True), inline=lambda g: g.cls == MV or g.d.get('lambda'))
        envs = {}
        old = K.run

        def run2(g, env=None, depth=0):
            env = env or Env(g)
            envs.setdefault((g.id, env.key()), env)
            return old(g, env, depth)
        K.run = run2
        K.run(f)
        masks, apps = 0, 0
        for fid, e, ek in sorted(K.reached, key=str):
            g = p.get(fid)
            env = envs.get((fid, ek))
            n = g.nodes[e]
            if env is None or n['k'] != 'call':
                continue
            b = bname(n)
            h = p.get(n.get('f'))
            # searches of a partition's graph
            if n.get('obj', -1) is not None and n.get('obj', -1) >= 0 and 'GraphSearchJob' in str(n.get('q', '')) and 'search' in b and b != 'make_vector_iterator':
                ok = any(isblocked(env, a) for a in n.get('a', []))
                masks += 1
                R.ob('residual', ok, g.at(e), '%s searches a partition without the conditions on other fields' % g.q, key='%s:%s' % (g.name, b))
            if b == 'insert_candidate' or b in GROW and 'andidate' in str(g.nodes[strip(g, n['obj'])].get('t', '')) and g.cls == MV and b != 'insert_candidate' and g.name != 'insert_candidate' if n.get('obj', -1) is not None and n.get('obj', -1) >= 0 or b == 'insert_candidate' else False:
                if g.id == f.id or g.name == 'insert_candidate':
                    continue
                apps += 1
                src = from_masked(p, env, n, isblocked)
                R.ob('residual', src, g.at(e), '%s returns a record of the partition that the conditions on other fields reject' % g.q, key=g.name)
        R.ob('residual', masks > 0, f.at(), 'no search of a partition under remaining conditions was found', key='masked')
        for g in p.methods(MV):
            if not g.blocks:
                continue

            def known(env, c):
                n = env.fn.nodes[strip(env.fn, c)]
                if n['k'] == 'un' and n['op'] == '!':
                    r = known(env, n['e'])
                    return None if r is None else not r
                if n['k'] == 'mem' and n['n'] == 'filter_covered_' or n['k'] == 'ref' and n.get('n') in flags(p, f, env.fn):
                    return False
                return None
            e = unset(p, known, g, isblocked)
            R.ob('residual', e is None, g.at(e) if e is not None else g.at(), '%s can search a partition before the records that the other conditions reject are known' % g.q, key='unset:' + g.name)
        # the executor of the remaining conditions is the whole filter
        K2 = Assume(p, mktruth(False), inline=lambda g: g.cls == MV or g.d.get('lambda'))
        K2.run(f)
        R.points += len(K2.reached) + len(K.reached)
        ex = []
        for fid, e, ek in K2.reached:
            g = p.get(fid)
            n = g.nodes[e]
            if n['k'] in ('call', 'ctor') and ('make_unique' in str(n.get('q', '')) and 'FilterExecutor' in str(n.get('t', '')) or n['k'] == 'ctor' and 'MetadataFilterExecutor' in str(n.get('cls', '')) and n.get('a') and 'unique_ptr' not in str(n.get('cls', ''))):
                ex.append((g, e, [canon(Env(g), a) for a in n['a']]))
        R.ob('residual', bool(ex), f.at(), '%s builds no evaluator for conditions on other fields' % f.q, key='executor')
        for g, e, args in ex:
            fp = [('v', 'P:' + g.vars[str(d)]['n']) for d in g.params if re.search(r'\bMetadataFilter\b', str(g.vars.get(str(d), {}).get('t', '')))]
            R.ob('residual', any(a in fp for a in args), g.at(e), '%s evaluates something else than the filter of the search' % g.q, key='whole')
        ids = []
        for fid, e, ek in K2.reached:
            g = p.get(fid)
            n = g.nodes[e]
            if n['k'] == 'call' and bname(n) == 'build_blocked_bitset':
                ids.append(any('local_to_global_ids_' in show(canon(Env(g), a)) for a in n['a']))
        R.ob('residual', bool(ids) and all(ids), f.at(), '%s does not evaluate the remaining conditions on the records of the partition' % f.q, key='ids')


def flags(p, f, g, depth=0):
    """parameters of g that its callers give the 'filter covered' flag"""
    out = set()
    for h in p.methods(MV):
        if not h.blocks or depth > 4:
            continue
        for i in h.calls():
            if h.nodes[i].get('f') == g.id:
                for k, a in enumerate(h.nodes[i].get('a', [])):
                    n = h.nodes[strip(h, a)]
                    if k < len(g.params) and (n['k'] == 'mem' and n['n'] == 'filter_covered_' or n['k'] == 'ref' and h.id != g.id and n.get('n') in flags(p, f, h, depth + 1)):
                        out.add(g.vars[str(g.params[k])]['n'])
    return out


def localids(env):
    """positions within the partition whose records are appended to the results"""
    g = env.fn
    out = []
    for i in g.calls():
        for a in g.nodes[i].get('a', []):
            t = exact(env, a)
            if t[0] == 'idx' and len(t) > 2 and 'local_to_global_ids_' in show(canon(env, a)):
                out.append(t[2])
    return out


def unset(p, K, f, isblocked):
    """a use of the set of rejected records that a path reaches without having set it"""
    env = Env(f)
    for d, v in f.vars.items():
        if v['k'] != 'local' or 'DynamicBitset' not in str(v.get('t', '')) or '*' not in str(v.get('t', '')):
            continue
        d = int(d)
        sets = {nd for x, kind, nd in f.defs().get(d, []) if x is not None and x >= 0 and isblocked(env, x)}
        if not sets:
            continue
        seen, work = set(), [f.entry]
        while work:
            b = work.pop()
            if b is None or b in seen or b == f.exit:
                continue
            seen.add(b)
            blk, stop = f.blocks[b], False
            for e in blk['els']:
                if not isinstance(e, int):
                    continue
                if e in sets or f.nodes[e]['k'] in ('ret', 'throw') or f.nodes[e]['k'] == 'asg' and e in sets:
                    stop = True
                    break
                if f.nodes[e]['k'] == 'call' and any(f.nodes[strip(f, a)]['k'] == 'ref' and f.nodes[strip(f, a)].get('d') == d for a in f.nodes[e].get('a', [])):
                    return e
            if stop:
                continue
            t, su = blk.get('term'), blk['succ']
            if t and isinstance(t.get('c'), int) and t['c'] >= 0 and len(su) == 2:
                c = t['c']
                while f.nodes[c]['k'] in ('cast', 'bin') and (f.nodes[c]['k'] == 'cast' or f.nodes[c]['op'] in ('&&', '||')):
                    c = f.nodes[c]['e' if f.nodes[c]['k'] == 'cast' else 'r']
                r = K(env, c)
                if r is not None:
                    work.append(su[0 if r else 1])
                    continue
            work += su
    return None


def from_masked(p, env, n, isblocked):
    """the appended id comes out of a list filled by a search that was given the rejected records"""
    g = env.fn
    a = n.get('a', [])
    ids = [x for x in a if 'local_to_global_ids_' in show(canon(env, x))]
    if not ids:
        return False
    # the local id: index of local_to_global_ids_
    t = exact(env, ids[0])
    ix = t[2] if t[0] == 'idx' and len(t) > 2 else None
    if ix is None:
        return False
    names = {str(s[1]) for s in subs(ix) if isinstance(s, tuple) and s[0] == 'v'}
    for i in g.calls():
        m = g.nodes[i]
        if 'GraphSearchJob' in str(m.get('q', '')) and any(isblocked(env, x) for x in m.get('a', [])):
            filled = {str(s[1]) for x in m['a'] for s in subs(exact(env, x)) if isinstance(s, tuple) and s[0] == 'v'}
            vec = {s for s in filled if s.startswith('L:')}
            if vec & names:
                return True
    return False


def run(R):
    R.rule('mutation', 'every public operation that changes the indexed records or vectors leaves the partitions unused or rebuilt from the current ones, also when it fails midway', 4)
    R.rule('source', 'partitions are rebuilt from the index\'s current vectors', 1)
    R.rule('rebuild', 'partitions are taken out of use before they are rebuilt, declared usable only once all are built; an invalidation takes them out of use', 3)
    R.rule('complete', 'every record with a value of the field is in the partition of that value, and every value has a partition', 2)
    R.rule('used', 'partitions answer only while they are in use and the filter is answerable from the key', 2)
    R.rule('keyed', 'one field and one encoding of its values are used to build, to analyse the filter and to look up', 2)
    R.rule('eligible', 'a filter is answerable only if its conditions on the key are equalities or sets, whose values are all taken and intersected, and it counts as implied only if it has no other condition', 4)
    R.rule('conjunction', 'the conditions considered are all those of a pure conjunction', 2)
    R.rule('residual', 'when other conditions remain, every result has passed the whole filter', 4)
    p = R.program('py')
    mutators(R, p)
    rebuild(R, p)
    complete(R, p)
    used(R, p)
    eligible(R, p)
    residual(R, p)
    R.assume('operations on one index are not run concurrently with a search of it (the binding takes no lock)', 'a search given the set of rejected records returns none of them (C28)')
