"""C26: path-sensitive symbolic interpretation of the scalar store's mutators: the contents of the write batch at every write, in terms of the old and the new record, inside one critical section."""
from vf.util import *

WB = 'rocksdb::WriteBatch::'
DBW = ('Put', 'Delete', 'Write', 'Merge', 'SingleDelete', 'DeleteRange')
GUARD = ('lock_guard', 'unique_lock', 'scoped_lock')


def lits(t):
    return [x[1] for x in subterms(t) if x[0] == 'str']


def slice_of(t):
    """the bytes a Slice denotes"""
    while t[0] == 'ctor' and len(t) >= 3 and ('Slice' in t[1] or 'basic_string' in t[1]):
        if len(t) > 3 and 'Slice' in t[1]:
            return t
        t = t[2]
    return t


def concat(t):
    """operands of a string concatenation, left to right"""
    t = slice_of(t)
    if t[0] == 'call' and t[1].rsplit('::', 1)[-1] == 'operator+' or t[0] == 'bin' and t[1] == '+':
        a = t[2:]
        a = [x for x in a if isinstance(x, tuple)]
        return [y for x in a for y in concat(x)]
    return [t]


def is_empty_call(t):
    return t[0] == 'call' and t[1].rsplit('::', 1)[-1] == 'empty' or t[0] == 'mcall' and 'empty' in t[1]


class Store:
    """names of the class discovered from its code"""

    def __init__(self, p):
        self.p = p
        self.cls = 'alaya::RocksDBStorage'
        self.ms = [f for f in p.methods(self.cls) if f.blocks]
        self.getters = set()      # functions that read the stored record (not through the item index)
        self.owners = set()       # functions that read the owner of an item id
        rd = {}
        for f in self.ms:
            env = Env(f)
            for x in f.calls():
                n = f.nodes[x]
                if n.get('q', '') in ('rocksdb::DB::Get', 'rocksdb::DB::MultiGet'):
                    rd.setdefault(f.id, []).append(x)
        for f in self.ms:
            if f.id in rd:
                ks = set()
                env = Env(f)
                for x in f.walk():
                    n = f.nodes[x]
                    if n['k'] == 'str':
                        ks.add(n['v'])
                    if n['k'] == 'call' and n.get('f') and p.get(n['f']):
                        g = p.get(n['f'])
                        if g.cls == self.cls or 'index_encoding' in g.q:
                            ks |= {'fn:' + bname(n)} | {y['v'] for y in g.nodes if y['k'] == 'str'}
                            for z in g.calls():
                                h = p.get(g.nodes[z].get('f'))
                                if h is not None and h.cls == self.cls:
                                    ks |= {y['v'] for y in h.nodes if y['k'] == 'str'}
                if 'i_' in ks:
                    self.owners.add(f.id)
                elif '__COUNT__' not in ks:
                    self.getters.add(f.id)
        # variables and members that hold the deserialized stored record
        self.oldmem = set()
        for f in self.ms:
            for x in f.all():
                n = f.nodes[x]
                t = r = None
                if n['k'] == 'asg' and n['op'] == '=':
                    t, r = n['e'], n['r']
                elif n['k'] == 'call' and n.get('op') == '=' and 'obj' in n:
                    t, r = n['obj'], n['a'][0]
                if t is not None and f.nodes[t]['k'] == 'mem' and self.is_loaded(f, r):
                    self.oldmem.add(f.nodes[t]['q'])

    def is_loaded(self, f, i):
        return any(f.nodes[x]['k'] == 'call' and 'deserialize' in bname(f.nodes[x]) for x in f.walk(i))

    def oldvar(self, f, d):
        """is the local d assigned from a deserialized stored record"""
        c = f.__dict__.setdefault('_oldv', {})
        if d in c:
            return c[d]
        c[d] = False
        for x in f.all():
            n = f.nodes[x]
            if n['k'] == 'decl':
                for v in n['vs']:
                    if v['d'] == d and v.get('init', -1) >= 0 and self.is_loaded(f, v['init']) and 'ScalarData' in v['t']:
                        c[d] = True
            t = r = None
            if n['k'] == 'asg' and n['op'] == '=':
                t, r = n['e'], n['r']
            elif n['k'] == 'call' and n.get('op') == '=' and 'obj' in n:
                t, r = n['obj'], n['a'][0]
            if t is not None and f.nodes[t]['k'] == 'ref' and f.nodes[t].get('d') == d and 'ScalarData' in f.nodes[t].get('t', '') and self.is_loaded(f, r):
                c[d] = True
        return c[d]


class Mut(Hooks):
    def __init__(self, S):
        self.S = S
        self.p = S.p
        self.probs = []
        self.ev = {}
        self.root = None

    def bad(self, F, env, i, rule, msg):
        self.probs.append((rule, env.fn.at(i), msg, F.trace()))

    def seen(self, rule, env, i):
        self.ev.setdefault(rule, {})[(self.root.id, env.fn.id, i)] = '%s: %s' % (self.root.q.rsplit('::', 1)[-1], env.fn.at(i))

    # ---- terms
    def old(self, t):
        """does the term mention the stored record"""
        for x in subterms(t):
            if x[0] == 'mem' and len(x) > 2 and any(x[-1] == q or x[1] == q for q in self.S.oldmem):
                return True
            if x[0] == 'v' and x in self.oldterms:
                return True
            if x[0] == 'call' and 'deserialize' in x[1]:
                return True
        return False

    def oldt(self, env, i):
        """does the expression i mention the stored record; follows parameters to the call"""
        f = env.fn
        for x in f.walk(i):
            n = f.nodes[x]
            if n['k'] == 'mem' and n['q'] in self.S.oldmem:
                return True
            if n['k'] == 'call' and 'deserialize' in bname(n):
                return True
            if n['k'] == 'ref' and 'd' in n and not n.get('isfn') and not n.get('enum'):
                v = f.vars.get(str(n['d']))
                if v is None:
                    continue
                if self.S.oldvar(f, n['d']):
                    return True
                if v['k'] == 'local':
                    sd = f.single_def(n['d'])
                    if sd is not None and sd >= 0 and sd != i and self.oldt(env, sd):
                        return True
                if v['k'] == 'param' and env.up and n['d'] in f.params:
                    ue, call = env.up
                    a = ue.fn.nodes[call].get('a', [])
                    j = f.params.index(n['d'])
                    if j < len(a) and self.oldt(ue, a[j]):
                        return True
        return False

    def classify(self, env, i):
        """(class, details) of a key expression"""
        t = canon(env, i)
        parts = concat(t)
        first = parts[0]
        ls = [x[1] for x in parts if x[0] == 'str']
        if first == ('str', 'i_') and len(parts) >= 2:
            return 'item', self.oldt(env, i), parts[1:]
        if first == ('str', 'f_'):
            return 'field', self.oldt(env, i), parts[1:]
        if any(x == ('str', '__COUNT__') for x in subterms(t)):
            return 'count', False, ()
        if any(x[0] == 'call' and 'data_key' in x[1] for x in subterms(t)) or first == ('str', 'd_'):
            return 'data', False, (t,)
        e2, j = origin(env, i)
        f2 = e2.fn
        j = strip(f2, j)
        while f2.nodes[j]['k'] == 'ctor' and 'Slice' in f2.nodes[j].get('cls', '') and len(f2.nodes[j]['a']) == 1:
            e2, j = origin(e2, f2.nodes[j]['a'][0])
            f2 = e2.fn
            j = strip(f2, j)
        return 'data', True, (canon(e2, j),)     # a key remembered from the read

    def idof(self, cls, parts):
        if cls == 'field' and parts:
            return next((x for y in reversed(parts) for x in ([y] if y[0] == 'call' and 'to_string' in y[1] else [])), None)
        return None

    # ---- events
    def descend(self, F, env, i, g):
        return (g.cls == self.S.cls or g.d.get('lambda')) and g.id not in self.S.getters and not g.d.get('ctor') and len(self.probs) < 6 and g.id in self.hot

    def throws(self, F, env, i, u):
        return False

    def tracks(self, t):
        return any(g in t for g in GUARD)

    def dtor(self, F, env, d, t, u, exc):
        return frozenset(x for x in u if x[0] not in ('lock', 'found', 'avail', 'fact', 'old'))

    def call(self, F, env, i, u):
        f, n = env.fn, env.fn.nodes[i]
        q = n.get('q', '')
        if n['k'] == 'ctor':
            if any(g in n.get('cls', '') for g in GUARD) and n['a']:
                m = canon(env, n['a'][0])
                return [('ok', u | {('lock', m)}, None)]
            return None
        b = bname(n)
        if b == 'unlock' and 'obj' in n and self.tracks(f.nodes[n['obj']].get('t', '')):
            return [('ok', self.dtor(F, env, None, '', u, False), None)]
        if b == 'lock' and 'obj' in n and self.tracks(f.nodes[n['obj']].get('t', '')):
            return [('ok', u | {('lock', ('relock',))}, None)]
        if n.get('f') in self.S.getters:
            locked = any(x[0] == 'lock' for x in u)
            self.seen('critical', env, i)
            if not locked:
                self.bad(F, env, i, 'critical', 'the stored record is read outside the critical section of the write')
            u = frozenset(x for x in u if x[0] != 'old')
            g = self.p.get(n['f'])
            if g.d['rt'] == 'bool':
                return [('ok', u | {('old', 'found')}, True), ('ok', u | {('old', 'none')}, False)]
            return [('ok', u | {('old', 'unknown')}, None)]
        if 'deserialize' in b:
            return [('ok', frozenset(x for x in u if x[0] != 'old') | {('old', 'loaded')}, None)]
        if n.get('f') in self.S.owners or n.get('f') in self.availfns:
            self.seen('critical', env, i)
            if not any(x[0] == 'lock' for x in u):
                self.bad(F, env, i, 'critical', 'the owner of the item identifier is read outside the critical section of the write')
            if n.get('f') in self.availfns:
                return [('ok', u | {('avail',)}, True), ('ok', u | {('rejected',)}, False)]
            return [('ok', u | {('owners',)}, None)]
        if q.startswith(WB) and b in ('Put', 'Delete', 'SingleDelete', 'Merge', 'DeleteRange', 'Clear', 'PopSavePoint', 'RollbackToSavePoint'):
            self.seen('batch', env, i)
            if b not in ('Put', 'Delete'):
                self.bad(F, env, i, 'batch', 'batch operation %s is not a put or a delete of one key' % b)
                return None
            cls, old, parts = self.classify(env, n['a'][-1 if b == 'Delete' else 0])
            k = sum(1 for x in u if x[0] == 'op')
            op = ('op', b, cls, old)
            if any(x[:4] == op for x in u):
                return [('ok', u, None)]
            idt = None
            if cls == 'field':
                idt = self.idof(cls, parts)
            elif cls == 'item' and b == 'Put':
                idt = ('value', canon(env, n['a'][1]))
            elif cls == 'data' and not old:
                idt = parts[0]
            return [('ok', u | {op + (k, idt, env.fn.at(i))}, None)]
        if q.startswith('rocksdb::DB::') and b in DBW:
            self.write(F, env, i, u, b, n)
            return [('ok', u | {('written',)}, None)]
        return None

    def rangeloop(self, F, env, term, enter, u):
        # at least one indexed field / one record
        s = term.get('s')
        key = ('loop', env.fn.id, s)
        u = self.tick(F, env, s, u)
        if enter:
            return u | {key}
        if key not in u and s is not None and self.relevant(env.fn, s):
            return None
        return u

    def tick(self, F, env, loop, u):
        """the end of one round of a loop over records"""
        f = env.fn
        if loop is None or not any(x[0] == 'op' for x in u):
            return u
        c = f.__dict__.setdefault('_recloop', {})
        if loop not in c:
            c[loop] = any(f.nodes[x]['k'] == 'call' and f.nodes[x].get('q', '').startswith(WB) and self.classify(env, f.nodes[x]['a'][-1 if bname(f.nodes[x]) == 'Delete' else 0])[0] == 'data' for x in f.walk(loop)) or \
                any(f.nodes[x]['k'] == 'call' and f.nodes[x].get('f') in self.hot and any(h.cls == self.S.cls and self.puts_data(h) for h in [self.p.get(f.nodes[x]['f'])]) for x in f.walk(loop))
        if not c[loop]:
            return u
        self.contents(F, env, loop, u)
        return frozenset(x for x in u if x[0] not in ('op', 'fact') and not (x[0] == 'loop' and x[2] != loop))

    def puts_data(self, h):
        e = Env(h)
        return any(h.nodes[x].get('q', '') in (WB + 'Put', WB + 'Delete') and self.classify(e, h.nodes[x]['a'][-1 if bname(h.nodes[x]) == 'Delete' else 0])[0] == 'data' for x in h.calls())

    def relevant(self, f, s):
        for x in f.walk(s):
            n = f.nodes[x]
            if n['k'] == 'call' and (n.get('q', '').startswith(WB) or n.get('f') in self.hot):
                return True
        return False

    def branch(self, F, env, cond, pol, u):
        f = env.fn
        lp = f.parent().get(cond)
        if lp is not None and f.nodes[lp]['k'] == 'loop' and f.nodes[lp].get('c') == cond:
            u = self.tick(F, env, lp, u)
        ol = next((x[1] for x in u if x[0] == 'old'), None)
        for c, p in atoms(env, cond, pol):
            s = show(c)
            nm = c[1].rsplit('::', 1)[-1] if c[0] == 'call' else (c[1] if c[0] == 'mcall' else '')
            oldish = self.oldt(env, cond)
            if ('has_value' in s or 'operator bool' in s) and oldish:
                if ol == 'none' and p or ol == 'loaded' and not p:
                    return None
                if ol == 'unknown' and not p:
                    u = frozenset(x for x in u if x[0] != 'old') | {('old', 'none')}
            if s.endswith('.found'):
                if not p:
                    u = frozenset(x for x in u if x[0] != 'old') | {('old', 'none')}
                elif ol != 'loaded':
                    u = frozenset(x for x in u if x[0] != 'old') | {('old', 'found')}
            if 'empty()' in s and 'item_id' in s and p:
                u = u | {('fact', 'empty', oldish)}
            if c[0] == 'bin' and c[1] == '==' or 'operator==' in s[:12]:
                key = any(x[0] == 'call' and 'data_key' in x[1] for x in subterms(c))
                if key and p:
                    u = u | {('fact', 'samekey')}
                elif oldish and p and 'item_id' in s:
                    u = u | {('fact', 'sameitem')}
                elif oldish and p:
                    u = u | {('fact', 'samefield')}
                elif s.count('end()') and 'find' in s and self.relevant_cond(f, cond):
                    if p:
                        return None          # the record has the indexed field
            elif c[0] == 'bin' and c[1] == '!=' or 'operator!=' in s[:12]:
                key = any(x[0] == 'call' and 'data_key' in x[1] for x in subterms(c))
                if not p:
                    if key:
                        u = u | {('fact', 'samekey')}
                    elif oldish and 'item_id' in s:
                        u = u | {('fact', 'sameitem')}
                    elif oldish:
                        u = u | {('fact', 'samefield')}
                    elif 'end()' in s and 'find' in s and self.relevant_cond(f, cond):
                        return None
        return u

    def relevant_cond(self, f, cond):
        for a in f.ancestors(cond):
            n = f.nodes[a]
            if n['k'] == 'if':
                return self.relevant(f, a)
        return False

    def write(self, F, env, i, u, b, n):
        if b != 'Write':
            cls, old, parts = self.classify(env, n['a'][1])
            if cls != 'count':
                self.bad(F, env, i, 'atomic', 'a %s entry is changed outside the batch of its record' % cls)
            return
        self.seen('atomic', env, i)
        if ('written',) in u:
            self.bad(F, env, i, 'atomic', 'one operation writes more than one batch')
        self.seen('critical', env, i)
        if not any(x[0] == 'lock' for x in u):
            self.bad(F, env, i, 'critical', 'the batch is written outside the critical section in which the old record was read')
        if not any(x[0] == 'op' for x in u):
            return
        self.contents(F, env, i, u)

    def contents(self, F, env, i, u):
        ops = {x[1:4]: x for x in u if x[0] == 'op'}
        facts = {x[1:] for x in u if x[0] == 'fact'}
        ol = next((x[1] for x in u if x[0] == 'old'), None)
        self.seen('record', env, i)
        self.seen('item', env, i)
        self.seen('fields', env, i)
        self.seen('same-id', env, i)
        put = ('Put', 'data', False) in ops
        if ol is None:
            self.bad(F, env, i, 'critical', 'the record is written without reading the one it replaces')
            return
        replaced = ol in ('loaded', 'found', 'unknown')
        any_cleanup = any(k[0] == 'Delete' for k in ops)
        if not put and not any_cleanup:
            return       # an empty batch
        D = lambda c: ops.get(('Delete', c, True)) or (ops.get(('Delete', c, False)) if not put else None)
        P = lambda c: ops.get(('Put', c, False))
        for c in ('data', 'item', 'field'):
            if ('Put', c, True) in ops:
                self.bad(F, env, i, 'record', 'the %s entries written are those of the old record' % c)
        if ol == 'found' and any(k[2] for k in ops if k[1] != 'data'):
            ol = 'loaded'
        if replaced:
            if not put and not D('data'):
                self.bad(F, env, i, 'record', 'the record is not removed')
            if put and not ops.get(('Delete', 'data', True)) and ('samekey',) not in facts:
                self.bad(F, env, i, 'record', 'the old record stays under the key it was stored with')
            if put and ops.get(('Delete', 'data', True)) and ops[('Delete', 'data', True)][4] > P('data')[4]:
                self.bad(F, env, i, 'record', 'the new record is deleted with the old one')
            d = ops.get(('Delete', 'item', True))
            if not d and ('empty', True) not in facts and ('sameitem',) not in facts:
                self.bad(F, env, i, 'item', 'the item identifier of the old record keeps pointing to this record')
            if d and put and not P('item') and ('empty', False) not in facts:
                self.bad(F, env, i, 'item', 'the item identifier of the new record is not entered')
            if d and P('item') and d[4] > P('item')[4]:
                self.bad(F, env, i, 'item', 'the new item identifier is removed after it is entered')
            d = ops.get(('Delete', 'field', True))
            if not d and ('samefield',) not in facts:
                self.bad(F, env, i, 'fields', 'the field-index entries of the old record are not removed')
            if d and P('field') and d[4] > P('field')[4]:
                self.bad(F, env, i, 'fields', 'old field-index entries are removed after the new ones are added: an unchanged value loses its entry')
        if put:
            if not P('item') and ('empty', False) not in facts and ('sameitem',) not in facts:
                self.bad(F, env, i, 'item', 'the item identifier of the new record is not entered')
            if not P('field') and ('samefield',) not in facts:
                self.bad(F, env, i, 'fields', 'the field-index entries of the new record are not added')
            self.seen('unique', env, i)
            if ('avail',) not in u and ('owners',) not in u and ('empty', False) not in facts and P('item'):
                self.bad(F, env, i, 'unique', 'an item identifier is entered without checking that no other record has it')
            if ('rejected',) in u:
                self.bad(F, env, i, 'unique', 'an item identifier that another record has is entered')
        # the entries point to the record
        ids = {}
        for k, x in ops.items():
            if x[5] is not None:
                ids[k] = self.idroot(x[5])
        vals = set(v for v in ids.values() if v is not None)
        if len(vals) > 1:
            self.bad(F, env, i, 'same-id', 'record and index entries do not name the same record: %s' % sorted(vals))

    def idroot(self, t):
        if t[0] == 'value':
            t = t[1]
        for x in subterms(t):
            if x[0] == 'un' and x[1] == '&' or x[0] == 'addr':
                return show(x[-1])
        for x in subterms(t):
            if x[0] == 'call' and ('to_string' in x[1] or 'data_key' in x[1]):
                return ', '.join(show(y) for y in x[2:] if isinstance(y, tuple))
        return None


def avail_rule(R, S):
    """functions answering whether an item identifier may be used: true only without another owner"""
    p = S.p
    out = set()
    for f in S.ms:
        if f.d['rt'] != 'bool':
            continue
        if not any(f.nodes[x].get('f') in S.owners or f.nodes[x].get('f') in out for x in f.calls()):
            continue
        if any(f.nodes[x].get('q', '').startswith(('rocksdb::DB::', WB)) for x in f.calls()) or any(p.get(f.nodes[x].get('f')) is not None and p.get(f.nodes[x]['f']).id in S.getters for x in f.calls()):
            continue
        out.add(f.id)
    # forwarding predicates
    changed = True
    while changed:
        changed = False
        for f in S.ms:
            if f.d['rt'] == 'bool' and f.id not in out and f.id not in S.getters and any(f.nodes[x].get('f') in out for x in f.calls()) and \
                    not any(f.nodes[x].get('q', '').startswith(('rocksdb::', )) for x in f.calls()):
                out.add(f.id)
                changed = True
    for fid in out:
        f = p.get(fid)
        R.saw([f])
        env = Env(f)
        rets = [x for x in f.walk() if f.nodes[x]['k'] == 'ret' and 'e' in f.nodes[x]]
        for r in rets:
            e = f.nodes[r]['e']
            d = dnf(env, e)
            gs = set(guards(env, r, local=True))
            for conj in d:
                fs = gs | set(conj)
                ok = False
                for c, pl in fs:
                    s = show(c)
                    nm = c[1].rsplit('::', 1)[-1] if c[0] == 'call' else ''
                    if c == ('lit', 'false') and pl or c == ('lit', 'true') and not pl:
                        ok = True
                    if 'empty()' in s and pl:
                        ok = True
                    if batch_refusals(f)[0]:
                        ok = True
                    if 'has_value' in s and not pl and 'allowed' not in s:
                        ok = True
                    if pl and ('==' in s) and not ('end()' in s) and not ('nullopt' in s):
                        ok = True
                    if pl and f.p.fns and any(g.q.rsplit('::', 1)[-1] in s for g in (p.get(y) for y in out if y != fid)):
                        ok = True
                R.ob('unique', ok, f.at(r), 'an item identifier counts as available although another record has it', f.q.rsplit('::', 1)[-1])
    return out


def batch_refusals(f):
    env = Env(f)
    cmpd = dup = False
    for x in f.walk():
        m = f.nodes[x]
        if m['k'] == 'ret' and 'e' in m and f.nodes[m['e']].get('v') == 'false' or m['k'] == 'throw':
            ss = [(show(c), pl) for c, pl in guards(env, x, local=True)]
            if any(('!=' in s and pl or '==' in s and not pl) and '.second' in s and 'end()' not in s for s, pl in ss):
                extra = [s for s, pl in ss if ('record' in s or '__begin' in s or '[i]' in s) and not ('end()' in s or '.second' in s or 'empty()' in s or '__end' in s or 'size()' in s)]
                cmpd = cmpd or not extra
            if any('emplace' in s and not pl or 'insert' in s and not pl or 'contains' in s and pl or 'count' in s and pl for s, pl in ss):
                dup = True
    return cmpd, dup


def dnf(env, i, pol=True, depth=0):
    """alternatives (conjunctions of atoms) under which node i has truth value pol"""
    f = env.fn
    i = strip(f, i)
    n = f.nodes[i]
    if n['k'] == 'un' and n['op'] == '!':
        return dnf(env, n['e'], not pol, depth)
    if n['k'] == 'bin' and n['op'] in ('&&', '||') and depth < 6:
        a, b = dnf(env, n['e'], pol, depth + 1), dnf(env, n['r'], pol, depth + 1)
        if (n['op'] == '||') == pol:
            return a + b
        return [x + y for x in a for y in b]
    if n['k'] == 'cond' and depth < 6:
        out = []
        for p2, k in ((True, 'a1'), (False, 'a2')):
            for x in dnf(env, n['c'], p2, depth + 1):
                out += [x + y for y in dnf(env, n[k], pol, depth + 1)]
        return out
    if n['k'] == 'lit' and n['v'] in ('true', 'false'):
        return [[]] if (n['v'] == 'true') == pol else []
    return [atoms(env, i, pol)]


def index_sites(R, S):
    """the add and the remove side of the field index: same loop, same conditions, same keys"""
    p = S.p
    sites = {'Put': [], 'Delete': []}
    for f in S.ms:
        env = Env(f)
        for x in f.calls():
            n = f.nodes[x]
            if n.get('q', '') in (WB + 'Put', WB + 'Delete'):
                k = n['a'][-1 if n['q'].endswith('Delete') else 0]
                parts = concat(canon(env, k))
                if parts[0] == ('str', 'f_'):
                    loops = []
                    for a in f.ancestors(x):
                        m = f.nodes[a]
                        if m['k'] == 'loop' and 'range' in m:
                            loops.append(show(canon(env, m['range'])))
                    gs = frozenset((show(c), pl) for c, pl in guards(env, x, local=True) if 'begin' not in show(c) or 'find' in show(c))
                    sites[bname(n)].append((f, x, tuple(loops), gs, tuple(show(y) for y in parts)))
    ren = lambda s: re.sub(r'__(begin|end|range)\d+', r'__\1', s)
    norm = lambda s: (tuple(map(ren, s[2])), frozenset((ren(a), b) for a, b in s[3]), tuple(map(ren, s[4])))
    A, B = {norm(s) for s in sites['Put']}, {norm(s) for s in sites['Delete']}
    for k in ('Put', 'Delete'):
        for s in sites[k]:
            R.saw([s[0]])
            R.ob('symmetric', norm(s) in (B if k == 'Put' else A), s[0].at(s[1]), 'index entries are added and removed under different conditions or keys: %s' % (list(map(ren, s[4])),), k)


def run(R):
    R.rule('critical', 'the old record and the owners of item identifiers are read, and the batch written, in one critical section of the write lock', 8)
    R.rule('batch', 'every batch operation is a put or delete of a single classified key', 6)
    R.rule('atomic', 'every operation changes the record and its indexes with exactly one batch write', 4)
    R.rule('record', 'the batch removes the key the old record was stored under and writes the new one', 4)
    R.rule('item', 'the batch removes the old item identifier (unless empty or unchanged) and then enters the new one (unless empty)', 4)
    R.rule('fields', 'the batch removes the field-index entries of the old record before adding those of the new record', 4)
    R.rule('same-id', 'the record key, the item entry and the field entries name the same record', 4)
    R.rule('unique', 'an item identifier is entered only after checking, in the same critical section, that no other record has it', 3)
    R.rule('symmetric', 'entries are added and removed with the same keys under the same conditions', 2)
    p = R.program('core')
    S = Store(p)
    if not S.getters or not S.owners:
        raise AnalysisError('anchor not found: readers of RocksDBStorage')
    av = avail_rule(R, S)
    index_sites(R, S)
    hot = set()
    rev = {}
    for f in S.ms:
        for x in f.calls():
            n = f.nodes[x]
            if n.get('f'):
                rev.setdefault(n['f'], set()).add(f.id)
            if n.get('q', '').startswith(WB) or n.get('q', '').startswith('rocksdb::DB::') and bname(n) in DBW or n.get('f') in S.getters | S.owners | av:
                hot.add(f.id)
        for x in f.all():
            n = f.nodes[x]
            if n['k'] == 'lam' and n.get('f'):
                rev.setdefault(n['f'], set()).add(f.id)
    st = list(hot)
    while st:
        for y in rev.get(st.pop(), ()):
            if y not in hot:
                hot.add(y)
                st.append(y)
    writes = {f.id for f in S.ms if any(f.nodes[x].get('q', '').startswith('rocksdb::DB::') and bname(f.nodes[x]) in DBW for x in f.calls())}
    roots = []
    st = list(writes)
    allw = set(writes)
    while st:
        for y in rev.get(st.pop(), ()):
            if y not in allw:
                allw.add(y)
                st.append(y)
    for f in S.ms:
        if f.id in allw and f.d.get('acc', 'public') in ('public', None) and not f.d.get('dtor') and not f.d.get('ctor'):
            roots.append(f)
    n = 0
    for f in roots:
        H = Mut(S)
        H.hot, H.availfns, H.root, H.oldterms = hot, av, f, set()
        F = Flow(p, H)
        F.run(f, frozenset())
        R.points += F.points
        R.saw([p.get(x) for x in F.visited])
        bad = {}
        for rule, site, msg, tr in H.probs:
            bad.setdefault((rule, msg), (site, tr))
        for (rule, msg), (site, tr) in bad.items():
            R.bad(rule, site, '%s: %s' % (f.q.rsplit('::', 1)[-1], msg), '%s|%s' % (f.q, msg[:40]), tr)
        for rule, m in H.ev.items():
            if rule in {r for r, _ in bad}:
                continue
            for s in m.values():
                R.good(rule, s)
    # a batch: the owner found for an identifier is compared, and a second use in the batch is refused
    for f in S.ms:
        if f.id in allw and any(f.nodes[x].get('f') in S.owners for x in f.calls()) and not f.id in av:
            cmpd, dup = batch_refusals(f)
            R.ob('unique', cmpd, f.at(), 'the owner found for an identifier of the batch is not compared with the record', 'batch-owner')
            R.ob('unique', dup, f.at(), 'an identifier used twice in one batch is not refused', 'batch-dup')
    R.assume('RocksDB applies a WriteBatch atomically and in the order of its operations')
    return __doc__
