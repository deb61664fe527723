"""Shared pieces of the durability rules (C01, C02, C03)."""
from vf.iostate import *
from vf.util import *
import re

APPLY_CLASSES = re.compile(r'(GraphUpdateJob|RawSpace|SQ8Space|SQ4Space|RaBitQSpace|RocksDBStorage|OverlayGraph|::Graph)$')
APPLY_NAMES = re.compile(r'^(insert|batch_insert|remove|batch_remove|update|upsert|insert_and_update|batch_insert_and_update|erase|del)')


def recovery_fields(p):
    """member fields that hold the recovery manager: (class, field)"""
    out = []
    for q, c in p.classes.items():
        for fl in c['fields']:
            if 'RecoveryManager' in fl['t']:
                out.append((q, fl['n']))
    return out


def is_apply(p, f, i):
    n = f.nodes[i]
    if n['k'] != 'call' or n.get('cm') or 'obj' not in n:
        return False
    cls, _, name = n.get('q', '').rpartition('::')
    return bool(APPLY_CLASSES.search(cls) and APPLY_NAMES.match(name))


class Durable(Hooks):
    """facts: ('prep', id, type) ('apply',) ('applied', leaf) ('commit',) ('inc', path) ; `bad` collects (kind, site, msg)"""

    def __init__(self, p, enabled=True):
        self.p = p
        self.enabled = enabled
        self.flds = {'this.' + n for c, n in recovery_fields(p)}
        self.probs = []
        self.seen = {'prep': set(), 'commit': set(), 'apply': set(), 'mark': set()}
        self.marks = set()
        self.pairs = []

    def bad(self, F, env, i, kind, msg):
        self.probs.append((kind, env.fn.at(i), msg, F.trace()))

    def throws(self, F, env, i, u):
        return not nothrow_call(env.fn.nodes[i])

    def descend(self, F, env, i, g):
        if is_apply(self.p, env.fn, i):
            return False
        if g.file.startswith('/usr'):
            return False
        return True

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = n.get('q', '')
        b = bname(n)
        if b == 'append_prepare':
            r = n['a'][0] if n['a'] else None
            idn = field_expr(env, r, 'op_id_') if r is not None else None
            tyn = field_expr(env, r, 'mutation_type_') if r is not None else None
            idk = ident(*idn) if idn else ('?', i)
            tyk = canon(*origin(*tyn)) if tyn else ('?', i)
            self.seen['prep'].add(f.at(i))
            if self.enabled and any(x[0] == 'prep' for x in u):
                self.bad(F, env, i, 'double-prepare', 'a second intent record is appended before the first one is finished')
            return [('ok', u | {('prep', idk, tyk)}, None), ('exc', u, None)]
        if b == 'append_commit':
            self.seen['commit'].add(f.at(i))
            idk = ident(env, n['a'][0]) if n['a'] else ('?', i)
            tyk = canon(*origin(env, n['a'][1])) if len(n['a']) > 1 else ('?', i)
            if self.enabled:
                preps = [x for x in u if x[0] == 'prep']
                if not preps:
                    self.bad(F, env, i, 'commit-without-prepare', 'commit record appended although no intent record was appended on this path')
                else:
                    if all(x[1] != idk for x in preps):
                        self.bad(F, env, i, 'commit-id', 'commit record carries another operation id than the intent record')
                    if all(x[2] != tyk for x in preps):
                        self.bad(F, env, i, 'commit-type', 'commit record carries another mutation type than the intent record')
                if ('apply',) not in u:
                    self.bad(F, env, i, 'commit-before-apply', 'commit record appended before the state change was applied')
                if ('commit',) in u:
                    self.bad(F, env, i, 'double-commit', 'a second commit record is appended for one mutation')
            return [('ok', u | {('commit',)}, None), ('exc', u, None)]
        if is_apply(self.p, f, i):
            self.seen['apply'].add(f.at(i))
            if self.enabled:
                if not any(x[0] == 'prep' for x in u):
                    self.bad(F, env, i, 'apply-before-prepare', 'state is changed before the intent record was appended')
                if ('commit',) in u:
                    self.bad(F, env, i, 'apply-after-commit', 'state is changed after the commit record was appended')
            leaf = re.sub(r'<.*?>', '', q) + '#' + (n.get('f') or '').rpartition('#')[2].split('@')[0]
            u2 = u | {('apply',), ('applied', leaf)}
            return [('ok', u2, None), ('exc', u2 | {('applyfail',)}, None)]
        return None

    def prune(self, env, cond, pol):
        for c, p in atoms(env, cond, pol):
            for v in self.flds:
                if null_atom(c, p, v):
                    return True
        return False

    def branch(self, F, env, cond, pol, u):
        if self.enabled and self.prune(env, cond, pol):
            return None
        return u

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'un' and n['op'] in ('++',):
            p = path(env, n['e'])
            if p.startswith('this.'):
                u = u | {('inc', p)}
        if n['k'] == 'asg':
            p = path(env, n['e'])
            if p.startswith('this.'):
                u = self.assign(F, env, i, p, n, u)
        return u

    def assign(self, F, env, i, p, n, u):
        if n['op'] == '+=':
            return u | {('inc', p)}
        return u


def mutators(p, cls='PyIndex'):
    """public methods from which a state change is reachable, except those that perform recovery"""
    out = []
    for f in p.methods(cls):
        if f.d.get('acc') != 'public' or f.d.get('lambda') or f.d.get('ctor') or f.d.get('dtor'):
            continue
        R = p.reach([f], stop=lambda g: g.cls is not None and bool(APPLY_CLASSES.search(g.cls)))
        if not any(is_apply(p, g, x) for g in R for x in range(len(g.nodes))if g.nodes[x]['k'] == 'call'):
            continue
        names = {n.get('q', '').rsplit('::', 1)[-1] for g in R for n in g.nodes if n['k'] == 'call'}
        if 'replayable_records' in names or ('publish_snapshot' in names and 'append_prepare' not in names):
            continue
        out.append(f)
    return out
