"""C27: typestate of operation results: every status, failure flag or error code of a storage operation is examined, and a failure ends in an error."""
from vf.iostate import *
from vf.util import *
import re

ALL = ('core', 'disk', 'diskann', 'space', 'vamana', 'lasertp', 'py', 'pydiskann')
READS = ('Get', 'MultiGet', 'MultiGetEntity', 'GetEntity', 'GetProperty', 'GetIntProperty')
SYS0 = ('fsync', 'fdatasync', 'ftruncate', 'truncate', 'rename', 'renameat', 'renameat2', 'std::rename')
FSEC = ('std::filesystem::rename', 'std::filesystem::resize_file', 'std::filesystem::copy_file', 'std::filesystem::copy')
# the documented best-effort variants of platform_fs.hpp; the strict variants are what C03-C06 demand on durability paths
BEST_EFFORT = ('alaya::platform::sync_file', 'alaya::platform::sync_directory')
STORE = ('insert', 'batch_insert', 'reserve')


def local(f):
    return not (f.file.startswith('/usr') or '/third_party/' in f.file)


def deref(t):
    while t and t[0] in ('cast', 'addr') or t and t[0] == 'ctor' and len(t) == 3:
        t = t[-1]
    return t


def minus_one(t):
    """the marker for 'no id'"""
    t = deref(t)
    if t == ('lit', '-1') or t[0] == 'un' and t[1] == '-' and t[2] == ('lit', '1'):
        return True
    if t[0] == 'lit':
        return t[1] in ('4294967295', '18446744073709551615')
    if t[0] == 'call':
        return t[1].endswith('::max') and 'numeric_limits' in t[1] or t[1].rsplit('::', 1)[-1] == 'invalid_id'
    if t[0] in ('v', 'enum'):
        return t[1].rsplit('::', 1)[-1].rsplit('.', 1)[-1] in ('kInvalidID', 'kInvalidId', 'kEmptyId')
    return False


class Sources:
    """which calls yield a result that must be examined, and of what kind"""

    def __init__(self, p):
        self.p = p
        self.bools = set()
        self.ids = set()
        self.fns = [f for f in p.fns.values() if local(f)]
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                if f.d.get('rt') == 'bool' and f.id not in self.bools and not f.d.get('nt') and not f.d.get('lambda'):
                    if any(k in ('write', 'bool') for x in f.calls() for k in [self.kind(f, x)]) and 'bool' not in f.name:
                        self.bools.add(f.id)
                        ch = True
                if f.id not in self.ids and f.name.startswith(STORE) and self.gives_marker(f):
                    self.ids.add(f.id)
                    ch = True

    def gives_marker(self, f):
        env = Env(f)
        for x, n in enumerate(f.nodes):
            if n['k'] == 'ret' and (n.get('e') if n.get('e') is not None else -1) >= 0:
                t = deref(canon(env, n['e']))
                if minus_one(t):
                    return f.d.get('rt') not in ('int', 'ssize_t')
                if t[0] == 'call' and self.named(t):
                    # the marker is handed on unless it was excluded before
                    out = [(c, p) for c, p in guards(env, x) if c[0] == 'bin' and c[1] in ('==', '!=') and t in (deref(c[2]), deref(c[3])) and (minus_one(c[2]) or minus_one(c[3]))]
                    if not any((c[1] == '!=') == p for c, p in out):
                        return True
        return False

    def named(self, t):
        return any(self.p.fns[i].q == t[1] for i in self.ids if i in self.p.fns)

    def kind(self, f, x):
        n = f.nodes[x]
        if n['k'] != 'call':
            return None
        q = n.get('q', '')
        t = (n.get('t') or '').replace('const ', '')
        b = bname(n)
        if t == 'rocksdb::Status' and not q.startswith(('rocksdb::Status::', 'rocksdb::WriteBatch', 'std::')):
            g = self.p.get(n.get('f'))
            return 'read' if b in READS else 'write'
        if t.startswith('std::vector<rocksdb::Status') and not q.startswith('std::'):
            return 'many'
        if q in SYS0:
            return 'sys'
        if q in FSEC and n['a'] and 'error_code' in f.nodes[n['a'][-1]].get('t', ''):
            return 'ec'
        if n.get('f') in self.bools:
            return 'bool'
        if n.get('f') in self.ids:
            return None if self.own(f, n.get('obj')) else 'id'
        return None


    def own(self, f, i):
        """the receiver is an object this function created itself and has not published (its capacity is the function's own affair)"""
        while i is not None:
            n = f.nodes[i]
            if n['k'] == 'cast':
                i = n['e']
            elif n['k'] == 'call' and n.get('op') in ('->', '*') and 'obj' in n:
                i = n['obj']
            elif n['k'] == 'un':
                i = n['e']
            else:
                break
        if i is None or f.nodes[i]['k'] != 'ref' or 'd' not in f.nodes[i]:
            return False
        sd = f.single_def(f.nodes[i]['d'], ignore=('addr', 'cap'))
        if sd is None or sd < 0:
            return False
        t = strip(f, sd)
        return f.nodes[t]['k'] == 'call' and f.nodes[t].get('q', '') in ('std::make_unique', 'std::make_shared') or f.nodes[t]['k'] == 'new'


class Results(Hooks):
    """facts: ('st', key, at, kind) not examined since; ('failed', key, at, kind) known to have failed"""

    def __init__(self, S, f):
        self.S = S
        self.f = f
        self.sites = {}
        self.probs = {}
        self.many = {}

    def note(self, at, msg):
        self.probs.setdefault(at, msg)

    def throws(self, F, env, i, u):
        return not nothrow_call(env.fn.nodes[i])

    def tracked(self, env, i, u):
        t = canon(env, i)
        sub = set(subterms(t))
        return any(x[1] in sub for x in u)

    def descend(self, F, env, i, g):
        n = env.fn.nodes[i]
        if g.d.get('lambda'):
            return True
        if not local(g) or env.up and len(F.stack) > 6:
            return False
        return self.S.kind(env.fn, i) is None and any('Status' in env.fn.nodes[a].get('t', '') or self.flag(env, a) for a in n.get('a', []))

    def flag(self, env, a):
        t = canon(env, a)
        return any(y in self.keys for y in subterms(t)) if hasattr(self, 'keys') else False

    keys = frozenset()

    def holder(self, env, i):
        f = env.fn
        n = f.nodes[i]
        if self.S.kind(f, i) == 'ec':
            return canon(env, n['a'][-1])
        par = f.parent().get(i)
        c = i
        while par is not None:
            m = f.nodes[par]
            if m['k'] == 'cast' or m['k'] == 'ctor' and len(m['a']) == 1 and (m.get('copy') or m.get('move')):
                c, par = par, f.parent().get(par)
                continue
            if m['k'] == 'decl':
                for v in m['vs']:
                    if v.get('init') == c:
                        use = [y for y in f.walk() if f.nodes[y]['k'] == 'ref' and f.nodes[y].get('d') == v['d']]
                        if use:
                            return deref(canon(env, use[0]))
                        return ('v', 'L:%s#%s@%s' % (v['n'], f.vars[str(v['d'])]['l'], f.name))
            if m['k'] == 'asg' and m['r'] == c:
                return canon(env, m['e'], subst=False)
            if m['k'] == 'call' and m.get('op') == '=' and 'obj' in m and m['a'] and m['a'][0] == c:
                return canon(env, m['obj'], subst=False)
            break
        return canon(env, i)

    def call(self, F, env, i, u):
        f = env.fn
        k = self.S.kind(f, i)
        if k is None:
            return None
        if env.fn is not self.f and f.id in self.S.bools:
            pass
        at = f.at(i)
        self.sites[at] = k
        key = self.holder(env, i)
        self.keys = self.keys | {key}
        for x in list(u):
            if x[1] == key:
                u = u - {x}
                if x[2] != at:
                    if x[0] == 'st':
                        self.note(x[2], 'the result of this operation is replaced by another before it was examined')
                    elif x[3] in ('read', 'many'):
                        self.note(x[2], 'this read failed (and not because the key is missing), but another read is tried as if the key were missing')
        fact = ('st', key, at, k)
        res = [('ok', u | {fact}, None)]
        if not f.nodes[i].get('nt') and k not in ('sys',):
            res.append(('exc', u, None))
        return res

    def polarity(self, x, c, p, env):
        """None: the atom says nothing about the result; else 'ok' / 'failed' / 'absent' / 'seen'"""
        key, kind = x[1], x[3]
        c = deref(c)
        if kind in ('read', 'write', 'many'):
            if c[0] == 'call' and c[1].startswith('rocksdb::Status::') and c[2]:
                r = deref(c[2])
                hit = r == key or kind == 'many' and key in set(subterms(r))
                if not hit:
                    return None
                m = c[1].rsplit('::', 1)[-1]
                if m == 'ok':
                    return 'ok' if p else 'failed'
                if m == 'IsNotFound' and p and kind != 'write':
                    return 'absent'
                return None
            if c[0] == 'bin' and c[1] in ('==', '!='):
                for a, b in ((c[2], c[3]), (c[3], c[2])):
                    a = deref(a)
                    if a[0] == 'call' and a[1] == 'rocksdb::Status::code' and a[2] and (deref(a[2]) == key or kind == 'many' and key in set(subterms(a[2]))):
                        eq = (c[1] == '==') == p
                        if str(b).endswith("kOk')"):
                            return 'ok' if eq else 'failed'
                        if str(b).endswith("kNotFound')"):
                            return 'absent' if eq else None
            return None
        if kind == 'bool':
            if c == key:
                return 'ok' if p else 'failed'
            if c[0] == 'bin' and c[1] in ('==', '!='):
                for a, b in ((c[2], c[3]), (c[3], c[2])):
                    if deref(a) == key and deref(b) in (('lit', 'true'), ('lit', 'false')):
                        return 'ok' if ((deref(b)[1] == 'true') == (c[1] == '==')) == p else 'failed'
            return None
        if kind == 'id':
            if c[0] == 'bin' and c[1] in ('==', '!='):
                for a, b in ((c[2], c[3]), (c[3], c[2])):
                    if deref(a) == key:
                        eq = (c[1] == '==') == p
                        if minus_one(b):
                            return 'failed' if eq else 'ok'
                        return 'ok' if eq else None
            if c[0] == 'bin' and c[1] in ('<', '>', '<=', '>=') and key in (deref(c[2]), deref(c[3])):
                return 'seen'
            return None
        if kind == 'ec':
            if c == key or c[0] == 'call' and c[1].endswith('operator bool') and c[2] and deref(c[2]) == key:
                return 'failed' if p else 'ok'
            if c[0] == 'call' and c[1].endswith(('::value', 'operator==', 'operator!=')) and key in set(subterms(c)):
                return 'seen'
            if c[0] == 'bin' and key in set(subterms(c)) and c[1] in ('==', '!='):
                z = c[3] if key in set(subterms(c[2])) else c[2]
                eq = (c[1] == '==') == p
                return ('ok' if eq else 'failed') if deref(z) in (('lit', '0'),) else None
            return None
        return None

    def branch(self, F, env, cond, pol, u):
        ats = list(atoms(env, cond, pol))
        for x in list(u):
            # a key known to be missing explains the failure
            if any(self.polarity(x, c, p, env) == 'absent' for c, p in ats) or x[0] == 'failed' and self.explained(x, ats, env):
                self.many.setdefault(x[2], True)
                u = u - {x}
                if x[3] == 'many':
                    u = frozenset(y for y in u if not (y[0] == 'failed' and y[1:] == x[1:])) | {('st',) + x[1:]}
                ats = [(c, p) for c, p in ats if self.polarity(x, c, p, env) != 'failed']
        for c, p in ats:
            for x in list(u):
                r = self.polarity(x, c, p, env)
                if r is None:
                    continue
                if r == 'ok' and x[0] == 'failed' and x[3] not in ('many',):
                    return None
                if r == 'failed' and x[0] == 'st':
                    u = (u - {x}) | {('failed',) + x[1:]}
                    if x[3] == 'many':
                        u = u | {x}
                        self.many.setdefault(x[2], True)
                elif r == 'ok' and x[3] == 'many':
                    self.many.setdefault(x[2], True)
                elif r in ('ok', 'seen'):
                    u = u - {x}
        for kind, c in success_calls(env, cond, pol):
            at = env.fn.at(c)
            for x in list(u):
                if x[3] == 'sys' and x[2] == at and kind == 'zero':
                    u = u - {x}
        for kind, c in success_calls(env, cond, not pol):
            at = env.fn.at(c)
            for x in list(u):
                if x[3] == 'sys' and x[2] == at and kind == 'zero' and x[0] == 'st':
                    u = (u - {x}) | {('failed',) + x[1:]}
        return u

    @staticmethod
    def explained(x, ats, env):
        """a removal that failed because there was nothing to remove"""
        k = x[1]
        if x[3] != 'bool' or k[0] != 'call' or k[1].rsplit('::', 1)[-1] not in ('remove', 'erase'):
            return False
        return any(not p and c[0] == 'call' and c[1].rsplit('::', 1)[-1] in ('is_valid', 'contains', 'exists') and c[2] == k[2] and c[3:] == k[3:] for c, p in ats)

    def case(self, F, env, cond, lab, u):
        t = set(subterms(canon(env, cond)))
        return frozenset(x for x in u if not (x[0] == 'st' and x[1] in t))

    def failure(self, env, i):
        t = canon(env, i)
        while t[0] == 'cast' or t[0] == 'ctor' and len(t) == 3:
            t = t[-1]
        rt = env.fn.d.get('rt', '')
        return t == ('lit', 'false') or minus_one(t) or 'nullopt' in str(t[1:2]) or t[0] == 'lit' and t[1] == 'null' or t == ('lit', '0') and rt == 'bool'

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'ret' and (n.get('e') if n.get('e') is not None else -1) >= 0 and u:
            e = n['e']
            t = canon(env, e)
            sub = set(subterms(deref(t)))
            # handed to the caller as it is
            if f is self.f or f.d.get('rt') == 'rocksdb::Status':
                u = frozenset(x for x in u if not (x[0] in ('st', 'failed') and deref(t) == x[1]))
            for c, p in atoms(env, e, True):
                for x in list(u):
                    if x[0] == 'st' and x[3] not in ('many',) and (self.polarity(x, c, p, env) in ('ok',)):
                        u = u - {x}
            rt = f.d.get('rt', '')
            if f is self.f and rt == 'bool':
                for c in value_calls(env, e):
                    u = frozenset(x for x in u if x[2] != f.at(c))
                # result of comparing a system call's outcome
                for kind, c in success_calls(env, e, True):
                    u = frozenset(x for x in u if not (x[3] == 'sys' and x[2] == f.at(c)))
            if f is self.f and self.failure(env, e):
                u = frozenset(x for x in u if x[0] != 'failed' or x[3] in ('read', 'many'))
        return u


def swallows(S):
    """[(fn, catch node, durable calls of the guarded body)] for handlers that can complete without reporting"""
    p = S.p
    sink = set()
    names = {}
    for f in S.fns:
        for x in f.calls():
            n = f.nodes[x]
            q = n.get('q', '')
            k = S.kind(f, x)
            if k in ('write', 'bool') or q in ('rename', 'renameat2', 'ftruncate', 'pwrite', 'write', 'std::filesystem::rename') or 'ostream::write' in q.replace('basic_', ''):
                sink.add(f.id)
                names[f.id] = q
    cs = p.callers()
    work = list(sink)
    while work:
        g = work.pop()
        for f, x in cs.get(g, []):
            if f.id not in sink and local(f):
                sink.add(f.id)
                work.append(f.id)
    for f in S.fns:
        if f.d.get('nt') or f.d.get('dtor') or 'pybind' in f.q and 'PyInit' in f.q:
            continue
        par = f.parent()
        for i, n in enumerate(f.nodes):
            if n['k'] != 'try':
                continue
            inner = [x for x in f.walk(n['body']) if f.nodes[x]['k'] in ('call', 'ctor') and (f.nodes[x].get('f') in sink or S.kind(f, x) in ('write', 'bool'))]
            if not inner:
                continue
            # a rollback inside a handler that goes on to rethrow reports the first failure
            a, rb = i, False
            while a in par:
                a = par[a]
                if f.nodes[a]['k'] == 'catch' and any(f.nodes[y]['k'] == 'throw' for y in f.walk(a)):
                    rb = True
            if rb:
                continue
            for h in n['hs']:
                ok = any(f.nodes[y]['k'] == 'throw' or f.nodes[y]['k'] == 'call' and (f.nodes[y].get('nr') or keeps(p, f.nodes[y])) for y in f.walk(h))
                env = Env(f)
                for y in f.walk(h):
                    m = f.nodes[y]
                    if m['k'] == 'ret' and (m.get('e') if m.get('e') is not None else -1) >= 0 and (canon(env, m['e']) == ('lit', 'false') or minus_one(canon(env, m['e']))):
                        ok = True
                yield f, h, ok, inner


def keeps(p, n, seen=()):
    """the call keeps the exception being handled for another thread"""
    if n.get('q') == 'std::current_exception':
        return True
    g = p.get(n.get('f')) if n.get('f') else None
    return g is not None and g.id not in seen and len(seen) < 4 and any(m and m['k'] == 'call' and keeps(p, m, seen + (g.id,)) for m in g.nodes)


def run(R):
    R.rule('results-examined', 'the result of every storage operation (RocksDB status, failure flag of a storage mutation, id of a stored vector, sync/rename/truncate result or error code) is examined on every normal path of the function that receives it, and a known failure ends in an exception or a failure result', 25)
    R.rule('reads-distinguish-errors', 'a RocksDB read that fails for another reason than a missing key is never treated as a missing key', 4)
    R.rule('no-swallowed-errors', 'an exception handler around an operation that changes stored data rethrows, keeps the exception or returns a failure', 1)
    p = R.program(*ALL)
    S = Sources(p)
    agg = {}
    for f in S.fns:
        kinds = {x: S.kind(f, x) for x in f.calls()}
        if not any(kinds.values()) or f.d.get('coro') and False:
            continue
        if f.d.get('nt') or f.d.get('dtor'):
            R.notes.append('%s cannot report (noexcept or destructor): not an obligation' % f.q)
            continue
        if f.q in BEST_EFFORT:
            R.notes.append('%s is the documented best-effort variant: not an obligation' % f.q)
            continue
        R.saw([f])
        H = Results(S, f)
        F = Flow(p, H)
        top = f
        res = F.run(f, frozenset()) if not f.d.get('lambda') else F.run(f, frozenset())
        R.points += F.points
        for kd, u, rv in res:
            if kd != 'ok':
                continue
            for x in u:
                if x[3] == 'many' and x[0] == 'st':
                    if x[2] not in H.many:
                        H.note(x[2], 'none of the statuses of this batched read is examined')
                    continue
                if x[0] == 'st':
                    H.note(x[2], 'the result of this operation is not examined on every normal path: a failure is reported as success')
                elif x[3] in ('read', 'many'):
                    H.note(x[2], 'a read that failed for another reason than a missing key is treated as a missing key')
                else:
                    H.note(x[2], 'this operation is known to have failed, yet the function goes on and reports success')
        for at, k in H.sites.items():
            if f.q + ')' not in at and at.rsplit('(', 1)[-1][:-1] != f.q:
                continue
            rule = 'reads-distinguish-errors' if k in ('read', 'many') else 'results-examined'
            agg.setdefault((rule, at), {}).update({f.q: H.probs[at]} if at in H.probs else {})
    for (rule, at), bad in sorted(agg.items()):
        if bad:
            q, m = list(bad.items())[0]
            R.bad(rule, at, m, key='%s:%s' % (q, re.sub(r'.*\((.*)\)$', r'\1', at)))
        else:
            R.good(rule, at)
    for f, h, ok, inner in swallows(S):
        R.saw([f])
        R.ob('no-swallowed-errors', ok, f.at(h), 'this handler goes on normally although the guarded %s may have failed to change stored data' % bname(f.nodes[inner[0]]), key=f.q)
    R.assume('RocksDB reports every failed operation in its Status', 'a RocksDB read of a key that is not stored returns NotFound')
    return __doc__
