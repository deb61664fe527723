"""File protocol states: streams, descriptors, fsync, rename, remove.

The automaton state is a frozenset of facts:
  ('open', S, P)   stream S writes to file P                ('rd', S, P)     stream S reads from P
  ('dirty', S)     bytes buffered in S, not flushed          ('unchk', S)     an operation on S was not checked afterwards
  ('unsync', P)    bytes written to P, not known synced      ('syncing', P, n) fsync of P called, result not examined
plus whatever a subclass adds.
"""
from .flow import *

STRIP = ('c_str', 'string', 'native', 'generic_string', 'data', 'u8string', 'lexically_normal', 'operator basic_string')
FSYNC = ('fsync', 'fdatasync', '_commit', 'FlushFileBuffers')
OSTREAM_W = ('write', 'put', 'operator<<')
ISTREAM_R = ('read', 'get', 'getline', 'operator>>', 'readsome', 'ignore')


def bq(n):
    return n.get('q', '').rsplit('::', 1)[-1]


def strip_path(t):
    while True:
        if t[0] == 'call' and t[1].rsplit('::', 1)[-1] in STRIP and t[2]:
            t = t[2]
            continue
        if t[0] == 'ctor' and len(t) >= 3 and ('path' in t[1] or 'basic_string' in t[1]):
            t = t[2]
            continue
        if t[0] == 'addr':
            t = t[1]
            continue
        return t


def pathkey(env, i):
    return norm_path(canon(env, i))


def norm_path(t):
    t = strip_path(t)
    if t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('operator/', 'operator+'):
        a = [x for x in t[2:] if x]
        return ('join',) + tuple(norm_path(x) for x in a)
    if t[0] == 'call' and t[1].rsplit('::', 1)[-1] == 'parent_path':
        k = norm_path(t[2])
        if k[0] == 'join' and len(k) == 3:
            return k[1]
        return ('parent', k)
    if t[0] == 'cond':
        return ('cond',) + tuple(norm_path(x) for x in t[2:])
    return t


def parent_of(k):
    if k[0] == 'join':
        return k[1] if len(k) == 3 else k[:-1]
    return ('parent', k)


def facts_of(env, cond, pol):
    """atomic facts implied by the branch, including through reassigned result variables"""
    out = []
    for c, p in atoms(env, cond, pol):
        out.append((c, p))
    return out


def value_calls(env, i):
    """call nodes whose result the expression at i may hold (through locals with several assignments)"""
    f = env.fn
    n = f.nodes[i]
    if n['k'] == 'cast':
        return value_calls(env, n['e'])
    if n['k'] == 'call':
        return [i]
    if n['k'] == 'ref' and not n.get('isfn') and 'd' in n:
        out = []
        for v, k, x in f.defs().get(n['d'], []):
            if k in ('decl', 'asg=') and v is not None:
                nv = f.nodes[v]
                if nv['k'] in ('call', 'cast', 'ref') and v != i:
                    out += value_calls(env, v)
                elif nv['k'] == 'lit':
                    pass
                else:
                    return []
            elif k == 'addr':
                pass
            elif v is None and k == 'decl':
                pass
            else:
                return []
        return out
    if n['k'] == 'asg' and n['op'] == '=':
        return value_calls(env, n['r'])
    return []


def success_calls(env, cond, pol, depth=0):
    """call nodes known to have returned their success value when cond has truth value pol
    (success: 0 for int-returning system calls, true for bool/stream results)"""
    f = env.fn
    n = f.nodes[cond]
    if depth > 8:
        return []
    k = n['k']
    R = lambda x, p: success_calls(env, x, p, depth + 1)
    if k == 'un' and n['op'] == '!':
        return R(n['e'], not pol)
    if k == 'call' and n.get('op') == '!' and 'obj' in n:
        return R(n['obj'], not pol)
    if k == 'bin' and n['op'] in ('&&', '||'):
        if (n['op'] == '&&') == pol:
            return R(n['e'], pol) + R(n['r'], pol)
        return []
    if k == 'bin' and n['op'] in FLIP:
        for a, b, op in ((n['e'], n['r'], n['op']), (n['r'], n['e'], FLIP[n['op']])):
            cb = canon(env, b)
            if cb[0] == 'un' and cb[1] == '-' and cb[2][0] == 'lit':
                cb = ('lit', '-' + cb[2][1])
            if cb[0] == 'lit' and cb[1] in ('0', '-1'):
                o = op if pol else NEG[op]
                ok = (cb[1] == '0' and o in ('==', '>=')) or (cb[1] == '-1' and o in ('!=', '>'))
                fail = (cb[1] == '0' and o in ('!=', '<')) or (cb[1] == '-1' and o in ('==', '<='))
                if ok:
                    return [('zero', c) for c in value_calls(env, a)]
                if fail:
                    return []
        return []
    if k == 'ref' and not n.get('isfn') and 'd' in n:
        v = f.vars[str(n['d'])]
        sd = f.single_def(n['d'])
        if sd is not None and f.nodes[sd]['k'] in ('bin', 'un', 'call', 'ref', 'cast'):
            if f.nodes[sd]['k'] == 'call':
                return [('true' if pol else 'zero', sd)]
            return R(sd, pol)
        return [('true' if pol else 'zero', c) for c in value_calls(env, cond)]
    if k == 'call':
        return [('true' if pol else 'zero', cond)]
    if k == 'cast':
        return R(n['e'], pol)
    if k == 'asg':
        return [('true' if pol else 'zero', c) for c in value_calls(env, n['r'])]
    return []


def is_stream_t(t):
    t = t.replace('const ', '')
    return any(x in t for x in ('ofstream', 'ifstream', 'basic_ostream', 'basic_istream', 'basic_fstream', 'basic_iostream', 'std::ostream', 'std::istream', 'std::fstream'))


def is_file_stream(t):
    return 'ofstream' in t or 'fstream<' in t and 'ifstream' not in t or 'std::fstream' in t


class IOHooks(Hooks):
    """keeps the file-protocol facts; subclasses get the on_* callbacks"""
    def __init__(self):
        self.events = 0

    # callbacks ------------------------------------------------------------
    def on_rename(self, F, env, i, frm, to, u):
        return u

    def on_open_write(self, F, env, i, P, u):
        return u

    def on_remove(self, F, env, i, P, u):
        return u

    def on_truncate(self, F, env, i, P, u):
        return u

    def on_synced(self, F, env, i, P, u):
        return u

    def on_close_unflushed(self, F, env, S, u):
        return u

    # helpers ---------------------------------------------------------------
    def stream_of(self, env, i):
        """stream access path for an expression yielding a stream (resolves chained calls)"""
        f = env.fn
        n = f.nodes[i]
        while n['k'] == 'call' and 'obj' in n and bq(n) in OSTREAM_W + ISTREAM_R + ('flush', 'seekg', 'seekp', 'tellg'):
            i = n['obj']
            n = f.nodes[i]
        while n['k'] == 'call' and 'obj' not in n and bq(n) in ('operator<<', 'operator>>', 'getline') and n['a']:
            i = n['a'][0]
            n = f.nodes[i]
        while n['k'] == 'cast':
            i = n['e']
            n = f.nodes[i]
        if n['k'] == 'call' and 'obj' in n and bq(n) in OSTREAM_W + ISTREAM_R + ('flush',):
            return self.stream_of(env, i)
        return path(env, i)

    def fdpath(self, env, i):
        """file designated by a descriptor expression"""
        c = canon(env, i)
        return self.fdkey(c)

    def fdkey(self, c):
        if c[0] == 'call' and c[1].rsplit('::', 1)[-1] in ('open', 'openat', '_wopen', 'fileno'):
            a = [x for x in c[3:]]
            if c[1].endswith('openat') and len(a) > 1:
                return norm_path(a[1])
            return norm_path(a[0]) if a else c
        return c

    def open_mode_write(self, env, i, n):
        q = n.get('cls', '') + n.get('q', '')
        return 'ofstream' in q or 'basic_fstream' in q

    # hooks -------------------------------------------------------------------
    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = n.get('q', '')
        b = bq(n)
        if n['k'] == 'ctor':
            if 'ofstream' in n.get('cls', '') and n['a']:
                P = pathkey(env, n['a'][0])
                u = self.on_open_write(F, env, i, P, u)
                if u is None:
                    return []
                return [('ok', u, None), ('exc', u, None)]
            return None
        if q in FSYNC or b in FSYNC and q == b:
            P = self.fdpath(env, n['a'][0]) if n['a'] else ('?',)
            if not any(x[0] == 'dirty' and ('open', x[1], P) in u for x in u):
                u = u | {('syncing', P, (f.id, i))}
            return [('ok', u, None)]
        if q in ('std::filesystem::rename', 'rename', 'std::rename', 'renameat', 'renameat2') or (q == 'syscall' and n['a'] and canon(env, n['a'][0])[-1] == '316'):
            a = n['a']
            if q == 'syscall':
                a = [a[2], a[4]]
            elif q in ('renameat', 'renameat2'):
                a = [a[1], a[3]]
            frm, to = pathkey(env, a[0]), pathkey(env, a[1])
            u = self.on_rename(F, env, i, frm, to, u)
            if u is None:
                return []
            if q == 'std::filesystem::rename' and len(n['a']) == 3:
                u = u | {('rn?', (f.id, i), canon(env, n['a'][2]), to)}
            elif q != 'std::filesystem::rename':
                u = u | {('rn?', (f.id, i), None, to)}
            r = [('ok', u, None)]
            if not n.get('nt'):
                r.append(('exc', u, None))
            return r
        if q in ('std::filesystem::remove', 'std::filesystem::remove_all', 'unlink', 'remove', 'std::remove', 'rmdir', 'unlinkat') and n['a'] and 'algorithm' not in q:
            if q == 'std::remove' and len(n['a']) == 3:
                return None
            u = self.on_remove(F, env, i, pathkey(env, n['a'][0]), u)
            if u is None:
                return []
            return [('ok', u, None)] + ([] if n.get('nt') else [('exc', u, None)])
        if q in ('std::filesystem::copy_file', 'std::filesystem::copy', 'std::filesystem::create_hard_link', 'sendfile') and len(n['a']) > 1:
            P = pathkey(env, n['a'][1])
            u = self.on_open_write(F, env, i, P, u)
            if u is None:
                return []
            u = u | {('unsync', P)}
            return [('ok', u, None)] + ([] if n.get('nt') else [('exc', u, None)])
        if q in ('std::filesystem::resize_file', 'truncate', 'ftruncate') and n['a']:
            u = self.on_truncate(F, env, i, pathkey(env, n['a'][0]), u)
            if u is None:
                return []
            return [('ok', u, None)] + ([] if n.get('nt') else [('exc', u, None)])
        if q == 'write' or q == 'pwrite' or q in ('::write', '::pwrite'):
            P = self.fdpath(env, n['a'][0])
            self.events += 1
            return [('ok', u | {('unsync', P)}, None)]
        if q in ('open', 'openat', 'creat') and n['a']:
            P = pathkey(env, n['a'][1] if q == 'openat' else n['a'][0])
            fl = canon(env, n['a'][-1]) if len(n['a']) > 1 else None
            if q == 'creat' or self.flags_write(env, n):
                u = self.on_open_write(F, env, i, P, u)
                if u is None:
                    return []
            return [('ok', u, None)]
        # stream members
        if 'obj' in n and q.startswith('std::basic_') and 'stream' in q:
            S = self.stream_of(env, n['obj'])
            return self.stream_op(F, env, i, n, b, S, u)
        if 'obj' not in n and b == 'operator<<' and n['a'] and is_stream_t(f.nodes[n['a'][0]].get('t', '')) and F.p.get(n.get('f')) is None:
            S = self.stream_of(env, n['a'][0])
            return self.stream_op(F, env, i, n, 'operator<<', S, u)
        # stream handed to an opaque callee
        g = F.p.get(n.get('f'))
        if g is None:
            for a in n.get('a', []):
                t = f.nodes[a].get('t', '')
                if 'ofstream' in t and f.nodes[a]['k'] in ('ref', 'mem'):
                    S = path(env, a)
                    u = self.wrote(u, S)
                    return [('ok', u, None), ('exc', u, None)]
        return None

    def flags_write(self, env, n):
        """open(2) flags include O_WRONLY / O_RDWR / O_TRUNC / O_CREAT (int values known at compile time)"""
        i = n['a'][1] if len(n['a']) > 1 else None
        if i is None:
            return False
        v = self.intval(env, i)
        if v is None:
            return True
        return bool(v & 3) or bool(v & 0o1000)

    def intval(self, env, i, depth=0):
        f = env.fn
        n = f.nodes[i]
        if depth > 6:
            return None
        if n.get('cv') is not None:
            try:
                return int(n['cv'])
            except ValueError:
                return None
        if n['k'] == 'lit':
            try:
                return int(n['v'], 0)
            except ValueError:
                return None
        if n['k'] == 'cast':
            return self.intval(env, n['e'], depth + 1)
        if n['k'] == 'bin' and n['op'] == '|':
            a, b = self.intval(env, n['e'], depth + 1), self.intval(env, n['r'], depth + 1)
            return None if a is None or b is None else a | b
        if n['k'] == 'ref' and 'd' in n:
            v = 0
            any_ = False
            for val, k, x in f.defs().get(n['d'], []):
                if k == 'decl' and val is not None:
                    w = self.intval(env, val, depth + 1)
                elif k == 'asg|=':
                    w = self.intval(env, f.nodes[x]['r'], depth + 1)
                else:
                    return None
                if w is None:
                    return None
                v |= w
                any_ = True
            return v if any_ else None
        return None

    def wrote(self, u, S):
        self.events += 1
        P = [x[2] for x in u if x[0] == 'open' and x[1] == S]
        u = u | {('dirty', S), ('unchk', S)}
        if not P and ('noopen', S) not in u:
            P = [self.file_of(S)]
            u = u | {('open', S, P[0])}
        for p in P:
            u = frozenset(x for x in u if not (x[0] == 'syncing' and x[1] == p)) | {('unsync', p)}
        return u

    def file_of(self, S):
        """file behind a stream that was opened before the analysed entry: members opened with one path only"""
        p = self.F.p
        M = p.__dict__.get('_member_files')
        if M is None:
            M = {}
            for f in p.fns.values():
                if not f.cls:
                    continue
                env = Env(f)
                for x in f.calls():
                    n = f.nodes[x]
                    if bq(n) == 'open' and 'obj' in n and 'stream' in n.get('q', '') and n['a']:
                        s = path(env, n['obj'])
                        if s.startswith('this.') and s.count('.') == 1:
                            M.setdefault(s[5:], set()).add(pathkey(env, n['a'][0]))
            p.__dict__['_member_files'] = M
        owner, _, fld = S.rpartition('.')
        ks = M.get(fld, set())
        if owner and len(ks) == 1:
            k = list(ks)[0]
            if k[0] == 'v' and k[1].startswith('this.'):
                return ('v', owner + k[1][4:])
        return ('file-of', S)

    def stream_op(self, F, env, i, n, b, S, u):
        if not is_file_stream(env.fn.nodes[n['obj'] if 'obj' in n else n['a'][0]].get('t', '')) and not any(x[0] == 'open' and x[1] == S for x in u):
            return [('ok', u, None)]
        exc = ('thr', S) in u
        if b in OSTREAM_W:
            u = self.wrote(u, S)
        elif b == 'flush':
            u = (u - {('dirty', S)}) | {('unchk', S)}
        elif b == 'close':
            was = ('dirty', S) in u
            u = (u - {('dirty', S)})
            if any(x[0] == 'open' and x[1] == S for x in u):
                u = u | {('unchk', S)}
        elif b == 'open':
            P = pathkey(env, n['a'][0]) if n['a'] else ('?',)
            if 'ofstream' in n.get('q', '') or 'basic_fstream' in n.get('q', ''):
                u = self.on_open_write(F, env, i, P, u)
                if u is None:
                    return []
            u = frozenset(x for x in u if not (x[0] == 'open' and x[1] == S)) | {('open', S, P)}
        elif b == 'exceptions' and n['a']:
            u = u | {('thr', S)}
        elif b == 'clear':
            pass
        if exc:
            u = u - {('unchk', S)}
        return [('ok', u, None)] + ([('exc', u, None)] if exc else [])

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'decl':
            for v in n['vs']:
                if 'init' in v and v['init'] >= 0:
                    c = f.nodes[v['init']]
                    if c['k'] == 'ctor' and 'ofstream' in c.get('cls', ''):
                        S = 'L:%s#%s@%s' % (v['n'], f.vars[str(v['d'])]['l'], f.name)
                        u = frozenset(x for x in u if not (len(x) > 1 and x[1] == S))
                        if c['a']:
                            u = u | {('open', S, pathkey(env, c['a'][0])), ('unchk', S)}
        return u

    def tracks(self, t):
        return 'ofstream' in t and '*' not in t and '&' not in t and 'vector' not in t

    def dtor(self, F, env, d, t, u, exc):
        f = env.fn
        v = f.vars[str(d)]
        S = 'L:%s#%s@%s' % (v['n'], v['l'], f.name)
        if not exc and (('dirty', S) in u or ('unchk', S) in u):
            u = self.on_close_unflushed(F, env, S, u)
        # the file stays unsynced / failed writes stay unknown
        bad = ('dirty', S) in u or ('unchk', S) in u
        P = [x[2] for x in u if x[0] == 'open' and x[1] == S]
        u = frozenset(x for x in u if not (len(x) > 1 and x[1] == S))
        if bad:
            u = u | {('lost', p) for p in P}
        return u

    def branch(self, F, env, cond, pol, u):
        f = env.fn
        for c, p in atoms(env, cond, pol):
            S = None
            ok = None
            if c[0] == 'v':
                S, ok = c[1], p
            elif c[0] == 'call' and c[2]:
                m = c[1].rsplit('::', 1)[-1]
                o = c[2]
                while o and o[0] == 'call' and o[1].rsplit('::', 1)[-1] in OSTREAM_W + ('flush', 'operator bool') and o[2]:
                    o = o[2]
                if o and o[0] == 'v':
                    if m in ('operator bool', 'good') + OSTREAM_W + ('flush',):
                        S, ok = o[1], p
                    elif m in ('fail', 'bad', 'operator!'):
                        S, ok = o[1], not p
            elif c[0] == 'call' and c[1].endswith('operator<<') and len(c) > 3 and c[3][0] == 'v':
                S, ok = c[3][1], p
            if S and ok and ('unchk', S) in u:
                # a check before the bytes left the buffer does not cover the flush
                u = u - {('unchk', S)}
                if ('dirty', S) in u:
                    pass
            for x in list(u):
                if x[0] == 'rn?' and x[2] is not None and not p and (c == x[2] or c[0] == 'call' and c[2] == x[2] and c[1].endswith('operator bool')):
                    u = u - {x}
        for kind, c in success_calls(env, cond, pol):
            for x in list(u):
                if x[0] == 'rn?' and x[1] == (f.id, c) and kind == 'zero':
                    u = u - {x}
                if x[0] == 'syncing' and x[2] == (f.id, c) and kind == 'zero':
                    u = (u - {x, ('unsync', x[1])}) | {('synced', x[1])}
                    u2 = self.on_synced(F, env, c, x[1], u)
                    u = u if u2 is None else u2
        return u

    # state queries
    @staticmethod
    def pending(u, P):
        """reasons why file P is not known to be completely on disk"""
        out = []
        for x in u:
            if x[0] == 'open' and x[2] == P:
                if ('dirty', x[1]) in u:
                    out.append('buffered bytes not flushed')
                if ('unchk', x[1]) in u:
                    out.append('stream state not checked after the last operation')
        if ('unsync', P) in u:
            out.append('not synced (fsync missing or its result not checked)')
        if ('lost', P) in u:
            out.append('stream destroyed with unchecked or unflushed data')
        return out
