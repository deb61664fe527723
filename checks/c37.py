"""C37: typestate of file streams and descriptors: every transfer's outcome is examined before the function that owns the stream returns."""
from vf.iostate import *
from vf.util import *
import re

RD = ('read', 'get', 'getline', 'operator>>', 'readsome')
ALL = ('core', 'disk', 'diskann', 'space', 'vamana', 'lasertp')


def stype(t):
    t = (t or '').replace('const ', '')
    if '*' in t or 'vector' in t or 'unique_ptr' in t or 'function' in t or '(' in t:
        return None
    if any(x in t for x in ('ifstream', 'istream')) and 'iter' not in t:
        return 'r'
    if any(x in t for x in ('ofstream', 'ostream')) and 'iter' not in t:
        return 'w'
    if 'fstream' in t:
        return 'rw'
    return None


class Streams(IOHooks):
    """facts: ('dirty',S,at) written, not flushed; ('unchk',S,at) not examined since; ('rd',S,at) read, not examined; ('failed',S,at) known short/failed"""

    def __init__(self, R):
        super().__init__()
        self.R = R
        self.sites = set()
        self.probs = {}

    def note(self, kind, at, msg):
        self.probs.setdefault((kind, at), msg)

    def stream_op(self, F, env, i, n, b, S, u):
        f = env.fn
        oi = n['obj'] if 'obj' in n else n['a'][0]
        ty = stype(f.nodes[oi].get('t', '')) or ''
        q = n.get('q', '')
        at = f.at(i)
        exc = ('thr', S) in u
        drop = lambda *ks: frozenset(x for x in u if not (x[0] in ks and x[1] == S))
        if b in OSTREAM_W and ('ostream' in q or 'ofstream' in q or 'fstream' in q or 'obj' not in n):
            self.sites.add(at)
            u = drop('dirty', 'unchk') | {('dirty', S, at), ('unchk', S, at)}
        elif b in RD and 'istream' in q or b in RD and 'ifstream' in q:
            self.sites.add(at)
            u = drop('rd') | {('rd', S, at)}
        elif b in ('flush', 'close', 'seekp'):
            d = [x for x in u if x[0] in ('dirty', 'unchk') and x[1] == S]
            if d:
                u = drop('dirty', 'unchk') | {('unchk', S, d[0][2])}
        elif b == 'exceptions' and n['a']:
            u = u | {('thr', S)}
        elif b == 'gcount':
            if not self.compared(f, i):
                u = drop('rd')
        elif b == 'clear':
            for x in [x for x in u if x[0] == 'failed' and x[1] == S]:
                u = (u - {x}) | {('cleared', S, x[2])}
        if exc:
            u = frozenset(x for x in u if not (x[0] in ('unchk', 'rd') and x[1] == S))
        return [('ok', u, None)] + ([('exc', u, None)] if exc else [])

    @staticmethod
    def compared(f, i):
        """the count is an operand of a comparison, directly or through a local defined by it"""
        par = f.parent().get(i)
        while par is not None and f.nodes[par]['k'] == 'cast':
            par = f.parent().get(par)
        if par is None:
            return False
        n = f.nodes[par]
        if n['k'] == 'bin' and n['op'] in FLIP:
            return True
        if n['k'] == 'decl':
            d = [v['d'] for v in n['vs'] if (v.get('init') or -1) >= 0 and i in set(f.walk(v['init']))]
            return bool(d) and any(m['k'] == 'bin' and m['op'] in FLIP and any(f.nodes[z]['k'] == 'ref' and f.nodes[z].get('d') == d[0] for z in f.walk(x)) for x, m in enumerate(f.nodes))
        return False

    def counted(self, env, t):
        """stream whose gcount() the term is"""
        while t[0] == 'cast':
            t = t[-1]
        if t[0] == 'call' and t[1].rsplit('::', 1)[-1] == 'gcount' and t[2] and t[2][0] == 'v':
            return t[2][1]
        if t[0] == 'v' and t[1].startswith('L:'):
            f = env.fn
            for d, v in f.vars.items():
                if t[1] == 'L:%s#%s@%s' % (v['n'], v.get('l'), f.name):
                    sd = f.single_def(int(d)) if f.single_def(int(d)) is not None else None
                    if sd is not None:
                        x = sd
                        while f.nodes[x]['k'] == 'cast':
                            x = f.nodes[x]['e']
                        if f.nodes[x]['k'] == 'call' and bq(f.nodes[x]) == 'gcount':
                            return self.stream_of(env, f.nodes[x]['obj'])
        return None

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        q = n.get('q', '')
        b = bq(n)
        if n['k'] == 'ctor':
            return None
        if 'obj' in n and q.startswith('std::basic_') and ('stream' in q or 'basic_ios' in q):
            if stype(f.nodes[n['obj']].get('t', '')) is None and 'stringstream' in f.nodes[n['obj']].get('t', ''):
                return [('ok', u, None)]
            if stype(f.nodes[n['obj']].get('t', '')) is None and 'basic_ios' in q:
                return None
            return self.stream_op(F, env, i, n, b, self.stream_of(env, n['obj']), u)
        if 'obj' not in n and b in ('operator<<', 'operator>>', 'getline') and n['a'] and F.p.get(n.get('f')) is None:
            t = f.nodes[n['a'][0]].get('t', '')
            if is_stream_t(t) and 'stringstream' not in t:
                S = self.stream_of(env, n['a'][0])
                self.sites.add(f.at(i))
                if b == 'operator<<':
                    u = frozenset(x for x in u if not (x[0] in ('dirty', 'unchk') and x[1] == S)) | {('dirty', S, f.at(i)), ('unchk', S, f.at(i))}
                else:
                    u = frozenset(x for x in u if not (x[0] == 'rd' and x[1] == S)) | {('rd', S, f.at(i))}
                return [('ok', u, None)]
        return None

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'decl':
            for v in n['vs']:
                if stype(f.vars[str(v['d'])]['t']):
                    S = 'L:%s#%s@%s' % (v['n'], f.vars[str(v['d'])]['l'], f.name)
                    u = frozenset(x for x in u if not (len(x) > 1 and x[1] == S))
        elif n['k'] == 'ret' and n.get('e') is not None and n['e'] >= 0 and self.failure(env, n['e']):
            u = frozenset(x for x in u if x[0] not in ('failed', 'cleared'))
        return u

    def failure(self, env, i):
        """the returned value reports failure to the caller (whether callers heed it is C27's question)"""
        t = canon(env, i)
        while t[0] == 'cast' or t[0] == 'ctor' and len(t) == 3:
            t = t[-1]
        return t == ('lit', 'false') or t == ('lit', '0') and env.fn.d.get('rt', '') in ('bool', '_Bool') or 'nullopt' in str(t[1:2])

    def tracks(self, t):
        return stype(t) is not None and '&' not in t

    def dtor(self, F, env, d, t, u, exc):
        f = env.fn
        v = f.vars[str(d)]
        S = 'L:%s#%s@%s' % (v['n'], v['l'], f.name)
        if not exc:
            self.leave(u, S)
        return frozenset(x for x in u if not (len(x) > 1 and x[1] == S))

    def leave(self, u, S=None):
        for x in u:
            if len(x) == 3 and (S is None or x[1] == S):
                if x[0] == 'dirty':
                    self.note('write', x[2], 'bytes written here may still be buffered when the stream is destroyed; a failure of the final flush is lost (no flush/close followed by a check)')
                elif x[0] == 'unchk' and ('dirty', x[1], x[2]) not in u:
                    self.note('write', x[2], 'the stream state is not examined after this write or its flush, so a failed write is reported as done')
                elif x[0] == 'rd':
                    self.note('read', x[2], 'the stream state is not examined after this read, so a short read goes undetected')
                elif x[0] in ('failed', 'cleared'):
                    self.note('ignored', x[2], 'the failure of this transfer is noticed but the function goes on as if it had succeeded')

    def branch(self, F, env, cond, pol, u):
        f = env.fn
        for c, p in atoms(env, cond, pol):
            S = ok = None
            if c[0] == 'bin' and c[1] in FLIP:
                op = c[1] if p else NEG[c[1]]
                for x, y, o in ((c[2], c[3], op), (c[3], c[2], FLIP[op])):
                    s = self.counted(env, x)
                    if s is not None and y != ('lit', '0'):
                        S, ok = s, o in ('==', '>=')
                        if o == '<=' or o == '>':
                            S = None
            elif c[0] == 'v':
                S, ok = c[1], p
            elif c[0] == 'call':
                m = c[1].rsplit('::', 1)[-1]
                o = c[2]
                if m in ('operator>>', 'getline', 'operator<<') and not o and len(c) > 3:
                    o = c[3]
                while o and o[0] == 'call' and o[1].rsplit('::', 1)[-1] in OSTREAM_W + RD + ('flush', 'operator bool', 'seekg') and o[2]:
                    o = o[2]
                while o and o[0] == 'call' and o[1].rsplit('::', 1)[-1] in ('operator>>', 'getline', 'operator<<') and not o[2] and len(o) > 3:
                    o = o[3]
                if o and o[0] == 'v':
                    if m in ('operator bool', 'good', 'getline', 'operator>>', 'operator<<') + OSTREAM_W + RD + ('flush',):
                        S, ok = o[1], p
                    elif m in ('fail', 'bad', 'operator!', 'eof'):
                        S, ok = o[1], not p
            if S is None:
                continue
            if ok and any(len(x) == 3 and x[0] == 'failed' and x[1] == S for x in u):
                return None     # the error state of a stream is sticky
            for x in list(u):
                if len(x) == 3 and x[1] == S and x[0] in ('unchk', 'rd'):
                    u = u - {x}
                    if not ok:
                        u = u | {('failed', S, x[2])}
            if not ok:
                u = frozenset(x for x in u if not (x[0] == 'dirty' and x[1] == S))
        return u


def owners(p):
    """functions that hold a file stream of their own"""
    out = []
    for f in p.fns.values():
        if f.file.startswith('/usr') or '/third_party/' in f.file:
            continue
        own = any(v.get('k') == 'local' and stype(v['t']) and '&' not in v['t'] and 'fstream' in v['t'] for v in f.vars.values())
        if own:
            out.append(f)
    return out


XF = {'pread': 2, 'pwrite': 2, 'read': 2, 'write': 2, 'pread64': 2, 'pwrite64': 2, 'fread': 2, 'fwrite': 2, 'std::fread': 2, 'std::fwrite': 2, 'preadv': None, 'pwritev': None, 'readv': None, 'writev': None, 'recv': 2}


def transfers(p):
    """{function id: [(node, length arg)]}: system transfers and calls of wrappers that hand the raw result on"""
    out = {}
    wrap = {}
    done = False
    while not done:
        done = True
        for f in p.fns.values():
            if f.file.startswith('/usr') or '/third_party/' in f.file:
                continue
            for x in f.calls():
                n = f.nodes[x]
                k = None
                if n.get('q') in XF and 'obj' not in n:
                    k = XF[n['q']]
                elif n.get('f') in wrap:
                    k = wrap[n['f']]
                elif n.get('q') in wrap:
                    k = wrap[n['q']]
                else:
                    continue
                if (x, k) in out.get(f.id, []):
                    continue
                out.setdefault(f.id, []).append((x, k))
                done = False
                par = f.parent().get(x)
                while par is not None and f.nodes[par]['k'] == 'cast':
                    par = f.parent().get(par)
                if par is not None and f.nodes[par]['k'] == 'ret' and k is not None and k < len(n['a']):
                    t = canon(Env(f), n['a'][k])
                    for j, prm in enumerate(f.params):
                        if t == ('v', 'P:%s' % prm) or str(prm) in str(t):
                            wrap[f.id] = j
                            for b in f.d.get('ov', []) or []:
                                wrap[b] = j
                            wrap[f.q] = j
    return out, wrap


class Transfer(Hooks):
    """facts: ('x', node): the result of the transfer has not been shown to be complete"""

    def __init__(self, f, sites):
        self.f = f
        self.sites = {x for x, k in sites}
        self.holders = {}
        for x, k in sites:
            self.holders[x] = self.spread(x)

    def spread(self, x):
        """paths of the locals that hold the result of the transfer, or a running total of it"""
        f = self.f
        env = Env(f)
        vs = set()
        ch = True
        has = lambda i: any(j == x or f.nodes[j]['k'] == 'ref' and path(env, j) in vs for j in f.walk(i))
        while ch:
            ch = False
            for i, n in enumerate(f.nodes):
                if n['k'] == 'decl':
                    for v in n['vs']:
                        if v.get('init', -1) >= 0 and has(v['init']):
                            s = 'L:%s#%s@%s' % (v['n'], f.vars[str(v['d'])]['l'], f.name)
                            if s not in vs:
                                vs.add(s)
                                ch = True
                elif n['k'] == 'asg' and f.nodes[n['e']]['k'] == 'ref' and has(n['r']):
                    s = path(env, n['e'])
                    if s not in vs:
                        vs.add(s)
                        ch = True
        return vs

    def mentions(self, t, x):
        from vf.prog import subterms
        return any(y[0] == 'v' and y[1] in self.holders[x] for y in subterms(t)) or any(y[0] == 'call' and y[1] == self.f.nodes[x].get('q') for y in subterms(t))

    def descend(self, F, env, i, g):
        return False

    def throws(self, F, env, i, u):
        return not nothrow_call(env.fn.nodes[i])

    def call(self, F, env, i, u):
        if env.fn is self.f and i in self.sites:
            return [('ok', u | {('x', i)}, None)]
        return None

    def branch(self, F, env, cond, pol, u):
        for c, p in atoms(env, cond, pol):
            if c[0] != 'bin' or c[1] not in ('==', '>=', '<=', '!=', '<', '>'):
                continue
            op = c[1] if p else NEG[c[1]]
            for a, b, o in ((c[2], c[3], op), (c[3], c[2], FLIP[op])):
                for fct in list(u):
                    if fct[0] == 'x' and self.mentions(a, fct[1]) and not self.mentions(b, fct[1]) and o in ('==', '>=') and not self.small(b):
                        u = u - {fct}
        return u

    @staticmethod
    def small(t):
        return t[0] == 'lit' or t[0] == 'un' and t[1] == '-'

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        # the exact count is handed on (length of a string or span, stored result, return value)
        xs = [y for y in u if y[0] == 'x']
        if xs and n['k'] in ('ctor', 'ret', 'asg', 'silist', 'init'):
            for y in xs:
                if n['k'] in ('silist', 'init'):
                    hit = any(self.is_count(env, a, y[1]) for a in f.kids(i))
                elif n['k'] == 'ctor':
                    hit = any(self.is_count(env, a, y[1]) for a in n['a'][1:])
                elif n['k'] == 'ret':
                    hit = n.get('e') is not None and n['e'] >= 0 and self.is_count(env, n['e'], y[1])
                else:
                    hit = f.nodes[n['e']]['k'] == 'mem' and self.is_count(env, n['r'], y[1])
                if hit:
                    u = u - {y}
        return u

    def is_count(self, env, i, x):
        t = canon(env, i)
        while t[0] == 'cast':
            t = t[-1]
        return t[0] == 'v' and t[1] in self.holders[x] or t[0] == 'call' and t[1] == env.fn.nodes[x].get('q') or i == x or env.fn.nodes[i]['k'] == 'cast' and self.is_count(env, env.fn.nodes[i]['e'], x)


SINK = ('get_events', 'poll_events', 'io_getevents', 'io_getevents_exact', 'read_batch')
RES = ('result', 'res', 'result_')


class Family:
    """a function and the lambdas defined in it, with their locals identified across captures"""

    def __init__(self, p, top):
        self.fns = [top]
        for f in self.fns:
            self.fns += [g for g in p.lambdas_of(f) if g not in self.fns]
        self.top = top

    @staticmethod
    def top_of(p, f):
        while f.d.get('lambda') and f.d.get('parent') in p.fns:
            f = p.fns[f.d['parent']]
        return f

    @staticmethod
    def var(f, i):
        n = f.nodes[i]
        if n['k'] == 'ref' and 'd' in n and not n.get('isfn'):
            v = f.vars[str(n['d'])]
            return (v['n'], v['l'])
        return None

    def root(self, f, i):
        """variable an out-argument designates, and whether it is a parameter"""
        while i is not None and i >= 0:
            n = f.nodes[i]
            if n['k'] == 'ref':
                v = self.var(f, i)
                par = v and any(str(f.vars[str(n['d'])].get('k')) == 'param' for _ in (0,))
                return v, par
            if n['k'] in ('cast', 'un', 'bin'):
                i = n['e']
            elif n['k'] == 'call' and 'obj' in n:
                i = n['obj']
            elif n['k'] == 'call' and n['a']:
                i = n['a'][0]
            elif n['k'] == 'idx':
                i = n['b']
            elif n['k'] == 'mem':
                i = n['b']
            else:
                return None, False
        return None, False

    def derived(self, seeds):
        """variables that carry the outcome of the seed nodes [(f, pred(node index))]"""
        vs = set()
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                for i, n in enumerate(f.nodes):
                    pairs = []
                    if n['k'] == 'decl':
                        pairs = [((v['n'], f.vars[str(v['d'])]['l']), v['init']) for v in n['vs'] if v.get('init', -1) is not None and v.get('init', -1) >= 0]
                    elif n['k'] == 'asg' and self.var(f, n['e']):
                        pairs = [(self.var(f, n['e']), n['r'])]
                    elif n['k'] == 'loop' and n.get('range') is not None and n.get('range', -1) >= 0:
                        continue
                    for v, e in pairs:
                        if v not in vs and any(seeds(f, j) or self.var(f, j) in vs for j in f.walk(e)):
                            vs.add(v)
                            ch = True
        return vs


def raises(fam, f, i, flags=True):
    """the statement at i throws, calls a function that never returns, or raises a flag that some later test turns into a throw or an error return"""
    for j in f.walk(i):
        n = f.nodes[j]
        if n['k'] == 'throw' or n['k'] == 'call' and n.get('nr'):
            return True
        if n['k'] == 'ret' and n.get('e', -1) is not None and n.get('e', -1) >= 0 and f.nodes[n['e']]['k'] == 'lit':
            return True
        if flags and n['k'] == 'asg' and fam.var(f, n['e']):
            v = fam.var(f, n['e'])
            for g in fam.fns:
                for k, m in enumerate(g.nodes):
                    if m['k'] == 'if' and any(fam.var(g, y) == v for y in g.walk(m['c'])) and raises(fam, g, m['th'], False):
                        return True
    return False


def completions(p):
    """[(site, key, ok)] for every consumer of asynchronous completions"""
    out = []
    notes = []
    cs = p.callers()
    for f in p.fns.values():
        if f.file.startswith('/usr') or '/third_party/' in f.file:
            continue
        for x in f.calls():
            n = f.nodes[x]
            b = bname(n)
            if b in SINK and n.get('q', '').startswith('std::'):
                continue
            whole = n.get('q', '').endswith('UringReactor::read') or b == 'read_batch'
            if not whole and b not in SINK:
                continue
            fam = Family(p, Family.top_of(p, f))
            if b == 'read_batch' and fam.top.q.endswith('UringReactor::read'):
                # single-request wrapper: the result is the request's own result field
                ok = any(g.nodes[j]['k'] == 'mem' and g.nodes[j]['n'] in RES for g in fam.fns for i, m in enumerate(g.nodes) if m['k'] == 'ret' and (m.get('e') or -1) >= 0 for j in g.walk(m['e']))
                out.append((f.at(x), '%s:%s' % (fam.top.q, b), ok))
                continue
            if not whole and fam.top.name == b and not cs.get(fam.top.id) and not fam.top.d.get('virt') and not fam.top.d.get('ov'):
                notes.append('%s at %s drops completions but is never called: not an obligation' % (fam.top.q, f.at(x)))
                continue
            outs = []
            if not whole:
                for a in n['a']:
                    v, par = fam.root(f, a)
                    t = f.nodes[a].get('t', '')
                    if v and ('vent' in t or 'vector' in t or 'IORequest' in t):
                        outs.append((v, par))
            if whole:
                seeds = lambda g, j, x=x, f=f: g is f and j == x
            else:
                ov = {v for v, par in outs}
                if any(par for v, par in outs):
                    out.append((f.at(x), '%s:%s' % (fam.top.q, b), True))     # handed to the caller, who is checked in turn
                    continue

                def seeds(g, j, ov=ov):
                    m = g.nodes[j]
                    if m['k'] != 'mem' or m['n'] not in RES:
                        return False
                    r, _ = fam.root(g, m['b'])
                    if r in ov:
                        return True
                    for l in g.nodes:     # element of a range loop over the container
                        if l['k'] == 'loop' and l.get('lk') == 'range' or l['k'] == 'loop' and (l.get('range') or -1) >= 0:
                            rr, _ = fam.root(g, l['range'])
                            lv = g.nodes[l['var']]['vs'][0]['d'] if (l.get('var') or -1) >= 0 and g.nodes[l['var']]['k'] == 'decl' else None
                            lv = (g.vars[str(lv)]['n'], g.vars[str(lv)]['l']) if lv is not None else None
                            if rr in ov and lv == r:
                                return True
                    return False
            vs = fam.derived(seeds)
            ok = False
            for g in fam.fns:
                for j, m in enumerate(g.nodes):
                    if m['k'] == 'if' or m['k'] == 'asg' and fam.var(g, m['e']):
                        for y in g.walk(m['c'] if m['k'] == 'if' else m['r']):
                            c = g.nodes[y]
                            if c['k'] == 'bin' and c['op'] in ('!=', '==', '<', '>', '<=', '>='):
                                l, r = ([any(seeds(g, z) or g.nodes[z]['k'] == 'ref' and fam.var(g, z) in vs for z in g.walk(c[k])) for k in ('e', 'r')])
                                if l == r:
                                    continue
                                o = c['r'] if l else c['e']
                                lit = canon(Env(g), o)[0] == 'lit'
                                if b == 'read_batch' and canon(Env(g), o) != ('lit', '0') or b != 'read_batch' and lit:
                                    continue
                                if m['k'] == 'asg':
                                    ok = ok or raises(fam, g, j)
                                elif any(e is not None and e >= 0 and raises(fam, g, e) for e in (m.get('th'), m.get('el'))):
                                    ok = True
                    # the outcome is copied into what the caller receives
                    if not whole and m['k'] == 'call' and bname(m) in ('push_back', 'emplace_back') and 'obj' in m and fam.root(g, m['obj'])[1] and any(seeds(g, z) for a in m['a'] for z in g.walk(a)):
                        ok = True
                    if not whole and m['k'] == 'asg' and fam.root(g, m['e'])[1] and any(seeds(g, z) for z in g.walk(m['r'])):
                        ok = True
            out.append((f.at(x), '%s:%s' % (fam.top.q, b), ok))
    return out, notes


def run(R):
    R.rule('stream-writes', 'every write to a file stream is followed, before the stream is destroyed, by a flush or close and an examination of the stream state', 40)
    R.rule('stream-reads', 'every read from a file stream is followed, before the stream is destroyed, by an examination of the stream state', 40)
    R.rule('failure-acted-on', 'a transfer known to be short or failed is not followed by a normal return of the function that owns the stream', 40)
    R.rule('descriptor-transfers', 'the result of every transfer on a descriptor is shown to cover the requested length (or is handed on as the exact count) before a normal return', 6)
    R.rule('completions', 'the outcome of every asynchronous read (completion event, request result, count of failed requests) is compared with what was asked for and a mismatch ends in a throw or an error, or the outcome is handed to the caller', 8)
    p = R.program(*ALL)
    agg = {}
    for f in owners(p):
        H = Streams(R)
        F = Flow(p, H)
        F.run(f, frozenset())
        R.saw([p.fns[x] for x in F.visited])
        R.points += F.points
        torn = f.cls is not None and f.cls.endswith('WriteAheadLog')
        for at in H.sites:
            agg.setdefault(at, {})
        for (k, at), m in H.probs.items():
            if k == 'ignored' and torn:
                continue
            agg.setdefault(at, {})[k] = (m, f.q)
    for at, ks in sorted(agg.items()):
        fn = re.sub(r'.*\((.*)\)$', r'\1', at)
        for k, rule in (('write', 'stream-writes'), ('read', 'stream-reads'), ('ignored', 'failure-acted-on')):
            if k in ks:
                R.bad(rule, at, ks[k][0], key='%s:%s' % (ks[k][1], fn))
            else:
                R.good(rule, at)
    ts, wraps = transfers(p)
    locks = {f.id for f in p.fns.values() if any(f.nodes[x].get('q') in ('flock', 'fcntl', 'lockf') for x in f.calls())}
    cs = p.callers()
    for fid, sites in ts.items():
        f = p.fns[fid]
        sites = [(x, k) for x, k in sites if not direct_return(f, x)]
        if not sites:
            continue
        up = {g.id for g, x in cs.get(fid, [])}
        if up and up <= locks:
            R.notes.append('%s writes or reads the owner text of a lock file, which no decision depends on: not an obligation' % f.q)
            continue
        H = Transfer(f, sites)
        F = Flow(p, H)
        res = F.run(f, frozenset())
        R.saw([f])
        R.points += F.points
        for x, k in sites:
            if discarded(f, x):
                ok = False
            else:
                ok = not any(kd == 'ok' and ('x', x) in u for kd, u, r in res)
            R.ob('descriptor-transfers', ok, f.at(x), 'a normal return is reachable although this transfer may have been short or failed', key='%s:%s' % (f.q, bname(f.nodes[x])))
    comp, notes = completions(p)
    for at, key, ok in comp:
        R.ob('completions', ok, at, 'the result of this asynchronous read is not compared with the requested size: a short or failed read is used as data', key=key)
    R.notes += notes
    R.assume('a stream that failed stays failed until clear()', 'close() and flush() hand all buffered bytes to the operating system or set the error state')
    return __doc__


def direct_return(f, x):
    par = f.parent().get(x)
    while par is not None and f.nodes[par]['k'] == 'cast':
        par = f.parent().get(par)
    return par is not None and f.nodes[par]['k'] == 'ret'


def discarded(f, x):
    par = f.parent().get(x)
    while par is not None and f.nodes[par]['k'] == 'cast':
        par = f.parent().get(par)
    return par is None or f.nodes[par]['k'] in ('block', 'if', 'loop')
