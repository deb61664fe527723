"""C13: every read from a byte buffer is covered by what the path has established about its length (linear facts over abstract evaluation)."""
from vf.absx import *
from vf.util import *

FILES = ('include/utils/scalar_data.hpp', 'include/utils/binary_io.hpp', 'include/recovery/write_ahead_log.hpp', 'include/storage/rocksdb_storage.hpp', 'include/utils/index_encoding.hpp', 'python/include/index.hpp')
CHARP = ('const char *', 'char *', 'const uint8_t *', 'uint8_t *', 'const unsigned char *', 'const std::byte *')
SIZEOF = {'char': 1, 'unsigned char': 1, 'uint8_t': 1, 'bool': 1, 'int': 4, 'unsigned int': 4, 'uint32_t': 4, 'int32_t': 4, 'float': 4, 'uint16_t': 2, 'long': 8, 'unsigned long': 8, 'uint64_t': 8, 'int64_t': 8, 'double': 8, 'size_t': 8, 'unsigned short': 2}


def bare(t):
    return (t or '').replace('const ', '').replace('&', '').strip()


class Lin:
    """linear form over opaque terms; wide: contains a 64-bit quantity read from the bytes"""

    def __init__(self, c=0, d=None):
        self.c, self.d = c, dict(d or {})

    def add(self, o, k=1):
        r = Lin(self.c + k * o.c, self.d)
        for a, x in o.d.items():
            r.d[a] = r.d.get(a, 0) + k * x
            if not r.d[a]:
                del r.d[a]
        return r

    def nonneg(self):
        return self.c >= 0 and all(x >= 0 for x in self.d.values())


def lin(t):
    if isinstance(t, bool) or t is None:
        return None
    if isinstance(t, int):
        return Lin(t)
    if not isterm(t):
        return None
    if t and t[0] == 'bin' and t[1] in ('+', '-'):
        a, b = lin(t[2]), lin(t[3])
        return None if a is None or b is None else a.add(b, 1 if t[1] == '+' else -1)
    if t and t[0] == 'bin' and t[1] == '*':
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if isinstance(x, int) and not isinstance(x, bool):
                a = lin(y)
                return None if a is None else Lin(0).add(a, x)
    return Lin(0, {t: 1})


def wraps(t, sub):
    """the unsigned value of t may differ from its linear form; sub(lin) proves a form nonnegative"""
    if not isterm(t) or not t:
        return False
    if t[0] == 'bin' and t[1] == '-':
        a, b = lin(t[2]), lin(t[3])
        return a is None or b is None or wraps(t[2], sub) or wraps(t[3], sub) or not sub(a.add(b, -1))
    if t[0] == 'bin' and t[1] in ('+', '*'):
        if not any(wraps(x, sub) or iswide(x) for x in t[2:]):
            return False
        l = lin(t)     # bounded by a length that does fit
        caps = {a for x in sub.__self__.L for a in x.d if a and a[0] in ('size', 'v')}
        return l is None or t[1] == '*' or not any(sub(Lin(0, {a: 1}).add(l, -1)) for a in caps)
    return False


def iswide(t):
    if isterm(t):
        if t and t[0] == 'rd':
            return t[2] > 4
        return any(iswide(x) for x in t)
    return False


class Facts:
    def __init__(self, base, facts):
        self.L = list(base)
        self.F = facts
        done = 0
        for _ in range(3):
            n = len(self.L)
            self.build()
            if len(self.L) == n:
                break

    def build(self):
        for t, v in self.F:
            if not (isterm(t) and len(t) == 4 and t[0] == 'bin'):
                continue
            op, a, b = t[1:]
            if op == '==':
                ineq = [('<=', a, b), ('>=', a, b)] if v else []
            elif op in ('<', '<=', '>', '>='):
                if not v:
                    op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
                ineq = [(op, a, b)]
            else:
                continue
            if wraps(a, self.proves) or wraps(b, self.proves):
                continue
            la, lb = lin(a), lin(b)
            if la is None or lb is None:
                continue
            for o, *_ in ineq:
                x = la.add(lb, -1) if o in ('>', '>=') else lb.add(la, -1)
                if o in ('<', '>'):
                    x.c -= 1
                if not any(x.c == y.c and x.d == y.d for y in self.L):
                    self.L.append(x)

    def proves(self, T):
        if T.nonneg():
            return True
        for f in self.L:
            r = T.add(f, -1)
            if r.nonneg():
                return True
            for g in self.L:
                if r.add(g, -1).nonneg():
                    return True
        return False


class DB(Domain):
    def __init__(self, home):
        self.home = home

    def inline(self, g):
        return g.rel() in FILES and not g.d.get('coro') and ('scalar_data' in g.rel() or 'binary_io' in g.rel())

    base = ()

    def truth(self, ev, t):
        if isterm(t) and len(t) == 4 and t[0] == 'bin' and t[1] in ('<', '<=', '>', '>='):
            F = Facts(self.base, ev.facts)
            op, a, b = t[1:]
            if wraps(a, F.proves) or wraps(b, F.proves):
                return NotImplemented
            la, lb = lin(a), lin(b)
            if la is None or lb is None:
                return NotImplemented
            yes = la.add(lb, -1) if op in ('>', '>=') else lb.add(la, -1)
            no = Lin(0).add(yes, -1)
            if op in ('<', '>'):
                yes.c -= 1
            else:
                no.c -= 1
            if F.proves(yes):
                return True
            if F.proves(no):
                return False
        return NotImplemented

    def call(self, ev, fr, i, n, q, obj, args):
        f = fr.f
        if q is None:
            if n['k'] == 'idx':
                b = ev.ev(fr, n['b'])
                p = ptr(b)
                if p is not None and p[0] is not None:
                    x = ev.ev(fr, n['i'])
                    ev.read(fr, i, ('bin', '+', b, x), 1)
                    return ('rd', fresh(ev), SIZEOF.get(bare(n.get('t')), 8))
            if n['k'] == 'un' and n['op'] == '*':
                b = ev.ev(fr, n['e'])
                p = ptr(b)
                if p is not None and p[0] is not None:
                    ev.read(fr, i, b, SIZEOF.get(bare(n.get('t')), 8))
                    return ('rd', fresh(ev), SIZEOF.get(bare(n.get('t')), 8))
            return NotImplemented
        name = q.rsplit('::', 1)[-1]
        if name in ('memcpy', 'memmove') and len(args) == 3:
            ev.read(fr, i, args[1], args[2])
            if isinstance(args[0], It) and args[0].i == 0 and args[0].l.x and isterm(args[0].l.x[0]) and args[0].l.x[0][0] == 'fill':
                a = n['a'][0]
                while f.nodes[a]['k'] == 'cast':
                    a = f.nodes[a]['e']
                sz = SIZEOF.get(bare(f.nodes[a].get('t', '')).rstrip('* '))
                if sz:
                    ev.log.append(('write', f, i, ('bin', '*', args[0].l.x[0][1], sz), args[2], list(ev.facts)))
            a = n['a'][0]
            while f.nodes[a]['k'] == 'cast':
                a = f.nodes[a]['e']
            x = f.nodes[a]
            if x['k'] == 'un' and x['op'] == '&':
                t = SIZEOF.get(bare(f.nodes[x['e']].get('t')), 8)
                if bare(f.nodes[x['e']].get('t')) in ('int', 'long', 'int32_t', 'int64_t'):
                    t = 8
                ev.assign(fr, x['e'], ('rd', fresh(ev), t))
            return None
        if isinstance(obj, Opt) and n.get('op') in ('*', '->'):
            ev.log.append(('unwrap', f, i, obj.has))
        if n['k'] == 'ctor' and n.get('cls') in ('std::basic_string', 'std::string') and not args:
            return ('local', fresh(ev))
        if name in ('size', 'length') and not args and isterm(obj):
            return ('size', obj)
        if name in ('size', 'length') and not args and isinstance(obj, Opt):
            return ('size', obj.v)
        if name == 'empty' and not args and isterm(obj):
            return ('bin', '==', ('size', obj), 0)
        if name in ('data', 'c_str', 'begin', 'cbegin') and not args and isterm(obj):
            return ('ptr', obj)
        if name in ('end', 'cend') and not args and isterm(obj):
            return ('bin', '+', ('ptr', obj), ('size', obj))
        if name in ('min', 'max') and len(args) == 2:
            return NotImplemented
        if n['k'] == 'ctor' and n.get('cls', '') in ('std::basic_string', 'std::basic_string_view', 'std::vector', 'std::span', 'std::string') and len(args) >= 2 or \
                name in ('emplace_back', 'assign', 'append') and len(args) == 2:
            p0, p1 = ptr(args[0]), ptr(args[1])
            if p0 is not None and p0[0] is not None:
                if p1 is not None and p1[0] == p0[0]:
                    ev.read(fr, i, args[0], ('bin', '-', args[1], args[0]))
                elif p1 is None or p1[0] is None:
                    ev.read(fr, i, args[0], args[1])
                if n['k'] == 'ctor':
                    return ('bytes', fresh(ev))
        if n['k'] == 'ctor' and 'unordered_map' in n.get('cls', '') and not args:
            return Lst()
        if isinstance(obj, Lst) and name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            obj.x.append(('entry',))
            return UNK
        if isinstance(obj, Lst) and n.get('op') == '[]' and not isinstance(args[0], int):
            obj.x.append(('entry',))
            return ('entry',)
        return NotImplemented


def ptr(t):
    """(base pointer, linear offset) of an address; base None when it is not an address"""
    l = lin(t)
    if l is None:
        return None
    bases = [a for a in l.d if a and a[0] in ('base', 'ptr')]
    if len(bases) != 1 or l.d[bases[0]] != 1:
        return (None, l)
    return (bases[0], Lin(l.c, {a: x for a, x in l.d.items() if a != bases[0]}))


def fresh(ev):
    ev.nfresh = getattr(ev, 'nfresh', 0) + 1
    return ev.nfresh


class EB(Eval):
    MAXSTEP = 3000

    def default(self, t):
        t = t.replace('const ', '')
        if 'unordered_map' in t or 'MetadataMap' in t:
            return Lst()
        if 'string' in t or t.startswith('std::vector'):
            return ('local', fresh(self))
        return Eval.default(self, t)

    def read(self, fr, i, addr, n):
        self.log.append(('read', fr.f, i, addr, n, list(self.facts)))

    def havoc(self, fr, root):
        f = fr.f
        for j in f.walk(root):
            n = f.nodes[j]
            tgt = n.get('e') if n['k'] == 'asg' or n['k'] == 'un' and n['op'] in ('++', '--') else None
            ts = [tgt] if tgt is not None else []
            if n['k'] == 'call' and n.get('f'):
                g = self.p.get(n['f'])
                if g is not None:
                    ts += [a for a, d in zip(n.get('a', []), g.params) if g.vars.get(str(d), {}).get('t', '').endswith('&') and not g.vars[str(d)]['t'].startswith('const ')]
            for t in ts:
                x = f.nodes[t]
                if x['k'] == 'ref' and 'd' in x:
                    if x['d'] in fr.env:
                        cur = fr.env[x['d']]
                        v = ('havoc', fresh(self))
                        if isinstance(cur, Ref):
                            cur.set(v)
                        elif not isinstance(cur, (Lst, Obj, Opt)):
                            fr.env[x['d']] = v

    def loop(self, fr, n):
        if n.get('init', -1) is not None and n.get('init', -1) >= 0:
            self.ex(fr, n['init'])
        for part in ('c', 'body', 'inc'):
            if n.get(part, -1) is not None and n.get(part, -1) >= 0:
                self.havoc(fr, n[part])
        if n.get('lk') == 'range':
            var = fr.f.nodes[n['var']]['vs'][0]
            c = fr.f.nodes[n['range']]
            v = self.ev(fr, c['vs'][0]['init'] if c['k'] == 'decl' else n['range'])
            fr.env[var['d']] = ('elem', v if isterm(v) else 0, fresh(self))
            for j, b in enumerate(var.get('bind', [])):
                fr.env[b] = ('bind', fr.env[var['d']], j)
            if not self.truth(('some', fresh(self))):
                return None
        elif n.get('lk') != 'do' and n.get('c', -1) is not None and n.get('c', -1) >= 0:
            if not self.truth(self.ev(fr, n['c'])):
                return None
        r = self.ex(fr, n['body'])
        if r and r[0] == 'ret':
            return r
        if r and r[0] == 'break':
            return None
        for part in ('c', 'body', 'inc'):
            if n.get(part, -1) is not None and n.get(part, -1) >= 0:
                self.havoc(fr, n[part])
        return None

    def invoke(self, g, args, this=None, outer=None):
        top = not getattr(self, 'stack', None)
        r = Eval.invoke(self, g, args, this, outer)
        return r

    def ex(self, fr, i):
        if len(self.stack) == 1:
            self.top = fr
        return Eval.ex(self, fr, i)


def owner(c):
    c = c[0] if isinstance(c, tuple) else c
    return c.id if hasattr(c, 'id') else c


def isbuf(t):
    return t.replace('*const', '*').strip() in CHARP


def reads(f):
    """sites that may read raw bytes"""
    out = [i for i in f.calls() if 'BinaryReader::read' in f.nodes[i].get('q', '')]
    for i in f.all():
        n = f.nodes[i]
        if n['k'] == 'call' and bname(n) in ('memcpy', 'memmove'):
            out.append(i)
        elif n['k'] == 'idx' and isbuf(f.nodes[n['b']].get('t', '')):
            out.append(i)
        elif n['k'] == 'ctor' and n.get('cls') in ('std::basic_string', 'std::vector') and len(n.get('a', [])) >= 2 and f.nodes[n['a'][0]].get('t', '').replace('const ', '') == 'char *':
            out.append(i)
        elif n['k'] == 'call' and bname(n) == 'emplace_back' and len(n.get('a', [])) == 2 and f.nodes[n['a'][0]].get('t', '').replace('const ', '') == 'char *':
            out.append(i)
    return out


def run(R):
    R.rule('bounds', 'every read of raw bytes is preceded on its path by a check that offset plus length stays within the buffer, computed without wrapping', 20)
    R.rule('stop', 'a decoder whose position has run past the end returns an error or an empty result', 2)
    R.rule('unwrap', 'the result of a bounded read is used only after it was found present', 3)
    progs = [R.program('core'), R.program('py')]
    done = set()
    for p in progs:
        callers = p.callers()
        dead = set()
        while True:
            more = {f.id for f in p.fns.values() if f.id not in dead and f.d.get('acc') == 'private' and f.rel() in FILES and all(owner(c) in dead or owner(c) == f.id for c in callers.get(f.id, []))}
            if not more:
                break
            dead |= more
        for f in p.fns.values():
            if f.rel() not in FILES or f.d.get('implicit') or f.d.get('lambda') or f.body is None or f.body < 0 or f.d.get('coro'):
                continue
            key0 = (f.rel(), f.line, f.name)
            dec = 'scalar_data' in f.rel() or 'binary_io' in f.rel()
            if key0 in done and not dec:
                continue
            sites = reads(f)
            bufp = [d for d in f.params if isbuf(f.vars[str(d)].get('t', ''))]
            if not sites and not (dec and bufp and not f.name.startswith('write')) or f.cls and f.cls.endswith('BinaryWriter'):
                continue
            if f.id in dead:
                continue
            done.add(key0)
            one(R, p, f, sites, bufp)


def one(R, p, f, sites, bufp):
    ps = [(d, f.vars[str(d)]) for d in f.params]
    reader = f.cls and any(c['q'] == f.cls and {'data_', 'size_', 'offset_'} <= {x['n'] for x in c.get('fields', [])} for c in p.classes.values())
    base = []
    S, off = ('v', 'P:size'), ('v', 'P:offset')
    args = []
    caps = {}
    post = None
    for k, (d, v) in enumerate(ps):
        t = v.get('t', '')
        nxt = ps[k + 1][1].get('t', '') if k + 1 < len(ps) else ''
        if isbuf(t):
            b = ('base', v['n'])
            args.append(b)
            if bare(nxt) in ('size_t', 'unsigned long', 'std::size_t') and not nxt.endswith('&'):
                caps[b] = ('v', ps[k + 1][1]['n'])
            else:
                caps[b] = None
        elif bare(t) in SIZEOF and t.endswith('&') and not t.startswith('const'):
            args.append(('ref', ('v', v['n'])))
        else:
            args.append(('v', v['n']))
    if f.d.get('ctor'):
        return
    if f.cls and f.cls.endswith('BinaryWriter') or all(c is None for c in caps.values()) and caps and not reader:
        if not f.params or not [c for c in caps if caps[c] is None]:
            return
        # a pointer without a length: fine when the caller vouches for it; nothing to decide here unless it decodes
        if not (f.rel() == 'include/utils/scalar_data.hpp' and f.name.startswith(('deserialize', 'skip'))):
            return
    this = lambda: Obj(f.cls or '')
    if reader:
        flds = {x['n']: x['t'] for c in p.classes.values() if c['q'] == f.cls for x in c['fields']}
        b = ('base', 'this')
        caps[b] = ('v', 'size_')
        base.append(lin(('bin', '-', ('v', 'size_'), ('v', 'offset_'))))
        this = lambda: Obj(f.cls, data_=b, size_=('v', 'size_'), offset_=('v', 'offset_'))
    dom = DB(f)
    dom.base = base
    E = EB(p, dom, maxpaths=4000)
    box = {}

    def make():
        E.nfresh = 0
        box['this'] = this()
        out = []
        for a in args:
            if isterm(a) and a[0] == 'ref':
                cell = [a[1]]
                out.append(Ref(lambda cell=cell: cell[0], lambda v, cell=cell: cell.__setitem__(0, v)))
            else:
                out.append(a)
        return out, box['this']
    res = []
    orig = E.outcomes
    stuck = None
    n = 0
    # collect the final state per path
    ends = []
    inv = E.invoke

    def invoke(g, a, th=None, outer=None):
        r = inv(g, a, th, outer)
        if not E.stack:
            env = E.top.env
            E.log.append(('end', {f.vars.get(str(d), {}).get('n'): (v.get() if isinstance(v, Ref) else v) for d, v in env.items() if E.top.f is f}, dict(box['this'].f) if reader else {}))
        return r
    E.invoke = invoke
    outs = E.outcomes(f, make)
    R.saw([f] + [p.get(x) for x in E.visited if p.get(x)])
    seen = set()
    for o in outs:
        if o.kind == 'stuck':
            stuck = o.value
        for e in o.log:
            if e[0] == 'read':
                _, g, i, addr, cnt, facts = e
                if g is f:
                    seen.add(i)
                pb = ptr(addr)
                if pb is None or pb[0] is None:
                    continue    # a source that is not a byte buffer under decoding
                b, o_ = pb
                cap = ('size', b[1]) if b[0] == 'ptr' else caps.get(b)
                if cap is None and b[0] == 'base' and caps.get(b, 0) is None and g is f and not (f.rel() == 'include/utils/scalar_data.hpp'):
                    continue
                F = Facts(base, facts)
                lc = lin(cnt)
                if b[0] == 'ptr' and cnt == cap:
                    R.good('bounds', g.at(i))
                    continue
                if lc is None or cap is None:
                    R.bad('bounds', g.at(i), '%s reads from a buffer of unknown length' % g.name, key='%s:%s' % (g.name, describe(g, i)))
                    continue
                T = lin(cap).add(o_, -1).add(lc, -1)
                neg = not lc.nonneg() and wraps(cnt, F.proves)
                ok = F.proves(T) and not neg
                R.ob('bounds', ok, g.at(i), 'a path of %s reads %s bytes at %s of a buffer of %s without having checked that they are there' % (g.name, show_(cnt), show_(addr), show_(cap)), key='%s:%s' % (g.name, describe(g, i)))
                n += 1
            elif e[0] == 'unwrap':
                R.ob('unwrap', e[3], e[1].at(e[2]), 'the result of a bounded read is used on a path on which it was not present', key='%s:%d' % (e[1].name, sum(1 for j in e[1].calls() if j < e[2] and e[1].nodes[j].get('op') in ('*', '->'))))
            elif e[0] == 'write':
                F = Facts(base, e[5])
                a, b = lin(e[3]), lin(e[4])
                R.ob('bounds', a is not None and b is not None and F.proves(a.add(b, -1)), e[1].at(e[2]), 'a copy of decoded bytes may be larger than the vector it fills', key=e[1].name + ':destination')
        if o.kind != 'ret':
            continue
        end = [e for e in o.log if e[0] == 'end']
        if not end:
            continue
        F = Facts(base, o.facts)
        public = f.d.get('acc') != 'private'
        if reader:
            st = end[-1][2]
            if 'offset_' in st:
                a, b_ = lin(st['size_']), lin(st['offset_'])
                ok = a is not None and b_ is not None and F.proves(a.add(b_, -1))
                R.ob('bounds', ok, f.at(), '%s can leave the position behind the end of the buffer' % f.name, key=f.name + ':position')
            short = [t for t, v in o.facts if isterm(t) and len(t) == 4 and t[0] == 'bin' and t[1] in ('<', '<=', '>', '>=') and shortfall(t, v)]
            if (f.d.get('rt') or '').startswith('std::optional'):
                empty = isinstance(o.value, Opt) and not o.value.has or o.value is None
                R.ob('stop', empty or not short, f.at(), '%s returns a value although too few bytes remain' % f.name, key=f.name + ':short')
        elif public and caps and 'scalar_data' in f.rel():
            env = end[-1][1]
            caplin = [lin(c) for c in caps.values() if c is not None]
            for nm, v in env.items():
                lv = lin(v) if isterm(v) or isinstance(v, int) else None
                if lv is None or not caplin or not any(a in lv.d for a in caplin[0].d):
                    continue
                T = lv.add(caplin[0], -1)
                T.c -= 1
                if F.proves(T):
                    v_ = o.value
                    empty = v_ is None or isinstance(v_, Opt) and not v_.has or isinstance(v_, Lst) and not v_.x
                    R.ob('stop', empty, f.at(), '%s returns what it decoded although the position has run past the end' % f.name, key=f.name + ':past')
    if stuck:
        R.notes.append('%s: partly analysed (%s)' % (f.q, stuck))
    miss = [i for i in sites if i not in seen and 'BinaryReader::read' not in f.nodes[i].get('q', '')]
    if miss:
        R.notes.append('%s: %d of %d reads on no analysed path' % (f.q, len(miss), len(sites)))


def shortfall(t, v):
    op, a, b = t[1:]
    if not v:
        op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
    la, lb = lin(a), lin(b)
    if la is None or lb is None:
        return False
    d = la.add(lb, -1) if op in ('>', '>=') else lb.add(la, -1)
    return d.d.get(('v', 'size_'), 0) < 0


def describe(g, i):
    n = g.nodes[i]
    k = sorted(reads(g)).index(i) if i in reads(g) else 0
    return '%s%d' % (bname(n) if n['k'] == 'call' else n['k'], k)


def show_(t):
    l = lin(t)
    if l is None:
        return '?'
    def nm(a):
        if a[0] == 'rd':
            return 'a length read'
        if a[0] in ('base',):
            return a[1]
        if a[0] == 'v':
            return a[1].replace('P:', '')
        return a[0]
    xs = ['%s%s' % ('' if x == 1 else '%d*' % x, nm(a)) for a, x in l.d.items()]
    if l.c or not xs:
        xs.append(str(l.c))
    return '+'.join(xs)


