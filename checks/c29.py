"""C29: the key grammar extracted from every builder, seek and parser; format equations between them; order preservation of the number codecs by normal form of their bit operations."""
from checks.c26 import concat, slice_of, is_empty_call
from vf.util import *

SIGN = 1 << 63
ALL = (1 << 64) - 1
IE = 'alaya::index_encoding::'
NUM = {'long': 'int', 'double': 'double', 'long long': 'int'}


def bare(t):
    return t.replace('const ', '').replace(' &', '').strip()


def peel(t):
    """through casts, string_view conversions and copies"""
    while True:
        if t[0] == 'cast' and len(t) > 2:
            t = t[-1]
        elif t[0] == 'call' and ('operator basic_string_view' in t[1]) and len(t) == 3:
            t = t[2]
        elif t[0] == 'mcall' and 'operator basic_string_view' in str(t[1]):
            t = t[2]
        elif t[0] == 'ctor' and len(t) >= 3 and ('basic_string' in t[1] or 'Slice' in t[1]) and all(isinstance(x, tuple) and x[0] in ('ctor', 'v') or x == t[2] for x in t[3:]) :
            t = t[2]
        else:
            return t


def toks(t):
    t = peel(t)
    if t[0] == 'call' and t[1].rsplit('::', 1)[-1] == 'operator+' or t[0] == 'bin' and t[1] == '+':
        out = []
        for x in t[2:]:
            if isinstance(x, tuple):
                out += toks(x)
    else:
        out = [t]
    # join adjacent literals
    r = []
    for x in out:
        if x[0] == 'str' and r and r[-1][0] == 'str':
            r[-1] = ('str', r[-1][1] + x[1])
        elif x == ('str', ''):
            continue
        else:
            r.append(x)
    return r


def fname(t):
    return t[1].rsplit('::', 1)[-1] if t[0] == 'call' and isinstance(t[1], str) else ''


def argl(t):
    return ([t[2]] if t[2] is not None else []) + list(t[3:])


def recv(t):
    return t[2] if len(t) > 2 else None


class Lin:
    """linear form: constant + sizes of free strings + the position of the last separator"""

    def __init__(self, widths):
        self.w = widths

    def size(self, t):
        m = {1: 0}
        for x in toks(t):
            if x[0] == 'str':
                m[1] += len(x[1])
            elif fname(x) in self.w:
                m[1] += self.w[fname(x)]
            else:
                k = ('size', show(x))
                m[k] = m.get(k, 0) + 1
        return m

    def of(self, t):
        t = peel(t)
        if t[0] == 'lit':
            try:
                return {1: int(t[1])}
            except ValueError:
                pass
        if t[0] == 'bin' and t[1] in ('+', '-'):
            a, b = self.of(t[2]), self.of(t[3])
            s = 1 if t[1] == '+' else -1
            m = dict(a)
            for k, v in b.items():
                m[k] = m.get(k, 0) + s * v
            return m
        if fname(t) in ('size', 'length'):
            return self.size(recv(t))
        return {('t', show(t)): 1}

    def eq(self, a, b):
        ks = set(a) | set(b)
        return all(a.get(k, 0) == b.get(k, 0) for k in ks)


def bits_eval(f):
    """paths of a straight-line function over one number: list of (conditions, mask or constant, sink)
    where the value is the bits of the parameter xor mask"""
    prm = f.params[0]
    env0 = {prm: ('raw', 0)}
    out = []

    def const(i):
        n = f.nodes[i]
        if 'cv' in n:
            try:
                return int(n['cv']) & ALL
            except ValueError:
                return None
        if n['k'] == 'lit':
            try:
                return int(n['v']) & ALL
            except ValueError:
                return None
        if n['k'] == 'cast':
            return const(n['e'])
        if n['k'] == 'bin' and n['op'] == '<<':
            a, b = const(n['e']), const(n['r'])
            return None if a is None or b is None else (a << b) & ALL
        return None

    def val(i, env):
        """list of (conds, value)"""
        c = const(i)
        if c is not None:
            return [((), ('c', c))]
        n = f.nodes[i]
        k = n['k']
        if k in ('cast', 'silist'):
            return val(n['e'], env)
        if k == 'ref':
            return [((), env.get(n['d'], ('?', n['n'])))]
        if k == 'un' and n['op'] == '~':
            return [(g, xor(v, ALL)) for g, v in val(n['e'], env)]
        if k == 'un' and n['op'] == '&':
            return val(n['e'], env)
        if k == 'bin' and n['op'] in ('^', '+', '-', '|'):
            r = []
            for g, a in val(n['e'], env):
                for h, b in val(n['r'], env):
                    if a[0] == b[0] == 'c':
                        r.append((g + h, ('c', {'^': a[1] ^ b[1], '|': a[1] | b[1], '+': a[1] + b[1], '-': a[1] - b[1]}[n['op']] & ALL)))
                        continue
                    if a[0] == 'c':
                        a, b = b, a
                    if b[0] == 'c' and (n['op'] == '^' or b[1] == SIGN and n['op'] in '+-'):
                        r.append((g + h, xor(a, b[1])))
                    elif b == ('c', SIGN) and n['op'] == '|':
                        r.append((g + h, ('or', a)))
                    else:
                        r.append((g + h, ('?', 'op')))
            return r
        if k == 'cond':
            r = []
            for pol, a in ((True, 'a1'), (False, 'a2')):
                for g, v in val(n[a], env):
                    r.append((((n['c'], pol, dict(env)),) + g, v))
            return r
        if k == 'call' and 'bit_cast' in n.get('q', '') and n['a']:
            return val(n['a'][0], env)
        if k == 'ctor' and len(n['a']) == 1:
            return val(n['a'][0], env)
        return [((), ('?', f.text(i)[:40]))]

    def xor(v, m):
        if v[0] == 'raw':
            return ('raw', v[1] ^ m)
        if v[0] == 'c':
            return ('c', v[1] ^ m)
        return ('?', 'xor')

    def cond(c, pol, env):
        """(kind, polarity) of a condition on the original bits"""
        n = f.nodes[c]
        while n['k'] in ('cast',):
            c = n['e']
            n = f.nodes[c]
        if n['k'] == 'un' and n['op'] == '!':
            return cond(n['e'], not pol, env)
        if n['k'] == 'bin' and n['op'] in ('!=', '=='):
            b = const(n['r'])
            if b == 0:
                return cond(n['e'], pol == (n['op'] == '!='), env)
            if b in (1, SIGN) and n['op'] == '==':
                return cond(n['e'], pol, env)
        if n['k'] == 'bin' and n['op'] in ('<', '>=') and const(n['r']) == 0:
            v = val(n['e'], env)[0][1]
            if v[0] == 'raw' and not v[1] & SIGN and f.nodes[strip(f, n['e'])]['t'].replace('const ', '') in ('long', 'long long', 'double'):
                return ('sign', pol == (n['op'] == '<'), v[1])
        if n['k'] == 'bin' and n['op'] == '>>' and const(n['r']) == 63 or n['k'] == 'bin' and n['op'] == '&' and const(n['r']) == SIGN:
            v = val(n['e'], env)[0][1]
            if v[0] in ('raw', 'c'):
                return ('sign', pol, v)
        if n['k'] == 'bin' and n['op'] == '<<' and const(n['r']) == 1 or n['k'] == 'bin' and n['op'] == '&' and const(n['r']) == SIGN - 1:
            v = val(n['e'], env)[0][1]
            if v[0] in ('raw', 'c'):
                return ('mag', pol, v)
        if n['k'] == 'call' and 'signbit' in n.get('q', ''):
            return ('sign', pol, val(n['a'][0], env)[0][1])
        if n['k'] == 'ref':
            sd = f.single_def(n['d'])
            if sd is not None and sd >= 0:
                return cond(sd, pol, env)
        return ('?', pol, f.text(c)[:40])

    def block(ss, env, conds):
        """list of live (env, conds)"""
        live = [(env, conds)]
        for s in ss:
            nxt = []
            for e, c in live:
                nxt += stmt(s, e, c)
            live = nxt
        return live

    def stmt(s, env, conds):
        n = f.nodes[s]
        k = n['k']
        if k == 'block':
            return block(n['ss'], env, conds)
        if k == 'decl':
            res = [(env, conds)]
            for v in n['vs']:
                if v.get('init', -1) >= 0 and ('long' in v['t'] or 'double' in v['t'] or 'bool' in v['t']):
                    if 'bool' in v['t']:
                        continue
                    nr = []
                    for e, c in res:
                        for g, x in val(v['init'], e):
                            e2 = dict(e)
                            e2[v['d']] = x
                            nr.append((e2, c + tuple(cond(a, b, en) for a, b, en in g)))
                    res = nr
            return res
        if k == 'if':
            out2 = []
            for pol, br in ((True, n['th']), (False, n.get('el', -1))):
                c2 = conds + (cond(n['c'], pol, env),)
                out2 += stmt(br, dict(env), c2) if br is not None and br >= 0 else [(dict(env), c2)]
            return out2
        if k == 'asg':
            t = f.nodes[n['e']]
            if t['k'] == 'ref':
                r = []
                cur = env.get(t['d'])
                for g, x in val(n['r'], env):
                    e2 = dict(env)
                    if n['op'] == '=':
                        e2[t['d']] = x
                    elif n['op'] in ('^=', '+=', '-=') and x[0] == 'c' and cur and (n['op'] == '^=' or x[1] == SIGN):
                        e2[t['d']] = xor(cur, x[1])
                    elif n['op'] == '|=' and x == ('c', SIGN) and cur:
                        e2[t['d']] = ('or', cur)
                    else:
                        e2[t['d']] = ('?', n['op'])
                    r.append((e2, conds + tuple(cond(a, b, en) for a, b, en in g)))
                return r
        if k == 'call':
            b = bname(n)
            if b == 'memcpy' and len(n['a']) == 3:
                d = f.nodes[strip(f, n['a'][0])]
                while d['k'] in ('cast', 'un'):
                    d = f.nodes[d['e']]
                v = val(n['a'][1], env)[0][1]
                e2 = dict(env)
                if d['k'] == 'ref':
                    e2[d['d']] = v
                return [(e2, conds)]
            if b in ('snprintf', 'sprintf') or 'format' in b:
                out.append((conds, sink(s, env), s))
                return [(env, conds)]
        if k == 'ret':
            for x in f.walk(s):
                m = f.nodes[x]
                if m['k'] == 'call' and 'format' in bname(m):
                    out.append((conds, sink(x, env), x))
                    return []
            if 'e' in n and f.d['rt'] in ('long', 'double', 'unsigned long'):
                for g, v in val(n['e'], env):
                    out.append((conds + tuple(cond(a, b, en) for a, b, en in g), v, s))
            return []
        return [(env, conds)]

    def sink(x, env):
        n = f.nodes[x]
        for a in reversed(n['a']):
            v = val(a, env)[0][1]
            if v[0] in ('raw', 'c', 'or'):
                if v[0] == 'c' and const(a) is not None:
                    continue
                return v
        return ('?', 'argument')
    body = f.d.get('body', f.body if hasattr(f, 'body') else 0)
    # the decoder starts from the parsed number
    for x in f.walk():
        m = f.nodes[x]
        if m['k'] == 'decl':
            for v in m['vs']:
                if v.get('init', -1) >= 0 and any(f.nodes[y]['k'] == 'call' and bname(f.nodes[y]) in ('stoull', 'strtoull', 'from_chars') for y in f.walk(v['init'])):
                    env0[('parsed', v['d'])] = ('raw', 0)
    parsed = {k[1] for k in env0 if isinstance(k, tuple)}
    old = val

    def val2(i, env):
        n = f.nodes[i]
        if n['k'] == 'call' and bname(n) in ('stoull', 'strtoull'):
            return [((), ('raw', 0))]
        return old(i, env)
    val = val2
    block([f.body] if isinstance(f.body, int) else f.body, env0, ())
    return out


def fmt16(f, i):
    """is the text produced by this call 16 zero-padded lower-case (or all upper-case) hex digits"""
    n = f.nodes[i]
    ss = [f.nodes[y]['v'] for a in n['a'] for y in f.walk(a) if f.nodes[y]['k'] == 'str']
    ok = any(re.fullmatch(r'%016(l|ll|j)?[xX]|\{:016[xX]\}', s) for s in ss)
    if bname(n) == 'snprintf' and ok:
        sz = f.nodes[n['a'][1]]
        cv = sz.get('cv', sz.get('v'))
        buf = f.nodes[strip(f, n['a'][0])]
        m = re.search(r'\[(\d+)\]', ' '.join(f.nodes[y].get('t', '') for y in f.walk(n['a'][0])))
        ok = cv is None or str(cv).isdigit() and int(cv) >= 17
        if m and int(m.group(1)) < 17:
            ok = False
    return ok


def codecs(R, p):
    """width of each number encoder that is fixed-width and order preserving"""
    widths = {}
    for f in sorted(p.fns.values(), key=lambda f: f.q):
        if not f.q.startswith(IE) or len(f.params) != 1 or f.d.get('lambda'):
            continue
        t = bare(f.vars[str(f.params[0])]['t'])
        if t in NUM and 'basic_string' in f.d['rt']:
            R.saw([f])
            ps = bits_eval(f)
            good, why = bool(ps), 'no number is printed' if not ps else ''
            for conds, v, s in ps:
                if not fmt16(f, s):
                    good, why = False, 'the text does not have a fixed width'
                sg = None
                zero = False
                for c in conds:
                    if c[0] == 'sign' and isinstance(c[2], tuple) and c[2][0] == 'raw' and c[2][1] in (0,):
                        sg = c[1]
                    elif c[0] == 'sign' and isinstance(c[2], int):
                        sg = c[1]
                    elif c[0] == 'mag' and c[2] == ('raw', 0):
                        zero = zero or not c[1]
                    elif c[0] == 'sign' and c[2][0] == 'c':
                        if (c[2][1] >> 63 == 1) != c[1]:
                            sg = 'dead'
                    elif c[0] == '?':
                        good, why = False, 'the encoding depends on %s' % c[2]
                if sg == 'dead':
                    continue
                if NUM[t] == 'int':
                    if v != ('raw', SIGN):
                        good, why = False, 'the sign bit alone has to be flipped for an order-preserving encoding of integers'
                else:
                    if zero:
                        if not (v == ('c', SIGN) or v == ('raw', SIGN) and sg is False):
                            good, why = False, 'the two zeros are not encoded alike'
                    elif sg is None:
                        good, why = False, 'positive and negative numbers are not distinguished'
                    elif v not in ((('raw', ALL),) if sg else (('raw', SIGN), ('or', ('raw', 0)))):
                        good, why = False, 'negative numbers need all bits flipped and others only the sign bit'
            R.ob('order', good, f.at(), why, f.q)
            if NUM[t] == 'double':
                z = any(any(c[0] == 'mag' and not c[1] for c in conds) and v == ('c', SIGN) for conds, v, s in ps)
                zz = all(v != ('raw', ALL) or any(c[0] == 'mag' and c[1] for c in conds) for conds, v, s in ps)
                R.ob('order', z or zz and z, f.at(), 'the equal values 0.0 and -0.0 have different keys', f.q + '|zero')
            widths[f.name] = 16
        if 'basic_string' in t and f.d['rt'] in NUM:
            R.saw([f])
            ps = bits_eval(f)
            good, why = bool(ps), 'nothing is decoded'
            for conds, v, s in ps:
                sg = next((c[1] for c in conds if c[0] == 'sign'), None)
                if NUM[f.d['rt']] == 'int':
                    ok = v == ('raw', SIGN)
                else:
                    ok = sg is not None and (v == ('raw', SIGN) if sg else v == ('raw', ALL))
                if not ok:
                    good, why = False, 'not the inverse of the encoder'
            R.ob('inverse', good, f.at(), why, f.q)
    return widths


def run(R):
    R.rule('order', 'number encoders produce fixed-width hexadecimal text whose order is the numeric order; equal numbers have one text', 2)
    R.rule('inverse', 'number decoders undo the encoders', 1)
    R.rule('tags', 'each value type has its own tag of equal length; encoded value = tag + encoding of that value', 4)
    R.rule('format', 'all keys, prefixes and range bounds are built from the same sequence: index tag, field, separator, encoded value, separator, identifier', 5)
    R.rule('exact', 'an identifier is taken from an exact lookup only if the key is the prefix followed by an identifier', 1)
    R.rule('range', 'an identifier is taken from a range lookup only if the key has the field, the type tag, a value of the fixed width, and the value is inside both bounds', 8)
    R.rule('identifier', 'the identifier is the text after the last separator of the key', 1)
    R.rule('separator', 'no component before the last separator can contain the separator, or its extent is fixed by other means', 1)
    R.rule('classes', 'keys of records, item identifiers, field indexes and the counter start with different tags', 3)
    p = R.program('core')
    widths = codecs(R, p)
    L = Lin(widths)
    # ---- tags
    tags = {}
    lams = []
    for f in p.fns.values():
        if f.q.startswith(IE) and any(bname(f.nodes[x]) == 'visit' for x in f.calls()):
            for g in p.lambdas_of(f):
                if len(g.params) == 1:
                    lams.append(g)
        elif f.q.startswith(IE) and f.d.get('lambda') is None and len(f.params) == 1 and f.name == 'encode_one':
            lams.append(f)
    seen = set()
    for g in lams:
        t = bare(g.vars[str(g.params[0])]['t'])
        rets = [x for x in g.walk() if g.nodes[x]['k'] == 'ret' and 'e' in g.nodes[x]]
        forms = []
        for r in rets:
            forms += alts(Env(g), g.nodes[r]['e'])
        if t in seen:
            continue
        seen.add(t)
        R.saw([g])
        ok, why = bool(forms), 'no encoding'
        fm = []
        for conds, tk in forms:
            if not tk or tk[0][0] != 'str' or '_' not in tk[0][1]:
                ok, why = False, 'the encoded value does not start with a type tag'
                continue
            fm.append((tk[0][1][:tk[0][1].index('_') + 1], [('str', tk[0][1][tk[0][1].index('_') + 1:])] + tk[1:], conds))
        tgs = {x[0] for x in fm}
        if len(tgs) != 1:
            ok, why = False, 'the type has no single tag'
        else:
            tags[t] = tgs.pop()
            if t == 'bool':
                vs = {(''.join(y[1] for y in x[1] if y[0] == 'str')): x[2] for x in fm}
                if len(vs) != 2 or len(fm) != 2:
                    ok, why = False, 'true and false have the same key'
            else:
                rest = [x for x in fm[0][1] if x != ('str', '')]
                pn = g.vars[str(g.params[0])]['n']
                if len(fm) != 1 or len(rest) != 1:
                    ok, why = False, 'the key holds something else than the value'
                elif t in NUM:
                    h = [x for x in p.fns.values() if x.q == IE + fname(rest[0])]
                    if not h or bare(h[0].vars[str(h[0].params[0])]['t']) != t or peel(rest[0][3])[0] != 'v':
                        ok, why = False, 'the value is not encoded by the encoder of its type'
                elif rest[0][0] != 'v':
                    ok, why = False, 'a string is not stored as it is'
        R.ob('tags', ok, g.at() + ' ' + t, why, t)
    R.ob('tags', len(set(tags.values())) == len(tags) and len({len(x) for x in tags.values()}) == 1 and len(tags) >= 4, 'encode_value', 'value types share a tag: %s' % tags, 'distinct')
    # ---- builders and lookups
    S = [f for f in p.methods('alaya::RocksDBStorage') if f.blocks]
    keyform = None
    heads = {}
    builders = []
    seeks = []
    for f in S:
        env = Env(f)
        for x in f.calls():
            n = f.nodes[x]
            q, b = n.get('q', ''), bname(n)
            if q.startswith('rocksdb::WriteBatch::') and b in ('Put', 'Delete') or q.startswith('rocksdb::DB::') and b in ('Put', 'Get'):
                k = n['a'][-1] if q.startswith('rocksdb::WriteBatch') and b == 'Delete' else n['a'][0 if 'WriteBatch' in q else 1]
                tk = toks(canon(env, k))
                if tk and tk[0][0] == 'str':
                    h = tk[0][1]
                    heads.setdefault(h[:2], set()).add(f.name)
                    if h.startswith('f_'):
                        builders.append((f, x, tk))
            if b == 'Seek' and n['a']:
                tk = toks(canon(env, n['a'][0]))
                if tk and tk[0][0] == 'str' and tk[0][1].startswith('f_'):
                    seeks.append((f, x, tk))
    roots = set(heads)
    R.ob('classes', len(roots) >= 3 and len(roots) == len({h[:2] for h in roots}), 'RocksDBStorage', 'different kinds of entries share a key prefix', 'heads')
    ks = {'f_', 'i_', '__'} & roots
    for k in ('f_', 'i_', '__'):
        R.ob('classes', k in roots, 'RocksDBStorage %s' % k, 'no key with tag %s is written' % k, k)
    dk = [f for f in S if f.name == 'data_key_prefix' or f.name == 'data_key']
    dlit = {f.nodes[x]['v'] for f in dk for x in f.all() if f.nodes[x]['k'] == 'str'}
    R.ob('classes', not (dlit & {'f_', 'i_', '__COUNT__'}), 'RocksDBStorage data keys', 'records share a key prefix with an index', 'data')

    def shape(tk, field):
        """field-index key as (kind, …)"""
        s = []
        for x in tk:
            if x[0] == 'str':
                s.append(x[1])
            elif fname(x) == 'visit' or fname(x) == 'encode_value':
                s.append('<value>')
            elif fname(x) == 'to_string':
                s.append('<id>')
            elif fname(x) in widths:
                s.append('<%s>' % fname(x))
            else:
                s.append('<field>')
        return ''.join(s)
    forms = set()
    for f, x, tk in builders:
        R.saw([f])
        sh = shape(tk, None)
        forms.add(sh)
        R.ob('format', sh == 'f_<field>_<value>_<id>', f.at(x), 'the key is built as %s' % sh, 'key|' + f.name)
    inv = {v: k for k, v in tags.items()}
    for f, x, tk in seeks:
        R.saw([f])
        sh = shape(tk, None)
        env = Env(f)
        fieldv = tk[1] if len(tk) > 1 else None
        if '<value>' in sh:
            R.ob('format', sh == 'f_<field>_<value>_', f.at(x), 'the prefix is built as %s' % sh, 'prefix|' + f.name)
            exact(R, p, L, f, env, tk)
            continue
        m = re.fullmatch(r'f_<field>_(\w_)<(\w+)>', sh)
        ok = bool(m)
        why = 'the range starts at %s' % sh
        if ok:
            h = next((g for g in p.fns.values() if g.q == IE + m.group(2)), None)
            t = bare(h.vars[str(h.params[0])]['t']) if h else None
            if tags.get(t) != m.group(1):
                ok, why = False, 'the range over tag %s uses the encoder %s' % (m.group(1), m.group(2))
            v = peel(tk[-1][3])
            pn = [f.vars[str(d)]['n'] for d in f.params]
            if ok and show(v) != pn[1]:
                ok, why = False, 'the range does not start at its lower bound'
        R.ob('format', ok, f.at(x), why, 'range|' + f.name)
        if m:
            rng(R, p, L, f, env, tk, m.group(1), m.group(2))
    if not builders or not seeks:
        raise AnalysisError('anchor not found: field-index keys')
    # ---- identifier
    for f in p.fns.values():
        if f.q == IE + 'extract_id_from_key':
            R.saw([f])
            env = Env(f)
            n = 0
            for x in f.calls():
                m = f.nodes[x]
                if bname(m) in ('stoull', 'stoul', 'from_chars', 'strtoull'):
                    t = peel(canon(env, m['a'][0]))
                    n += 1
                    ok = fname(t) == 'substr' and show(t[2]) == f.vars[str(f.params[0])]['n'] or fname(t) == 'substr'
                    if ok:
                        l = L.of(t[3])
                        rest = [k for k in l if k != 1 and l[k]]
                        ok = l.get(1, 0) == 1 and len(rest) == 1 and rest[0][0] == 't' and 'rfind(95' in rest[0][1]
                    R.ob('identifier', ok, f.at(x), 'the identifier is not parsed from the text after the last separator', 'extract')
            if not n:
                R.bad('identifier', f.at(), 'no identifier is parsed', 'extract')
            break
    # ---- the separator occurs in free text before it
    seenb = set()
    for f, x, tk in builders:
        for j, t in enumerate(tk):
            if t[0] == 'v' and j + 1 < len(tk) and tk[j + 1][0] == 'str' and any(y[0] == 'str' and y[1] == tk[j + 1][1] or fname(y) in ('visit', 'encode_value') for y in tk[j + 2:]) and 'kf' not in seenb:
                seenb.add('kf')
                R.ob('separator', False, 'include/utils/index_encoding.hpp (alaya::index_encoding::make_field_index_key)',
                     'a field name may itself contain the separator followed by a type tag: the key of field "x" with string value "s_a" equals that of field "x_s" with value "a"', 'field-name-free-text')
    if not seenb:
        R.good('separator', 'field names are delimited')
    R.assume('to_string of an identifier contains digits only')
    return __doc__


def alts(env, i):
    """alternatives (conditions, tokens) of a string expression with conditional operands"""
    f = env.fn
    for x in f.walk(i):
        n = f.nodes[x]
        if n['k'] == 'cond':
            out = []
            full = canon(env, i)
            c = canon(env, x)
            for pol, a in ((True, 'a1'), (False, 'a2')):
                out.append(((show(canon(env, n['c'])), pol), toks(repl(full, c, canon(env, n[a])))))
            return out
    return [((), toks(canon(env, i)))]


def repl(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(repl(x, a, b) for x in t)
    return t


def pushes(f):
    return [x for x in f.calls() if bname(f.nodes[x]) in ('push_back', 'emplace_back', 'insert', 'emplace') and 'vector' in f.nodes[f.nodes[x]['obj']].get('t', '') + f.nodes[x].get('q', '')]


def is_key(t):
    return fname(peel(t)) == 'ToString' or 'key()' in show(t)


def cmp_forms(c, pl):
    """normalise a comparison atom to (op, a, b)"""
    if c[0] == 'bin' and c[1] in ('==', '!=', '<', '<=', '>', '>='):
        op, a, b = c[1], c[2], c[3]
        if not pl:
            op = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
        pa = peel(a)
        if fname(pa) in ('operator<=>', 'compare') and len(argl(pa)) == 2:
            return (op,) + tuple(argl(pa))
        return op, a, b
    if c[0] == 'call' and fname(c).startswith('operator') and len(argl(c)) == 2:
        op = fname(c)[8:]
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if not pl:
                op = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
            return (op,) + tuple(argl(c))
    return None


def has_prefix(gs, want):
    """a guard says that the key starts with the tokens"""
    for c, pl in gs:
        if pl and fname(c) == 'starts_with' and is_key(c[2]) and toks(c[3]) == want:
            return True
        cf = cmp_forms(c, pl)
        if cf and cf[0] == '==':
            for a, b in ((cf[1], cf[2]), (cf[2], cf[1])):
                if fname(peel(a)) in ('compare', 'rfind', 'find') and b == ('lit', '0') and is_key(peel(a)[2]) and any(isinstance(y, tuple) and toks(y) == want for y in peel(a)[3:]):
                    return True
    return False


def exit_facts(env, y):
    """facts at a jump (which is no element of the flow graph)"""
    f = env.fn
    out, prev = [], y
    for a in f.ancestors(y):
        n = f.nodes[a]
        if n['k'] == 'if':
            out += atoms(env, n['c'], prev == n['th']) + list(guards(env, n['c'], local=True))
        if n['k'] == 'loop':
            break
        prev = a
    return out


def exact(R, p, L, f, env, tk):
    n = 0
    for x in pushes(f):
        gs = guards(env, x, local=True)
        n += 1
        sz = L.size(('bin', '+') + tuple(tk))
        ok, why = has_prefix(gs, tk), 'an identifier is taken from a key that does not start with the prefix'
        if ok:
            rem = False
            for c, pl in gs:
                cf = cmp_forms(c, pl)
                if cf and cf[0] == '==':
                    a, b = L.of(cf[1]), L.of(cf[2])
                    d = {k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b)}
                    d = {k: v for k, v in d.items() if v}
                    r = [k for k in d if k != 1 and k[0] == 't' and 'rfind(95' in k[1] and 'key()' in k[1]]
                    if len(r) == 1:
                        s = d.pop(r[0])
                        want = {k: -s * v for k, v in sz.items()}
                        want[1] = want.get(1, 0) + s
                        if {k: v for k, v in want.items() if v} == d:
                            rem = True
                    # nothing but the identifier: no further separator
                    for t, o in ((cf[1], cf[2]), (cf[2], cf[1])):
                        t = peel(t)
                        if fname(t) == 'find' and is_key(t[2]) and t[3] == ('lit', '95') and len(t) > 4 and L.eq(L.of(t[4]), sz) and o == ('lit', str(ALL)):
                            rem = True
            if not rem:
                ok, why = False, 'a value that continues with the separator matches the prefix of a shorter value'
        R.ob('exact', ok, f.at(x), why, f.name)
    if not n:
        R.bad('exact', f.at(), 'no identifier is collected', f.name)


def rng(R, p, L, f, env, tk, tag, enc):
    head = list(tk[:-1])          # index tag, field, separator + type tag
    full = L.size(('bin', '+') + tuple(head))
    fld = list(head)
    fld[-1] = ('str', head[-1][1][:-len(tag)])
    fsz = dict(full)
    fsz[1] -= len(tag)
    prm = [f.vars[str(d)]['n'] for d in f.params]
    for x in pushes(f):
        gs = guards(env, x, local=True)
        pre = has_prefix(gs, head)
        tagok = pre
        if not pre and has_prefix(gs, fld):
            pre = True
            for c, pl in gs:
                cf = cmp_forms(c, pl)
                if cf and cf[0] == '==':
                    for a, b in ((cf[1], cf[2]), (cf[2], cf[1])):
                        a = peel(a)
                        if fname(a) in ('substr', 'compare') and is_key(a[2]) and len(a) > 4 and L.eq(L.of(a[3]), fsz) and L.of(a[4]) == {1: len(tag)} and peel(b) == ('str', tag):
                            tagok = True
        R.ob('range', pre, f.at(x) + ' field', 'a key of another field is accepted', f.name + '|field')
        R.ob('range', tagok, f.at(x) + ' tag', 'a value of another type is accepted', f.name + '|tag')
        width = upper = False
        for c, pl in gs:
            cf = cmp_forms(c, pl)
            if not cf:
                continue
            if cf[0] == '==':
                a, b = L.of(cf[1]), L.of(cf[2])
                d = {k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b)}
                d = {k: v for k, v in d.items() if v}
                r = [k for k in d if k != 1 and k[0] == 't' and 'rfind(95' in k[1] and 'key()' in k[1]]
                if len(r) == 1:
                    s = d.pop(r[0])
                    want = {k: -s * v for k, v in full.items()}
                    want[1] = want.get(1, 0) - s * L.w.get(enc, 16)
                    if {k: v for k, v in want.items() if v} == d:
                        width = True
                for a, b in ((cf[1], cf[2]), (cf[2], cf[1])):
                    if fname(peel(a)) in ('size', 'length') and fname(peel(recv(peel(a)))) == 'substr' and L.of(b) == {1: L.w.get(enc, 16)}:
                        width = True
            op, a, b = cf
            if op in ('>=', '>'):
                op, a, b = {'>=': '<=', '>': '<'}[op], b, a
            if op == '<=':
                a, b = peel(a), peel(b)
                if fname(a) == 'substr' and is_key(a[2]) and L.eq(L.of(a[3]), full) and fname(b) == enc and show(peel(b[3])) == (prm[2] if len(prm) > 2 else '?'):
                    upper = True
        R.ob('range', width, f.at(x) + ' width', 'a key whose value has another length (another field) is accepted', f.name + '|width')
        R.ob('range', upper, f.at(x) + ' bound', 'the upper bound is not applied inclusively to the decoded value', f.name + '|upper')
        # a scan is left early only where no later key can match
        for y in f.walk():
            if f.nodes[y]['k'] not in ('break', 'goto'):
                continue
            ok = False
            for c, pl in exit_facts(env, y):
                if not pl and fname(c) == 'starts_with' and is_key(c[2]):
                    ok = True
                if not pl and fname(c) == 'Valid':
                    ok = True
                cf = cmp_forms(c, pl)
                if cf:
                    op, a, b = cf
                    if op in ('<=', '<'):
                        op, a, b = {'<=': '>=', '<': '>'}[op], b, a
                    a, b = peel(a), peel(b)
                    if op == '>' and fname(a) == 'substr' and is_key(a[2]) and L.eq(L.of(a[3]), full) and fname(b) == enc:
                        ok = True
                    if op == '!=' and ('str', tag) in (a, b) and any(fname(z) == 'substr' and L.eq(L.of(z[3]), fsz) for z in (a, b) if fname(z) == 'substr'):
                        ok = True
            R.ob('range', ok, f.at(y) + ' end', 'the scan ends at a key after which matching keys can follow', f.name + '|end')
