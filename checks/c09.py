"""C09: the sequence of transfers every save/serialize function performs is extracted with callees inlined and matched against the one its load/deserialize counterpart performs: order, width, count, repetition, condition and destination field."""
from vf.ioseq import *
from vf.flow import *

TUS = ('core', 'disk', 'diskann', 'space', 'vamana', 'lasertp', 'py')
PAIR = [('save', 'load'), ('serialize', 'deserialize'), ('write_', 'read_'), ('save_', 'load_'), ('dump_', 'load_')]


def class_pairs(p, SW, SR):
    C = {}
    for f in p.fns.values():
        if f.cls and not f.file.startswith('/usr') and not f.d.get('lambda'):
            C.setdefault((f.cls, f.id.split('#')[0].rsplit('::', 1)[0]), {})[f.name] = f
    for (c, k), m in sorted(C.items()):
        for a, g in sorted(m.items()):
            for wn, rn in PAIR:
                if a == wn or wn.endswith('_') and a.startswith(wn):
                    r = m.get(a.replace(wn, rn, 1))
                    if r is not None and g.id in SW.hot and r.id in SR.hot:
                        yield g, r


def many_files(p, f, hot):
    """the function delegates to members that each use a file of their own"""
    n = 0
    for x in f.calls():
        c = f.nodes[x]
        g = p.get(c.get('f'))
        if g is not None and g.id in hot and bname(c) in ('save', 'load') and 'obj' in c:
            if not any('stream' in g.vars[str(d)].get('t', '') for d in g.params):
                n += 1
    return n


def member_files(p, f):
    """member object -> parameter naming its file, for each save/load call on a member; through single-assignment aliases"""
    out = {}
    env = Env(f)
    for x in f.calls():
        c = f.nodes[x]
        if bname(c) in ('save', 'load') and 'obj' in c and c['a']:
            o = path(env, strip(f, c['obj']))
            t = canon(env, c['a'][0])
            ps = [s[1] for s in subterms(t) if s[0] == 'v' and s[1].startswith('L:')]
            d = [f.params.index(int(q.split('.')[0].split('#')[-1])) for q in ps if q.split('#')[-1].isdigit() and int(q.split('#')[-1]) in f.params] if ps else []
            out.setdefault(o, set()).add((show(t), x))
    return out


def run(R):
    R.rule('field-for-field', 'the reader performs the same transfers as the writer: same order, width, element count, repetition count and conditions, and stores each into the field it was written from', 8)
    R.rule('not-dropped', 'a member that is written is read into something that is used', 8)
    R.rule('vamana-file', 'every writer of a graph file produces the sequence every reader of graph files consumes', 2)
    R.rule('header-offsets', 'a header value is read from the offset and with the width with which it was written, into the field it was written from', 5)
    R.rule('member-file', 'each member of an index is loaded from the file it was saved to', 2)
    R.rule('record-codec', 'a scalar record is decoded in the order and with the widths with which it was encoded', 1)
    p = R.program(*TUS)
    SW, SR = Seq(p, 'w'), Seq(p, 'r')
    for g, r in class_pairs(p, SW, SR):
        if sum('stream' not in g.vars[str(d)].get('t', '') and 'string' in g.vars[str(d)].get('t', '') for d in g.params) > 1 or many_files(p, g, SW.hot) > 1 or many_files(p, r, SR.hot) > 1 or delegates(p, g):
            continue
        W, L = SW.fn(Env(g)), SR.fn(Env(r))
        compare(R, 'field-for-field', W, L, g, r, True)
        unused(R, W, L, g, r)
    R.saw(SW.fns | SR.fns)
    vamana(R, p, SW, SR)
    offsets(R, p)
    members(R, p)
    codec(R, p)
    R.assume('objects are loaded by a build with the same integer sizes and byte order', 'a stream positioned after the bytes one component wrote is positioned there again when the component before it has been read')


def delegates(p, f):
    """the function hands its path arguments on to several members"""
    env = Env(f)
    return len({path(env, strip(f, f.nodes[x]['obj'])) for x in f.calls() if bname(f.nodes[x]) in ('save', 'load') and 'obj' in f.nodes[x] and 'path' in f.text(f.nodes[x]['a'][0] if f.nodes[x]['a'] else x)}) > 1


def compare(R, rule, W, L, g, r, same):
    M = Match(same)
    ds = M.run(W, L)
    for _ in range(M.pairs):
        R.good(rule, g.at())
    for k, ws, rs, msg in ds:
        R.bad(rule, ws or rs or g.at(), '%s / %s: %s (reader at %s)' % (g.q, r.q, msg, rs), key='%s:%s:%s' % (k, g.q, msg[:80]))
    return M


def unused(R, W, L, g, r):
    ws, ls = list(flat(simplify(W))), list(flat(simplify(L)))
    for i, x in enumerate(ls):
        if i >= len(ws) or x[3][0] != 'v' or not x[3][1].startswith('L:'):
            continue
        env, n = x[6]
        f = env.fn
        fw = Match.field(ws[i][3])
        # the local the bytes go to must be used after the transfer
        ds = {f.nodes[y]['d'] for y in f.walk(f.nodes[n]['a'][0]) if f.nodes[y]['k'] == 'ref' and 'd' in f.nodes[y] and not f.nodes[y].get('isfn')}
        if any(f.vars.get(str(d), {}).get('k') != 'local' for d in ds):
            continue
        call = set(f.walk(n))
        used = any(f.nodes[y]['k'] == 'ref' and f.nodes[y].get('d') in ds and y not in call for y in f.walk())
        R.ob('not-dropped', used, f.at(n), '%s is written by %s but what %s reads for it is never used' % (fw or show(ws[i][3]), g.q, r.q), key='drop:%s:%s' % (g.q, fw or show(ws[i][3])))


HEAD = (8, 4, 4, 8)
ENTRY = re.compile(r'^_?(start|medoid|ep|entry\w*|centroid\w*)_?$')
DEGREE = re.compile(r'^_?(R|\w*degree\w*|\w*range\w*|max_nbrs)_?$')


def graph_form(items):
    """does the sequence start with the graph header followed by counted lists; returns a problem or None"""
    items = simplify(items)
    h = [x for x in items[:4]]
    if len(h) < 4 or any(x[0] != 'io' or x[2] for x in h) or tuple(x[1] for x in h) != HEAD:
        return 'header is %s, not %s' % ([x[1] if x[0] == 'io' else x[0] for x in h], list(HEAD))
    rest = [x for x in items[4:] if x[0] != 'opt' or x[2] or x[3]]
    reps = [x for x in rest if x[0] == 'rep']
    if not reps:
        return 'no repeated node record'
    b = reps[0][2]
    ios = [x for x in flat(b)]
    if len(ios) < 2 or ios[-2][1] != 4 or ios[-2][2] or ios[-1][1] != 4 or not ios[-1][2]:
        return 'node record is %s' % [(x[1], len(x[2])) for x in ios]
    cnt = ios[-2][3]
    if not any(cnt == s or s == cnt for t in ios[-1][2] for s in subterms(t)) and not any(cnt in list(subterms(t)) or t in list(subterms(cnt)) for t in ios[-1][2]):
        return 'the list length is not the count stored before it'
    return None


def vamana(R, p, SW, SR):
    """functions whose own transfers begin with the header of a graph file"""
    for role, S, pat in (('writes', SW, W_STREAM), ('reads', SR, R_STREAM)):
        for f in sorted(p.fns.values(), key=lambda f: f.id):
            if not f.rel().startswith('include/index/graph/') or f.d.get('lambda'):
                continue
            if not (role == 'writes' and f.name in ('save_graph', 'merge_shards') or role == 'reads' and ('Vamana' in (f.cls or '') and f.d.get('ctor') and f.params or f.name == 'init_from_vamana')):
                continue
            items = S.fn(Env(f))
            if role == 'writes' and f.name == 'merge_shards':
                items = drop_until(items)
            ios = list(flat(simplify(items)))
            if len(ios) < 4:
                continue
            R.saw([f])
            w = graph_form(items)
            R.ob('vamana-file', w is None, f.at(), '%s %s a graph file in another form: %s' % (f.q, role, w), key='vamana:' + f.q)
            # meaning of the header: degree bound first, entry point second
            for j, wrong, name in ((1, ENTRY, 'degree bound'), (2, DEGREE, 'entry point')):
                nm = last(ios[j][3]) or ''
                R.ob('vamana-file', not wrong.search(nm), ios[j][4], '%s %s %s where the format has the %s' % (f.q, role, nm, name), key='vamanaf:%s:%d' % (f.q, j))


def drop_until(items):
    """transfers from the first 8-byte field on (the merger reads its inputs through other functions)"""
    for i, x in enumerate(items):
        if x[0] == 'io' and x[1] == 8 and not x[2]:
            out = []
            for y in items[i:]:
                out.append(y)
            return out
    return items


def offsets(R, p):
    put, get = {}, {}
    for f in p.fns.values():
        if not f.rel().startswith('include/index/') or not any(bname(f.nodes[x]).startswith(('put_u', 'get_u')) for x in f.calls()):
            continue
        if bname({'q': f.q}).startswith(('put_u', 'get_u')):
            continue
        env = Env(f)
        for x in f.calls():
            n = f.nodes[x]
            b = bname(n)
            if b.startswith('put_u') and len(n['a']) == 3:
                put.setdefault(f.nodes[n['a'][1]].get('cv', show(canon(env, n['a'][1]))), []).append((b[4:], last(canon(env, n['a'][2], subst=False)), f, x))
            if b.startswith('get_u') and len(n['a']) == 2:
                par = f.parent().get(x)
                while par is not None and f.nodes[par]['k'] in ('cast', 'silist'):
                    par = f.parent().get(par)
                dst = None
                if par is not None and f.nodes[par]['k'] == 'asg':
                    dst = last(canon(env, f.nodes[par]['e'], subst=False))
                get.setdefault(f.nodes[n['a'][1]].get('cv', show(canon(env, n['a'][1]))), []).append((b[4:], dst, f, x))
        R.saw([f])
    for k, L in get.items():
        for w, dst, f, x in L:
            ws = put.get(k, [])
            if not ws:
                if put:
                    R.bad('header-offsets', f.at(x), 'reads a header value at offset %s that is never written there' % k, key='off:%s' % k)
                continue
            for pw, src, g, y in ws:
                R.ob('header-offsets', pw == w, f.at(x), 'offset %s: written as %s at %s, read as %s' % (k, pw, g.at(y), w), key='offw:%s' % k)
                if dst and src:
                    R.ob('header-offsets', dst.strip('_') == src.strip('_'), f.at(x), 'offset %s: %s is written at %s, read into %s' % (k, src, g.at(y), dst), key='offn:%s:%s:%s' % (k, src, dst))
    for k, L in put.items():
        R.ob('header-offsets', k in get, L[0][2].at(L[0][3]), 'header value at offset %s is written but never read' % k, key='offr:%s' % k)
        R.ob('header-offsets', len({s for _, s, _, _ in L if s}) <= 1, L[0][2].at(L[0][3]), 'offset %s is written with different values' % k, key='offd:%s' % k)


def last(t):
    while t[0] in ('call', 'cast', 'ctor') and len(t) > 2 and t[0] != 'v':
        t = t[-1]
    if t[0] == 'v':
        return t[1].rsplit('.', 1)[-1].split('#')[0].split(':')[-1]
    return None


def members(R, p):
    C = {}
    for f in p.fns.values():
        if f.cls and not f.file.startswith('/usr') and not f.d.get('lambda') and 'save' in f.name or 'load' in f.name and f.cls:
            if delegates(p, f):
                C.setdefault(f.id.split('#')[0].rsplit('::', 1)[0], {})[f.name] = f
    for k, m in sorted(C.items()):
        ss = [f for n, f in m.items() if 'save' in n]
        ls = [f for n, f in m.items() if 'load' in n]
        for s in ss:
            for l in ls:
                if s.name.replace('save', '') != l.name.replace('load', ''):
                    continue
                R.saw([s, l])
                A, B = ordinals(s), ordinals(l)
                for o in sorted(set(A) | set(B)):
                    if o in A and o in B:
                        R.ob('member-file', A[o] & B[o], l.at(), '%s is saved to argument %s and loaded from argument %s' % (o, sorted(A[o]), sorted(B[o])), key='mf:%s:%s' % (s.cls, o))
                files = {}
                for o, v in B.items():
                    for a in v:
                        files.setdefault(a, set()).add(o)
                for a, v in files.items():
                    R.ob('member-file', any(a in A.get(o, ()) for o in v), l.at(), 'argument %d is loaded into %s, to which nothing of the kind is saved' % (a, sorted(v)), key='mfa:%s:%d' % (s.cls, a))


def ordinals(f):
    """member -> set of parameter positions its save/load call names its file with"""
    env = Env(f)
    out = {}
    for x in f.calls():
        c = f.nodes[x]
        if bname(c) not in ('save', 'load') or 'obj' not in c or not c['a']:
            continue
        o = path(env, strip(f, c['obj'])).replace('->', '.').rstrip('*')
        for y in reach_params(f, c['a'][0]):
            out.setdefault(o, set()).add(y)
    return out


def reach_params(f, i, seen=None):
    seen = seen if seen is not None else set()
    out = set()
    for y in f.walk(i):
        n = f.nodes[y]
        if n['k'] == 'ref' and 'd' in n and n['d'] not in seen:
            seen.add(n['d'])
            if n['d'] in f.params:
                out.add(f.params.index(n['d']))
            else:
                sd = f.single_def(n['d'])
                if sd is not None and sd >= 0:
                    out |= reach_params(f, sd, seen)
    return out


class Codec:
    """bytes a record function appends to its buffer, or the distances by which it advances its cursor, as a nested form:
    int = fixed bytes, 'len' = as many bytes as the count just transferred, ('rep', form), ('alt', {tag: form}), ('call', kind)"""
    def __init__(self, p):
        self.p = p
        self.memo = {}

    def form(self, f):
        if f.id not in self.memo:
            self.memo[f.id] = ()
            self.cursors = None
            self.memo[f.id] = tuple(self.norm(self.node(f, f.body)))
        return self.memo[f.id]

    @staticmethod
    def norm(L):
        return [x for x in L if x != ('alt0',)]

    def is_buffer(self, f, i):
        i = strip(f, i)
        n = f.nodes[i]
        return n['k'] == 'ref' and 'vector<char>' in f.vars.get(str(n.get('d')), {}).get('t', '')

    def cursor(self, f, i):
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] != 'ref' or 'd' not in n or n.get('isfn'):
            return False
        v = f.vars.get(str(n['d']), {})
        return v.get('n') == 'offset' or v.get('t', '').replace('const ', '') in ('unsigned long', 'unsigned long &') and self.indexes(f, n['d'])

    def indexes(self, f, d):
        """the variable is added to (or indexes) a character pointer"""
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] == 'bin' and n['op'] == '+' and f.nodes[n['e']].get('t', '').endswith('char *') and any(f.nodes[y].get('d') == d for y in f.walk(n['r'])):
                return True
            if n['k'] == 'idx' and any(f.nodes[y].get('d') == d for y in f.walk(n['i'])):
                return True
        return False

    def node(self, f, i):
        if i is None or i < 0:
            return []
        n = f.nodes[i]
        k = n['k']
        N = lambda x: self.node(f, x)
        if k == 'lam':
            return []
        if k == 'block':
            return self.stmts(f, n['ss'])
        if k == 'if':
            if n.get('cx'):
                v = f.nodes[n['c']].get('cv')
                if v is not None:
                    return N(n['th'] if int(v) else n.get('el', -1))
            a, b = N(n['th']), N(n.get('el', -1))
            c = N(n['c'])
            ex = lambda j: j not in (-1, None) and any(f.nodes[y]['k'] in ('ret', 'throw', 'break', 'continue') for y in f.walk(j))
            if not a and not b or ex(n['th']) and not a:
                return c + b
            if n.get('el', -1) in (-1, None):
                return c + ([('opt', tuple(a))] if a else [])
            return c + (a if a == b else [('either', tuple(a), tuple(b))])
        if k == 'loop':
            b = N(n['body'])
            return N(n.get('init', -1)) + ([('rep', tuple(b))] if b else [])
        if k == 'switch':
            out, cur, alts = [], None, {}
            self.cases(f, n['body'], alts)
            alts = {t: tuple(v) for t, v in alts.items() if t is not None}
            return N(n['c']) + [('alt', tuple(sorted(alts.items())))]
        if k == 'asg':
            if n['op'] == '+=' and self.cursor(f, n['e']):
                c = f.nodes[n['r']].get('cv')
                if c is None:
                    m = f.nodes[strip(f, n['r'])]
                    c = m.get('cv')
                return N(n['r']) + [int(c) if c is not None else 'len']
            return N(n['e']) + N(n['r'])
        if k == 'un' and n['op'] == '++' and self.cursor(f, n['e']):
            return [1]
        if k == 'call':
            b = bname(n)
            if 'obj' in n and self.is_buffer(f, n['obj']):
                if b == 'push_back':
                    return [1]
                if b in ('insert', 'append') and len(n['a']) >= 3:
                    env = Env(f)
                    a, e = canon(env, n['a'][-2]), canon(env, n['a'][-1])
                    if e[0] == 'bin' and e[1] == '+' and e[2] == a:
                        c, sy = split_size(e[3])
                        return [c if not sy else 'len']
                    return ['len']
            if n.get('q', '').startswith('std::visit'):
                alts = {}
                V = [f.vars[str(f.nodes[y]['d'])].get('t', '') for y in f.walk(n['a'][1]) if f.nodes[y]['k'] == 'ref' and 'd' in f.nodes[y] and not f.nodes[y].get('isfn')]
                order = variant(V[0]) if V else []
                for y in f.walk(n['a'][0]):
                    if f.nodes[y]['k'] == 'lam':
                        for g in self.p.lambdas_of(f):
                            t = g.vars[str(g.params[0])].get('t', '').replace('const ', '').rstrip(' &') if g.params else ''
                            t = {'_Bool': 'bool'}.get(t, t)
                            if t in order:
                                alts[str(order.index(t))] = tuple(self.node(g, g.body))
                return [('alt', tuple(sorted(alts.items())))]
            out = []
            for a in n.get('a', []):
                out += N(a)
            g = self.p.get(n.get('f'))
            if g is not None and g.rel() == f.rel() and g.id != f.id and any(self.cursor(f, a) or self.is_buffer(f, a) for a in n['a']):
                out += list(self.form(g))
            return out
        out = []
        for x in f.kids(i):
            out += N(x)
        return out

    def stmts(self, f, ss):
        out = []
        for j, x in enumerate(ss):
            n = f.nodes[x]
            if n['k'] == 'if' and n.get('el', -1) in (-1, None) and any(f.nodes[y]['k'] == 'ret' for y in f.walk(n['th'])):
                a = self.node(f, n['th'])
                if a:
                    return out + self.node(f, n['c']) + [('either', tuple(a), tuple(self.stmts(f, ss[j + 1:])))]
            out += self.node(f, x)
        return out

    def cases(self, f, i, alts, cur=None):
        n = f.nodes[i]
        if n['k'] == 'block':
            open_ = []
            for s in n['ss']:
                m = f.nodes[s]
                lab = []
                while m['k'] in ('case', 'default'):
                    lab.append(str(f.nodes[m['lo']].get('cv', show(canon(Env(f), m['lo'])))) if m['k'] == 'case' else None)
                    s = m['s']
                    m = f.nodes[s]
                if lab:
                    open_ = lab
                    for l in lab:
                        alts.setdefault(l, [])
                body = self.node(f, s)
                for l in open_:
                    alts[l] += body
        elif n['k'] in ('case', 'default'):
            pass


def variant(t):
    """alternatives of a std::variant type string"""
    i = t.find('variant<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in t[i + 8:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return [x for x in out + [cur.strip()] if x]


def alike(w, r):
    """does a cursor form consume what a buffer form produced"""
    if w == r:
        return True
    w, r = [x for x in w], [x for x in r]
    if len(w) != len(r):
        return False
    for a, b in zip(w, r):
        if a == b:
            continue
        if isinstance(b, tuple) and b[0] == 'either':
            b1, b2 = list(b[1]), list(b[2])
            if b1 == b2 and len(b1) == 1:
                b = b1[0]
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
            if a[0] == 'rep' and alike(flatten(a[1]), flatten(b[1])):
                continue
            if a[0] == 'alt' and dict(a[1]).keys() == dict(b[1]).keys() and all(alike(list(dict(a[1])[k]), list(dict(b[1])[k])) for k in dict(a[1])):
                continue
        return False
    return True


def flatten(L):
    """both arms of a two-way branch that advance alike count once"""
    out = []
    for x in L:
        if isinstance(x, tuple) and x[0] == 'either' and alike(flatten(x[1]), flatten(x[2])):
            out += flatten(x[1])
        else:
            out.append(x)
    return out


def codec(R, p):
    cls = {}
    for f in p.fns.values():
        if f.cls and not f.file.startswith('/usr') and not f.d.get('lambda'):
            cls.setdefault(f.cls, []).append(f)
    for c, L in sorted(cls.items()):
        names = {f.name for f in L}
        if not ('serialize' in names and 'deserialize' in names) or not any('vector<char>' in (f.d.get('rt') or '') for f in L if f.name == 'serialize'):
            continue
        K = Codec(p)
        ser = [f for f in L if f.name == 'serialize'][0]
        W = flatten(K.form(ser))
        R.saw(L)
        if not W:
            continue
        for f in L:
            if f.name.startswith(('serialize', '~')) or f.d.get('ctor') or f.d.get('acc') == 'private' and not f.name.startswith(('deserialize', 'skip')):
                continue
            if not f.name.startswith(('deserialize', 'skip')):
                continue
            r = flatten(K.form(f))
            part = f.name.split('_', 1)[1] if '_' in f.name else ''
            ws = [g for g in L if g.name == 'serialize_' + part]
            w = flatten(K.form(ws[0])) if ws else W
            R.ob('record-codec', alike(w, r), f.at(), '%s advances by %s where %s produced %s' % (f.q, r, (ws or [ser])[0].q, w), key='codec:%s:%d' % (f.name, len(f.params)))
            for x in K.node(f, f.body):
                pass
        # order of the members
        env = Env(ser)
        wm = [m for m in (member_of(ser, x) for x in ser.calls() if bname(ser.nodes[x]).startswith('serialize_')) if m]
        for d in L:
            if d.name != 'deserialize':
                continue
            rm = []
            for x in d.walk():
                n = d.nodes[x]
                dst = n['e'] if n['k'] == 'asg' else n['obj'] if n['k'] == 'call' and n.get('op') == '=' and 'obj' in n else None
                if dst is not None and d.nodes[dst]['k'] == 'mem' and any(d.nodes[y]['k'] == 'call' and bname(d.nodes[y]).startswith('deserialize_') for y in d.walk(n['r'] if n['k'] == 'asg' else n['a'][0])):
                    rm.append(d.nodes[dst]['n'])
            if rm:
                R.ob('record-codec', wm == rm, d.at(), 'members are encoded in the order %s and decoded in the order %s' % (wm, rm), key='order:' + c)


def member_of(f, x):
    for a in f.nodes[x]['a']:
        n = f.nodes[strip(f, a)]
        if n['k'] == 'mem' and f.nodes[n['b']]['k'] == 'this':
            return n['n']
    return None
