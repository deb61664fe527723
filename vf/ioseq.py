"""Sequence of input/output operations a function performs, extracted from the syntax tree with callees inlined.

items:  ('io', const_bytes, symbolic_factors, value, site)   one transfer of const*symbolic bytes
        ('opt', cond, items_then, items_else)                 conditional transfers
        ('rep', bound, items)                                 repeated transfers
Values and sizes are canonical expressions.
"""
from .util import *

W_STREAM = re.compile(r'(ostream|ofstream|fstream|iostream)[^:]*(<.*>)?::write$')
R_STREAM = re.compile(r'(istream|ifstream|fstream|iostream)[^:]*(<.*>)?::read$')
NAMED_W = {'write_u8': 'u8', 'write_u32': 'u32', 'write_u64': 'u64', 'write_string': 'string', 'write_blob': 'blob', 'write_vector_blob': 'blob', 'write_bytes': 'bytes'}
NAMED_R = {'read_u8': 'u8', 'read_u32': 'u32', 'read_u64': 'u64', 'read_string': 'string', 'read_blob': 'blob', 'read_fixed_blob': 'bytes'}
SIZES = {'char': 1, 'unsigned char': 1, 'signed char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4,
         'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8}


def split_size(t):
    """(constant factor, sorted symbolic factors) of a size expression"""
    while t[0] in ('call', 'ctor') and t[0] == 'ctor' and len(t) == 3:
        t = t[2]
    if t[0] == 'lit':
        try:
            return int(t[1]), ()
        except ValueError:
            return 1, (t,)
    if t[0] == 'bin' and t[1] == '*':
        a, x = split_size(t[2])
        b, y = split_size(t[3])
        return a * b, tuple(sorted(x + y, key=str))
    if t[0] == 'sizeof':
        s = SIZES.get(t[1])
        return (s, ()) if s else (1, (t,))
    return 1, (t,)


class Seq:
    def __init__(self, p, role, mode='stream'):
        self.p = p
        self.role = role
        self.mode = mode
        self.hot = self._hot()
        self.depth = 0
        self.fns = set()

    def _is_leaf(self, f, n):
        if n['k'] != 'call':
            return False
        q = n.get('q', '')
        b = bname(n)
        if b in ('seekp', 'seekg') and self.mode == 'stream':
            return True
        if self.mode == 'stream':
            return bool((W_STREAM if self.role == 'w' else R_STREAM).search(q)) and len(n['a']) == 2
        if self.mode == 'named':
            return b in (NAMED_W if self.role == 'w' else NAMED_R) and 'Binary' in q
        if self.mode == 'buf':
            if q in ('memcpy', 'std::memcpy') and len(n['a']) == 3:
                return True
            if self.role == 'w':
                return b == 'insert' and len(n['a']) == 3 or b == 'push_back' and 'char' in f.nodes[n['obj']].get('t', '') if 'obj' in n else False
            return False
        return False

    def _hot(self):
        key = ('_ioseq', self.role, self.mode)
        c = self.p.__dict__.setdefault('_ioseqcache', {})
        if key in c:
            return c[key]
        hot, rev = set(), {}
        for f in self.p.fns.values():
            for n in f.nodes:
                if n['k'] == 'call':
                    if n.get('f') and self.p.get(n['f']):
                        rev.setdefault(n['f'], set()).add(f.id)
                    if self._is_leaf(f, n) or self.mode == 'buf' and self.role == 'r' and False:
                        hot.add(f.id)
                elif n['k'] == 'ctor' and n.get('f') and self.p.get(n['f']):
                    rev.setdefault(n['f'], set()).add(f.id)
        st = list(hot)
        while st:
            x = st.pop()
            for y in rev.get(x, ()):
                if y not in hot:
                    hot.add(y)
                    st.append(y)
        c[key] = hot
        return hot

    # ------------------------------------------------------------------
    def fn(self, env):
        f = env.fn
        self.fns.add(f)
        out = []
        for it in f.d.get('inits', []):
            if 'init' in it:
                out += self.node(env, it['init'])
        body = f.d.get('body', None)
        root = f.body if hasattr(f, 'body') else None
        return out + self.node(env, root)

    def node(self, env, i):
        if i is None or i < 0:
            return []
        f = env.fn
        n = f.nodes[i]
        k = n['k']
        N = lambda x: self.node(env, x)
        if k in ('lam', 'throw'):
            return []
        if k == 'if':
            c = ([] if n.get('init', -1) is None else N(n.get('init', -1))) + N(n['c'])
            a, b = N(n['th']), N(n.get('el', -1))
            if self.exits(f, n['th']) and not a and not n.get('el', -1) not in (-1, None):
                pass
            if a or b:
                return c + [('opt', self.cond(env, n['c']), a, b)]
            return c
        if k == 'loop':
            pre = N(n.get('init', -1)) + N(n.get('range', -1))
            body = N(n.get('c', -1)) + N(n['body']) + N(n.get('inc', -1))
            if body:
                return pre + [('rep', self.bound(env, n), body)]
            return pre
        if k == 'switch':
            return N(n['c']) + self.generic(env, n['body'])
        if k == 'cond':
            a, b = N(n['a1']), N(n['a2'])
            return N(n['c']) + ([('opt', self.cond(env, n['c']), a, b)] if a or b else [])
        if k == 'ctor' and self.mode == 'buf' and self.role == 'r' and 'basic_string' in n.get('cls', '') and len(n['a']) >= 2:
            a0, a1 = canon(env, n['a'][0]), canon(env, n['a'][1])
            if a0[0] == 'bin' and a0[1] == '+':
                c, s = split_size(a1)
                return [('io', c, s, ('res', i), f.at(i), None, (env, i))]
        if k in ('call', 'ctor'):
            out = []
            if 'obj' in n:
                out += N(n['obj'])
            for a in n.get('a', []):
                out += N(a)
            if self._is_leaf(f, n):
                return out + self.leaf(env, i, n)
            g = self.p.get(n.get('f'))
            if g is not None and g.id in self.hot and self.depth < 12 and not g.file.startswith('/usr'):
                self.depth += 1
                out += self.fn(child_env(env, i, g))
                self.depth -= 1
            return out
        return self.generic(env, i)

    def generic(self, env, i):
        out = []
        for x in env.fn.kids(i):
            out += self.node(env, x)
        return out

    @staticmethod
    def exits(f, i):
        return any(f.nodes[x]['k'] in ('ret', 'throw') for x in f.walk(i))

    def cond(self, env, i):
        return canon(env, i)

    def bound(self, env, n):
        f = env.fn
        if n.get('range', -1) not in (-1, None) and 'range' in n:
            return ('range', canon(env, n['range']))
        if n.get('c', -1) not in (-1, None):
            c = f.nodes[n['c']]
            if c['k'] == 'bin' and c['op'] in ('<', '!=', '<=', '>'):
                return canon(env, c['r'] if c['op'] != '>' else c['e'])
            return canon(env, n['c'])
        return ('none',)

    def leaf(self, env, i, n):
        f = env.fn
        q = n.get('q', '')
        b = bname(n)
        at = f.at(i)
        if b in ('seekp', 'seekg'):
            return [('seek', b)]
        if self.mode == 'named':
            kind = (NAMED_W if self.role == 'w' else NAMED_R)[b]
            val = canon(env, n['a'][0]) if self.role == 'w' and n['a'] else ('res', i)
            return [('io', kind, (), val, at, None, (env, i))]
        if self.mode == 'stream':
            ptr, size = n['a'][0], n['a'][1]
            c, s = split_size(self.cval(env, size))
            v, t = self.target(env, ptr)
            return [('io', c, s, v, at, t, (env, i))]
        # buffers
        if q.endswith('memcpy'):
            c, s = split_size(self.cval(env, n['a'][2]))
            v, t = self.target(env, n['a'][1] if self.role == 'w' else n['a'][0])
            return [('io', c, s, v, at, t, (env, i))]
        if b == 'push_back':
            return [('io', 1, (), canon(env, n['a'][0]), at, None, (env, i))]
        a, e = canon(env, n['a'][1]), canon(env, n['a'][2])
        if e[0] == 'bin' and e[1] == '+' and e[2] == a:
            c, s = split_size(e[3])
        else:
            c, s = 1, (('len', a),)
        v, t = self.target(env, n['a'][1])
        return [('io', c, s, v, at, t, (env, i))]

    def cval(self, env, i):
        n = env.fn.nodes[i]
        if n.get('cv') is not None:
            return ('lit', str(n['cv']))
        return canon(env, i)

    def target(self, env, ptr):
        """(canonical object, static type of the object when the pointer is the address of one)"""
        f = env.fn
        i = ptr
        while f.nodes[i]['k'] == 'cast':
            i = f.nodes[i]['e']
        n = f.nodes[i]
        if n['k'] == 'ref' and 'd' in n:
            sd = f.single_def(n['d'])
            if sd is not None and sd >= 0 and n.get('t', '').endswith('*'):
                return self.target(env, sd)
        if n['k'] == 'un' and n['op'] == '&':
            return canon(env, n['e'], subst=self.role == 'w'), f.nodes[n['e']].get('t')
        if n['k'] == 'call' and bname(n) in ('data', 'c_str', 'begin') and 'obj' in n:
            return canon(env, n['obj'], subst=False), None
        t = canon(env, i, subst=self.role == 'w' and n['k'] != 'call')
        while t[0] == 'addr':
            t = t[1]
        return t, None


def flat(items):
    for x in items:
        if x[0] == 'io':
            yield x
        elif x[0] == 'seek':
            pass
        elif x[0] == 'opt':
            yield from flat(x[2])
            yield from flat(x[3])
        else:
            yield from flat(x[2])


def simplify(items):
    """drop conditions around transfers whose size is zero when the condition fails; a loop over one fixed-size transfer is one bulk transfer"""
    out = []
    for x in items:
        if x[0] == 'seek':
            # rewriting the beginning of the file afterwards adds no new fields
            if x[1] == 'seekp' and out:
                break
            continue
        if x[0] == 'opt':
            a, b = simplify(x[2]), simplify(x[3])
            if not b and all(y[0] == 'io' and y[2] for y in a):
                out += a
            elif not a and all(y[0] == 'io' and y[2] for y in b):
                out += b
            else:
                out.append(('opt', x[1], a, b))
        elif x[0] == 'rep':
            body = simplify(x[2])
            if len(body) == 1 and body[0][0] == 'io' and isinstance(body[0][1], int) and not varies(body[0]):
                y = body[0]
                out.append(('io', y[1], tuple(sorted(y[2] + (x[1],), key=str)), y[3], y[4], None, y[6]))
            else:
                out.append(('rep', x[1], body))
        else:
            out.append(x)
    return out


def varies(y):
    """the transfer size depends on something local to the loop body"""
    return any(s[0] == 'v' and s[1].startswith('L:') for t in y[2] for s in subterms(t))


class Match:
    """compare a writer's sequence with a reader's"""
    def __init__(self, same_class):
        self.same = same_class
        self.wl, self.rl = {}, {}
        self.wconst = {}
        self.n = 0
        self.diffs = []
        self.pairs = 0

    def bad(self, kind, w, r, msg):
        self.diffs.append((kind, w, r, msg))

    def size_ids(self, fs, m):
        ids = set()
        key = (1, tuple(sorted(fs, key=str)))
        for t, k in m.items():
            if t[0] == 'bin' and split_size(t) == key:
                return {k}
        for t in fs:
            hit = False
            for s in subterms(t):
                if s in m:
                    ids.add(m[s])
                    hit = True
        return ids

    def run(self, W, R):
        W, R = simplify(W), simplify(R)
        self.seq(W, R)
        return self.diffs

    def seq(self, W, R):
        i = j = 0
        while i < len(W) and j < len(R):
            w, r = W[i], R[j]
            if r[0] == 'opt' and w[0] != 'opt':
                br = self.decide(r)
                if br is not None:
                    R[j:j + 1] = br
                    continue
            if w[0] == 'opt' and r[0] != 'opt' and not w[3] and self.nonempty(w):
                W[i:i + 1] = w[2]
                continue
            if w[0] != r[0]:
                # a loop of records against a loop is required; an optional part against a plain one is a difference of conditions
                self.bad('shape', self.site(w), self.site(r), 'writes %s where the reader reads %s' % (self.desc(w), self.desc(r)))
                return
            if w[0] == 'io':
                self.io(w, r)
            elif w[0] == 'opt':
                self.cond(w, r)
                self.seq(w[2], r[2])
                self.seq(w[3], r[3])
            else:
                self.bnd(w, r)
                self.seq(w[2], r[2])
            i += 1
            j += 1
            if self.diffs:
                return
        if i < len(W):
            self.bad('extra', self.site(W[i]), '', 'writes %s, which the reader never reads' % self.desc(W[i]))
        elif j < len(R):
            self.bad('extra', '', self.site(R[j]), 'reads %s, which the writer never wrote' % self.desc(R[j]))

    @staticmethod
    def own_size(a, b):
        """a's byte count is the size of the container it transfers, so only whole elements can be compared"""
        if any(t[0] == 'call' and t[1].rsplit('::', 1)[-1] == 'size' and t[2] == a[3] for t in a[2]) and a[1] == 1 and b[2]:
            return True
        return any(t[0] == 'call' and t[1].rsplit('::', 1)[-1] == 'size' and t[2] == a[3] for t in a[2]) and isinstance(b[1], int) and b[1] % a[1] == 0 and bool(b[2])

    def decide(self, r):
        """items of the branch a conditional read takes on what the writer produced, or None"""
        v = self.ev(r[1])
        if v is not None:
            return list(r[2] if v else r[3])
        if self.validity(r[1]) and not r[3]:
            return list(r[2])
        return None

    def ev(self, t):
        if t in self.rl and self.rl[t] in self.wconst:
            try:
                return int(self.wconst[self.rl[t]])
            except ValueError:
                return None
        if t[0] == 'lit':
            try:
                return {'true': 1, 'false': 0}.get(t[1], None) if t[1] in ('true', 'false') else int(t[1])
            except ValueError:
                return None
        if t[0] == 'un' and t[1] == '!':
            v = self.ev(t[2])
            return None if v is None else int(not v)
        if t[0] == 'bin':
            a, b = self.ev(t[2]), self.ev(t[3])
            if a is None or b is None:
                return None
            try:
                return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '&&': a and b, '||': a or b}[t[1]])
            except KeyError:
                return None
        return None

    def validity(self, t):
        """a test of the stream's state only"""
        if t[0] == 'bin' and t[1] in ('&&', '||'):
            return self.validity(t[2]) and self.validity(t[3])
        if t[0] == 'un' and t[1] == '!':
            return self.validity(t[2])
        return t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('good', 'fail', 'bad', 'eof', 'operator bool', 'operator!', 'is_open')

    @staticmethod
    def nonempty(w):
        """condition of the writer that only skips an empty transfer"""
        return False

    def site(self, x):
        for y in flat([x]):
            return y[4]
        return ''

    def desc(self, x):
        if x[0] == 'io':
            return '%s%s bytes of %s' % (x[1], ''.join(' x ' + show(s) for s in x[2]), show(x[3]))
        return {'opt': 'an optional part', 'rep': 'a repeated part'}[x[0]] + ' (%s)' % show(x[1])

    def io(self, w, r):
        self.pairs += 1
        k = self.n
        self.n += 1
        if (w[1] != r[1] or bool(w[2]) != bool(r[2])) and not self.own_size(w, r) and not self.own_size(r, w):
            self.bad('width', w[4], r[4], 'writes %s, the reader reads %s' % (self.desc(w), self.desc(r)))
            return
        for m, x, side in ((self.wl, w, 'written'), (self.rl, r, 'read')):
            s = SIZES.get((x[5] or '').replace('const ', ''))
            if s and not x[2] and isinstance(x[1], int) and x[1] < s:
                self.bad('partial', w[4], r[4], 'only %d of the %d bytes of %s are %s' % (x[1], s, show(x[3]), side))
        a, b = self.size_ids(w[2], self.wl), self.size_ids(r[2], self.rl)
        if a and b and not a & b:
            self.bad('count', w[4], r[4], 'writes %s, the reader reads %s (another count)' % (self.desc(w), self.desc(r)))
        fa, fb = self.field(w[3]), self.field(r[3]) or self.stored(r)
        if self.same and fa and fb and fa != fb:
            self.bad('field', w[4], r[4], 'writes %s, the reader stores it in %s' % (fa, fb))
        if w[3][0] in ('v', 'call', 'idx', 'bin', 'cond'):
            self.wl[w[3]] = k
        if w[3][0] == 'lit':
            self.wconst[k] = w[3][1]
        if r[3][0] in ('v', 'call', 'idx', 'res'):
            self.rl[r[3]] = k
            st = self.stored(r, full=True)
            if st:
                self.rl[('v', st)] = k

    @staticmethod
    def field(t):
        while t[0] in ('idx', 'addr') or t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('data', 'size', 'get') and t[2]:
            if t[0] == 'call' and t[1].endswith('size'):
                return None
            t = t[1] if t[0] != 'call' else t[2]
        if t[0] == 'v' and t[1].startswith('this.'):
            return t[1].split('.', 1)[1]
        return None

    def stored(self, r, full=False):
        """member a reader's local is stored into afterwards"""
        env, i = r[6]
        t = r[3]
        if t[0] != 'v' or not t[1].startswith('L:'):
            return None
        f = env.fn
        hits = []
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] == 'asg' and n['op'] == '=' or n['k'] == 'call' and n.get('op') == '=' and 'obj' in n:
                dst = n['e'] if n['k'] == 'asg' else n['obj']
                src = n['r'] if n['k'] == 'asg' else n['a'][0]
                s = strip(f, src)
                if f.nodes[s]['k'] == 'ref' and path(env, s) == t[1]:
                    d = path(env, dst)
                    if d.startswith('this.'):
                        hits.append(d)
        if len(hits) == 1:
            return hits[0] if full else hits[0].split('.', 1)[1]
        return None

    def cond(self, w, r):
        a, b = self.size_ids((w[1],), self.wl), self.size_ids((r[1],), self.rl)
        if a and b and not a & b:
            self.bad('cond', self.site(w), self.site(r), 'written under %s, read under %s' % (show(w[1]), show(r[1])))
        ka, kb = known(w[1]), known(r[1])
        if ka is not None and kb is not None and ka != kb:
            self.bad('cond', self.site(w), self.site(r), 'written when %s, read when %s' % (show(w[1]), show(r[1])))

    def bnd(self, w, r):
        a, b = self.size_ids((w[1],), self.wl), self.size_ids((r[1],), self.rl)
        if a and b and not a & b:
            self.bad('bound', self.site(w), self.site(r), 'repeated %s times when writing, %s times when reading' % (show(w[1]), show(r[1])))


def known(t):
    return None
