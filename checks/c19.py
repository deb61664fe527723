"""C19: typestate of a cached page (unsaved, saved, dropped) along every path of the page cache, with the entries told apart by the page they hold; must-pass rules from a change of a page to the write that saves it, to the sync and to the caller."""
from vf.flow import *
from vf.kind import Kind
from vf.util import *
from checks.c16 import exact
from checks.c30 import every_round

PC = 'alaya::diskann::DiskPageCache'
IO = 'alaya::diskann::DiskPageIO'
IX = 'alaya::diskann::DiskANNIndex'


def member(f, i, names, cls=PC):
    n = f.nodes[strip(f, i)]
    return n['k'] == 'mem' and n['n'] in names and str(n.get('q', '')).startswith(cls)


def mapfield(p):
    """the member of the cache that holds the pages, by type"""
    c = p.cls(PC)
    return {x['n'] for x in c['fields'] if 'map' in x['t'] and 'Entry' in x['t']} if c else set()


class Ent:
    """which page an entry, an iterator to one or an extracted node belongs to"""

    def __init__(self, p):
        self.p, self.maps = p, mapfield(p)

    def ismap(self, env, i):
        e, j = origin(env, i)
        return member(e.fn, j, self.maps)

    def key(self, env, i, depth=0):
        """term of a page offset"""
        e, j = origin(env, i)
        n = e.fn.nodes[j]
        if n['k'] == 'mem' and n['n'] == 'first':
            return self.of(e, n['b'], depth + 1)
        if n['k'] == 'un' and n['op'] == '*':
            return ('deref', exact(e, n['e']))
        if n['k'] == 'ref' and 'd' in n and 'bof' in e.fn.vars.get(str(n['d']), {}):
            r = self.of(e, j, depth + 1)
            if r is not None:
                return r
        return exact(e, j)

    def of(self, env, i, depth=0):
        f = env.fn
        i = strip(f, i)
        n = f.nodes[i]
        if depth > 14:
            return None
        if n['k'] == 'mem' and n['n'] in ('second', 'first', 'dirty', 'bytes', 'lru_it') and n.get('b', -1) >= 0:
            return self.of(env, n['b'], depth + 1)
        if n['k'] == 'un' and n['op'] in ('*', '&'):
            return self.of(env, n['e'], depth + 1)
        if n['k'] == 'ctor' and len(n.get('a', [])) == 1:
            return self.of(env, n['a'][0], depth + 1)
        if n['k'] == 'call':
            o = n.get('obj', -1)
            xs = ([o] if o is not None and o >= 0 else []) + list(n.get('a', []))
            if n.get('op') in ('->', '*') and xs:
                return self.of(env, xs[0], depth + 1)
            if o is not None and o >= 0 and self.ismap(env, o):
                b = bname(n)
                if b in ('find', 'at', 'erase') and n['a']:
                    return self.key(env, n['a'][0], depth + 1)
                if b == 'extract' and n['a']:
                    return self.arg(env, n['a'][0], depth + 1)
                return None
            if n.get('op') == '[]' and len(xs) == 2 and self.ismap(env, xs[0]):
                return self.key(env, xs[1], depth + 1)
            if bname(n) in ('mapped', 'key', 'data', 'move', 'value') and xs:
                return self.of(env, xs[0], depth + 1)
            return None
        if n['k'] == 'ref' and 'd' in n and not n.get('isfn'):
            v = f.vars.get(str(n['d']), {})
            if v.get('k') == 'param' or env.up:
                e, j = origin(env, i)
                if (e, j) != (env, i) and not (e.fn.id == f.id and j == i):
                    return self.of(e, j, depth + 1)
            defs = f.defs().get(n['d'], [])
            if 'bof' in v:
                ini = [x['init'] for m in f.nodes if m and m['k'] == 'decl' for x in m['vs'] if x['d'] == v['bof'] and x.get('init', -1) is not None and x.get('init', -1) >= 0]
                return (self.of(env, ini[0], depth + 1) or ('each', f.id, v['bof'])) if len(ini) == 1 else None
            sd = f.single_def(n['d'], ignore=('addr', 'cap'))
            if sd is not None and sd >= 0:
                r = self.of(env, sd, depth + 1)
                if r is not None:
                    return r
                m = f.nodes[strip(f, sd)]
                if m['k'] == 'call' and bname(m) in ('begin', 'cbegin') or m['k'] == 'call' and m.get('op') == '*' or m['k'] == 'un':
                    return ('each', f.id, n['d'])
            if any(val is not None and val >= 0 and f.nodes[strip(f, val)]['k'] == 'call' and bname(f.nodes[strip(f, val)]) in ('begin', 'cbegin') for val, _, _ in defs):
                return ('each', f.id, n['d'])
        return None

    def arg(self, env, i, depth=0):
        """page denoted by an argument of erase/extract: an iterator or an offset"""
        r = self.of(env, i, depth)
        return r if r is not None else self.key(env, i, depth)


class State(tuple):
    pass


# state: safe pages, page entries renamed to the written page, and for the written page: recorded dirty, bytes taken,
# in the map; the cache known to be switched off; a flush has failed; the page of the current round
def mk(safe=frozenset(), ren=frozenset(), dirty=False, fill=False, inmap=False, off=False, failed=False, cur=None, full=None):
    return (safe, ren, dirty, fill, inmap, off, failed, cur, full)


class Cache(Hooks):
    def __init__(self, p, f):
        self.p, self.E, self.root = p, Ent(p), f
        self.bad = []          # (rule, fn, node, text)
        self.sites = {'drop': set(), 'clear': set(), 'flush': set(), 'keep': set(), 'round': set()}
        ps = [f.vars[str(d)] for d in f.params]
        self.off = next((('v', 'P:' + v['n']) for v in ps if v['t'].replace('const ', '') in ('unsigned long', 'uint64_t', 'std::uint64_t', 'size_t', 'unsigned long long')), None)
        self.pagep = next((d for d in f.params if f.vars[str(d)]['t'].replace(' ', '') in ('constchar*', 'char*', 'constvoid*', 'constunsignedchar*')), None)
        self.dirtyp = next((d for d in f.params if f.vars[str(d)]['t'] in ('bool', 'const bool')), None)
        K = Kind(p, lambda e, i: False, [])
        K.truth = self.known
        self.K = K

    def known(self, env, i):
        e, j = origin(env, i)
        n = e.fn.nodes[j]
        if self.mode == 'sticky' and member(e.fn, j, ('dirty',)):
            return True
        if self.mode == 'param' and n['k'] == 'ref' and n.get('d') == self.dirtyp and e.fn.id == self.root.id and self.dirtyp is not None:
            return True
        return None

    def tv(self, env, i, mode):
        self.mode = mode
        return self.K.tv(env, i)

    def throws(self, F, env, i, u):
        return True

    def descend(self, F, env, i, g):
        return g.cls == PC or g.d.get('lambda') and PC in str(g.d.get('parent', g.id))

    def mine(self, k, u):
        return k is not None and (k == self.off or k in u[1])

    def refs(self, env, i, what, depth=0):
        """the expression uses the parameter `what` of the analysed method, through locals and parameters of helpers"""
        f = env.fn
        for x in f.walk(i):
            m = f.nodes[x]
            if m['k'] == 'ref' and 'd' in m and not m.get('isfn'):
                if m['d'] == what and f.id == self.root.id:
                    return True
                if depth < 6:
                    e, j = origin(env, x)
                    if not (e.fn.id == f.id and j == x) and self.refs(e, j, what, depth + 1):
                        return True
        return False

    def report(self, rule, f, i, text):
        self.bad.append((rule, f.id, i, text))

    def call(self, F, env, i, u):
        f, E = env.fn, self.E
        n = f.nodes[i]
        safe, ren, dirty, fill, inmap, off, failed, cur, full = u
        g = self.p.get(n.get('f'))
        o = n.get('obj', -1)
        b = bname(n)
        if n.get('op') == '()' and not (g is not None and self.descend(F, env, i, g) and g.blocks):
            a = n.get('a', [])
            if len(a) == 2:
                k, e = E.key(env, a[0]), E.of(env, a[1])
                self.sites['flush'].add((f.id, i))
                if e is None or k != e:
                    self.report('content', f, i, '%s writes back at an offset other than that of the page whose bytes it hands over' % f.q)
                return [('ok', (safe | {k}, ren, dirty, fill, inmap, off, failed, cur, full), None), ('exc', (safe, ren, dirty, fill, inmap, off, True, cur, full), None)]
        if o is not None and o >= 0 and E.ismap(env, o):
            if b in ('erase', 'extract'):
                k = E.arg(env, n['a'][0])
                self.sites['drop'].add((f.id, i))
                if k not in safe and k not in ren:
                    self.report('drop', f, i, '%s drops a page from memory that it may hold modified and has not written back' % f.q)
                return [('ok', (safe - {k}, ren | {k} if b == 'extract' and False else ren, dirty, fill, inmap, off, failed, cur, full), None)]
            if b in ('clear', 'swap') or n.get('op') == '=':
                self.sites['drop'].add((f.id, i))
                self.report('drop', f, i, '%s drops every page from memory whether or not it was written back' % f.q)
                return [('ok', u, None)]
            if b in ('emplace', 'try_emplace', 'insert', 'insert_or_assign') and n['a']:
                k = E.key(env, n['a'][0]) if len(n['a']) > 1 else E.of(env, n['a'][0])
                if len(n['a']) == 1 and k is None:
                    k = self.off if any(E.key(env, x) == self.off for x in f.walk(n['a'][0]) if f.nodes[x]['k'] == 'ref') else None
                ok = u
                if self.mine(k, u):
                    new = len(n['a']) > 1 or k == self.off
                    ok = (safe, ren, self.marks(env, n['a']) if new else dirty, any(self.refs(env, a, self.pagep) for a in n['a']) or fill if new else fill, True, off, failed, cur, full)
                return [('ok', ok, None), ('exc', u, None)]
        if b in ('assign', 'operator=', 'memcpy', 'copy', 'copy_n', 'memmove') or n.get('op') == '=':
            tgt = o if o is not None and o >= 0 else (n['a'][2] if b == 'copy' and len(n['a']) > 2 else n['a'][-1] if b == 'copy_n' else n['a'][0] if n.get('a') else -1)
            if tgt is not None and tgt >= 0:
                k = E.of(env, tgt)
                if self.mine(k, u) and any(f.nodes[x]['k'] == 'mem' and f.nodes[x]['n'] == 'bytes' for x in f.walk(tgt)):
                    return [('ok', (safe, ren, dirty, any(self.refs(env, a, self.pagep) for a in n['a']), inmap, off, failed, cur, full), None), ('exc', u, None)]
                if n.get('op') == '=' and k is not None and f.nodes[strip(f, tgt)]['k'] != 'mem':   # a whole entry replaced
                    ok = (safe, ren, self.marks(env, n['a']), any(self.refs(env, a, self.pagep) for a in n['a']), True, off, failed, cur, full) if self.mine(k, u) else u
                    if k not in safe and self.marks(env, n['a']) is not True:
                        self.report('clear', f, i, '%s replaces an entry that may be modified and was not written back' % f.q)
                    return [('ok', ok, None), ('exc', u, None)]
        if n.get('op') == '[]' and E.of(env, i) == self.off and self.off is not None:
            return [('ok', (safe, ren, dirty, fill, True, off, failed, cur, full), None)]
        return None

    def marks(self, env, args):
        """the entry built by these arguments is dirty when the parameter says so"""
        f = env.fn
        seen = []
        work = [(env, a) for a in args]
        while work:
            e, a = work.pop()
            for x in e.fn.walk(a):
                m = e.fn.nodes[x]
                if m['k'] in ('init', 'ctor') and len(m.get('a', [])) >= 2:
                    for y in m['a']:
                        if e.fn.nodes[strip(e.fn, y)].get('t') in ('bool', 'const bool'):
                            seen.append(self.tv(e, y, 'param'))
                        elif e.fn.nodes[strip(e.fn, y)]['k'] == 'ref' and e.fn.vars.get(str(e.fn.nodes[strip(e.fn, y)].get('d')), {}).get('t') in ('bool', 'const bool'):
                            seen.append(self.tv(e, y, 'param'))
                if m['k'] == 'ref' and 'd' in m:
                    e2, j = origin(e, x)
                    if not (e2.fn.id == e.fn.id and j == x) and len(seen) < 20:
                        work.append((e2, j))
        return bool(seen) and all(s is True for s in seen)

    def elem(self, F, env, i, u):
        f, E = env.fn, self.E
        n = f.nodes[i]
        safe, ren, dirty, fill, inmap, off, failed, cur, full = u
        if n['k'] == 'asg':
            x = strip(f, n['e'])
            m = f.nodes[x]
            if m['k'] == 'call' and bname(m) == 'key' and E.key(env, n['r']) == self.off:
                k = E.of(env, x)
                return (safe, ren | {k}, dirty, fill, inmap, off, failed, cur, full)
            if m['k'] == 'mem' and m['n'] == 'dirty' and str(m.get('q', '')).startswith(PC):
                k = E.of(env, x)
                self.sites['clear'].add((f.id, i))
                stays = n['op'] in ('|=',) or n['op'] == '=' and self.tv(env, n['r'], 'sticky') is True
                if not stays and k not in safe and k not in ren:
                    self.report('clear', f, i, '%s marks a page as saved that it may hold modified and has not written back' % f.q)
                if self.mine(k, u):
                    dirty = self.tv(env, n['r'], 'param') is True or dirty and stays
                return (safe, ren, dirty, fill, inmap, off, failed, cur, full)
        return u

    def branch(self, F, env, cond, pol, u):
        f, E = env.fn, self.E
        e, c = env, cond
        for _ in range(6):
            c = strip(e.fn, c)
            n = e.fn.nodes[c]
            if n['k'] == 'un' and n['op'] == '!':
                pol, c = not pol, n['e']
                continue
            if n['k'] == 'bin' and n['op'] in ('&&', '||') and e is env:
                c = n['r']     # the operand the block has just evaluated
                continue
            e2, c2 = origin(e, c)
            if e2.fn.id == e.fn.id and c2 == c:
                break
            e, c = e2, c2
        n = e.fn.nodes[c]
        safe, ren, dirty, fill, inmap, off, failed, cur, full = u
        if n['k'] == 'ref' and n.get('d') == self.dirtyp and self.dirtyp is not None and e.fn.id == self.root.id:
            return u if pol else (safe, ren, True, fill, inmap, off, failed, cur, full)     # nothing to record
        if n['k'] == 'mem' and n['n'] == 'dirty' and str(n.get('q', '')).startswith(PC):
            k = E.of(e, c)
            return u if pol or k is None else (safe | {k}, ren, dirty, fill, inmap, off, failed, cur, full)
        if n['k'] == 'bin' and n['op'] in ('==', '!=') and any(e.fn.nodes[strip(e.fn, x)].get('v') in ('true', 'false') for x in (n['e'], n['r'])):
            a, b = (n['e'], n['r']) if e.fn.nodes[strip(e.fn, n['r'])].get('v') in ('true', 'false') else (n['r'], n['e'])
            v = e.fn.nodes[strip(e.fn, b)]['v'] == 'true'
            return self.branch(F, e, a, pol == (v == (n['op'] == '==')), u)
        t = canon(e, c)
        if t[:2] in (('bin', '>'), ('bin', '!=')) and t[2] == ('v', 'this.capacity_') and t[3] == ('lit', '0'):
            return u if pol else (safe, ren, dirty, fill, inmap, True, failed, cur, full)
        if t[:2] == ('bin', '==') and t[2] == ('v', 'this.capacity_') and t[3] == ('lit', '0'):
            return (safe, ren, dirty, fill, inmap, True, failed, cur, full) if pol else u
        op, xs = n.get('op'), []
        if n['k'] == 'call' and op in ('==', '!='):
            xs = ([n['obj']] if n.get('obj', -1) is not None and n.get('obj', -1) >= 0 else []) + list(n['a'])
        elif n['k'] == 'bin' and op in ('==', '!='):
            xs = [n['e'], n['r']]
        if len(xs) == 2:
            for a, b in (xs, xs[::-1]):
                eb, jb = origin(e, b)
                m = eb.fn.nodes[jb]
                if m['k'] == 'call' and bname(m) in ('end', 'cend') and E.ismap(eb, m['obj']):
                    k = E.of(e, a)
                    if k is None:
                        return u
                    there = pol == (op == '!=')
                    if k[0] == 'each':
                        return self.turn(e.fn, c, k, there, u)
                    if not there:
                        return (safe | {k}, ren, dirty, fill, inmap, off, failed, cur, full)
                    return (safe, ren, dirty, fill, inmap or self.mine(k, u), off, failed, cur, full)
        if n['k'] == 'call' and bname(n) in ('contains', 'count') and n.get('obj', -1) >= 0 and E.ismap(e, n['obj']):
            k = E.key(e, n['a'][0])
            return (safe | {k}, ren, dirty, fill, inmap, off, failed, cur, full) if not pol else (safe, ren, dirty, fill, inmap or k == self.off, off, failed, cur, full)
        return u

    def turn(self, f, at, k, enter, u):
        """a loop over all pages begins a round (or ends)"""
        safe, ren, dirty, fill, inmap, off, failed, cur, full = u
        self.sites['round'].add((f.id, at))
        if cur is not None and cur not in safe:
            self.report('every', f, at, '%s passes over a page that may be modified without writing it back' % f.q)
        if enter:
            return (safe - {k}, ren, dirty, fill, inmap, off, failed, k, full)
        return (safe - {k}, ren, dirty, fill, inmap, off, failed, None, True)

    def rangeloop(self, F, env, term, enter, u):
        f = env.fn
        L = term['s']
        n = f.nodes[L]
        if n['k'] != 'loop' or n.get('range') is None:
            return u
        e, j = origin(env, n['range'])
        if not member(e.fn, j, self.E.maps):
            return u
        d = f.nodes[n['var']]['vs'][0]
        ds = d.get('bind') or [d['d']]
        # entity of the element: the loop variable (or the first binding) resolves to its hidden iterator
        k = None
        for x, m in enumerate(f.nodes):
            if m and m['k'] == 'ref' and m.get('d') in [d['d']] + list(d.get('bind') or []):
                k = self.E.of(env, x)
                if k:
                    break
        return self.turn(f, L, k, enter, u) if k else u


def cache(R, p):
    roots = [f for f in sorted(p.methods(PC), key=lambda f: f.line) if f.blocks and f.d.get('acc') == 'public' and not f.d.get('ctor') and not f.d.get('dtor') and not f.d.get('cm')]
    for f in roots:
        R.saw([f])
        H = Cache(p, f)
        F = Flow(p, H)
        outs = F.run(f, mk(), Env(f))
        R.points += F.points
        seen = set()
        bad = {}
        for rule, fid, i, text in H.bad:
            bad.setdefault((rule, fid, i), text)
        for kind, rule in (('drop', 'drop'), ('clear', 'clear'), ('flush', 'content')):
            for fid, i in sorted(H.sites[kind]):
                g = p.get(fid)
                R.ob(rule, (rule, fid, i) not in bad, g.at(i), bad.get((rule, fid, i), ''), key='%s:%s' % (rule, g.name))
        if any(u[6] for k, u, _ in outs if k == 'ok'):
            R.bad('report', f.at(), '%s returns normally although a page could not be written back' % f.q, key=f.name)
        elif H.sites['flush']:
            R.good('report', f.at())
        oks = [u for k, u, _ in outs if k == 'ok']
        if H.sites['round']:
            es = [t for (r, fid, i), t in bad.items() if r == 'every']
            R.ob('every', not es and all(u[8] for u in oks), f.at(), es[0] if es else '%s can return before it has seen every page' % f.q, key=f.name)
        elif H.sites['flush'] and H.dirtyp is None:
            R.bad('every', f.at(), '%s writes pages back without going through all of them' % f.q, key=f.name)
        if H.dirtyp is not None:
            for what, j in (('records the page as modified', 2), ('keeps the bytes of the page', 3), ('leaves the page in memory', 4)):
                R.ob('keep', all(u[5] or u[j] for u in oks), f.at(), '%s can return without having done what a modified page needs: not every path %s' % (f.q, what), key='%s:%d' % (f.name, j))


# ---- the file behind the cache

def paths_to(p, g, want, depth=6, seen=None):
    """g reaches a call accepted by want"""
    seen = seen if seen is not None else set()
    if g is None or g.id in seen or depth < 0:
        return False
    seen.add(g.id)
    for i in g.calls():
        if want(g, i):
            return True
        h = p.get(g.nodes[i].get('f'))
        if h is not None and h.blocks and h.cls == IO and paths_to(p, h, want, depth - 1, seen):
            return True
    return False


def raw(name):
    return lambda g, i: g.nodes[i].get('q', '').lstrip(':') == name


class Failed(Kind):
    """the system call at one node has failed"""

    def __init__(self, p, fid, node, outcomes=()):
        super().__init__(p, lambda e, i: False, [], lambda g: g.cls == IO or g.d.get('lambda'))
        self.fid, self.node, self.no = fid, node, outcomes
        self.truth = self.known

    def passes(self, env, i, g):
        return False

    def derived(self, env, i):
        e, j = origin(env, i)
        return e.fn.id == self.fid and j == self.node

    def known(self, env, i):
        f = env.fn
        n = f.nodes[strip(f, i)]
        if self.no and self.derived(env, i):
            return self.no[0]
        if n['k'] == 'bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>='):
            for a, b, flip in ((n['e'], n['r'], False), (n['r'], n['e'], True)):
                if self.derived(env, a):
                    op = n['op']
                    zero = f.nodes[strip(f, b)].get('v') == '0' or f.nodes[strip(f, b)].get('cv') == '0'
                    if op in ('==', '!='):
                        return op == '!='
                    if zero:
                        return None     # a short transfer is not negative
                    if flip:
                        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
                    return {'<': True, '<=': None, '>': False, '>=': False}[op]
        return None

    def after(self, f):
        """outcomes of f on the paths on which the call was made"""
        self.hit = False
        where = {e: b for b, blk in f.blocks.items() for e in blk['els'] if isinstance(e, int)}
        par = f.parent()
        y = self.node
        while y not in where and y in par:
            y = par[y]
        if y not in where:
            return {('ret', None)}
        out, seen, env = set(), set(), Env(f)
        els = f.blocks[where[y]]['els']
        work = [(where[y], els.index(y) + 1)]
        while work:
            b, at = work.pop()
            if (b, at) in seen:
                continue
            seen.add((b, at))
            blk = f.blocks[b]
            if b == f.exit:
                out.add(('ret', 'end'))
                continue
            dead = False
            for e in blk['els'][at:]:
                if not isinstance(e, int):
                    continue
                n = f.nodes[e]
                if n['k'] == 'throw' or n.get('nr'):
                    out.add(('throw', None))
                    dead = True
                    break
                if n['k'] == 'ret':
                    x = n.get('e', -1)
                    out.add(('ret', self.value(env, x, 0) if x is not None and x >= 0 else 'end'))
                    dead = True
                    break
            if dead:
                continue
            t, su = blk.get('term'), blk['succ']
            if t and t.get('c') is not None and t['c'] >= 0 and len(su) == 2:
                c = t['c']
                while f.nodes[c]['k'] in ('cast', 'bin') and (f.nodes[c]['k'] == 'cast' or f.nodes[c]['op'] in ('&&', '||')):
                    c = f.nodes[c]['e' if f.nodes[c]['k'] == 'cast' else 'r']
                r = self.tv(env, c)
                if r is not None:
                    if su[0 if r else 1] is not None:
                        work.append((su[0 if r else 1], 0))
                    continue
            work += [(s, 0) for s in su if s is not None]
        return out


def reported(p, f, i, outcomes=(), depth=0):
    """a failure of the call at node i of f leaves f (and, if it is returned, its callers) by an exception"""
    outs = Failed(p, f.id, i, outcomes).after(f)
    rets = [r for k, r in outs if k == 'ret']
    if not rets:
        return None
    if all(r is False for r in rets) and depth < 4:
        callers = [(c.fn, j) if hasattr(c, 'fn') else c for c in callsites(p, f)]
        for g, j in callers:
            w = reported(p, g, j, (False,), depth + 1)
            if w:
                return w
        return None if callers else f.q
    return f.q


def callsites(p, f):
    out = []
    for g in p.fns.values():
        if g.cls == IO or g.cls == IX or g.d.get('lambda'):
            out += [(g, i) for i in g.calls() if g.nodes[i].get('f') == f.id]
    return out


def device(R, p):
    for f in sorted((f for f in p.fns.values() if (f.cls == IO or IO in str(f.id)) and f.blocks), key=lambda f: f.line):
        for i in f.calls():
            q = f.nodes[i].get('q', '').lstrip(':')
            if q in ('pwrite', 'pwrite64', 'write', 'fsync', 'fdatasync', 'ftruncate'):
                R.saw([f])
                w = reported(p, f, i)
                R.ob('result', w is None, f.at(i), '%s goes on as if %s had succeeded when it has not' % (w, q), key='%s:%s' % (f.name, q))


class Save(Hooks):
    """shard scratch page: changed since it was last saved? and what is known about the cache being on"""

    def __init__(self, p):
        self.p = p
        self.changes, self.writes = set(), set()
        self.lost = {}

    def throws(self, F, env, i, u):
        return True

    def descend(self, F, env, i, g):
        return g.cls == IO or g.d.get('lambda') and IO in str(g.id)

    def scratch(self, env, i, depth=0):
        """the pointer leads into the scratch page of a shard"""
        f = env.fn
        i = strip(f, i)
        n = f.nodes[i]
        if depth > 10:
            return False
        if n['k'] == 'mem' and n['n'] == 'page_buf':
            return True
        if n['k'] == 'bin' and n['op'] in ('+', '-'):
            return self.scratch(env, n['e'], depth + 1) or self.scratch(env, n['r'], depth + 1)
        if n['k'] == 'un' and n['op'] in ('&', '*') or n['k'] == 'idx':
            return self.scratch(env, n['b' if n['k'] == 'idx' else 'e'], depth + 1)
        e, j = origin(env, i)
        return not (e.fn.id == f.id and j == i) and self.scratch(e, j, depth + 1)

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        st, on = u
        q, b = n.get('q', ''), bname(n)
        if q == PC + '::write' and len(n['a']) >= 4:
            d = f.nodes[strip(f, n['a'][3])]
            yes = d.get('v') == 'true' or d.get('cv') == 'true'
            if not yes and d['k'] == 'ref':
                e, j = origin(env, n['a'][3])
                yes = e.fn.nodes[j].get('v') == 'true'
            if yes and self.scratch(env, n['a'][1]):
                self.writes.add((f.id, i))
                return [('ok', ('saved' if on is True else 'cached' if on is None else st, on), None), ('exc', ('exc', on), None)]
            if st == 'changed' and self.scratch(env, n['a'][1]):
                self.lost[(f.id, i)] = 'installs a changed page as if it were what the file holds'
            return [('ok', u, None), ('exc', u, None)]
        if q.lstrip(':') in ('pwrite', 'pwrite64'):
            self.writes.add((f.id, i))
            return [('ok', ('saved', on), None)]
        g = self.p.get(n.get('f'))
        if g is not None and g.blocks and self.descend(F, env, i, g):
            return None
        tgt = [a for j, a in enumerate(n.get('a', [])) if self.scratch(env, a)]
        if tgt:
            first = tgt[0] == n['a'][0]
            mod = b in ('memset', 'memcpy', 'memmove') and first or b in ('fill_n', 'copy_n', 'copy', 'fill') and (first or tgt[-1] == n['a'][-1])
            if g is not None and g.blocks and not mod and g.cls != PC:
                # a helper outside the class that writes through the pointer
                for d, a in zip(g.params, n['a']):
                    if a in tgt and 'const' not in str(g.vars[str(d)]['t']).split('*')[0] and '*' in str(g.vars[str(d)]['t']):
                        mod = True
            if mod:
                self.changes.add((f.id, i))
                return [('ok', ('changed', on), None), ('exc', u, None)]
        return [('ok', u, None)] if nothrow_call(n) else [('ok', u, None), ('exc', u, None)]

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'asg' and f.nodes[strip(f, n['e'])]['k'] in ('idx', 'un') and self.scratch(env, n['e']):
            self.changes.add((f.id, i))
            return ('changed', u[1])
        return u

    def branch(self, F, env, cond, pol, u):
        e, c = origin(env, cond)
        n = e.fn.nodes[c]
        while n['k'] == 'un' and n['op'] == '!':
            pol = not pol
            e, c = origin(e, n['e'])
            n = e.fn.nodes[c]
        on = None
        if n['k'] == 'call' and n.get('q') == PC + '::enabled' or n['k'] == 'mem' and n['n'] == 'cache_enabled_':
            on = pol
        if on is None:
            return u
        st, was = u
        if was is not None and was != on:
            return None
        if st == 'cached':
            st = 'saved' if on else 'changed'
        return (st, on)


def through(R, p):
    """a page that was changed in memory is handed to the cache as modified, or written, before the update returns"""
    n = 0
    for f in sorted(p.methods(IO), key=lambda f: f.line):
        if not f.blocks or f.d.get('acc') != 'public' or f.d.get('ctor') or f.d.get('dtor'):
            continue
        H = Save(p)
        if not any(x and x['k'] == 'mem' and x['n'] == 'page_buf' for g in [f] + reach_io(p, f) for x in g.nodes):
            continue
        F = Flow(p, H)
        outs = F.run(f, ('same', None), Env(f))
        R.points += F.points
        R.saw([f])
        if not H.changes:
            continue
        n += 1
        left = sorted({u[0] for k, u, _ in outs if k == 'ok' and u[0] in ('changed', 'exc')}) + sorted({'cached' for k, u, _ in outs if k == 'ok' and u == ('cached', None)})
        R.ob('through', not left, f.at(), '%s can return with %s' % (f.q, {'changed': 'a page it has changed neither marked as modified in memory nor written', 'exc': 'the failure to make room for a changed page ignored', 'cached': 'a changed page only handed to the cache, which keeps nothing when it is switched off'}[left[0]] if left else ''), key=f.name)
        for (fid, i), t in H.lost.items():
            R.bad('through', p.get(fid).at(i), '%s %s' % (p.get(fid).q, t), key='lost:' + f.name)


def reach_io(p, f):
    out, work = {}, [f]
    while work:
        g = work.pop()
        for i in g.calls():
            h = p.get(g.nodes[i].get('f'))
            if h is not None and h.blocks and h.id not in out and (h.cls == IO or h.d.get('lambda') and IO in str(h.id)):
                out[h.id] = h
                work.append(h)
    return list(out.values())


class Dev(Hooks):
    """what a write-back handed to the cache sends to the file"""

    def __init__(self, p, lam):
        self.p, self.lam, self.wrote = p, lam, []
        ps = [lam.vars[str(d)]['n'] for d in lam.params]
        self.off, self.page = ('v', 'P:' + ps[0]), ps[1] if len(ps) > 1 else None

    def descend(self, F, env, i, g):
        return g.cls == IO or g.d.get('lambda')

    def frompage(self, env, i, depth=0):
        e, j = origin(env, i)
        n = e.fn.nodes[j]
        if n['k'] == 'ref' and e.fn.id == self.lam.id and n['n'] == self.page:
            return True
        if depth > 6:
            return False
        if n['k'] == 'ref' and 'd' in n:
            ds = [v for v, k, _ in e.fn.defs().get(n['d'], []) if k not in ('addr', 'cap')]
            return bool(ds) and all(v is not None and v >= 0 and self.frompage(e, v, depth + 1) for v in ds)
        if n['k'] == 'cond':
            return self.frompage(e, n['a1'], depth + 1) and self.frompage(e, n['a2'], depth + 1)
        t = canon(e, j)
        # a buffer the page was copied to in the same function
        for c in e.fn.calls():
            m = e.fn.nodes[c]
            if bname(m) in ('memcpy', 'memmove') and canon(e, m['a'][0]) == t and self.frompage(e, m['a'][1], depth + 1):
                return True
            if bname(m) == 'copy_n' and canon(e, m['a'][2]) == t and self.frompage(e, m['a'][0], depth + 1):
                return True
        return False

    def call(self, F, env, i, u):
        n = env.fn.nodes[i]
        if n.get('q', '').lstrip(':') in ('pwrite', 'pwrite64'):
            off = canon(*origin(env, n['a'][3])) if True else None
            self.wrote.append((env.fn, i, self.off in set(subterms(off)) and off[0] in ('v', 'cast'), self.frompage(env, n['a'][1])))
            return [('ok', True, None)]
        return None


def written(R, p):
    """what the cache is given to write a page back with writes that page at its offset"""
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.blocks or not (f.cls == IO or IO in str(f.id)):
            continue
        for i in f.calls():
            n = f.nodes[i]
            if not str(n.get('q', '')).startswith(PC + '::') or bname(n) not in ('write', 'flush_dirty') and not any('lambda' in str(f.nodes[a].get('t', '')) for a in n['a']):
                continue
            la = next((lambda_of(p, f, a) for a in reversed(n['a']) if lambda_of(p, f, a) is not None), None)
            R.saw([f])
            if la is None or len(la.params) < 2:
                R.bad('written', f.at(i), '%s gives the page cache a write-back that cannot be followed' % f.q, key=f.name)
                continue
            H = Dev(p, la)
            outs = Flow(p, H).run(la, False, Env(la))
            bad = [w for w in H.wrote if not (w[2] and w[3])]
            none = any(k == 'ok' and not u for k, u, _ in outs)
            why = 'can return without writing the page' if none or not H.wrote else 'writes to another offset' if bad and not bad[0][2] else 'writes other bytes than those of the page'
            R.ob('written', not bad and not none and bool(H.wrote), bad[0][0].at(bad[0][1]) if bad else la.at(), 'the write-back %s gives the page cache %s' % (f.q, why), key='%s:%s' % (f.name, bname(n)))


def lambda_of(p, f, a):
    for x in f.walk(a):
        n = f.nodes[x]
        if n['k'] == 'lam':
            g = p.get(n['f']) if n.get('f') else None
            return g
        if n['k'] == 'ref' and 'd' in n and not n.get('isfn'):
            sd = f.single_def(n['d'], ignore=('addr', 'cap'))
            if sd is not None and sd >= 0 and sd != a:
                return lambda_of(p, f, sd)
    return None


class Sync(Hooks):
    def __init__(self, p):
        self.p = p
        self.flushes = set()

    def throws(self, F, env, i, u):
        return True

    def descend(self, F, env, i, g):
        return g.cls == IO or g.d.get('lambda') and IO in str(g.id)

    def call(self, F, env, i, u):
        n = env.fn.nodes[i]
        if n.get('q') == PC + '::flush_dirty':
            self.flushes.add((env.fn.id, i))
            return [('ok', 'pending' if u != 'failed' else u, None), ('exc', 'failed', None)]
        if n.get('q', '').lstrip(':') in ('fsync', 'fdatasync'):
            return [('ok', 'synced' if u != 'failed' else u, None)]
        g = self.p.get(n.get('f'))
        if g is not None and g.blocks and self.descend(F, env, i, g):
            return None
        return [('ok', u, None)] if nothrow_call(n) else [('ok', u, None), ('exc', 'failed' if u == 'failed' else u, None)]


def flushall(R, p):
    want = lambda g, i: g.nodes[i].get('q') == PC + '::flush_dirty'
    for f in sorted(p.methods(IO), key=lambda f: f.line):
        if not f.blocks or f.d.get('acc') != 'public' or f.d.get('ctor') or f.d.get('dtor') or not paths_to(p, f, want):
            continue
        R.saw([f])
        H = Sync(p)
        outs = Flow(p, H).run(f, 'start', Env(f))
        ends = {u for k, u, _ in outs if k == 'ok'}
        R.ob('sync', ends <= {'synced'}, f.at(), '%s can return %s' % (f.q, 'although a page could not be written' if 'failed' in ends else 'without having synced the file after the pages were written'), key=f.name)
        # every shard
        loops = []
        for g in [f] + reach_io(p, f):
            for L, n in enumerate(g.nodes):
                if n and n['k'] == 'loop' and any(want(g, x) or paths_to(p, p.get(g.nodes[x].get('f')), want) for x in g.walk(L) if g.nodes[x]['k'] == 'call'):
                    good = lambda e, g=g: any(g.nodes[x]['k'] == 'call' and (want(g, x) or paths_to(p, p.get(g.nodes[x].get('f')), want)) for x in [e])
                    w = every_round(p, g, L, good)
                    from checks.c18 import loopnorm
                    full = n.get('range') is not None and member(g, strip(g, n['range']), ('shards_',), IO) or n.get('range') is None and covers(g, L)
                    R.ob('shards', w is None and full, g.at(L), '%s does not write back the pages of every shard: %s' % (g.q, w or 'the loop does not cover them'), key=g.name)
                    loops.append(L)
        R.ob('shards', bool(loops), f.at(), '%s writes back the pages of no more than one shard' % f.q, key=f.name + ':loop')


def covers(f, L):
    """an index loop from 0 to the number of shards by one, or iterators over them"""
    from checks.c18 import loopnorm
    env = Env(f)
    n = f.nodes[L]
    c = n.get('c', -1)
    if c is None or c < 0:
        return False
    t = canon(env, c)
    ini = [x for x in f.walk(n['init'])] if n.get('init', -1) is not None and n.get('init', -1) >= 0 else []
    zero = any(f.nodes[x]['k'] == 'lit' and f.nodes[x].get('v') in ('0', '0U', '0u') or f.nodes[x]['k'] == 'call' and bname(f.nodes[x]) in ('begin', 'cbegin') for x in ini)
    inc = n.get('inc', -1)
    step = inc is not None and inc >= 0 and any(f.nodes[x]['k'] == 'un' and f.nodes[x]['op'] == '++' or f.nodes[x]['k'] == 'call' and f.nodes[x].get('op') == '++' for x in f.walk(inc))
    sub = set(subterms(t))
    whole = ('v', 'this.num_shards_') in sub or any(s[0] == 'call' and s[1].rsplit('::', 1)[-1] in ('size', 'end', 'cend') and s[2] == ('v', 'this.shards_') for s in sub if len(s) > 2)
    return zero and step and whole and t[0] in ('bin', 'un', 'call') and (t[0] != 'bin' or t[1] in ('<', '!=', '>'))


class Publish(Hooks):
    """the pages were flushed before anything that describes them is written next to them"""

    def __init__(self, p, flushers):
        self.p, self.fl = p, flushers
        self.bad, self.seen = {}, set()

    def throws(self, F, env, i, u):
        return True

    def descend(self, F, env, i, g):
        return g.cls == IX or g.d.get('lambda') and IX in str(g.id)

    def call(self, F, env, i, u):
        n = env.fn.nodes[i]
        q = n.get('q', '')
        if q in self.fl:
            return [('ok', 'flushed', None), ('exc', u, None)]
        if q.startswith(IO + '::write_node'):
            return [('ok', 'dirty', None), ('exc', 'dirty', None)]
        if self.describes(env, i):
            self.seen.add((env.fn.id, i))
            if u != 'flushed':
                self.bad[(env.fn.id, i)] = u
            return [('ok', u, None), ('exc', u, None)]
        g = self.p.get(n.get('f'))
        if g is not None and g.blocks and self.descend(F, env, i, g):
            return None
        return [('ok', u, None)] if nothrow_call(n) else [('ok', u, None), ('exc', u, None)]

    def describes(self, env, i):
        n = env.fn.nodes[i]
        q = n.get('q', '')
        return q in (IX + '::write_meta', IX + '::write_ids') or q.endswith('::save') and q.startswith('alaya::diskann::') and q.rsplit('::', 2)[-2] in ('SlotAllocator', 'NodeCache', 'PQTable')


def published(R, p):
    fl = {f.q for f in p.methods(IO) if f.blocks and f.d.get('acc') == 'public' and paths_to(p, f, lambda g, i: g.nodes[i].get('q') == PC + '::flush_dirty')}
    for f in sorted(p.methods(IX), key=lambda f: f.line):
        if not f.blocks or f.d.get('acc') != 'public' or f.d.get('st') or f.d.get('ctor') or f.d.get('dtor'):
            continue
        H = Publish(p, fl)
        if not any(H.describes(Env(g), i) for g in [f] + [x for x in reach_ix(p, f)] for i in g.calls()):
            continue
        F = Flow(p, H)
        F.run(f, 'unknown', Env(f))
        R.points += F.points
        R.saw([f])
        for fid, i in sorted(H.seen):
            g = p.get(fid)
            R.ob('order', (fid, i) not in H.bad, g.at(i), '%s saves what describes the pages (%s) before the changed pages themselves are in the file' % (g.q, bname(g.nodes[i])), key='%s:%s' % (f.name, g.nodes[i].get('q', '').split('::', 2)[-1]))


def reach_ix(p, f):
    out, work = {}, [f]
    while work:
        g = work.pop()
        for i in g.calls():
            h = p.get(g.nodes[i].get('f'))
            if h is not None and h.blocks and h.id not in out and h.cls == IX:
                out[h.id] = h
                work.append(h)
    return list(out.values())


def run(R):
    p = R.program('diskann')
    R.rule('drop', 'a page leaves memory only if it was clean or its write-back has just succeeded', 2)
    R.rule('clear', 'the modified mark of a page is taken away only after its write-back has succeeded', 2)
    R.rule('content', 'a write-back is handed the bytes of the page at the offset of that page', 2)
    R.rule('keep', 'a page handed over as modified is in memory, with its bytes and marked modified, when the call returns', 3)
    R.rule('report', 'a failed write-back leaves the cache as an exception', 2)
    R.rule('every', 'a flush goes through every page', 1)
    R.rule('result', 'a short or failed write, sync or resize of the file is thrown', 2)
    R.rule('through', 'a page changed in memory reaches the cache as modified, or the file, before the update returns', 2)
    R.rule('written', 'what the cache writes pages back with writes those bytes at that offset', 2)
    R.rule('sync', 'a flush of all pages ends in a sync of the file and hides no failure', 1)
    R.rule('shards', 'a flush goes through every shard', 1)
    R.rule('order', 'the files that describe the pages are saved after the changed pages', 3)
    cache(R, p)
    device(R, p)
    through(R, p)
    written(R, p)
    flushall(R, p)
    published(R, p)
    R.assume('the page map and the recency list name the same pages, as every method keeps them (the defensive branch for the opposite drops nothing)')
    R.assume('pwrite and fsync do what they report')
