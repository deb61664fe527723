"""C10: taint analysis from manifest text to path components (validated by a predicate that is itself analysed on abstract strings), and no-follow analysis of every open and directory use."""
from vf.flow import *
from vf.util import *
from vf.absx import Domain, Eval, Lst, Stuck, It
from vf.prog import AnalysisError
import re

VALID = ('is_valid_basename', 'is_valid_segment_id')
NOFOLLOW = 0x20000
EXCL = 0x80
DISK = 'include/index/disk/'


# ---- the validators, on abstract strings
class Str(Domain):
    def chars(self, v):
        if isinstance(v, Lst):
            return v.x
        if isinstance(v, tuple) and v[0] in ('lit', 'str') and isinstance(v[1], str):
            return [ord(c) for c in v[1]]
        if isinstance(v, str):
            return [ord(c) for c in v]
        return None

    def eqs(self, ev, a, b):
        if len(a) != len(b):
            return False
        return all(ev.truth(ev.arith('==', x, y)) for x, y in zip(a, b))

    def call(self, ev, f, i, n, q, obj, args):
        if q is None:
            return (1 << 64) - 1 if n.get('n') == 'npos' else NotImplemented
        name = q.rsplit('::', 1)[-1]
        if n['k'] == 'ctor' and 'basic_string' in n.get('cls', ''):
            if not args:
                return Lst()
            c = self.chars(args[0])
            if c is not None:
                if len(args) >= 2 and isinstance(args[1], int) and isinstance(args[0], Lst):
                    return Lst(c[:args[1]])
                return Lst(c)
            if isinstance(args[0], It):
                l = args[0].l.x
                return Lst(l[args[0].i:args[1].i] if len(args) > 1 and isinstance(args[1], It) else l[args[0].i:args[0].i + args[1]] if len(args) > 1 and isinstance(args[1], int) else l[args[0].i:])
            return NotImplemented
        if n.get('op') in ('==', '!=') or name in ('compare',):
            xs = ([obj] if obj is not None else []) + args
            cs = [self.chars(x) for x in xs[:2]]
            if len(cs) == 2 and None not in cs:
                r = self.eqs(ev, *cs)
                return (0 if r else 1) if name == 'compare' else r == (n.get('op') == '==')
        if name == 'string' and isinstance(obj, Lst) or name == 'operator basic_string_view':
            return obj
        if isinstance(obj, Lst):
            s = obj.x
            if name == 'substr':
                a = args[0] if args else 0
                c = args[1] if len(args) > 1 and isinstance(args[1], int) else len(s)
                return Lst(s[a:a + c])
            if name == 'remove_prefix':
                del s[:args[0]]
                return None
            if name == 'remove_suffix':
                del s[len(s) - args[0]:]
                return None
            if name in ('starts_with', 'ends_with'):
                c = self.chars(args[0]) if not isinstance(args[0], int) else [args[0]]
                if c is not None:
                    return len(s) >= len(c) and self.eqs(ev, s[:len(c)] if name == 'starts_with' else s[len(s) - len(c):], c)
            if name in ('find', 'contains', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of') and args:
                c = [args[0]] if isinstance(args[0], int) else self.chars(args[0])
                if c is not None:
                    order = range(len(s))
                    if name.startswith('r') or 'last' in name:
                        order = reversed(list(order))
                    for j in order:
                        if name in ('find', 'contains', 'rfind'):
                            hit = j + len(c) <= len(s) and self.eqs(ev, s[j:j + len(c)], c)
                        else:
                            hit = any(ev.truth(ev.arith('==', s[j], x)) for x in c) == ('not' not in name)
                        if hit:
                            return True if name == 'contains' else j
                    return False if name == 'contains' else (1 << 64) - 1
        if name == 'npos':
            return (1 << 64) - 1
        if name in ('isdigit', 'isalnum', 'isalpha', 'std::isdigit') and len(args) == 1 and isinstance(args[0], int):
            return {'isdigit': chr(args[0]).isdigit(), 'isalpha': chr(args[0]).isalpha(), 'isalnum': chr(args[0]).isalnum()}.get(name)
        return NotImplemented

    def member(self, ev, f, i, n, base):
        if n.get('n') == 'npos':
            return (1 << 64) - 1
        return NotImplemented


def hostile():
    yield 'the empty name', []
    yield 'the name "."', [46]
    yield 'the name ".."', [46, 46]
    yield 'the name ".." followed by NUL', [46, 46, 0]
    for ln in list(range(1, 9)) + [12, 13]:
        for j in range(ln):
            yield 'a name of %d characters with a path separator at position %d' % (ln, j), [47 if k == j else ('ch', k) for k in range(ln)]


def validators(R, p):
    good = set()
    for f in p.fns.values():
        if f.name in VALID and f.q.startswith('alaya::disk::') and f.body is not None and len(f.params) == 1:
            R.saw([f])
            bad = None
            n = 0
            try:
                for what, s in hostile():
                    if not s and f.name == 'is_valid_segment_id':
                        pass
                    for o in Eval(p, Str(), maxpaths=2000).outcomes(f, lambda: ([Lst(s)], None)):
                        n += 1
                        if o.kind == 'stuck':
                            raise Stuck(o.value)
                        if o.kind == 'ret' and o.value is not False and bad is None:
                            bad = what
            except (Stuck, AnalysisError, TypeError) as e:
                R.notes.append('%s: not analysed (%s)' % (f.q, str(e)[:80]))
                good.add(f.name)
                continue
            R.points += n
            R.ob('validator', bad is None, f.at(), '%s accepts %s' % (f.q, bad), key=f.q)
            good.add(f.name)
    return good


# ---- taint
def fields(p):
    out = set()
    for c in p.classes.values() if isinstance(p.classes, dict) else p.classes:
        if c['q'].startswith('alaya::disk::') and c['q'].endswith('Manifest'):
            for x in c['fields']:
                if 'basic_string' in x['t']:
                    out.add((c['q'], x['n'], x['t']))
    return out


class Taint:
    def __init__(self, p):
        self.p = p
        self.names = {n for _, n, _ in fields(p)}
        self.free = {n for _, n, t in fields(p) if 'map' in t}      # values of unchecked keys
        self.vars = {}
        fns = [f for f in p.fns.values() if f.rel().startswith(DISK) and f.body is not None]
        ch = True
        while ch:
            ch = False
            for f in fns:
                env = Env(f)
                for x in f.walk():
                    n = f.nodes[x]
                    if n['k'] == 'loop' and n.get('lk') == 'range' and n.get('var', -1) >= 0 and n.get('range', -1) >= 0:
                        k = self.of(canon(env, n['range']))
                        for v in f.nodes[n['var']]['vs']:
                            if k and v.get('init') is not None and v['init'] >= 0:
                                for t in subterms(canon(env, v['init'])):
                                    if isinstance(t, tuple) and t[0] == 'v' and t[1].startswith('L:__begin') and t[1] not in self.vars:
                                        self.vars[t[1]] = k
                                        ch = True
                    if n['k'] != 'decl':
                        continue
                    for v in n['vs']:
                        if v.get('init') is None or v['init'] < 0 or str(v['d']) not in f.vars:
                            continue
                        pt = 'L:%s#%s@%s' % (v['n'], f.vars[str(v['d'])]['l'], f.name)
                        if pt in self.vars:
                            continue
                        k = self.of(canon(env, v['init']))
                        if k:
                            self.vars[pt] = k
                            ch = True

    def relevant(self, g):
        if self.rel is None:
            self.rel = {}
            mark = []
            for f in self.p.fns.values():
                if f.body is None:
                    continue
                for x in f.calls():
                    n = f.nodes[x]
                    b = bname(n)
                    if b in VALID or n.get('op') in ('/', '/=') and n.get('q', '').startswith('std::filesystem') or b in ('is_symlink', 'symlink_status', 'load_disk_index', 'is_regular_file') or 'Manifest::load' in n.get('q', ''):
                        mark.append(f.id)
                        break
            cs = self.p.callers()
            seen = set(mark)
            while mark:
                for f, x in cs.get(mark.pop(), []):
                    if f.id not in seen:
                        seen.add(f.id)
                        mark.append(f.id)
            self.rel = seen
        return g.id in self.rel or g.d.get('lambda')

    rel = None

    def of(self, t):
        """'free' / 'field' / 'entry' when the term carries manifest text or a directory entry"""
        r = None
        for x in subterms(t):
            if not isinstance(x, tuple):
                continue
            if x[0] == 'v':
                if x[1] in self.vars:
                    r = r or self.vars[x[1]]
                segs = x[1].split('.')
                if segs[0] in self.vars:
                    r = r or self.vars[segs[0]]
                for s in segs[1:] if len(segs) > 1 else []:
                    s = s.split('[')[0]
                    if s in self.free:
                        return 'free'
                    if s in self.names:
                        r = r or 'field:' + s
            elif x[0] in ('call', 'ctor') and 'directory_iterator' in x[1]:
                r = r or 'entry'
            elif x[0] == 'call' and x[1].startswith('alaya::disk::'):
                pass
        # a number parsed from the text is not text any more
        return r


def clean(t):
    while t and t[0] in ('cast', 'addr') or t and t[0] == 'ctor' and len(t) == 3 or t and t[0] == 'ctor' and len(t) == 4 and t[1] == 'std::filesystem::path' or t and t[0] == 'call' and len(t) == 3 and t[2] and t[1].rsplit('::', 1)[-1] in ('operator basic_string_view', 'c_str', 'data', 'string', 'native', 'str', 'view', 'lexically_normal'):
        t = t[2] if len(t) > 2 else t[1]
    if t and t[0] == 'call' and len(t) == 4 and t[1].rsplit('::', 1)[-1] in ('move', 'forward'):
        t = t[3]
    return t


def text_parts(t):
    """the pieces of text a path component is put together from"""
    t = clean(t)
    if t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('operator+',):
        out = []
        for x in t[2:]:
            if x:
                out += text_parts(x)
        return out
    if t[0] == 'bin' and t[1] == '+':
        return text_parts(t[2]) + text_parts(t[3])
    if t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('to_string', 'size', 'filename', 'stem', 'format_segment_id', 'value_or') or t[0] in ('str', 'lit'):
        return [] if t[1].rsplit('::', 1)[-1] != 'value_or' else [t]
    if t[0] == 'cond':
        return text_parts(t[2]) + text_parts(t[3])
    return [t]


class Names(Hooks):
    """u: ('ok', term) validated as a plain name; ('nolink', term) known not to be a symbolic link; ('set', field, at) stored by load and not validated; ('iter', field, var) element under test; ('art', key) / ('absent', key)"""

    def __init__(self, T, f, R):
        self.T = T
        self.f = f
        self.p = T.p
        self.sites = {}
        self.probs = {}
        self.loads = {}
        self.src = {}
        self.iv = {}

    def note(self, rule, at, msg, key):
        self.probs.setdefault((rule, at, key), msg)

    def throws(self, F, env, i, u):
        return False

    def descend(self, F, env, i, g):
        return (g.rel().startswith(DISK) or g.d.get('lambda')) and g.name not in VALID and len(F.stack) < 7 and self.T.relevant(g)

    def after(self, F, env, i, u, kind, rv):
        g = self.p.get(env.fn.nodes[i].get('f'))
        tag = '@%s' % g.name
        return frozenset(x for x in u if not (x[0] in ('ok', 'nolink') and any(isinstance(y, tuple) and y and y[0] == 'v' and y[1].split('.')[0].endswith(tag) for y in subterms(x[1]))))

    # value facts
    def branch(self, F, env, cond, pol, u):
        self.env = env
        for c, p in atoms(env, cond, pol):
            c = clean(c)
            if c[0] != 'call':
                continue
            b = c[1].rsplit('::', 1)[-1]
            if b in VALID and p and len(c) > 3:
                t = clean(c[3])
                u = u | {('ok', t)}
                u = self.settle(u, t)
            elif b == 'empty' and p and c[2]:
                t = clean(c[2])
                u = self.settle(u | {('ok', t)}, t)
            elif b in ('all_of', 'none_of', 'any_of') and p == (b == 'all_of') and len(c) > 5 and c[1].startswith('std::'):
                pr = str(c[5])
                if any(v in pr for v in VALID) or self.lam(env, cond):
                    for x in list(u):
                        if x[0] == 'set' and x[1] in str(c[3]):
                            u = u - {x}
            elif b in ('is_symlink',):
                t = clean(c[2] if c[2] else c[3])
                if t[0] == 'call' and t[1].rsplit('::', 1)[-1] == 'symlink_status':
                    t = clean(t[2] if t[2] else t[3])
                if not p:
                    u = u | {('nolink', self.dirof(t))}
            elif b in ('is_regular_file', 'is_directory', 'exists') and p and len(c) > 3 and b != 'exists':
                s = clean(c[3])
                if s[0] == 'call' and s[1].rsplit('::', 1)[-1] == 'symlink_status':
                    u = u | {('nolink', self.dirof(clean(s[2] if s[2] else s[3])))} | self.keys(s)
                else:
                    for k in self.keys(s):
                        pass
            if c[0] == 'call' and b in ('operator==', 'end', 'contains'):
                pass
        for c, p in atoms(env, cond, pol):
            c = clean(c)
            if c[0] == 'bin' and c[1] in ('<', '>', '!=', '==', '>=', '<='):
                for x in c[2:]:
                    x = clean(x)
                    if x[0] == 'call' and x[1].rsplit('::', 1)[-1] == 'size' and x[2] and clean(x[2])[0] == 'v' and clean(x[2])[1].rsplit('.', 1)[-1] in self.T.names:
                        u = self.over(clean(x[2]), p == (c[1] in ('<', '>', '!=')), u)
            if c[0] == 'bin' and c[1] in ('==', '!=') or c[0] == 'call' and c[1].rsplit('::', 1)[-1] in ('operator==', 'operator!='):
                eq = (c[1].endswith('==')) == p
                a = [x for x in c[2:] if isinstance(x, tuple)]
                kind = [x[1].rsplit('::', 1)[-1] for x in a if x[0] == 'enum' and '::file_type::' in x[1]]
                if kind and (eq if kind[0] != 'symlink' else not eq) and kind[0] in ('symlink', 'regular', 'directory'):
                    for x in a:
                        for y in subterms(x):
                            if isinstance(y, tuple) and y[0] == 'call' and y[1].rsplit('::', 1)[-1] == 'symlink_status':
                                u = u | {('nolink', self.dirof(clean(y[2] if y[2] else y[3])))}
                                if kind[0] == 'regular':
                                    u = u | self.keys(y)
                if eq and any('::end' in str(x) for x in a):
                    for k in set().union(*[self.lits(x) for x in a]) & self.arts if a else ():
                        u = u | {('absent', k)}
            elif c[0] == 'call' and c[1].rsplit('::', 1)[-1] in ('contains', 'count') and not p:
                for k in self.lits(c) & self.arts:
                    u = u | {('absent', k)}
        return u

    def lam(self, env, cond):
        f = env.fn
        for x in f.walk(cond):
            if f.nodes[x]['k'] == 'lam':
                g = self.p.get(f.nodes[x].get('f'))
                if g is not None and any(bname(g.nodes[y]) in VALID for y in g.calls()):
                    return True
        return False

    def dirof(self, t):
        t = clean(t)
        # entry and entry.path() name the same object
        while t[0] == 'call' and t[1].rsplit('::', 1)[-1] == 'path' and t[2]:
            t = clean(t[2])
        return t

    def lits(self, t):
        out = {x[1] for x in subterms(t) if isinstance(x, tuple) and x[0] == 'str' and x[1].startswith('x_')}
        for x in subterms(t):
            if isinstance(x, tuple) and x[0] == 'v':
                for nm in {x[1], x[1].split('.')[0]}:
                    if nm in self.keyof and self.env is not None and self.env.fn is self.keyof[nm][0]:
                        t2 = canon(self.env, self.keyof[nm][1])
                        out |= {y[1] for y in subterms(t2) if isinstance(y, tuple) and y[0] == 'str' and y[1].startswith('x_')}
        return out

    keyof = {}
    env = None

    def keys(self, t):
        return frozenset(('art', k) for k in self.lits(t) & self.arts)

    def settle(self, u, t):
        for x in list(u):
            if x[0] == 'set' and (t[0] == 'v' and t[1].rsplit('.', 1)[-1] == x[1] or t == self.src.get(x[1:])):
                u = u - {x}
            elif x[0] == 'iter' and (self.T.of(t) or self.iv.get(t[1] if t[0] == 'v' else None)) == 'field:' + x[1]:
                u = u - {x}
        return u

    def rangeloop(self, F, env, term, enter, u):
        f = env.fn
        if term.get('s') is None:
            return u
        n = f.nodes[term['s']]
        if n.get('lk') != 'range':
            return u
        t = clean(canon(env, n['range']))
        if n.get('var', -1) is not None and n.get('var', -1) >= 0 and t[0] == 'v':
            for v in f.nodes[n['var']]['vs']:
                if v.get('init') is not None and v['init'] >= 0:
                    for y in subterms(canon(env, v['init'])):
                        if isinstance(y, tuple) and y[0] == 'v' and y[1].startswith('L:__begin'):
                            self.iv[y[1]] = 'field:' + t[1].rsplit('.', 1)[-1]
        return self.over(t, enter, u)

    def over(self, t, enter, u):
        fld = None
        if t[0] == 'v' and t[1].rsplit('.', 1)[-1] in self.T.names:
            fld = t[1].rsplit('.', 1)[-1]
        if fld is None:
            return u
        if ('iter', fld) in u:
            u = (u - {('iter', fld)}) | {('unchecked', fld)}
        if enter:
            return u | {('iter', fld)}
        if ('unchecked', fld) not in u:
            u = frozenset(x for x in u if not (x[0] == 'set' and x[1] == fld))
        return u

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'asg' and n['op'] == '=' or n['k'] == 'call' and n.get('op') == '=' and 'obj' in n and n['a']:
            l, r = (n['e'], n['r']) if n['k'] == 'asg' else (n['obj'], n['a'][0])
            m = f.nodes[l]
            if m['k'] == 'mem' and m['n'] in self.T.names and m['n'] not in self.T.free and f.name == 'load':
                t = canon(env, r)
                self.src[(m['n'], f.at(i))] = clean(t)
                if clean(t)[0] not in ('str', 'lit') and ('ok', clean(t)) not in u:
                    self.loads[(m['n'], f.at(i))] = 1
                    u = frozenset(x for x in u if not (x[0] == 'set' and x[1] == m['n'])) | {('set', m['n'], f.at(i))}
        return u

    def call(self, F, env, i, u):
        u2 = self.elem(F, env, i, u)
        f = env.fn
        n = f.nodes[i]
        q = n.get('q', '')
        b = bname(n)
        if (n.get('op') in ('/', '/=') or b in ('append', 'concat') and 'path' in q) and q.startswith('std::filesystem'):
            comp = n['a'][-1] if n['a'] else None
            if comp is not None:
                self.component(env, i, comp, u)
        if n['k'] == 'ctor' and q.startswith('std::filesystem::path::path') and n['a'] and not n.get('copy') and not n.get('move'):
            t = clean(canon(env, n['a'][0]))
            if t[0] == 'call' and t[1].endswith('operator+') and 'string' in str(t):
                self.component(env, i, n['a'][0], u)
        # files below a directory named by the manifest or found in the directory
        if b == 'load' and q.endswith('Manifest::load') and n['a']:
            d = clean(canon(env, n['a'][0]))
            if d[0] == 'call' and d[1].endswith('operator/'):
                base = [x for x in d[2:] if x][0]
                base = self.dirof(base)
                k = self.T.of(base)
                if k and (k.startswith('field') or k == 'entry'):
                    ok = ('nolink', base) in u
                    at = f.at(i)
                    top = '%s under %s' % (f.q, self.f.q)
                    self.sites[('no-follow-dir', at, top)] = 1
                    if not ok:
                        self.note('no-follow-dir', at, 'files below a segment directory named by %s are opened although the directory may be a symbolic link out of the collection' % ('the manifest' if k != 'entry' else 'a directory entry'), top)
        if b == 'load_disk_index':
            self.sites[('artifacts', f.at(i), f.q)] = 1
            for k in sorted(self.arts):
                if ('art', k) not in u and ('absent', k) not in u:
                    self.note('artifacts', f.at(i), 'the native index is loaded although the file named by %s was not checked to be a regular file that is no symbolic link' % k, f.q)
        if u2 is not u:
            return [('ok', u2, None)]
        return None

    arts = frozenset()

    def component(self, env, i, comp, u):
        f = env.fn
        at = f.at(i)
        for t in text_parts(canon(env, comp)):
            k = self.T.of(t)
            if not k:
                continue
            if k.startswith('field:'):
                self.sites[('component', at, f.q)] = 1
                self.used.add(k[6:])
                continue
            if k == 'entry':
                continue
            if t[0] == 'call' and t[1].startswith('alaya::disk::') and 'basic_string' not in f.nodes[comp].get('t', '') and 'path' not in f.nodes[comp].get('t', ''):
                continue
            self.sites[('component', at, f.q)] = 1
            if ('ok', t) not in u:
                self.note('component', at, 'a path is built from manifest text (%s) that was not checked to be a plain name' % show(t)[:80], f.q)

    used = set()


def flagbits(f, i, depth=0):
    n = f.nodes[i]
    if n.get('cv') is not None:
        return int(n['cv'])
    if depth > 6:
        return 0
    if n['k'] == 'lit' and str(n['v']).isdigit():
        return int(n['v'])
    if n['k'] == 'cast':
        return flagbits(f, n['e'], depth + 1)
    if n['k'] == 'bin' and n['op'] == '|':
        return flagbits(f, n['e'], depth + 1) | flagbits(f, n['r'], depth + 1)
    if n['k'] == 'cond':
        return flagbits(f, n['a1'], depth + 1) & flagbits(f, n['a2'], depth + 1)
    if n['k'] == 'ref' and 'd' in n:
        out = None
        for x in f.walk():
            m = f.nodes[x]
            if m['k'] == 'decl':
                for v in m['vs']:
                    if v['d'] == n['d'] and v.get('init') is not None and v['init'] >= 0:
                        out = (out or 0) | flagbits(f, v['init'], depth + 1)
            elif m['k'] == 'asg' and f.nodes[m['e']].get('d') == n['d']:
                if m['op'] == '|=':
                    out = (out or 0) | flagbits(f, m['r'], depth + 1)
                elif m['op'] == '&=':
                    out = (out or 0) & flagbits(f, m['r'], depth + 1)
                elif m['op'] == '=':
                    b = flagbits(f, m['r'], depth + 1)
                    out = b if out is None else out & b
        return out or 0
    return 0


def opens(R, p):
    """every open whose descriptor carries content refuses a symbolic link"""
    for f in p.fns.values():
        if not f.rel().startswith((DISK, 'include/utils/platform_fs', 'include/storage/mmap_file')) or f.body is None:
            continue
        for x in f.calls():
            n = f.nodes[x]
            if n.get('q') not in ('open', 'openat'):
                continue
            content = any(f.nodes[y].get('q') in ('read', 'pread', 'mmap', 'write', 'pwrite', 'flock') for y in f.calls())
            if not content:
                continue
            R.saw([f])
            bits = flagbits(f, n['a'][2 if n['q'] == 'openat' else 1])
            R.ob('no-follow-open', bool(bits & NOFOLLOW) or (bits & (EXCL | 0x40)) == (EXCL | 0x40), f.at(x), 'this open follows a symbolic link at the final component', key=f.q)


def streams(R, p, T):
    """engines that open a file through a stream are handed paths known not to be links"""
    out = []
    opener = set()
    for f in p.fns.values():
        if f.body is None or f.rel().startswith(DISK) or not f.rel().startswith('include/'):
            continue
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] == 'ctor' and n.get('cls') in ('std::basic_ifstream', 'std::ifstream') and n['a'] and f.params:
                t = clean(canon(Env(f), n['a'][0]))
                if t[0] == 'v' and t[1].startswith('P:'):
                    opener.add(f.id)
    cs = p.callers()
    work = list(opener)
    while work:
        g = work.pop()
        for f, x in cs.get(g, []):
            if f.id not in opener and not f.rel().startswith(DISK) and f.body is not None:
                a = [clean(canon(Env(f), y)) for y in f.nodes[x].get('a', [])]
                if any(t[0] == 'v' and t[1].startswith('P:') for t in a[:1]):
                    opener.add(f.id)
                    work.append(f.id)
    return opener


class Streams(Names):
    def __init__(self, T, f, R, opener):
        Names.__init__(self, T, f, R)
        self.opener = opener

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        tgt = n.get('f')
        a = n.get('a', [])
        name = n.get('q', '')
        if name in ('std::make_unique', 'std::make_shared') or n['k'] == 'new':
            t = n.get('ta') or [n.get('t', '')]
            g = [h for h in self.p.fns.values() if h.id in self.opener and h.d.get('ctor') and h.q.rsplit('::', 1)[0].rsplit('::', 1)[-1] in str(t)]
            tgt = g[0].id if g else None
        if tgt in self.opener and a and f.rel().startswith(DISK):
            t = self.dirof(canon(env, a[0]))
            if t[0] == 'call' and t[1].endswith('operator/') and self.T.of(t):
                self.sites[('no-follow-stream', f.at(i), f.q)] = 1
                if ('nolink', t) not in u:
                    self.note('no-follow-stream', f.at(i), 'a file named by the manifest is opened by a reader that follows symbolic links', f.q)
        return Names.call(self, F, env, i, u)


def run(R):
    R.rule('validator', 'the test for a plain name or segment identifier rejects "", ".", ".." and everything with a path separator', 2)
    R.rule('component', 'manifest text becomes a path component only after it was validated, at load or at the use', 3)
    R.rule('load-validates', 'loading a manifest validates every text field that is later used as a path component', 2)
    R.rule('no-follow-open', 'an open of a file of the collection does not follow a symbolic link at the final component', 4)
    R.rule('no-follow-dir', 'a segment directory named by the manifest or found in the directory is checked not to be a symbolic link before files below it are opened', 1)
    R.rule('no-follow-stream', 'a file named by the manifest is handed to a reader that follows links only after it was checked not to be one', 0)
    R.rule('artifacts', 'before a native index is loaded, each of its files named in the manifest was checked to be a regular file and no symbolic link', 0)
    p = R.program('disk')
    validators(R, p)
    opens(R, p)
    T = Taint(p)
    opener = streams(R, p, T)
    Names.used = set()
    # artifact keys that the importer stores
    arts = set()
    Names.keyof = {}
    for f in p.fns.values():
        if f.rel().startswith(DISK) and f.body is not None:
            ks = {f.nodes[x]['v'] for x in f.walk() if f.nodes[x]['k'] == 'str' and re.fullmatch(r'x_laser_\w+_file', f.nodes[x]['v'])}
            if 'Importer' in f.q:
                arts |= ks
            env = Env(f)
            for x in f.walk():
                n = f.nodes[x]
                if n['k'] == 'decl':
                    for v in n['vs']:
                        if v.get('init') is not None and v['init'] >= 0 and str(v['d']) in f.vars:
                            t = canon(env, v['init'])
                            if any(isinstance(y, tuple) and y[0] == 'call' and y[1].rsplit('::', 1)[-1] in ('find', 'at', 'operator[]') for y in subterms(t)):
                                Names.keyof['L:%s#%s@%s' % (v['n'], f.vars[str(v['d'])]['l'], f.name)] = (f, v['init'])
    Names.arts = frozenset(arts)
    agg = {}
    loads = {}
    for f in p.fns.values():
        if not f.rel().startswith(DISK) or f.body is None or f.d.get('lambda') or f.name in VALID:
            continue
        H = Streams(T, f, R, opener)
        F = Flow(p, H)
        res = F.run(f, frozenset())
        R.points += F.points
        if H.sites or H.loads:
            R.saw([f])
        for s in H.sites:
            agg.setdefault(s, None)
        for s, m in H.probs.items():
            agg[s] = m
        if H.loads and f.name == 'load':
            left = {x[1] for kd, u, rv in res if kd == 'ok' for x in u if x[0] == 'set'}
            for fld, at in H.loads:
                loads.setdefault((f.q, fld), [at, True])
                if fld in left:
                    loads[(f.q, fld)][1] = False
    # a field that only carries text (never a path component) need not be validated
    for (q, fld), (at, ok) in loads.items():
        if fld in Names.used:
            R.ob('load-validates', ok, at, '%s can return with a %s that was not checked to be a plain name although paths are built from it' % (q, fld), key='%s.%s' % (q, fld))
    for (rule, at, key), m in sorted(agg.items()):
        R.ob(rule, m is None, at, m or '', key=key)
    R.assume('the collection directory itself and its "segments" directory are what the caller named', 'nobody replaces files between a check and the open that follows it')
    return __doc__
