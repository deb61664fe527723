"""Reachability specialised to the value of a kind (an enumerator, a tag byte or a text): conditions that compare the
kind with constants are resolved, every other condition is followed both ways."""
from .flow import *
from .util import strip

OTHER = ('other',)     # a value no enumerator defines


def const_of(f, i):
    n = f.nodes[strip(f, i)]
    while n['k'] == 'ctor' and n.get('a') and str(n.get('cls', '')).startswith('std::basic_string') and all(f.nodes[a]['k'] == 'ctor' and not f.nodes[a].get('a') for a in n['a'][1:]):
        n = f.nodes[strip(f, n['a'][0])]
    if n['k'] == 'ref' and n.get('enum'):
        return ('enum', n['enum'] + '::' + n['n'])
    if n['k'] == 'str':
        return ('str', n['v'])
    if n['k'] == 'lit':
        try:
            return ('int', int(str(n['v']).rstrip('uUlL')))
        except ValueError:
            return None
    if 'cv' in n:
        try:
            return ('int', int(n['cv']))
        except ValueError:
            return None
    return None


class Kind:
    """values: list of constants (aliases) the kind has, e.g. [('enum','alaya::MetricType::L2'), ('int', 0)]; isk(env, node) says whether a node denotes the kind"""

    def __init__(self, p, isk, values, follow=None):
        self.p, self.isk, self.values, self.follow = p, isk, values, follow or (lambda g: True)
        self.memo = {}
        self.reached = set()     # (fn id, node)
        self.stuck = set()
        self.incomplete = set()
        self.truth = None        # optional: known truth of further conditions

    def same(self, c):
        if self.values == [OTHER]:
            return False
        if any(v[0] == c[0] for v in self.values):
            return c in self.values
        return None

    def kindly(self, env, i, depth=0):
        f = env.fn
        i = strip(f, i)
        if self.isk(env, i):
            return True
        n = f.nodes[i]
        if depth > 8:
            return False
        if n['k'] == 'ref' and 'd' in n and not n.get('isfn') and not n.get('enum'):
            v = f.vars.get(str(n['d']), {})
            if v.get('k') == 'param' and env.up and n['d'] in f.params:
                ue, call = env.up
                j = f.params.index(n['d'])
                a = ue.fn.nodes[call].get('a', [])
                return j < len(a) and self.kindly(ue, a[j], depth + 1)
            if v.get('k') == 'local':
                sd = f.single_def(n['d'])
                if sd is not None and sd >= 0:
                    return self.kindly(env, sd, depth + 1)
        if n['k'] == 'ctor' and len(n.get('a', [])) == 1:
            return self.kindly(env, n['a'][0], depth + 1)
        return False

    def tv(self, env, i, depth=0):
        """truth of a condition, or None"""
        f = env.fn
        n = f.nodes[i]
        k = n['k']
        if depth > 10:
            return None
        if self.truth is not None:
            r = self.truth(env, i)
            if r is not None:
                return r
        if k == 'cast' or k == 'ctor' and len(n.get('a', [])) == 1:
            return self.tv(env, n['e'] if k == 'cast' else n['a'][0], depth + 1)
        if n.get('cv') in ('true', 'false'):
            return n['cv'] == 'true'
        if k == 'lit' and n.get('v') in ('true', 'false'):
            return n['v'] == 'true'
        if k == 'un' and n['op'] == '!':
            r = self.tv(env, n['e'], depth + 1)
            return None if r is None else not r
        if k == 'bin' and n['op'] in ('&&', '||'):
            a, b = self.tv(env, n['e'], depth + 1), self.tv(env, n['r'], depth + 1)
            if n['op'] == '&&':
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        op, xs = n.get('op'), None
        if k == 'bin' and op in ('==', '!=', '<', '>', '<=', '>='):
            xs = [n['e'], n['r']]
        elif k == 'call' and op in ('==', '!='):
            xs = ([n['obj']] if n.get('obj') is not None and n.get('obj', -1) >= 0 else []) + list(n['a'])
        if xs and len(xs) == 2:
            for a, b in (xs, xs[::-1]):
                if self.kindly(env, a):
                    c = const_of(f, b)
                    if c is None:
                        e2 = env
                        c = self.lookup_const(env, b)
                    if c is None:
                        return None
                    if op in ('==', '!='):
                        r = self.same(c)
                        return None if r is None else r == (op == '==')
                    v = next((v[1] for v in self.values if v[0] == 'int'), None)
                    if v is None or c[0] != 'int':
                        return None
                    if a is not xs[0]:
                        v, w = c[1], v
                    else:
                        w = c[1]
                    return {'<': v < w, '>': v > w, '<=': v <= w, '>=': v >= w}[op]
            return None
        if k == 'cond':
            c = self.tv(env, n['c'], depth + 1)
            if c is not None:
                return self.tv(env, n['a1'] if c else n['a2'], depth + 1)
            a, b = self.tv(env, n['a1'], depth + 1), self.tv(env, n['a2'], depth + 1)
            return a if a == b else None
        if k == 'ref' and not n.get('isfn') and not n.get('enum') and 'd' in n:
            v = f.vars.get(str(n['d']), {})
            if v.get('k') == 'local':
                sd = f.single_def(n['d'])
                if sd is not None and sd >= 0:
                    return self.tv(env, sd, depth + 1)
            if v.get('k') == 'param' and env.up and n['d'] in f.params:
                ue, call = env.up
                j = f.params.index(n['d'])
                a = ue.fn.nodes[call].get('a', [])
                if j < len(a):
                    return self.tv(ue, a[j], depth + 1)
        if k == 'call' and n.get('q', '').rsplit('::', 1)[-1] == 'empty' and n.get('obj', -1) is not None and n.get('obj', -1) >= 0 and self.kindly(env, n['obj']):
            return self.same(('str', '')) if self.values == [OTHER] or any(v[0] == 'str' for v in self.values) else None
        if k == 'call' and n.get('t') in ('bool', 'const bool'):
            g = self.p.get(n.get('f'))
            if g is not None and g.blocks and self.passes(env, i, g):
                ex = self.run(g, child_env(env, i, g), depth + 1)
                rs = {r for k2, r in ex if k2 == 'ret'}
                if len(rs) == 1 and rs <= {True, False}:
                    return rs.pop()
        return None

    def lookup_const(self, env, b, depth=0):
        """constant bound to a parameter of an inlined call"""
        f = env.fn
        n = f.nodes[strip(f, b)]
        if depth < 5 and n['k'] == 'ref' and 'd' in n:
            v = f.vars.get(str(n['d']), {})
            if v.get('k') == 'param' and env.up and n['d'] in f.params:
                ue, call = env.up
                j = f.params.index(n['d'])
                a = ue.fn.nodes[call].get('a', [])
                if j < len(a):
                    return const_of(ue.fn, a[j]) or self.lookup_const(ue, a[j], depth + 1)
        return None

    def passes(self, env, i, g):
        """the callee can see the kind: through a parameter or the object it belongs to"""
        n = env.fn.nodes[i]
        if any(self.kindly(env, a) for a in n.get('a', [])):
            return True
        if n.get('k') == 'call' and n.get('obj', -1) is not None and n.get('obj', -1) >= 0 and env.fn.nodes[n['obj']]['k'] == 'this':
            return True
        return any(self.carries(env, a) for a in n.get('a', []))

    def enters(self, env, c):
        """c heads a loop that runs at least once"""
        return False

    def carries(self, env, a):
        return False

    def run(self, f, env=None, depth=0):
        """set of ('ret', value|None) / ('throw', None); fills self.reached"""
        env = env or Env(f)
        key = (f.id, env.key())
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {('ret', None)}
        out = set()
        if depth > 12 or not f.blocks:
            return {('ret', None)}
        seen, work = set(), [(f.entry, frozenset())]
        while work:
            b, ent = work.pop()
            if (b, ent) in seen:
                continue
            seen.add((b, ent))
            blk = f.blocks[b]
            if b == f.exit:
                out.add(('ret', None)) if not any(x[0] == 'ret' for x in out) and f.d.get('rt', 'void') == 'void' else None
                continue
            dead = False
            for e in blk['els']:
                if not isinstance(e, int):
                    continue
                n = f.nodes[e]
                self.reached.add((f.id, e, env.key()))
                if n['k'] == 'throw':
                    out.add(('throw', None))
                    dead = True
                    break
                if n['k'] == 'ret':
                    ee = n.get('e', -1)
                    out.add(('ret', self.value(env, ee, depth) if ee is not None and ee >= 0 else None))
                    dead = True
                    break
                if n['k'] in ('call', 'ctor'):
                    g = self.p.get(n.get('f'))
                    if g is not None and g.blocks and g.id != f.id and self.follow(g) and self.passes(env, e, g):
                        ex = self.run(g, child_env(env, e, g), depth + 1)
                        if any(x[0] == 'throw' for x in ex):
                            out.add(('throw', None))
                        if ex and not any(x[0] == 'ret' for x in ex):
                            dead = True
                            break
                    if n.get('nr'):
                        out.add(('throw', None))
                        dead = True
                        break
            if dead:
                continue
            t, su = blk.get('term'), blk['succ']
            if t and t.get('k') == 'SwitchStmt' and self.kindly(env, t['c']):
                tgt, dflt, unsure = [], None, False
                for s in su:
                    lab = f.blocks[s].get('label') if s is not None else None
                    if not lab or lab['k'] != 'case':
                        dflt = s
                        continue
                    c = const_of(f, lab['v'])
                    alt = self.alias(f, lab['v'])
                    r = None
                    for cc in [c] + alt:
                        if cc is not None and r is None:
                            r = self.same(cc)
                    if r:
                        tgt.append(s)
                    elif r is None:
                        unsure = True
                        tgt.append(s)
                if not tgt or unsure:
                    # consecutive labels share a block only through fallthrough, so no match means default
                    if dflt is None:
                        self.incomplete.add((f.id, t['c']))
                    else:
                        tgt.append(dflt)
                work += [(s, ent) for s in tgt]
                continue
            if t and t.get('c') is not None and t['c'] >= 0 and len(su) == 2:
                c = t['c']
                while f.nodes[c]['k'] in ('cast', 'bin') and (f.nodes[c]['k'] == 'cast' or f.nodes[c]['op'] in ('&&', '||')):
                    c = f.nodes[c]['e' if f.nodes[c]['k'] == 'cast' else 'r']     # the operand this block has just evaluated
                r = self.tv(env, c, depth)
                if r is not None:
                    if su[0 if r else 1] is not None:
                        work.append((su[0 if r else 1], ent))
                    continue
                if self.enters(env, c):     # a loop known to run at least once: the exit opens after the first round
                    work += [(s, e2) for s, e2 in (((su[0], ent | {b}),) if b not in ent else ((su[0], ent), (su[1], ent - {b}))) if s is not None]
                    continue
            work += [(s, ent) for s in su if s is not None]
        self.memo[key] = out
        return out

    def alias(self, f, i):
        n = f.nodes[i]
        out = []
        if 'cv' in n:
            try:
                out.append(('int', int(n['cv'])))
            except ValueError:
                pass
        return out

    def value(self, env, i, depth):
        """what a return statement returns: True/False, a constant, ('kind',) or None"""
        f = env.fn
        t = self.tv(env, i, depth) if f.d.get('rt') in ('bool', 'const bool') else None
        if t is not None:
            return t
        j = strip(f, i)
        n = f.nodes[j]
        while n['k'] == 'ctor' and len(n.get('a', [])) == 1:
            j = strip(f, n['a'][0])
            n = f.nodes[j]
        if n['k'] == 'cond':
            c = self.tv(env, n['c'], depth)
            if c is not None:
                return self.value(env, n['a1'] if c else n['a2'], depth)
            return None
        c = const_of(f, j)
        if c:
            return c
        if self.kindly(env, j):
            return ('kind',)
        if n['k'] == 'call':
            g = self.p.get(n.get('f'))
            if g is not None and g.blocks and self.follow(g) and self.passes(env, j, g):
                ex = self.run(g, child_env(env, j, g), depth + 1)
                rs = {r for k, r in ex if k == 'ret'}
                if len(rs) == 1:
                    return rs.pop()
        if n['k'] == 'ref' and 'd' in n:
            sd = f.single_def(n['d']) if not n.get('isfn') else None
            if sd is not None and sd >= 0:
                return self.value(env, sd, depth + 1)
        if n['k'] in ('ref', 'ctor') and 'nullopt' in str(n.get('q', '')) + str(n.get('t', '')):
            return ('nullopt',)
        if n['k'] == 'ctor' and not n.get('a'):
            return ('empty', n.get('cls'))
        return None
