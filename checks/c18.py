"""C18: shape evaluation of the allocator's operations; residue normal form of every bitmap address; reachability of a free under the assumption that the slot is already free (or named twice); lock sets at every allocator call; order of the stored and loaded fields."""
import re
from vf.flow import *
from vf.absx import *
from vf.kind import Kind
from vf.locks import Locks
from vf.ioseq import *
from vf.util import *

D = 'alaya::diskann::'
SA, TB, TS, IX = D + 'SlotAllocator', D + 'TombstoneBitmap', D + 'TombstoneSnapshot', D + 'DiskANNIndex'


# ---------------------------------------------------------------- the allocator, on free lists of each shape
class Dom(Domain):
    def inline(self, g):
        return g.cls in (SA,)

    def call(self, ev, f, i, n, q, obj, args):
        if q is None:
            return NotImplemented
        if q.startswith(TB + '::'):
            ev.log.append((q.rsplit('::', 1)[-1],) + tuple(args))
            return ('app', q.rsplit('::', 1)[-1]) + tuple(args)
        return NotImplemented


def plus1(v, base):
    """is v base+1"""
    return v == ('bin', '+', base, ('lit', '1')) or v == ('bin', '+', base, 1) or v == base + 1 if isinstance(base, int) else v in (('bin', '+', base, ('lit', '1')), ('bin', '+', base, 1))


def shapes(R, p):
    N = 40
    # lists of distinct slots below the next fresh one; lengths 0, 1, 2 and 3 (every operation touches one element)
    lists = [[], [7], [7, 3], [7, 3, 11]]
    for f in sorted(p.methods(SA), key=lambda f: f.line):
        if not f.blocks or f.d.get('ctor') or f.d.get('dtor') or f.d.get('implicit') or f.name in ('save', 'load'):
            continue
        for l0 in lists:
            if f.name in ('free', 'publish', 'is_deleted') and len(f.params) != 1 or f.name == 'alloc' and f.params:
                continue
            arg = 23

            objs = []

            def make():
                o = Obj(SA, free_list_=Lst(l0), next_fresh_id_=N, tombstone_=Obj('tomb'))
                objs.append(o)
                return [arg] * len(f.params), o
            E = Eval(p, Dom())
            try:
                outs = E.outcomes(f, make)
            except AnalysisError as e:
                R.notes.append('%s: %s' % (f.q, e))
                continue
            R.saw([f])
            for k, o in enumerate(outs):
                if o.kind != 'ret':
                    R.notes.append('%s on a free list of %d: %s' % (f.q, len(l0), o.value))
                    continue
                s = objs[k].f
                l1, nx = s['free_list_'], s['next_fresh_id_']
                if not isinstance(l1, Lst):
                    R.notes.append('%s: free list not modelled' % f.q)
                    continue
                l1 = list(l1.x)
                key = '%s:%d' % (f.name, len(l0))
                site = '%s with %d free slot%s' % (f.at(), len(l0), '' if len(l0) == 1 else 's')
                tset = [x[1] for x in o.log if x[0] == 'set']
                tclr = [x[1] for x in o.log if x[0] == 'clear']
                bad = None
                if f.name == 'alloc':
                    v = o.value
                    if v in l0:
                        if sorted(l1) != sorted(x for x in l0 if x != v):
                            bad = 'hands out a free slot and %s' % ('leaves it free' if v in l1 else 'loses or changes other free slots')
                        elif nx != N:
                            bad = 'reuses a slot and also advances the next fresh slot'
                    elif v == N:
                        if nx != N + 1:
                            bad = 'hands out the next fresh slot without advancing past exactly that slot'
                        elif l1 != l0:
                            bad = 'hands out a fresh slot and changes the free list'
                    elif isinstance(v, int):
                        bad = 'hands out a slot that is neither free nor the next fresh one'
                    else:
                        R.notes.append('%s: result not resolved' % f.q)
                        continue
                    if not bad and (v not in tset or v in tclr):
                        bad = 'hands out a slot that searches can already see'
                elif f.name == 'free':
                    if sorted(l1) != sorted(l0 + [arg]):
                        bad = 'does not add exactly the freed slot to the free list'
                    elif nx != N:
                        bad = 'changes the next fresh slot'
                    elif arg not in tset or arg in tclr:
                        bad = 'does not mark the freed slot deleted'
                elif f.name == 'publish':
                    if l1 != l0 or nx != N:
                        bad = 'changes the free slots'
                    elif tclr != [arg] or tset:
                        bad = 'does not make exactly the published slot live'
                elif f.name == 'reset':
                    if l1 or nx != arg or not any(x[0] == 'reset' and x[1] == arg for x in o.log):
                        bad = 'does not start from an empty free list, the given next fresh slot and a cleared bitmap'
                else:
                    if l1 != l0 or nx != N or tset or tclr or any(x[0] == 'reset' for x in o.log):
                        bad = 'changes the allocation state'
                    elif f.name == 'is_deleted' and o.value != ('app', 'is_deleted', arg):
                        bad = 'does not answer for the given slot' if isterm(o.value) and o.value[:2] == ('app', 'is_deleted') else None
                    elif f.name == 'next_fresh_id' and o.value != N or f.name == 'free_count' and o.value != len(l0):
                        bad = 'reports something else' if isinstance(o.value, int) else None
                R.ob('alloc', bad is None, site, '%s %s' % (f.q, bad), key=key)


# ---------------------------------------------------------------- bitmap addressing
def nf(env, i, depth=0):
    """normal form of an index expression: ('div', t, k), ('mod', t, k), int, ('p', name) or None"""
    f = env.fn
    if depth > 14 or i is None or i < 0:
        return None
    i = strip(f, i)
    n = f.nodes[i]
    if 'cv' in n:
        try:
            return int(n['cv'])
        except ValueError:
            return None
    k = n['k']
    if k == 'lit':
        try:
            return int(str(n['v']).rstrip('uUlL'), 0)
        except ValueError:
            return None
    if k in ('cast', 'init', 'silist'):
        xs = [n['e']] if k == 'cast' else n.get('a', n.get('es', []))
        return nf(env, xs[0], depth + 1) if len(xs) == 1 else None
    if k == 'bin' and n['op'] in ('>>', '/', '&', '%', '-', '+', '*', '<<'):
        a, b = nf(env, n['e'], depth + 1), nf(env, n['r'], depth + 1)
        if a is None or b is None:
            return None
        op = n['op']
        if isinstance(a, int) and isinstance(b, int):
            try:
                return {'>>': lambda: a >> b, '/': lambda: a // b, '&': lambda: a & b, '%': lambda: a % b, '-': lambda: a - b, '+': lambda: a + b, '*': lambda: a * b, '<<': lambda: a << b}[op]()
            except (ZeroDivisionError, ValueError):
                return None
        if op == '&' and isinstance(a, int):
            a, b = b, a
        if not isinstance(b, int):
            if op == '<<' and a == 1:
                return ('bit', b)
            if op == '-' and isinstance(b, tuple) and a == b:
                return 0
            return None
        if op == '>>':
            return div(a, 1 << b) if 0 <= b < 64 else None
        if op == '/':
            return div(a, b) if b > 0 else None
        if op == '%':
            return mod(a, b) if b > 0 else None
        if op == '&':
            return mod(a, b + 1) if b >= 0 and (b & (b + 1)) == 0 else None
        return None
    if k == 'ref' and 'd' in n and not n.get('isfn'):
        v = f.vars.get(str(n['d']), {})
        if v.get('k') == 'param':
            if env.up and n['d'] in f.params:
                ue, call = env.up
                a = ue.fn.nodes[call].get('a', [])
                j = f.params.index(n['d'])
                return nf(ue, a[j], depth + 1) if j < len(a) else None
            return ('p', v.get('n', '?'))
        sd = f.single_def(n['d'])
        if sd is not None and sd >= 0:
            return nf(env, sd, depth + 1)
        return ('l', v.get('n', '?'))
    if k == 'call' and not n.get('obj'):
        return None
    return None


def div(a, k):
    if k == 1:
        return a
    if isinstance(a, tuple) and a[0] == 'div':
        return ('div', a[1], a[2] * k)
    if isinstance(a, tuple) and a[0] == 'mod' and a[2] % k == 0:
        return mod(div(a[1], k), a[2] // k)
    return ('div', a, k)


def mod(a, k):
    if isinstance(a, tuple) and a[0] == 'mod' and (a[2] % k == 0 or k % a[2] == 0):
        return ('mod', a[1], min(k, a[2]))
    return 0 if k == 1 else ('mod', a, k)


def accesses_of(p, f, env=None, depth=0, seen=None):
    """(role, normal form, fn, node): role table / words, through called helpers of the class"""
    env = env or Env(f)
    out = []
    for i in f.walk():
        n = f.nodes[i]
        b = ix = None
        if n['k'] == 'idx':
            b, ix = n['b'], n['i']
        elif n['k'] == 'call' and (n.get('op') == '[]' or bname(n) == 'at') and n.get('obj', -1) is not None and n.get('obj', -1) >= 0 and n.get('a'):
            b, ix = n['obj'], n['a'][0]
        if b is not None:
            r = role(env, b)
            if r:
                out.append((r, nf(env, ix), f, i))
        if n['k'] == 'call' and depth < 3:
            g = p.get(n.get('f'))
            if g is not None and g.blocks and g.cls == f.cls and g.id != f.id:
                out += accesses_of(p, g, child_env(env, i, g), depth + 1)
    return out


def role(env, b):
    f = env.fn
    for x in f.walk(b):
        n = f.nodes[x]
        if n['k'] == 'mem' and not n.get('isfn'):
            t = str(n.get('t', ''))
            if n['n'] in ('table_',) or 'ChunkTable' in t:
                return 'table'
            if n['n'] in ('words', 'words_'):
                return n['n']
    return None


def bits(R, p):
    C = None
    per = {}
    for cls in (TB, TS):
        for f in sorted(p.methods(cls), key=lambda f: f.line):
            if not f.blocks or f.d.get('lambda') or len(f.params) != 1 or not re.search(r'\b(u?int\w*|long|unsigned)\b', str(f.vars[str(f.params[0])].get('t', ''))):
                continue
            acc = accesses_of(p, f)
            me = ('p', f.vars[str(f.params[0])].get('n', '?'))
            rel = [a for a in acc if uses(a[1], me)]
            if not any(a[0] in ('words', 'words_') for a in rel):
                continue
            per[f.id] = (f, me, rel)
    # words per chunk, as the table sees it
    want = {}
    for f, me, rel in per.values():
        for r, t, g, i in rel:
            if r == 'words' and t[0] == 'mod' and t[1] == ('div', me, 64):
                want.setdefault(t[2], []).append(f)
    C = max(want, key=lambda k: len(want[k])) if want else None
    for f, me, rel in per.values():
        R.saw([f])
        for r, t, g, i in rel:
            exp = {'table': ('div', me, 64 * C) if C else None, 'words': mod(('div', me, 64), C) if C else None, 'words_': ('div', me, 64)}[r]
            if exp is None:
                continue
            if t is None:
                R.notes.append('%s: an address of the bitmap is not resolved' % f.q)
                continue
            R.ob('bits', t == exp, g.at(i), '%s reaches %s by %s where the others use %s' % (f.q, 'the chunk' if r == 'table' else 'the word', sh(t), sh(exp)), key='%s:%s' % (f.name, r))
        # the bit inside the word
        sh_amt = set()
        env = Env(f)
        for i in f.walk():
            n = f.nodes[i]
            if n['k'] == 'bin' and n['op'] in ('<<', '>>'):
                a = nf(env, n['r'])
                if isinstance(a, tuple) and uses(a, me):
                    sh_amt.add((a, i))
        for a, i in sh_amt:
            R.ob('bits', a == ('mod', me, 64), f.at(i), '%s uses bit %s of the word, not bit %s' % (f.q, sh(a), sh(('mod', me, 64))), key='%s:bit' % f.name)
        effect(R, p, f, me)
    # copies of the whole bitmap, word by word
    for f in sorted(p.methods(TB), key=lambda f: f.line):
        if not f.blocks or not C:
            continue
        acc = [a for a in accesses_of(p, f, depth=3) if isinstance(a[1], tuple)]
        for r, t, g, i in acc:
            v = next((x for x in subs(t) if isinstance(x, tuple) and x[0] == 'l'), None)
            if v is None or r == 'table' and t == v:
                continue     # a loop over the chunks themselves
            inner = r == 'words' and t == v
            R.ob('bits', inner or t == (div(v, C) if r == 'table' else mod(v, C)), g.at(i), '%s reaches %s by %s where a word is at %s' % (f.q, 'the chunk' if r == 'table' else 'the word', sh(t), sh(div(v, C) if r == 'table' else mod(v, C))), key='%s:copy-%s' % (f.name, r))
            if r == 'words' and not inner:
                # the copy goes to the word of the same number
                y, par = i, f.parent()
                while y in par and f.nodes[y]['k'] != 'asg':
                    y = par[y]
                d = f.nodes[strip(f, f.nodes[y]['e'])] if f.nodes[y]['k'] == 'asg' else {}
                if d.get('k') == 'idx' and nf(Env(f), d['i']) is not None:
                    R.ob('bits', nf(Env(f), d['i']) == v, f.at(y), '%s copies word %s to position %s' % (f.q, sh(v), sh(nf(Env(f), d['i']))), key='%s:copy-to' % f.name)


def effect(R, p, f, me):
    """what the operation does to the addressed bit"""
    env = Env(f)
    K = {'set': ('fetch_or', ('bit', ('mod', me, 64))), 'clear': ('fetch_and', None)}
    rmw = [i for i in f.calls() if bname(f.nodes[i]) in ('fetch_or', 'fetch_and', 'fetch_xor', 'store', 'exchange', 'compare_exchange_strong', 'compare_exchange_weak') and role(env, f.nodes[i].get('obj', -1)) == 'words']
    if f.name in ('set', 'clear'):
        for i in rmw:
            n = f.nodes[i]
            a = strip(f, n['a'][0])
            inv = False
            for _ in range(4):
                m = f.nodes[a]
                if m['k'] == 'un' and m['op'] == '~':
                    inv = not inv
                    a = strip(f, m['e'])
                    continue
                if m['k'] == 'ref' and 'd' in m:
                    sd = f.single_def(m['d'])
                    if sd is not None and sd >= 0 and f.nodes[strip(f, sd)]['k'] in ('un', 'ref'):
                        a = strip(f, sd)
                        continue
                break
            t = nf(env, a)
            if t is None:
                R.notes.append('%s: mask not resolved' % f.q)
                continue
            ok = (bname(n), inv) == (('fetch_or', False) if f.name == 'set' else ('fetch_and', True)) and t == ('bit', ('mod', me, 64))
            if bname(n) in ('fetch_or', 'fetch_and', 'fetch_xor'):
                R.ob('bits', ok, f.at(i), '%s does not %s exactly the bit of the slot' % (f.q, f.name), key='%s:effect' % f.name)
        # the count follows the bit
        for was in (True, False):
            def truth(e, i, was=was):
                m = e.fn.nodes[strip(e.fn, i)]
                if m['k'] == 'bin' and m['op'] in ('==', '!='):
                    for x, y in ((m['e'], m['r']), (m['r'], m['e'])):
                        c = nf(e, y)
                        z = e.fn.nodes[strip(e.fn, x)]
                        if c == 0 and z['k'] == 'bin' and z['op'] == '&':
                            return was == (m['op'] == '!=')
                        if c == 0 and z['k'] == 'ref' and 'd' in z:
                            sd = e.fn.single_def(z['d'])
                            if sd is not None and sd >= 0 and e.fn.nodes[strip(e.fn, sd)]['k'] == 'bin' and e.fn.nodes[strip(e.fn, sd)]['op'] == '&':
                                return was == (m['op'] == '!=')
                if m['k'] == 'bin' and m['op'] == '&':
                    return was
                return None
            Kd = Kind(p, lambda e, i: False, [])
            Kd.truth = truth
            Kd.run(f)
            hit = [(i, bname(p.get(fid).nodes[i])) for fid, i, _ in Kd.reached if p.get(fid).nodes[i]['k'] == 'call' and bname(p.get(fid).nodes[i]) in ('fetch_add', 'fetch_sub') and 'count' in field_name(p.get(fid), i)]
            if f.name == 'set':
                bad = None if (not hit if was else [h for _, h in hit] == ['fetch_add']) else 'counts %s' % ('a bit that was already set' if was else 'nothing for a newly set bit' if not hit else 'wrongly')
            else:
                bad = None if (not hit if not was else [h for _, h in hit] == ['fetch_sub']) else 'counts %s' % ('a bit that was not set' if not was else 'nothing for a cleared bit' if not hit else 'wrongly')
            R.ob('count', bad is None, f.at(hit[0][0]) if hit else f.at(), '%s %s, so the number of deleted slots (which decides whether searches filter at all) is wrong' % (f.q, bad), key='%s:%s' % (f.name, was))


def polarity(R, p):
    for cls in (TB, TS):
        for f in p.methods(cls):
            if f.name != 'is_deleted' or not f.blocks:
                continue
            for bit in (True, False):
                def truth(e, i, bit=bit):
                    m = e.fn.nodes[strip(e.fn, i)]
                    if m['k'] == 'bin' and m['op'] in ('==', '!='):
                        for x, y in ((m['e'], m['r']), (m['r'], m['e'])):
                            c, z = nf(e, y), e.fn.nodes[strip(e.fn, x)]
                            if z['k'] == 'bin' and z['op'] == '&' and c in (0, 1):
                                return (bit == bool(c)) == (m['op'] == '==')
                    if m['k'] == 'bin' and m['op'] == '&':
                        return bit
                    return None
                K = Kind(p, lambda e, i: False, [])
                K.truth = truth
                rs = {x[1] for x in K.run(f) if x[0] == 'ret'}
                if None in rs:
                    R.notes.append('%s: answer not resolved' % f.q)
                    continue
                R.ob('bits', (True in rs) == bit, f.at(), '%s answers %s for a slot whose bit is %s' % (f.q, 'deleted' if True in rs else 'live', 'set' if bit else 'clear'), key='%s:answer:%s' % (cls, bit))
    for f in p.methods(TB):
        if f.name != 'deserialize' or not f.blocks:
            continue
        st = [i for i in f.calls() if bname(f.nodes[i]) == 'store' and 'count' in field_name(f, i)]
        pop = [i for i in f.calls() if bname(f.nodes[i]) in ('popcount', '__builtin_popcountll', '__builtin_popcountl', 'count')]
        R.ob('count', bool(st) and bool(pop), f.at(st[0]) if st else f.at(), 'the number of deleted slots is not recomputed from the bits that are loaded', key='deserialize')


def field_name(f, i):
    o = f.nodes[i].get('obj', -1)
    if o is None or o < 0:
        return ''
    n = f.nodes[strip(f, o)]
    return str(n.get('n', ''))


def uses(t, me):
    return t == me or isinstance(t, tuple) and any(uses(x, me) for x in t)


def sh(t):
    if isinstance(t, tuple):
        if t[0] in ('div', 'mod'):
            return '%s %s %d' % (sh(t[1]), '/' if t[0] == 'div' else 'mod', t[2])
        if t[0] == 'bit':
            return '1 << (%s)' % sh(t[1])
        return str(t[1])
    return '?' if t is None else str(t)


# ---------------------------------------------------------------- frees of live slots only
def loopnorm(env, t):
    """replace the variable of a loop over [0, n) in an index by ('each', n)"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'v' and isinstance(t[1], str) and t[1].startswith('L:'):
        e = env
        while e is not None:
            r = loop_range(e, t[1])
            if r:
                return ('each', r)
            e = e.up[0] if e.up else None
    return tuple(loopnorm(env, x) for x in t)


def loop_range(env, path):
    f = env.fn
    for i in f.walk():
        n = f.nodes[i]
        if n['k'] != 'loop':
            continue
        r = while_range(env, i, path)
        if r:
            return r
        if n.get('lk') in ('for', None) and n.get('init', -1) not in (None, -1) and n.get('c', -1) not in (None, -1):
            d = None
            for y in f.walk(n['init']):
                if f.nodes[y]['k'] == 'decl':
                    for v in f.nodes[y]['vs']:
                        if v.get('init', -1) is not None and v.get('init', -1) >= 0 and nf(env, v['init']) == 0:
                            d = v['d']
            if d is None:
                continue
            me = [y for y in f.walk(n['c']) if f.nodes[y]['k'] == 'ref' and f.nodes[y].get('d') == d]
            if not me or canon(env, me[0]) != ('v', path):
                continue
            c = f.nodes[strip(f, n['c'])]
            if c['k'] == 'bin' and c['op'] in ('<', '!=') and strip(f, c['e']) in me:
                inc = [y for y in f.walk(n['inc']) if f.nodes[y]['k'] == 'un' and f.nodes[y]['op'] == '++'] if n.get('inc', -1) not in (None, -1) else []
                if inc:
                    return show(canon(env, c['r']))
            if c['k'] == 'bin' and c['op'] == '>' and strip(f, c['r']) in me:
                return show(canon(env, c['e']))
    return None


def while_range(env, i, path):
    """bound of a loop whose counter starts at 0 before it and is stepped once in its body"""
    f = env.fn
    n = f.nodes[i]
    if n.get('c', -1) in (None, -1):
        return None
    c = f.nodes[strip(f, n['c'])]
    if c['k'] != 'bin' or c['op'] not in ('<', '!=', '>'):
        return None
    a, b = (c['e'], c['r']) if c['op'] != '>' else (c['r'], c['e'])
    m = f.nodes[strip(f, a)]
    if m['k'] != 'ref' or 'd' not in m or canon(env, strip(f, a)) != ('v', path):
        return None
    body = set(f.walk(n['body']))
    steps = 0
    for val, k, x in f.defs().get(m['d'], []):
        if k == 'decl':
            if val is None or not isinstance(val, int) or val < 0 or nf(env, val) != 0:
                return None
        elif k == 'cap':
            continue
        elif x in body and f.nodes[x]['k'] == 'un' and f.nodes[x]['op'] == '++':
            steps += 1
        else:
            return None
    return show(canon(env, b)) if steps == 1 else None


class Assume(Kind):
    """follows every call; a loop over the ids is entered at least once"""

    def passes(self, env, i, g):
        return True

    def run(self, f, env=None, depth=0):
        return super().run(f, env, depth)


def chains(p, f, target, limit=8):
    """environments of calls from f down to functions that contain a call to target: (env, node)"""
    out = []

    def go(env, depth, path):
        g = env.fn
        for i in g.calls():
            n = g.nodes[i]
            if n.get('q') == target:
                out.append((env, i))
                continue
            h = p.get(n.get('f'))
            if h is not None and h.blocks and depth < limit and h.id not in path and reach(h):
                go(child_env(env, i, h), depth + 1, path | {h.id})
    memo = {}

    def reach(h, seen=None):
        if h.id in memo:
            return memo[h.id]
        memo[h.id] = False
        r = any(h.nodes[i].get('q') == target for i in h.calls())
        for i in h.calls():
            if r:
                break
            k = p.get(h.nodes[i].get('f'))
            if k is not None and k.blocks and k.id != h.id and reach(k):
                r = True
        memo[h.id] = r
        return r
    if reach(f):
        go(Env(f), 0, {f.id})
    return out


def frees(R, p):
    n_sites = 0
    for f in sorted((f for f in p.methods(IX) if f.blocks and not f.d.get('lambda') and f.d.get('acc') == 'public'), key=lambda f: f.line):
        for env, i in chains(p, f, SA + '::free'):
            n_sites += 1
            what = loopnorm(env, canon(env, env.fn.nodes[i]['a'][0]))
            R.saw([f, env.fn])
            many = 'each' in str(what)
            # 1. the slot is already free
            for mode in ['deleted'] + (['twice'] if many else []):
                K = Walk(p, what, mode)
                K.run(f)
                hit = (env.fn.id, i, env.key()) in K.reached
                R.points += len(K.reached)
                R.ob('freed', not hit, env.fn.at(i), '%s can free %s %s' % (f.q, show_term(what), 'although it is already free' if mode == 'deleted' else 'twice when it is named twice'), key='%s:%s' % (f.name, mode))
    if not n_sites:
        R.notes.append('no free site found')


def show_term(t):
    return str(show(t)) if isinstance(t, tuple) and 'each' not in str(t) else 'a slot of the batch'


class Walk(Kind):
    def __init__(self, p, what, mode):
        super().__init__(p, lambda e, i: False, [], lambda g: g.cls == IX or g.cls is None and g.d.get('lambda'))
        self.what, self.mode = what, mode
        self.truth = self.known

    def passes(self, env, i, g):
        return g.cls == IX

    def names(self, env, i):
        return loopnorm(env, canon(env, i)) == self.what

    def known(self, env, i):
        f = env.fn
        i = strip(f, i)
        n = f.nodes[i]
        if self.mode == 'deleted' and n['k'] == 'call' and n.get('q') in (SA + '::is_deleted', TB + '::is_deleted') and n.get('a'):
            return True if self.names(env, n['a'][0]) else None
        if self.mode == 'twice':
            j = i
            if n['k'] == 'mem' and n['n'] == 'second':
                j = strip(f, n['b'])
                m = f.nodes[j]
            if n['k'] == 'ref' and f.vars.get(str(n.get('d')), {}).get('binding'):
                # auto [it, fresh] = set.insert(x): the second name
                for x in f.walk():
                    for v in f.nodes[x].get('vs', []) if f.nodes[x]['k'] == 'decl' else []:
                        bs = v.get('bind', [])
                        if n['d'] in bs and bs.index(n['d']) == 1 and v.get('init', -1) is not None and v.get('init', -1) >= 0:
                            j = strip(f, v['init'])
            if j != i:
                m = f.nodes[j]
                if m['k'] == 'ref' and 'd' in m:
                    sd = f.single_def(m['d'])
                    j = strip(f, sd) if sd is not None and sd >= 0 else j
                m = f.nodes[j]
                if m['k'] == 'call' and bname(m) in ('insert', 'emplace') and 'set' in str(f.nodes[strip(f, m['obj'])].get('t', '')) and m.get('a') and self.names(env, m['a'][0]):
                    return False
            if n['k'] == 'call' and bname(n) in ('contains',) and n.get('a') and 'set' in str(f.nodes[strip(f, n['obj'])].get('t', '')) and self.names(env, n['a'][0]):
                return True
        return None

    def enters(self, env, c):
        """the batch is not empty: a loop over all of it runs at least once"""
        f = env.fn
        n = f.nodes[strip(f, c)]
        if n['k'] == 'bin' and n['op'] in ('<', '!='):
            t = loopnorm(env, canon(env, n['e']))
            return isinstance(t, tuple) and t[0] == 'each' and t in subs(self.what)
        if n['k'] == 'call' and n.get('op') == '!=' and n.get('a'):
            t = loopnorm(env, canon(env, n['obj'] if n.get('obj', -1) is not None and n.get('obj', -1) >= 0 else n['a'][0]))
            return isinstance(t, tuple) and t[0] == 'each' and t in subs(self.what)
        return False


def subs(t):
    out = {t}
    if isinstance(t, tuple):
        for x in t:
            out |= subs(x)
    return out


# ---------------------------------------------------------------- locks, persistence, wiring
def locked(R, p):
    L = Locks(p)
    E = L.entry_must(lambda f: not f.d.get('lambda') and f.d.get('acc') in ('public', None))
    per = {}
    for f in L.fns.values():
        if f.d.get('ctor') or f.d.get('dtor'):
            continue
        for i in f.calls():
            q = f.nodes[i].get('q')
            if q in (SA + '::alloc', SA + '::free', SA + '::publish') and f.cls != SA:
                h = L.join(E.get(f.id, frozenset()), L.must(f, i))
                per.setdefault(q, []).append((f, i, {l for l, m in h if m == 'x'}))
    al = [x for v in per.values() for x in v]
    for f, i, h in al:
        both = set.intersection(*[x[2] for x in al]) if al else set()
        R.saw([f])
        R.ob('serial', bool(h & (both or h)) and bool(h), f.at(i), 'a slot is %s without a lock held exclusively' % {'alloc': 'handed out', 'free': 'freed', 'publish': 'published'}[f.nodes[i]['q'].rsplit('::', 1)[-1]], key='%s' % f.name)
        if h:
            R.ob('serial', bool(both) or all(h & x[2] for x in al), f.at(i), 'allocations, frees and publications do not share an exclusively held lock', key='common:%s' % f.name)


def wired(R, p):
    from checks.c15 import always_after
    for f in p.methods(IX):
        if not f.blocks or f.d.get('lambda'):
            continue
        for i in f.calls():
            n = f.nodes[i]
            # after an allocation, the capacity searches and checks use covers the new slot
            if n.get('q') == SA + '::alloc':
                def good(e):
                    m = f.nodes[e]
                    return m['k'] == 'asg' and f.nodes[strip(f, m['e'])].get('n') == 'max_slot_id_' or m['k'] == 'call' and any(f.nodes[strip(f, a)].get('n') == 'max_slot_id_' for a in m.get('a', []) if a >= 0) and not m.get('cm')
                g2 = lambda e: good(e) or f.nodes[e]['k'] == 'call' and grows(p, p.get(f.nodes[e].get('f')))
                R.ob('wired', always_after(f, i, g2), f.at(i), 'a slot is handed out without the capacity being raised to include it', key='capacity')
            if n.get('q') == SA + '::load':
                g2 = lambda e: f.nodes[e]['k'] == 'asg' and f.nodes[strip(f, f.nodes[e]['e'])].get('n') == 'max_slot_id_'
                R.ob('wired', always_after(f, i, g2), f.at(i), 'the capacity is not raised to the loaded allocator\'s next fresh slot', key='load-capacity')
            if n.get('q') == SA + '::reset':
                t = canon(Env(f), n['a'][0])
                R.ob('wired', 'max_slot_id_' in str(t), f.at(i), 'an index without stored slot state does not start allocating above its stored nodes', key='reset')
        if f.d.get('acc') == 'public' and f.name == 'flush' and not f.params:
            sv = lambda e: f.nodes[e]['k'] == 'call' and f.nodes[e].get('q') == SA + '::save'
            start = [i for i in f.calls() if bname(f.nodes[i]) in ('write_meta', 'write_ids')]
            for s in start:
                ok = always_after(f, s, sv) or any(sv(e) for e in f.calls()) and not always_miss(f, sv)
                R.ob('wired', ok, f.at(s), 'the labels are stored without the allocation state', key='flush')
        if f.name == 'load' and f.d.get('acc') == 'public':
            def est(e):
                return f.nodes[e]['k'] == 'call' and f.nodes[e].get('q') in (SA + '::load', SA + '::reset')
            if any(est(i) for i in f.calls()):
                R.ob('wired', not always_miss(f, est), f.at(), 'an index can be loaded without its allocation state', key='load')


def always_miss(f, good):
    from checks.c15 import always_after
    return not always_after(f, None, good)


def grows(p, g):
    return g is not None and g.blocks and any(g.nodes[e]['k'] == 'asg' and g.nodes[strip(g, g.nodes[e]['e'])].get('n') == 'max_slot_id_' for e in g.walk())


def owner(R, p):
    """the bitmap is changed only through the allocator"""
    for f in p.fns.values():
        if f.cls in (SA, TB) or not f.blocks or not f.rel().startswith(('include/', 'python/')):
            continue
        for i in f.calls():
            n = f.nodes[i]
            q = str(n.get('q', ''))
            if q.rsplit('::', 1)[0] == TB and not n.get('cm') and bname(n) not in ('TombstoneBitmap',) and not f.d.get('dtor'):
                R.ob('owner', False, f.at(i), '%s changes the deleted bits of slots without the allocator (%s)' % (f.q, bname(n)), key='%s:%s' % (f.q, bname(n)))
    n = sum(1 for f in p.fns.values() if f.cls in (SA, TB) and f.blocks)
    R.ob('owner', True, SA, '', key='all')
    c = next((c for c in p.classes.values() if c['q'] == SA), None)
    for fl in (c or {}).get('fields', []):
        if fl['n'] in ('free_list_', 'next_fresh_id_'):
            for f in p.fns.values():
                if f.cls == SA or not f.blocks:
                    continue
                from vf.shared import accesses
                for x, q, w, b in accesses(f):
                    if q == SA + '::' + fl['n'] and w:
                        R.ob('owner', False, f.at(x), '%s changes %s from outside the allocator' % (f.q, fl['n']), key='%s:%s' % (f.q, fl['n']))


def run(R):
    R.rule('alloc', 'each allocator operation has exactly its effect on the free list, the next fresh slot and the deleted bit, for free lists of 0 to 3 slots', 12)
    R.rule('bits', 'every bitmap operation addresses the same bit for a slot, a different one for different slots, and changes only that bit', 6)
    R.rule('count', 'the number of deleted slots changes exactly when a bit changes', 2)
    R.rule('freed', 'no public operation can free a slot that is already free, or one slot twice', 3)
    R.rule('serial', 'slots are handed out, published and freed under one exclusively held lock', 3)
    R.rule('wired', 'capacity and stored state follow the allocator', 3)
    R.rule('stored', 'the allocation state is read back field by field as it was written', 3)
    R.rule('owner', 'nothing but the allocator changes slot state', 1)
    p = R.program('diskann')
    shapes(R, p)
    bits(R, p)
    polarity(R, p)
    frees(R, p)
    locked(R, p)
    wired(R, p)
    owner(R, p)
    stored(R, p)


def stored(R, p):
    """the transfers of the writer matched against those of the reader, callees inlined (see vf/ioseq.py)"""
    from checks.c09 import compare, unused
    SW, SR = Seq(p, 'w'), Seq(p, 'r')
    for cls, w, r in ((SA, 'save', 'load'), (TB, 'serialize', 'deserialize')):
        fw, fr = [[f for f in p.methods(cls) if f.name == x and f.blocks] for x in (w, r)]
        if not fw or not fr:
            R.notes.append('%s: %s/%s not found' % (cls, w, r))
            continue
        a, b = fw[0], fr[0]
        R.saw([a, b])
        W, L = SW.fn(Env(a)), SR.fn(Env(b))
        compare(R, 'stored', W, L, a, b, True)
        unused(Drop(R), W, L, a, b)


class Drop:
    """obligations of unused() under this check's rule"""

    def __init__(self, R):
        self.R = R

    def ob(self, rule, *a, **k):
        self.R.ob('stored', *a, **k)
