"""C32: for every set of processor features, reachability of every reference to a function compiled for an extension, specialised to that set."""
import re, itertools
from vf.flow import *
from vf.kind import Kind, const_of
from vf.util import *

BASE = {'sse', 'sse2', 'mmx', ''}
IMPL = {'avx512f': {'avx2', 'fma', 'avx', 'sse4.1', 'sse4.2', 'ssse3', 'sse3'}, 'avx512bw': {'avx512f'}, 'avx512dq': {'avx512f'}, 'avx512vl': {'avx512f'}, 'avx2': {'avx', 'sse4.1', 'sse4.2'}, 'fma': {'avx'}, 'avx': {'sse4.1', 'sse4.2'}}
TUS = ('core', 'disk', 'diskann', 'space', 'vamana', 'lasertp')


def feats(t):
    return {x.strip() for x in (t or '').split(',')} - BASE


def closed(s):
    """the compiler accepts with a feature what the feature implies"""
    out = set(s)
    st = list(s)
    while st:
        for y in IMPL.get(st.pop(), ()):
            if y not in out:
                out.add(y)
                st.append(y)
    return out


class Walk(Kind):
    def __init__(self, p, S, fields, enum=None, value=None):
        isk = (lambda e, i: bare(e.fn.nodes[i].get('t', '')) == enum and not e.fn.nodes[i].get('enum') and e.fn.nodes[i]['k'] in ('ref', 'mem', 'call')) if enum else (lambda e, i: False)
        super().__init__(p, isk, [('enum', value)] if enum else [], lambda g: True)
        self.S, self.fields = S, fields
        self.truth = self.known

    def passes(self, env, i, g):
        return g.rel().startswith('include/')

    def known(self, env, i):
        n = env.fn.nodes[strip(env.fn, i)]
        if n['k'] == 'call' and n.get('q', '').endswith('__builtin_cpu_supports') and n.get('a'):
            c = const_of(env.fn, n['a'][0])
            return c[1] in self.S if c and c[0] == 'str' else None
        if n['k'] == 'mem' and not n.get('isfn') and n.get('q') in self.fields:
            return self.fields[n['q']] <= self.S
        if n['k'] == 'mem' and not n.get('isfn') and (cls_of(env.fn, n), n['n']) in self.fields:
            return self.fields[(cls_of(env.fn, n), n['n'])] <= self.S
        if n['k'] == 'bin' and n['op'] in ('!=', '=='):
            for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
                z = env.fn.nodes[strip(env.fn, b)]
                if z['k'] == 'lit' and str(z.get('v')) in ('0', 'false'):
                    r = self.known(env, a)
                    return None if r is None else r == (n['op'] == '!=')
        return None


def bare(t):
    return t.replace('const ', '').replace('&', '').replace('enum ', '').strip()


def cls_of(f, n):
    return bare(str(f.nodes[strip(f, n['b'])].get('t', '')).replace('*', '')).replace('struct ', '').replace('class ', '')


def detection(R, p, U):
    """field of the feature record -> features that must be present for it to become true"""
    recs = {c['q'] for c in p.classes.values() if c['q'].endswith('CpuFeatures')}
    sets = {}
    for f in p.fns.values():
        if not f.blocks or not f.rel().startswith('include/'):
            continue
        for i in f.walk():
            n = f.nodes[i]
            if n['k'] == 'asg':
                t = f.nodes[strip(f, n['e'])]
                if t['k'] == 'mem' and cls_of(f, t) in recs:
                    sets.setdefault((cls_of(f, t), t['n']), []).append((f, i))
            elif n['k'] == 'init' and n.get('cls', bare(str(n.get('t', '')))) in recs and n.get('a'):
                c = next(c for c in p.classes.values() if c['q'] == bare(str(n.get('t', ''))))
                fs = n.get('fs') or [x['n'] for x in c['fields']]
                for k, a in enumerate(n['a']):
                    if k < len(fs):
                        sets.setdefault((c['q'], fs[k]), []).append((f, a))
    out = {}
    for k, ss in sets.items():
        need = None
        for f, i in ss:
            n = f.nodes[i]
            v = n['r'] if n['k'] == 'asg' else i
            one = set()
            for x in U:
                K = Walk(p, U - {x}, {})
                K.run(f)
                if not any(a == f.id and b == i for a, b, _ in K.reached) and n['k'] == 'asg':
                    one.add(x)
                elif K.tv(Env(f), v) is False:
                    one.add(x)
            if const_of(f, v) == ('int', 0) or f.nodes[strip(f, v)].get('v') in ('false',):
                continue
            need = one if need is None else need & one
            R.saw([f])
        out[k] = need or set()
    for c in p.classes.values():
        if c['q'] in recs:
            for x in c['fields']:
                out.setdefault((c['q'], x['n']), None)
    # a field that is never set stays false
    for k in [k for k, v in out.items() if v is None]:
        out[k] = {'never'}
    return out


def uses(p, env, i, depth=0):
    """where the function named at node i is really used: follows it through parameters of selection helpers"""
    f = env.fn
    par = f.parent()
    y = i
    while y in par and f.nodes[par[y]]['k'] in ('cast', 'un', 'init', 'silist'):
        y = par[y]
    x = par.get(y)
    if x is not None and f.nodes[x]['k'] == 'call' and y in f.nodes[x].get('a', []) and depth < 4:
        g = p.get(f.nodes[x].get('f'))
        if g is not None and g.blocks:
            j = f.nodes[x]['a'].index(y)
            if j < len(g.params):
                d = g.params[j]
                e2 = child_env(env, x, g)
                out = []
                for z in g.walk():
                    m = g.nodes[z]
                    if m['k'] == 'ref' and m.get('d') == d and not m.get('isfn'):
                        out += uses(p, e2, z, depth + 1)
                return out
    return [(env, i)]


def run(R):
    R.rule('gate', 'under every set of supported processor features, a function compiled for an extension is called or selected only when all features it was compiled for are in the set', 12)
    R.rule('portable', 'with no optional feature supported, every selection still ends in an ordinary function or an explicit refusal', 6)
    R.rule('detect', 'a recorded feature can be true only when the processor and operating system report it', 3)
    R.rule('registers', 'code that names wide registers or intrinsics is compiled for the extension that has them', 6)
    p = R.program(*TUS)
    T = {f.id: feats(f.d.get('target')) for f in p.fns.values() if feats(f.d.get('target'))}
    byq = {}
    for f in p.fns.values():
        if f.id in T:
            byq.setdefault(f.q, set()).add(frozenset(T[f.id]))
    U = set().union(*T.values()) if T else set()
    for f in p.fns.values():
        for n in f.nodes:
            if n['k'] == 'call' and n.get('q', '').endswith('__builtin_cpu_supports') and n.get('a'):
                c = const_of(f, n['a'][0])
                if c:
                    U.add(c[1])
    fields = detection(R, p, U)
    for k, v in sorted(fields.items()):
        R.ob('detect', bool(v), k[0], 'the recorded feature %s can be true although nothing was asked of the processor' % k[1], key=k[1])
    subsets = [set(c) for r in range(len(U) + 1) for c in itertools.combinations(sorted(U), r)]
    # a processor with an extension has what the extension implies
    subsets = [s for s in subsets if closed(s) & U <= s]
    R.points += len(subsets)
    # levels a processor with these features is assigned
    levels = {}
    lev_fns = {}
    for f in p.fns.values():
        rt = bare(str(f.d.get('rt', '')))
        if f.blocks and p.enums.get(rt) and any(n['k'] == 'mem' and (cls_of(f, n), n['n']) in fields for n in f.nodes):
            lev_fns.setdefault(rt, []).append(f)
    memo = {}

    def level(E, S):
        k = (E, frozenset(S))
        if k not in memo:
            out = set()
            for f in lev_fns[E]:
                K = Walk(p, S, fields)
                for kind, v in K.run(f):
                    if kind == 'ret' and isinstance(v, tuple) and v[0] == 'enum':
                        out.add(v[1])
                    elif kind == 'ret':
                        out.add(None)
            memo[k] = out
        return memo[k]

    callers = p.callers()
    done = set()

    def walks(f, S):
        es = sorted({bare(str(n.get('t', ''))) for g in [f] + [h for i in f.calls() for h in [p.get(f.nodes[i].get('f'))] if h is not None] for n in g.nodes if bare(str(n.get('t', ''))) in lev_fns})
        if not es:
            K = Walk(p, S, fields)
            K.run(f)
            return [K]
        out = []
        for E in es:
            vs = level(E, S)
            if None in vs:
                vs = set(E + '::' + v for v in ())
                R.notes.append('%s: a level is not resolved' % E)
            for v in sorted(vs):
                K = Walk(p, S, fields, E, v)
                K.exits = K.run(f)
                out.append(K)
        return out

    def gated(f, site, need, depth=0):
        """S under which the site is reached without the features, or None"""
        for S in subsets:
            if need <= S:
                continue
            for K in walks(f, S):
                if any(a == site[0] and b == site[1] for a, b, _ in K.reached):
                    return S
        return None

    selectors = {}
    for f in sorted(p.fns.values(), key=lambda f: (f.rel(), f.line, f.id)):
        if not f.blocks or not f.rel().startswith(('include/', 'python/')):
            continue
        mine = closed(T.get(f.id, set()))
        for i in f.walk():
            n = f.nodes[i]
            need = None
            if n['k'] == 'call' and n.get('f') in T:
                need = T[n['f']]
            elif n['k'] == 'ref' and n.get('isfn') and n.get('q') in byq:
                par = f.parent()
                y = par.get(i)
                while y is not None and f.nodes[y]['k'] == 'cast':
                    y = par.get(y)
                need = set().union(*byq[n['q']])
            if not need or need <= mine:
                continue
            if (f.rel(), f.line, i) in done:
                continue
            done.add((f.rel(), f.line, i))
            R.saw([f])
            for env, j in uses(p, Env(f), i) if n['k'] == 'ref' else [(Env(f), i)]:
                site = (env.fn.id, j)
                # the decision may lie in a caller of a helper
                front, seen, S, S0 = [f], {f.id}, None, None
                for depth in range(4):
                    bad = [(g, s) for g in front for s in [gated(g, site, need - mine)] if s is not None]
                    if not bad:
                        S = None
                        break
                    g, S = bad[0]
                    S0 = S0 if S0 is not None else S
                    nxt = []
                    top = False
                    for g, s in bad:
                        cs = {c[0] if isinstance(c, tuple) else c for c in callers.get(g.id, [])}
                        cs = [c if not isinstance(c, str) else p.get(c) for c in cs]
                        cs = [c for c in cs if c is not None and c.id not in seen]
                        if g.d.get('parent') and p.get(g.d['parent']) is not None and g.d.get('lambda'):
                            cs = [c for c in cs if c.id != g.d['parent']]
                        if not cs:
                            top = True
                        nxt += cs
                    if top:
                        break
                    seen |= {c.id for c in nxt}
                    front = nxt
                R.ob('gate', S is None, f.at(i), '%s, compiled for %s, is reached on a processor that has only {%s}' % (n['q'], ','.join(sorted(need)), ', '.join(sorted(S0 or ()))), key='%s:%s' % (f.q, n['q']))
            selectors[f.id] = f
    for f in selectors.values():
        for K in walks(f, set()):
            ex = getattr(K, 'exits', None) or K.run(f)
            nulls = [b for a, b, _ in K.reached if a == f.id and f.nodes[b]['k'] == 'ret' and f.nodes[b].get('e', -1) is not None and f.nodes[b].get('e', -1) >= 0 and isnull(f, f.nodes[b]['e'])]
            R.ob('portable', bool(ex) and not nulls, f.at(nulls[0]) if nulls else f.at(), '%s has nothing to fall back to on a processor without optional features' % f.q, key=f.q)
        if not walks(f, set()):
            R.ob('portable', True, f.at(), '', key=f.q)
    registers(R, p, T)
    R.assume('__builtin_cpu_supports reports a feature only when the operating system saves its registers as well', 'the code compiled without an extension attribute uses nothing beyond the baseline the build selects for the whole library')


def isnull(f, i):
    n = f.nodes[strip(f, i)]
    return n['k'] == 'lit' and str(n.get('v')) in ('nullptr', '0', 'null')


NEED = [(re.compile(r'%zmm|_mm512_|__m512'), {'avx512f'}, '512-bit'), (re.compile(r'%ymm|_mm256_|__m256'), {'avx', 'avx2'}, '256-bit')]


def active(lines):
    """source lines without comments and without the regions a compiler flag for an extension switches on"""
    out, st = [], []
    for x in lines:
        x = re.sub(r'//.*', '', x)
        m = re.match(r'\s*#\s*(if|ifdef|ifndef|elif|else|endif)\b(.*)', x)
        if m:
            k, c = m.groups()
            if k.startswith('if'):
                st.append('__AVX' in c and 'ndef' not in k)
            elif k == 'elif' and st:
                st[-1] = '__AVX' in c
            elif k == 'else' and st:
                st[-1] = False
            elif k == 'endif' and st:
                st.pop()
            continue
        if not any(st):
            out.append(x)
    return '\n'.join(out)


def registers(R, p, T):
    """the assembler accepts any register in inline assembly, so the compiler does not check this"""
    text, done = {}, set()
    for f in p.fns.values():
        if not f.rel().startswith('include/') or (f.rel(), f.line) in done or f.d.get('implicit') or not f.d.get('e') or f.d.get('lambda'):
            continue
        done.add((f.rel(), f.line))
        if f.file not in text:
            try:
                with open(f.file, errors='replace') as h:
                    text[f.file] = h.read().split('\n')
            except OSError:
                text[f.file] = []
        src = active(text[f.file][f.line - 1:f.d['e']])
        for rx, need, what in NEED:
            if rx.search(src) and (f.id in T or what == '512-bit'):
                R.saw([f])
                R.ob('registers', bool(closed(T.get(f.id, set())) & need), f.at(), '%s uses %s registers but is not compiled for an extension that has them' % (f.q, what), key=f.q)
                break
