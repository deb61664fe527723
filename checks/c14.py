"""C14: every engine entry evaluated with one element of each non-finite class at each position: it must throw before anything uses the vector; no classification that fast-math folds."""
import re
import struct
from vf.absx import *
from vf.util import *

CLASSES = {'NaN': 0x7fc00000, 'signalling NaN': 0x7f800001, 'negative NaN': 0xffc00123, 'infinity': 0x7f800000, '-infinity': 0xff800000}
FINITE = {'0': 0, '-0': 0x80000000, 'one': 0x3f800000, 'largest': 0x7f7fffff, 'denormal': 1, 'negative': 0xc0490fdb}
CLASSES64 = {'NaN': 0x7ff8000000000000, 'signalling NaN': 0x7ff0000000000001, 'low NaN': 0xfff0000000000100, 'infinity': 0x7ff0000000000000, '-infinity': 0xfff0000000000000}
FINITE64 = {'0': 0, 'one': 0x3ff0000000000000, 'largest': 0x7fefffffffffffff, 'negative': 0xc009000000000000}
FOLDED = ('isnan', 'isinf', 'isfinite', 'isnormal', 'fpclassify', 'isunordered', '__builtin_isnan', '__builtin_isinf', '__builtin_isfinite', '__builtin_isinf_sign', '__isnan', '__isinf', '__finite', 'finite', 'isnanf', 'isinff',
          '__builtin_isnormal', '__builtin_fpclassify', '__builtin_isunordered', 'isless', 'isgreater', 'islessequal', 'isgreaterequal', 'islessgreater')


def fl(bits, w=4):
    return ('f', bits, w)


def nonfinite(v):
    return v[1] in (CLASSES64 if v[2] == 8 else CLASSES).values()


def num(v):
    return struct.unpack('<d' if v[2] == 8 else '<f', struct.pack('<Q' if v[2] == 8 else '<I', v[1]))[0]


class D(Domain):
    def inline(self, g):
        return '/usr/' not in g.file and not g.d.get('coro') and g.rel().startswith(('include/index/disk/', 'python/include/', 'include/utils/', 'include/index/graph/vamana/build_dispatch'))

    def isf(self, v):
        return isterm(v) and v and v[0] == 'f' and len(v) == 3

    def call(self, ev, fr, i, n, q, obj, args):
        f = fr.f
        if q is None:
            if n['k'] == 'idx':
                b, ix = ev.ev(fr, n['b']), ev.ev(fr, n['i'])
                if isinstance(b, It):
                    j = b.i + ix if isinstance(ix, int) else None
                    if j is None or not 0 <= j < len(b.l.x):
                        raise Stuck('element')
                    return b.l.x[j]
            if n['k'] == 'un' and n['op'] == '*':
                b = ev.ev(fr, n['e'])
                if isinstance(b, It):
                    return b.l.x[b.i] if 0 <= b.i < len(b.l.x) else UNK
            if n['k'] == 'bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/'):
                a, b = ev.ev(fr, n['e']), ev.ev(fr, n['r'])
                if self.isf(a) or self.isf(b):
                    return self.arith(n['op'], a, b)
                return ev.arith(n['op'], a, b)
            if n['k'] == 'un' and n['op'] == '-':
                a = ev.ev(fr, n['e'])
                if self.isf(a):
                    return ('f', a[1] ^ (1 << (a[2] * 8 - 1)), a[2])
            return NotImplemented
        name = q.rsplit('::', 1)[-1]
        if name in FOLDED and any(self.isf(a) for a in args):
            return name in ('isfinite', '__builtin_isfinite', '__finite', 'finite')
        if name in ('memcpy', '__builtin_memcpy') and len(args) == 3:
            s = args[1]
            s = s[2] if isterm(s) and s and s[0] == 'un' and s[1] == '&' else s
            if isinstance(s, It) and s.i < len(s.l.x):
                s = s.l.x[s.i]
            if isinstance(s, Ptr):
                s = s.get()
            if self.isf(s):
                if isinstance(args[0], Ptr):
                    args[0].set(s[1])
                    return None
                raise Stuck('copy of an element')
        if name == 'bit_cast' and args and self.isf(args[0]):
            return args[0][1]
        if name == '__builtin_mul_overflow' and len(args) == 3:
            v = args[0] * args[1] if all(isinstance(a, int) for a in args[:2]) else UNK
            if isinstance(args[2], Ptr):
                args[2].set(v)
            return False
        if name in ('fabs', 'abs', 'fabsf') and args and self.isf(args[0]):
            return ('f', args[0][1] & ~(1 << (args[0][2] * 8 - 1)), args[0][2])
        if name in ('all_of', 'any_of', 'none_of', 'find_if', 'find_if_not') and len(args) == 3 and isinstance(args[0], It):
            return NotImplemented
        if q.startswith('pybind11::') or 'spdlog' in q:
            return self.py(ev, f, n, name, obj, args)
        if name in ('to_string', 'str', 'string') or n['k'] == 'ctor' and ('exception' in n.get('cls', '') or 'error' in n.get('cls', '') or 'invalid_argument' in n.get('cls', '')):
            return ('text',)
        if n.get('op') in ('+', '+=') and ('text',) in list(args) + [obj]:
            return ('text',)
        if ev.uses(obj, args) and not self.harmless(ev, n, q, name, obj, args):
            ev.log.append(('use', f, i))
        return NotImplemented

    def py(self, ev, f, n, name, obj, args):
        if name == 'data' and obj == ('array',):
            return It(ev.vec, 0)
        if name == 'shape' and obj == ('array',):
            return ev.shape[args[0]] if args and isinstance(args[0], int) and args[0] < len(ev.shape) else UNK
        if name == 'ndim' and obj == ('array',):
            return len(ev.shape)
        return NotImplemented

    def harmless(self, ev, n, q, name, obj, args):
        if name in ('begin', 'end', 'data', 'size', 'operator+', 'operator-', 'addressof', 'move', 'forward', 'span', 'subspan'):
            return True
        if q.startswith('std::') and name in ('all_of', 'any_of', 'none_of', 'find_if', 'find_if_not', 'for_each', 'count_if', 'to_string'):
            return True
        g = ev.p.get(n['f']) if n.get('f') else None
        return g is not None and g.body is not None and g.body >= 0 and self.inline(g) or n['k'] == 'ctor' and n.get('cls', '').startswith('std::span') or n.get('op') == '()'

    def arith(self, op, a, b):
        x = num(a) if self.isf(a) else a
        y = num(b) if self.isf(b) else b
        bad = self.isf(a) and nonfinite(a) or self.isf(b) and nonfinite(b)
        if op in ('+', '-', '*', '/'):
            return ('fastmath', op, a, b) if bad else UNK
        if bad:
            return ('fastmath', op, a, b)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        return UNK


class EV(Eval):
    MAXSTEP = 6000
    PTR = True
    vec = None

    def uses(self, obj, args):
        for a in [obj] + list(args):
            if isinstance(a, It) and a.l is self.vec or a is self.vec:
                return True
        return False

    def callx(self, fr, i, n):
        if n['k'] == 'ctor' and n.get('cls', '') in ('std::runtime_error', 'std::invalid_argument', 'std::domain_error', 'std::out_of_range', 'pybind11::value_error', 'pybind11::type_error', 'std::logic_error'):
            return ('text',)
        r = Eval.callx(self, fr, i, n)
        return r

    def ev(self, fr, i):
        n = fr.f.nodes[i]
        if n['k'] == 'throw':
            raise Throw(n.get('tt'))
        if n['k'] == 'cast' and n.get('ck') in ('FloatingCast', None):
            v = Eval.ev(self, fr, n['e'])
            if isterm(v) and len(v) == 3 and v[0] == 'f':
                t = n.get('t', '').replace('const ', '')
                if t == 'double' and v[2] == 4:
                    x = num(v) if not nonfinite(v) else None
                    if x is None:
                        nm = next(k for k, b in CLASSES.items() if b == v[1])
                        return ('f', CLASSES64.get(nm, CLASSES64['NaN']), 8)
                    return ('f', struct.unpack('<Q', struct.pack('<d', x))[0], 8)
            return v
        return Eval.ev(self, fr, i)

    def arith(self, op, a, b):
        if op in ('&', '|', '^', '<<', '>>', '~') and isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            return super().arith(op, a, b)
        if self.dom.isf(a) or self.dom.isf(b):
            return self.dom.arith(op, a, b)
        return super().arith(op, a, b)


def predicates(R, p, done):
    """float -> bool functions that look at the representation"""
    for f in p.fns.values():
        if f.d.get('lambda') or f.d.get('implicit') or len(f.params) != 1 or f.d.get('rt') not in ('bool', '_Bool') or '/usr/' in f.file:
            continue
        t = f.vars[str(f.params[0])].get('t', '').replace('const ', '')
        if t not in ('float', 'double') or (f.rel(), f.line) in done:
            continue
        done.add((f.rel(), f.line))
        w = 8 if t == 'double' else 4
        vals = {}
        stuck = None
        fast = False
        for nm, bits in list((CLASSES64 if w == 8 else CLASSES).items()) + list((FINITE64 if w == 8 else FINITE).items()):
            E = EV(p, D())
            outs = E.outcomes(f, lambda: ([fl(bits, w)], None))
            R.saw([f])
            for o in outs:
                if o.kind != 'ret':
                    stuck = o.value
                if o.facts:
                    fast = fast or any('fastmath' in str(x[0]) for x in o.facts)
            vals[bits] = {o.value if isinstance(o.value, bool) else str(o.value) for o in outs}
        if stuck:
            R.notes.append('predicate %s: not analysed (%s)' % (f.q, stuck))
            continue
        if any(len(v) != 1 or not isinstance(next(iter(v)), bool) for v in vals.values()) :
            if kind_of(f.name):
                R.bad('predicate', f.at(), '%s is decided by floating-point arithmetic on non-finite values, which the fast-math build does not define' % f.name, key=f.name)
            continue
        got = {b: next(iter(v)) for b, v in vals.items()}
        C = CLASSES64 if w == 8 else CLASSES
        inf = {C['infinity'], C['-infinity']}
        nan = set(C.values()) - inf
        want = None
        low = kind_of(f.name)
        if low == 'finite':
            want = {b: (b not in inf and b not in nan) != ('non' in f.name.lower() or 'not' in f.name.lower()) for b in got}
        elif low == 'nan':
            want = {b: b in nan for b in got}
        elif low == 'inf':
            want = {b: b in inf for b in got}
        if want is not None:
            wrong = [b for b in got if got[b] != want[b]]
            R.ob('predicate', not wrong, f.at(), '%s answers %s for %s' % (f.name, got.get(wrong[0]) if wrong else '', '%#x' % wrong[0] if wrong else ''), key=f.name)


def kind_of(name):
    toks = re.findall(r'[a-z]+', re.sub(r'([A-Z])', r'_\1', name).lower())
    for k in ('finite', 'nan', 'inf'):
        if any(t in (k, 'is' + k, 'non' + k, 'not' + k) for t in toks):
            return k
    return None


def entries(p):
    """(function, kind): what takes vectors or a query into an engine"""
    engines = set()
    for c in p.classes.values():
        if any('SegmentSearcher' in str(b) for b in c.get('bases', [])):
            engines.add(c['q'])
    for f in p.fns.values():
        if f.d.get('implicit') or f.body is None or f.body < 0 or f.d.get('lambda'):
            continue
        ps = [f.vars[str(d)].get('t', '') for d in f.params]
        if f.cls in engines and f.name == 'search' and ps and ps[0].startswith('const float *'):
            yield f, 'query'
        elif f.rel().startswith('include/index/disk/') and f.cls and f.cls.endswith('Builder') and ps and ps[0].startswith('const float *') and f.d.get('acc') in (None, 'public'):
            yield f, 'batch'


def run(R):
    R.rule('rejected', 'a vector or query with a non-finite element at any position is rejected before anything uses it', 30)
    R.rule('predicate', 'every classification of a float answers by its representation and correctly for each class', 4)
    R.rule('folded', 'no classification of floating-point values that the fast-math build folds to a constant', 1)
    progs = [R.program(x) for x in ('disk', 'py', 'vamana', 'diskann', 'space', 'core')]
    done = set()
    for p in progs:
        predicates(R, p, done)
    p = progs[0]
    es = list(entries(p))
    eng = {f.cls for f, k in es}
    if len(es) < 4:
        raise AnalysisError('engine entries')
    for f, kind in es:
        one(R, p, f, kind)
    folded(R, progs)


def one(R, p, f, kind):
    names = [(f.vars[str(d)].get('t', ''), f.vars[str(d)]['n']) for d in f.params]
    # every position and class on small sizes; the first, last and block-boundary positions on sizes past a vectorised or unrolled step
    full = [(pos, nm, metric) for pos in range(6 if kind == 'batch' else 3) for nm in CLASSES for metric in ('L2', 'IP', 'COS')]
    plan = [((2, 3) if kind == 'batch' else (1, 3), full)]
    for N, DIM in ((2, 37), (9, 2)) if kind == 'batch' else ((1, 37),):
        plan.append(((N, DIM), [(pos, nm, 'L2') for pos in sorted({0, min(15, DIM - 1), min(32, DIM - 1), DIM - 1, (N - 1) * DIM, N * DIM - 1}) for nm in ('NaN', 'infinity')]))
    for (N, DIM), cases in plan:
        for pos, nm, metric in cases:
            case(R, p, f, names, N, DIM, pos, nm, metric)


def case(R, p, f, names, N, DIM, pos, nm, metric):
    bits = CLASSES[nm]
    vec = Lst([fl(FINITE['one'])] * (N * DIM))
    vec.x[pos] = fl(bits)
    E = EV(p, D())
    E.vec = vec

    def make():
        a = []
        for t, n in names:
            if t.startswith('const float *'):
                a.append(It(vec, 0))
            elif 'uint64_t *' in t or 'unsigned long *' in t:
                a.append(It(Lst(list(range(7, 7 + N))), 0))
            elif t.replace('const ', '').strip() in SCALARS:
                a.append(N)
            elif 'Options' in t:
                a.append(Obj('opts', top_k=1, ef=4, beam_width=2))
            else:
                a.append(('v', n))
        m = ('enum', 'alaya::MetricType::' + metric)
        return a, Obj(f.cls, dim_=DIM, closed_=False, metric_=m, manifest_=Obj('manifest', dim=DIM, count=5, metric=m), labels_=Lst(), pending_labels_=Lst(), vectors_=Lst(), pending_vectors_=Lst())
    outs = E.outcomes(f, make)
    R.saw([p.get(x) for x in E.visited if p.get(x)])
    for o in outs:
        used = [e for e in o.log if e[0] == 'use']
        key = '%s:%s' % (f.cls.rsplit('::', 1)[-1], f.name)
        if used:
            g, i = used[0][1:]
            R.bad('rejected', g.at(i), '%s uses a vector with %s at position %d before (or without) rejecting it' % (f.name, nm, pos), key=key)
        elif o.kind == 'stuck':
            if ('rejected ' + key) not in str(R.notes):
                R.notes.append('rejected %s: not analysed (%s)' % (key, o.value))
        elif o.kind == 'ret':
            R.bad('rejected', f.at(), '%s accepts a vector with %s at position %d%s' % (f.name, nm, pos, ' (decided by floating-point arithmetic)' if 'fastmath' in str(o.facts) else ''), key=key)
        else:
            R.good('rejected', f.at())


def folded(R, progs):
    done = set()
    for p in progs:
        for f in p.fns.values():
            if '/usr/' in f.file or 'third_party' in f.rel():
                continue
            for i in f.all():
                n = f.nodes[i]
                nm = None
                if n['k'] == 'call' and n.get('q', '').rsplit('::', 1)[-1] in FOLDED and (n.get('q', '').startswith(('std::', '__')) or '::' not in n.get('q', '')):
                    a = n.get('a', [])
                    if a and (f.nodes[a[0]].get('t', '').replace('const ', '') in ('float', 'double', 'int', 'long') or f.nodes[a[0]].get('t')):
                        nm = n['q'].rsplit('::', 1)[-1]
                elif n['k'] == 'bin' and n['op'] in ('==', '!=') and f.nodes[n['e']].get('t', '').replace('const ', '') in ('float', 'double'):
                    env = Env(f)
                    a, b = canon(env, n['e']), canon(env, n['r'])
                    if a == b and 'call' not in str(a):
                        nm = 'comparison of a value with itself'
                if nm is None:
                    continue
                k = (f.rel(), n['l'], nm)
                if k in done:
                    continue
                done.add(k)
                R.bad('folded', f.at(i), '%s is a constant under the fast-math flags of the release build' % nm, key='%s:%s' % (f.q.split('(')[0], nm))
    R.good('folded', 'every function of the analysed units')
