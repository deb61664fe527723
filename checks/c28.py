"""C28: the operator and combination tables by abstract evaluation; what an index lookup returns, operator by operator; polarity of the executor; every search strategy applies the filter."""
import itertools
from vf.absx import *
from vf.util import *
from vf.flow import guards, must_facts

FC, MF = 'alaya::FilterCondition', 'alaya::MetadataFilter'
OPS = ['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'IN_SET', 'NOT_IN_SET', 'CONTAINS']
ALT = {'long': 0, 'double': 1, 'string': 2, 'bool': 3}
ORD = {'less': -1, 'equal': 0, 'greater': 1}


def alt_of(t):
    t = (t or '').replace('const ', '').replace('&', '').replace('*', '').strip()
    if 'basic_string' in t or t == 'std::string':
        return 'string'
    return {'long': 'long', 'long long': 'long', 'int64_t': 'long', 'double': 'double', 'bool': 'bool', '_Bool': 'bool'}.get(t)


class Val(tuple):
    pass


def val(name, alt):
    return ('val', name, alt)


class DV(Domain):
    """metadata values: alternative and relation between two of them are given"""

    def __init__(self, rel, missing=False, contains=None, nan=()):
        self.rel, self.missing, self.contains, self.nan = rel, missing, contains, set(nan)

    def isval(self, t):
        return isterm(t) and t and t[0] == 'val'

    def call(self, ev, f, i, n, q, obj, args):
        if q is None:
            return NotImplemented
        name = q.rsplit('::', 1)[-1]
        op = n.get('op')
        if obj == ('map',) or args and args[0] == ('map',):
            if name == 'find':
                return ('end',) if self.missing else ('it',)
            if name in ('end', 'cend'):
                return ('end',)
            if name in ('contains', 'count'):
                return not self.missing
            if name == 'at' or op == '[]':
                if self.missing:
                    raise Throw('out_of_range')
                return ACT(self)
        if op in ('==', '!=') and (obj in (('it',), ('end',)) or args and args[0] in (('it',), ('end',))):
            xs = ([obj] if obj is not None else []) + args
            return (xs[0] == xs[1]) == (op == '==')
        if obj == ('it',) and op in ('*', '->'):
            return Obj('pair', first=('key',), second=ACT(self))
        xs = ([obj] if obj is not None else []) + args
        if name == 'index' and self.isval(obj):
            return ALT[obj[2]]
        if name == 'holds_alternative' and self.isval(args[0]):
            t = targ(f, n)
            if t is None:
                raise Stuck('holds_alternative')
            return t == args[0][2]
        if name in ('get', 'get_if') and args and self.isval(args[0]) and q.startswith('std::'):
            t = alt_of(n.get('t'))
            if t == args[0][2]:
                return args[0]
            if name == 'get_if':
                return None
            raise Throw('bad_variant_access')
        if name == 'visit' and q.startswith('std::'):
            vs = args[1:]
            lam = args[0]
            if isinstance(lam, Lam) and all(self.isval(v) for v in vs):
                fs = [lam.f] if lam.f is not None else [ev.p.get(g) for g in lam.node[0].nodes[lam.node[1]].get('gen', [])]
                for g in fs:
                    if g is not None and [alt_of(g.vars[str(d)]['t']) for d in g.params] == [v[2] for v in vs]:
                        return ev.invoke(g, vs, lam.this, lam.env)
            raise Stuck('visit')
        if name in ('isnan', 'isinf', 'isfinite', 'isunordered'):
            return name == 'isfinite'   # what the fast-math flags of the build make of it
        if name in ('bit_cast',) and self.isval(args[0]):
            return self.bits(args[0])
        if name == 'memcpy' and len(args) == 3:
            src = args[1]
            if self.isval(src) or isterm(src) and src[0] == 'un' and self.isval(src[2]):
                v = src if self.isval(src) else src[2]
                a = f.f.nodes[n['a'][0]]
                while a['k'] == 'cast':
                    a = f.f.nodes[a['e']]
                if a['k'] == 'un' and a['op'] == '&':
                    ev.assign(f, a['e'], self.bits(v))
                    return None
        if op == '<=>' and len(xs) >= 2 and self.isval(xs[0]) and self.isval(xs[1]):
            return ('cmp3', xs[0], xs[1])
        if name in ('is_lt', 'is_gt', 'is_eq', 'is_neq', 'is_lteq', 'is_gteq') and isterm(args[0]) and args[0][0] == 'cmp3':
            return self.compare(ev, {'lt': '<', 'gt': '>', 'eq': '==', 'neq': '!=', 'lteq': '<=', 'gteq': '>='}[name[3:]], args[0][1], args[0][2])
        if name in ('find', 'contains', 'starts_with') and self.isval(obj) and obj[2] == 'string':
            if name == 'find':
                return ('pos', self.contains is True and obj[1] == 'actual' and args and args[0][:2] == ('val', 'value'), obj[1] == 'actual' and args and self.isval(args[0]) and args[0][1] == 'value')
            if name == 'contains' and obj[1] == 'actual' and args[0][1] == 'value':
                return bool(self.contains)
            raise Stuck(name)
        if q.startswith('std::') and len(xs) >= 2 and (op or name) in ('==', '!=', '<', '>', '<=', '>=', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            o = (op or name).replace('operator', '')
            return self.compare(ev, o, xs[0], xs[1])
        return NotImplemented

    def bits(self, v):
        if v[2] != 'double':
            raise Stuck('bits')
        return 0x7ff8000000000000 if v in self.nan else {'actual': 0x4000000000000000}.get(v[1], 0x4008000000000000)

    def compare(self, ev, o, a, b):
        if isterm(a) and a and a[0] == 'pos' or isterm(b) and b and b[0] == 'pos':
            a, b = (a, b) if isterm(a) and a and a[0] == 'pos' else (b, a)
            if not a[2]:
                return NotImplemented
            return a[1] == (o == '!=')
        if isterm(a) and a and a[0] == 'cmp3':
            a, b = a[1], a[2]
        if not (self.isval(a) and self.isval(b)):
            return NotImplemented
        if a in self.nan or b in self.nan:
            if a[2] == b[2]:
                return ('fastmath', o, a, b)
        if a == b:
            return o in ('==', '<=', '>=')
        if a[2] != b[2]:
            # variants order by alternative
            r = -1 if ALT[a[2]] < ALT[b[2]] else 1
        else:
            r = self.rel.get((a[1], b[1]))
            if r is None:
                r = self.rel.get((b[1], a[1]))
                r = None if r is None else -r
            if r is None:
                raise Stuck('relation of %s and %s' % (a[1], b[1]))
        return {'==': r == 0, '!=': r != 0, '<': r < 0, '>': r > 0, '<=': r <= 0, '>=': r >= 0}[o]

    def truth(self, ev, t):
        if isterm(t) and t and t[0] == 'bin' and t[1] in ('==', '!=', '<', '>', '<=', '>='):
            r = self.compare(ev, t[1], t[2], t[3])
            if isinstance(r, bool):
                return r
        return NotImplemented

    def member(self, ev, f, i, n, base):
        if n['n'] == 'npos':
            return ('npos',)
        if base == ('it',):
            return ACT(self) if n['n'] == 'second' else ('key',)
        return NotImplemented


def ACT(d):
    return val('actual', d.alt)


def targ(fr, n):
    """the explicit alternative of holds_alternative<T>"""
    ta = n.get('ta')
    return alt_of(ta[0]) if ta else None


class Ev2(Eval):
    def arith(self, op, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(self.dom, DV):
                r = self.dom.compare(self, op, a, b)
                if r is not NotImplemented:
                    return r
        if op in ('&', '|', '^', '<<', '>>') and isinstance(a, int) and isinstance(b, int):
            r = super().arith(op, a, b)
            return r & (2 ** 64 - 1) if isinstance(r, int) and not isinstance(r, bool) else r
        return super().arith(op, a, b)


def judge(R, rule, outs, want, site, key, what):
    """every outcome has the wanted value; an outcome the evaluation cannot determine is reported as not analysed"""
    stuck = [o for o in outs if o.kind == 'stuck']
    if stuck:
        R.notes.append('%s %s: not analysed (%s)' % (rule, key, stuck[0].value))
        return None
    wrong = []
    for o in outs:
        got = o.value if o.kind == 'ret' else 'exception'
        if got != want:
            wrong.append((got, o.facts))
    msg = ''
    if wrong:
        got, facts = wrong[0]
        if any(isterm(t) and t and t[0] == 'fastmath' for t, _ in facts):
            msg = '%s: decided by a floating-point comparison with NaN, which the fast-math build does not define' % what
        else:
            msg = '%s: gives %s instead of %s%s' % (what, got if not isterm(got) else show(got), want, ' when ' + show(facts[0][0])[:80] if facts else '')
    R.ob(rule, not wrong, site, msg, key=key)
    return not wrong


def conditions(R, p):
    ev = [f for f in p.methods(FC) if f.name == 'evaluate']
    if not ev:
        raise AnalysisError('FilterCondition::evaluate')
    f = ev[0]
    E = None
    alts = list(ALT)
    seen = set()
    for op in OPS:
        this0 = lambda vs, v: Obj(FC, field=('field',), op=('enum', 'alaya::FilterOp::' + op), value=v, values=Lst(vs))
        cases = []
        if op in ('IN_SET', 'NOT_IN_SET'):
            for alt in alts:
                for rel in itertools.product((0, 1, -1), repeat=2):
                    vs = [val('v1', alt), val('v2', alt)]
                    inn = 0 in rel
                    cases.append(('%s %s' % (alt, rel), alt, vs, val('value', alt), {('actual', 'v1'): rel[0], ('actual', 'v2'): rel[1]}, (), inn == (op == 'IN_SET'), None))
                cases.append(('%s empty' % alt, alt, [], val('value', alt), {}, (), op != 'IN_SET', None))
                other = alts[(ALT[alt] + 1) % 4]
                cases.append(('%s/%s' % (alt, other), alt, [val('v1', other)], val('value', alt), {}, (), op != 'IN_SET', None))
            for nan in ('v1', 'actual'):
                cases.append(('NaN ' + nan, 'double', [val('v1', 'double')], val('value', 'double'), {}, (val(nan, 'double'),), op != 'IN_SET', None))
        elif op == 'CONTAINS':
            for a in alts:
                for b in alts:
                    for c in (True, False):
                        cases.append(('%s/%s %s' % (a, b, c), a, [], val('value', b), {('actual', 'value'): 1}, (), a == b == 'string' and c, c))
        else:
            for a in alts:
                for b in alts:
                    if a != b:
                        cases.append(('%s/%s' % (a, b), a, [], val('value', b), {}, (), op == 'NE', None))
                        continue
                    for nm, r in ORD.items():
                        want = {'EQ': r == 0, 'NE': r != 0, 'GT': r > 0, 'GE': r >= 0, 'LT': r < 0, 'LE': r <= 0}[op]
                        cases.append(('%s %s' % (a, nm), a, [], val('value', b), {('actual', 'value'): r}, (), want, None))
            for nan in (['actual'], ['value'], ['actual', 'value']):
                cases.append(('NaN ' + '+'.join(nan), 'double', [], val('value', 'double'), {}, tuple(val(x, 'double') for x in nan), op == 'NE', None))
        cases.append(('absent', 'long', [val('v1', 'long')], val('value', 'long'), {('actual', 'value'): 0, ('actual', 'v1'): 0}, (), False, None))
        for nm, alt, vs, v, rel, nan, want, cont in cases:
            d = DV(rel, nm == 'absent', cont, nan)
            d.alt = alt
            E = Ev2(p, d)
            outs = E.outcomes(f, lambda: ([('map',)], this0(vs, v)))
            seen |= E.visited
            rule = 'nan' if nan else 'operators'
            judge(R, rule, outs, want, f.at(), '%s:%s' % (op, nm if nan else 'table'), '%s on %s' % (op, nm))
    R.saw([p.get(x) for x in seen])


class DT(Domain):
    """filters and conditions with given truth values"""

    def call(self, ev, f, i, n, q, obj, args):
        if q is None:
            return NotImplemented
        if q == FC + '::evaluate' and isinstance(obj, Obj):
            if args != [('map',)]:
                raise Stuck('another record is evaluated')
            return obj.f['truth']
        if q == MF + '::evaluate' and isinstance(obj, Obj) and 'truth' in obj.f:
            if args != [('map',)]:
                raise Stuck('another record is evaluated')
            return obj.f['truth']
        if 'log' in q.lower() or 'spdlog' in q:
            return UNK
        return NotImplemented

    def inline(self, g):
        return 'spdlog' not in g.q and '/log.hpp' not in g.file


def combos(R, p):
    f = [g for g in p.methods(MF) if g.name == 'evaluate'][0]
    seen = set()
    T = [(), (True,), (False,), (True, True), (True, False), (False, True), (False, False)]
    for lo in ('AND', 'OR', 'NOT'):
        for cs in T:
            for ss in T:
                xs = cs + ss
                if lo == 'NOT' and len(xs) > 1:
                    continue
                want = True if not xs else all(xs) if lo == 'AND' else any(xs) if lo == 'OR' else not xs[0]
                E = Eval(p, DT())
                outs = E.outcomes(f, lambda: ([('map',)], Obj(MF, logic_op=('enum', 'alaya::LogicOp::' + lo), conditions=Lst([Obj(FC, truth=t) for t in cs]),
                                                              sub_filters=Lst([Obj(MF, truth=t) for t in ss]))))
                seen |= E.visited
                judge(R, 'combination', outs, want, f.at(), '%s:%s' % (lo, 'empty' if not xs else 'conditions' if not ss else 'sub' if not cs else 'mixed'), '%s of conditions %s and sub-filters %s' % (lo, list(cs), list(ss)))
    R.saw([p.get(x) for x in seen])


# ---- index lookups

class DL(DV):
    def __init__(self, nan=()):
        DV.__init__(self, {}, nan=nan)
        self.alt = 'long'

    def call(self, ev, f, i, n, q, obj, args):
        if q is None:
            return NotImplemented
        name = q.rsplit('::', 1)[-1]
        if name.startswith('get_ids_by_') and 'RocksDBStorage' in q:
            return Lst([('lookup', name, tuple(args))])
        if name == 'is_indexed_field' or 'indexed' in name and 'bool' in (n.get('t') or ''):
            return self.indexed
        if 'numeric_limits' in q:
            return ('lim', name)
        if name in ('nextafter', 'nexttoward') and len(args) == 2:
            return ('next', args[0], args[1])
        if name in ('encode_double', 'encode_int64') and len(args) == 1:
            return ('enc', args[0])
        if 'storage' in q.lower() and name == 'config':
            return ('config',)
        r = DV.call(self, ev, f, i, n, q, obj, args)
        return r

    def compare(self, ev, o, a, b):
        if self.isval(a) and self.isval(b):
            return DV.compare(self, ev, o, a, b)
        for x in (a, b):
            if x in self.nan:
                return ('fastmath', o, a, b)
        if isterm(a) and a and a[0] == 'enc' and isterm(b) and b and b[0] == 'enc' and o in ('==', '!='):
            a, b = sorted((a[1], b[1]), key=str)
            return ('bin', o, a, b)
        if o in ('==', '!=') and isterm(a) and isterm(b) and (self.isval(a) or self.isval(b)):
            a, b = sorted((a, b), key=str)
            return ('bin', o, a, b)
        return NotImplemented

    def truth(self, ev, t):
        if isterm(t) and t and t[0] == 'bin' and t[1] == '==' and any(isterm(x) and x in self.nan for x in t[2:]):
            return False    # compared by representation
        return NotImplemented


def norm(t):
    """limits by name"""
    if isterm(t):
        if t and t[0] == 'un' and t[1] == '-' and norm(t[2]) == ('+inf',):
            return ('-inf',)
        if t == ('lim', 'infinity'):
            return ('+inf',)
        if t == ('lim', 'max'):
            return ('MAX',)
        if t in (('lim', 'min'), ('lim', 'lowest')):
            return ('MIN',)
        if t and t[0] == 'bin' and t[1] == '-' and t[3] == 1:
            return ('bin', '+', norm(t[2]), -1)
        return tuple(norm(x) if isterm(x) else x for x in t)
    return t


def lookups(R, p):
    fs = [f for f in p.infile('include/utils/metadata_filter_matcher.hpp') if (f.d.get('rt') or '').startswith('std::optional<std::vector') and any('get_ids_by' in f.nodes[c].get('q', '') for c in f.calls())]
    if not fs:
        R.notes.append('no index lookup in the matcher')
        return
    f = fs[0]
    seen = set()
    V = {'long': 'get_ids_by_int_range', 'double': 'get_ids_by_double_range'}
    for indexed in (True, False):
        for op in OPS:
            for alt in ALT:
                for nan in ((False, True) if alt == 'double' else (False,)):
                    v = val('value', alt)
                    vs = [val('v1', alt), val('v2', alt)]
                    d = DL((v, vs[0]) if nan else ())
                    d.indexed = indexed
                    E = Ev2(p, d)
                    st = Obj('RocksDBStorage')
                    outs = E.outcomes(f, lambda: ([Obj(FC, field=('field',), op=('enum', 'alaya::FilterOp::' + op), value=v, values=Lst(vs))], Obj('MetadataFilterExecutor', storage_=st)))
                    seen |= E.visited
                    for o in outs:
                        key = '%s:%s%s%s' % (op, alt, ':NaN' if nan else '', '' if indexed else ':unindexed')
                        if o.kind == 'stuck':
                            R.notes.append('lookup %s: not analysed (%s)' % (key, o.value))
                            continue
                        if o.kind == 'throw':
                            R.bad('lookup', f.at(), '%s on a %s value throws' % (op, alt), key=key)
                            continue
                        r = o.value
                        if r is None or isinstance(r, Opt) and not r.has:
                            R.good('lookup', f.at())
                            continue
                        if isinstance(r, Opt):
                            r = r.v
                        if not isinstance(r, Lst):
                            R.notes.append('lookup %s: result %r' % (key, r))
                            continue
                        if not indexed:
                            R.bad('lookup', f.at(), 'an unindexed field is answered from the index', key=key)
                            continue
                        got = sorted({norm((x[1],) + x[2]) if isterm(x) and x[0] == 'lookup' else x for x in r.x}, key=str)
                        if any(not (isterm(x) and x and str(x[0]).startswith('get_ids_by')) for x in got):
                            R.notes.append('lookup %s: result %r' % (key, got))
                            continue
                        ok, why = lookup_ok(op, alt, nan, v, vs, got, {(norm(t), b) for t, b in o.facts})
                        R.ob('lookup', ok, f.at(), '%s on a %s value%s is answered with %s%s' % (op, 'NaN' if nan else alt, '', [show(x) for x in got] or 'no record', why), key=key)
    R.saw([p.get(x) for x in seen])


def lookup_ok(op, alt, nan, v, vs, got, facts):
    fld = ('field',)
    eq = lambda x: ('get_ids_by_field_value', fld, x)
    if nan:
        # no record equals or is ordered against NaN
        if op == 'IN_SET':
            return set(got) <= {eq(vs[1])}, ': a NaN bound has to select nothing'
        return not got, ': a NaN bound has to select nothing'
    if op == 'EQ':
        return got == [eq(v)], ''
    if op == 'IN_SET':
        return set(got) == {eq(x) for x in vs}, ': not the union over all listed values'
    if op not in ('GE', 'GT', 'LE', 'LT') or alt not in ('long', 'double'):
        return False, ': the index does not answer this operator'
    name = 'get_ids_by_int_range' if alt == 'long' else 'get_ids_by_double_range'
    lo, hi = (('MIN',), ('MAX',)) if alt == 'long' else (('-inf',), ('+inf',))
    edge = hi if op == 'GT' else lo
    atedge = any(b and t[0] == 'bin' and t[1] == '==' and set(t[2:]) == {v, edge} for t, b in facts if isterm(t) and len(t) == 4)
    notedge = any(not b and t[0] == 'bin' and t[1] == '==' and set(t[2:]) == {v, edge} for t, b in facts if isterm(t) and len(t) == 4)
    if not got:
        return op in ('GT', 'LT') and atedge, ' although records can satisfy it'
    if op == 'GE':
        want = (name, fld, v, hi)
    elif op == 'LE':
        want = (name, fld, lo, v)
    else:
        if alt == 'long':
            b = ('bin', '+', v, 1 if op == 'GT' else -1)
        else:
            b = ('next', v, edge)
        want = (name, fld, b, hi) if op == 'GT' else (name, fld, lo, b)
        if not notedge:
            return False, ': the bound next to the value is formed without excluding the end of the range'
    return got == [want], ', expected ' + show(want)


# ---- executor

class DX(DT):
    """an executor over three records with given truth; lookups answer exactly when allowed to"""

    def __init__(self, truth, answers):
        self.truth_, self.answers = truth, answers

    def call(self, ev, f, i, n, q, obj, args):
        if q is None:
            return NotImplemented
        name = q.rsplit('::', 1)[-1]
        if n['k'] == 'ctor' and n.get('cls', '').endswith('DynamicBitset') and not n.get('copy') and not n.get('move'):
            return Obj('Bitset', bits=set(), n=args[0])
        if isinstance(obj, Obj) and obj.cls == 'Bitset':
            b = obj.f['bits']
            if name in ('set', 'reset', 'get', 'test') and not isinstance(args[0], int):
                raise Stuck('bit position')
            if name == 'set':
                b.add(args[0])
                return None
            if name == 'reset':
                b.discard(args[0])
                return None
            if name in ('get', 'test'):
                return args[0] in b
            if name == 'set_all':
                b.update(range(obj.f['n'] if isinstance(obj.f['n'], int) else 0))
                return None
            if name == 'clear':
                b.clear()
                return None
            if name == 'size':
                return obj.f['n']
            raise Stuck('bitset ' + name)
        if name.startswith('lookup') or (n.get('t') or '').startswith('std::optional<std::vector') and n['k'] == 'call' and 'MetadataFilterExecutor' in q:
            c = args[0]
            if not isinstance(c, Obj) or 'tr' not in c.f:
                raise Stuck('lookup')
            return Opt(True, Lst([j for j in range(3) if c.f['tr'][j]])) if self.answers else Opt(False)
        if name in ('batch_get_raw_values',) and isinstance(args[0], Lst):
            return Lst([('raw', j) if self.truth_[j] is not None else ('rawempty', j) for j in args[0].x])
        if name == 'get_raw_value':
            a = f.f.nodes[n['a'][1]]
            ev.assign(f, n['a'][1], ('raw', args[0]) if self.truth_[args[0]] is not None else ('rawempty', args[0]))
            return self.truth_[args[0]] is not None
        if name == 'empty' and isterm(obj) and obj and obj[0] in ('raw', 'rawempty'):
            return obj[0] == 'rawempty'
        if name == 'size' and isterm(obj) and obj and obj[0] in ('raw', 'rawempty'):
            return 0 if obj[0] == 'rawempty' else 8
        if q == MF + '::evaluate':
            m = args[0]
            if isterm(m) and m and m[0] == 'decoded':
                t = self.truth_[m[1]]
                return self.onempty if t is None else t
            raise Stuck('evaluation of %r' % (m,))
        if name == 'data' and isterm(obj) and obj and obj[0] in ('raw', 'rawempty'):
            return obj
        if name.startswith('deserialize') and args and isterm(args[0]) and args[0][0] in ('raw', 'rawempty'):
            need = args[2] if len(args) > 2 else None
            if isinstance(need, Lst) and not set(self.fields) <= set(need.x):
                ev.log.append(('lost-fields',))
            return ('decoded', args[0][1])
        return DT.call(self, ev, f, i, n, q, obj, args)


def executor(R, p):
    cls = [f for f in p.infile('include/utils/metadata_filter_matcher.hpp') if f.d.get('ctor') and f.name == 'MetadataFilterExecutor' and not f.d.get('implicit')]
    if not cls:
        raise AnalysisError('MetadataFilterExecutor')
    ctor = cls[0]
    M = {}
    for f in p.infile('include/utils/metadata_filter_matcher.hpp'):
        if f.cls == ctor.cls:
            M.setdefault((f.name, len(f.params)), f)
    tri = [False, True, None]
    seen = set()

    def shapes():
        for lo in ('AND', 'OR', 'NOT'):
            for k in (0, 1, 2):
                for s in (0, 1):
                    yield lo, k, s
    E = None
    for lo, k, s in shapes():
        for truths in itertools.product(itertools.product((True, False), repeat=3), repeat=k + s) if k + s < 3 else [((True, True, False), (True, False, True), (False, True, True))]:
            for gone in ((), (1,)):
                full = []
                for j in range(3):
                    xs = [t[j] for t in truths]
                    if lo == 'NOT' and len(xs) > 1:
                        break
                    full.append(True if not xs else all(xs) if lo == 'AND' else any(xs) if lo == 'OR' else not xs[0])
                if len(full) < 3:
                    continue
                truth = [None if j in gone else full[j] for j in range(3)]
                for ans in (False, True):
                    d = DX(truth, ans)
                    d.fields = ['f%d' % (j + 1) for j in range(k + s)] + ['g'] * s
                    d.onempty = lo == 'NOT' or k + s == 0
                    conds = [Obj(FC, field='f%d' % (j + 1), op=UNK, tr=[truths[j][x] and truth[x] is not None for x in range(3)]) for j in range(k)]
                    subs = [Obj(MF, logic_op=('enum', 'alaya::LogicOp::AND'), conditions=Lst([Obj(FC, field='f%d' % (k + j + 1), op=UNK, tr=list(truths[k + j]))]), sub_filters=Lst([
                        Obj(MF, logic_op=('enum', 'alaya::LogicOp::AND'), conditions=Lst([Obj(FC, field='g', op=UNK, tr=list(truths[k + j]))]), sub_filters=Lst())])) for j in range(s)]
                    for meth in (('match', 1), ('build_blocked_bitset', 1), ('build_blocked_bitset', 0), ('eval_offsets', 2)):
                        g = M.get(meth)
                        if g is None:
                            continue
                        E = Eval(p, d)

                        class Run:
                            pass

                        def make():
                            o = Obj(ctor.cls or 'MetadataFilterExecutor')
                            for c in p.classes:
                                pass
                            o.f.update(has_index_fast_path_=False, indexed_ids_=Lst(), required_fields_=Lst())
                            fl = Obj(MF, logic_op=('enum', 'alaya::LogicOp::' + lo), conditions=Lst(conds), sub_filters=Lst(subs))
                            E.invoke(ctor, [fl, Obj('RocksDBStorage'), 3], o)
                            ids = Lst([2, 0, 1])
                            if meth == ('match', 1):
                                return [1], o
                            if meth == ('eval_offsets', 2):
                                make.out = Lst([7])
                                return [ids, make.out], o
                            return ([ids] if meth[1] else []), o
                        outs = E.outcomes(g, make)
                        seen |= E.visited
                        want = [bool(t) if t is not None else (k + s == 0) for t in truth]
                        for o in outs:
                            key = '%s/%d:%s' % (meth[0], meth[1], 'indexed' if ans else 'scan')
                            what = '%s over %s of %d conditions and %d sub-filters, %s' % (meth[0], lo, k, s, 'indexed' if ans else 'not indexed')
                            if o.kind == 'stuck':
                                if ('executor ' + key) not in str(R.notes):
                                    R.notes.append('executor %s: not analysed (%s)' % (key, o.value))
                                continue
                            if o.kind == 'throw':
                                R.bad('executor', g.at(), what + ' throws', key=key)
                                continue
                            v = o.value
                            lost = ('lost-fields',) in o.log
                            if meth == ('match', 1):
                                ok = v == want[1]
                            elif meth == ('eval_offsets', 2):
                                ok = [bool(x) for x in make.out.x] == [want[2], want[0], want[1]] if len(outs) == 1 else None
                            else:
                                order = [2, 0, 1] if meth[1] else [0, 1, 2]
                                bits = next((x for x in v.f.values() if isinstance(x, Obj) and x.cls == 'Bitset'), None) if isinstance(v, Obj) else None
                                if bits is None:
                                    R.notes.append('executor %s: result not understood' % key)
                                    continue
                                ok = all((j in bits.f['bits']) == (not want[x]) for j, x in enumerate(order))
                                cnt = next((x for kk, x in v.f.items() if isinstance(x, int) and not isinstance(x, bool)), None)
                                if ok and cnt is not None and cnt != sum(want):
                                    R.bad('executor', g.at(), what + ': reports %s matching records instead of %d' % (cnt, sum(want)), key=key + ':count')
                            if ok is None:
                                continue
                            R.ob('executor', ok and not lost, g.at(), what + (': a field the filter needs is not decoded' if lost else ': a record is selected against the filter'), key=key)
    R.saw([p.get(x) for x in seen if p.get(x)])


def batches(R, p):
    """a full scan over many records treats each of them as itself"""
    ctor = [f for f in p.infile('include/utils/metadata_filter_matcher.hpp') if f.d.get('ctor') and f.name == 'MetadataFilterExecutor' and not f.d.get('implicit')][0]
    g = [f for f in p.infile('include/utils/metadata_filter_matcher.hpp') if f.cls == ctor.cls and f.name == 'build_blocked_bitset' and not f.params]
    if not g:
        R.notes.append('executor: no full scan')
        return
    N = 2500
    truth = [True if j % 3 == 0 else None if j % 5 == 0 else False for j in range(N)]
    d = DX(truth, False)
    d.fields, d.onempty = ['f1'], False
    E = Eval(p, d)
    E.MAXSTEP = 400 * N

    def make():
        o = Obj(ctor.cls)
        o.f.update(has_index_fast_path_=False, indexed_ids_=Lst(), required_fields_=Lst())
        E.invoke(ctor, [Obj(MF, logic_op=('enum', 'alaya::LogicOp::AND'), conditions=Lst([Obj(FC, field='f1', op=UNK, tr=[bool(t) for t in truth])]), sub_filters=Lst()), Obj('RocksDBStorage'), N], o)
        return [], o
    for o in E.outcomes(g[0], make):
        if o.kind != 'ret' or not isinstance(o.value, Obj):
            R.notes.append('executor full scan: not analysed (%s)' % (o.value,))
            continue
        bits = next((x.f['bits'] for x in o.value.f.values() if isinstance(x, Obj) and x.cls == 'Bitset'), None)
        if bits is None:
            R.notes.append('executor full scan: result not understood')
            continue
        wrong = [j for j in range(N) if (j in bits) != (truth[j] is not True)]
        R.ob('executor', not wrong, g[0].at(), 'a full scan of %d records decides record %s by another record' % (N, wrong[:1]), key='full-scan')


# ---- search strategies

class DS(Domain):
    """a search over three records: which of them match, whether the filter is trivial, whether it is answered by the index"""

    def __init__(self, match, trivial, indexed):
        self.match, self.trivial, self.indexed = match, trivial, indexed

    def inline(self, g):
        return 'spdlog' not in g.q and not g.file.endswith('log.hpp') and not g.d.get('coro')

    def call(self, ev, f, i, n, q, obj, args):
        if q is None:
            return NotImplemented
        name = q.rsplit('::', 1)[-1]
        cls = q.rsplit('::', 2)[-2] if q.count('::') else ''
        if 'spdlog' in q:
            return None
        if cls.startswith('MetadataFilterExecutor') and n['k'] == 'call':
            if name == 'is_trivially_true':
                return self.trivial
            if name == 'has_index_fast_path':
                return self.indexed
            if name == 'indexed_ids':
                return Lst(self.match)
            if name == 'indexed_count':
                return len(self.match)
            if name == 'data_num':
                return 3
            if name == 'match':
                return args[0] in self.match
            if name == 'eval_offsets':
                if not isinstance(args[0], Lst) or not isinstance(args[1], Lst):
                    raise Stuck('eval_offsets')
                args[1].x[:] = [int(x in self.match) for x in args[0].x]
                return None
            if name == 'build_blocked_bitset' and not args:
                return Obj('Blocked', blocked_=Obj('Mask'), matched_count_=len(self.match))
            raise Stuck(name)
        if cls.startswith('MetadataFilterExecutor'):
            if not n.get('copy') and not n.get('move'):
                return Obj('MetadataFilterExecutor')
            return args[0]
        if cls.startswith('GraphSearchJob'):
            if n['k'] == 'ctor':
                return Obj('GraphSearchJob')
            mask = any(isinstance(a, Obj) and a.cls == 'Mask' for a in args)
            if name == 'make_vector_iterator':
                return Obj('Iter', mask=mask, left=[0, 1, 2])
            ev.log.append(('search', mask))
            return None
        if isinstance(obj, Obj) and obj.cls == 'Iter':
            if name == 'has_next':
                return bool(obj.f['left'])
            if name == 'next_batch':
                k = len(obj.f['left']) if not isinstance(args[0], int) else args[0]
                L = [obj.f['left'].pop(0) for _ in range(min(k, len(obj.f['left'])))]
                args[1].x[:] = L
                args[2].x[:] = [('dist', x) for x in L]
                return None
            if name == 'next':
                return Opt(True, Obj('cand', id_=obj.f['left'].pop(0), distance_=UNK)) if obj.f['left'] else Opt(False)
        if cls == 'SearchBuffer' or isinstance(obj, Obj) and obj.cls == 'Pool':
            if n['k'] == 'ctor':
                return Obj('Pool', ids=[])
            if name == 'insert':
                obj.f['ids'].append((args[0], args[1]))
                return None
            if name == 'size':
                return len(obj.f['ids'])
            if name.startswith('copy_results'):
                ev.log.append(('results', tuple(x for x, _ in obj.f['ids'])))
                return None
            return UNK
        if name == 'get_data_num':
            return 3
        if name == 'get_scalar_storage':
            return Obj('Storage')
        if isinstance(obj, Obj) and obj.cls == 'Storage':
            return Lst([UNK] * 8)
        if name in ('fill', 'fill_n', 'copy', 'copy_n') and q.startswith('std::'):
            return None
        if name == 'count_materialized_results':
            return 0 if ev.truth(('underfilled',)) else (args[1] if len(args) > 1 and isinstance(args[1], int) else 3)
        if q.startswith('alaya::') and name.startswith(('get_', 'prefetch')):
            return (name,) + tuple(a for a in args if isterm(a))
        if n.get('op') == '()' and isterm(obj):
            return ('dist',) + tuple(args[:1])
        return NotImplemented

    def truth(self, ev, t):
        return NotImplemented


def strategies(R, p):
    J = 'include/executor/jobs/graph_hybrid_search_job.hpp'
    tops = [f for f in p.infile(J) if not f.d.get('lambda') and not f.d.get('coro') and not f.d.get('ctor') and any('MetadataFilter' in f.vars[str(d)].get('t', '') and 'Executor' not in f.vars[str(d)].get('t', '') for d in f.params)
            and not f.d.get('implicit')]
    seen = set()
    n = 0
    for f in tops:
        if f.name.startswith('make_'):
            continue
        for match in ((0, 2), (), (1,), (0, 1, 2)):
            for trivial in (False, True):
                if trivial and len(match) < 3:
                    continue
                for indexed in ((False, True) if not trivial else (False,)):
                    for hint in ('kAuto', 'kIterativeFilter', 'kDisableIterative'):
                        for topk in (1, 3):
                            d = DS(list(match), trivial, indexed)
                            E = Eval(p, d)

                            def make():
                                a = []
                                for x in f.params:
                                    v = f.vars[str(x)]
                                    t, nm = v.get('t', ''), v['n']
                                    if 'SearchInfo' in t:
                                        a.append(Obj('SearchInfo', topk_=topk, ef_=3, filter_exec_hint_=('enum', 'alaya::FilterExecHint::' + hint)))
                                    elif nm == 'topk':
                                        a.append(topk)
                                    elif nm == 'ef':
                                        a.append(3)
                                    elif 'MetadataFilter' in t:
                                        a.append(Obj(MF))
                                    elif t.replace('const ', '').startswith('std::string') or 'basic_string' in t:
                                        a.append(Lst([UNK] * 8))
                                    else:
                                        a.append(('v', nm))
                                return a, Obj(f.cls or '', space_=('space',), build_space_=('space',), graph_=('graph',))
                            outs = E.outcomes(f, make)
                            seen |= E.visited
                            for o in outs:
                                key = '%s:%s%s' % (f.name, 'indexed' if indexed else 'scan', '' if hint == 'kAuto' else ':' + hint)
                                if o.kind != 'ret':
                                    if o.kind == 'stuck':
                                        note = 'strategy %s: not analysed (%s)' % (key, o.value)
                                        if note not in R.notes:
                                            R.notes.append(note)
                                    continue
                                n += 1
                                bad = ''
                                last = None
                                for ev in o.log:
                                    if ev[0] == 'search':
                                        last = ev
                                        if not ev[1] and len(match) < 3:
                                            bad = 'searches without the filter although it does not match every record'
                                    elif ev[0] == 'results':
                                        last = ev
                                        if any(not isinstance(x, int) for x in ev[1]):
                                            continue
                                        if not set(ev[1]) <= set(match):
                                            bad = 'a record that does not satisfy the filter becomes a result'
                                        elif not trivial and len(set(ev[1])) < min(topk, len(match)):
                                            bad = 'a matching record is left out of the candidates'
                                        elif len(set(ev[1])) < len(ev[1]):
                                            bad = 'a record becomes a result twice'
                                if last is None and match:
                                    bad = 'neither searches nor evaluates'
                                R.ob('strategy', not bad, f.at(), '%s (%s, hint %s, %d of 3 records match, topk %d): %s' % (f.name, 'indexed' if indexed else 'not indexed', hint, len(match), topk, bad), key=key)
    R.saw([p.get(x) for x in seen if p.get(x)])


class DI(Domain):
    """the mask is asked about a record: both answers are followed"""

    def __init__(self, null):
        self.null = null

    def inline(self, g):
        return 'spdlog' not in g.q and not g.file.endswith('log.hpp') and 'vector_iterator' in g.file

    def call(self, ev, f, i, n, q, obj, args):
        if q is None:
            return NotImplemented
        name = q.rsplit('::', 1)[-1]
        if isinstance(obj, Obj) and obj.cls == 'Mask':
            if name in ('get', 'test'):
                return ('blocked', args[0])
            return UNK
        if 'spdlog' in q:
            return None
        if n['k'] == 'ctor' and 'VectorCandidate' in n.get('cls', ''):
            return args[0] if n.get('copy') or n.get('move') else Obj('cand', id_=args[0] if args else UNK)
        if isterm(obj) and obj and obj[0] == 'mem' and name in ('pop', 'next', 'pop_front') or isinstance(obj, Obj) and obj.cls == 'Pool' and name == 'pop':
            ev.npop = getattr(ev, 'npop', 0)
            return ('node', len([x for x in ev.log if x[0] == 'pop'])) if ev.log.append(('pop',)) is None else UNK
        return NotImplemented

    def truth(self, ev, t):
        s = str(t)
        if "'has_next'" in s or 'has_next' in s:
            k = sum(1 for x in ev.log if x[0] == 'hn')
            ev.log.append(('hn',))
            return k < 2
        return NotImplemented


class EvI(Eval):
    """loops over unknown bounds run at most once"""

    def loop(self, fr, n):
        if n.get('lk') == 'range':
            return Eval.loop(self, fr, n)
        if n.get('init', -1) is not None and n.get('init', -1) >= 0:
            self.ex(fr, n['init'])
        for k in range(1):
            if n.get('c', -1) is not None and n.get('c', -1) >= 0 and n.get('lk') != 'do':
                if not self.truth(self.ev(fr, n['c'])):
                    return None
            r = self.ex(fr, n['body'])
            if r:
                if r[0] == 'break':
                    return None
                if r[0] == 'ret':
                    return r
            if n.get('inc', -1) is not None and n.get('inc', -1) >= 0:
                self.ev(fr, n['inc'])
        return None

    def dom_iter(self, fr, c):
        return Lst([('elem', c)])


def iterators(R, p):
    """every candidate an iterator hands out was found unblocked when a mask is set"""
    n = 0
    for f in p.infile('include/executor/vector_iterator.hpp'):
        if f.d.get('ctor') or f.d.get('lambda') or f.d.get('implicit'):
            if f.d.get('ctor') and not f.d.get('implicit'):
                masks = [d for d in f.params if 'DynamicBitset' in f.vars[str(d)].get('t', '')]
                for d in masks:
                    used = [x for x in f.all() if f.nodes[x]['k'] == 'ref' and f.nodes[x].get('d') == d]
                    R.ob('mask', used, f.at(), 'the mask of blocked records is dropped', key=f.name + ':mask')
            continue
        flds = [x for c in p.classes.values() for x in c.get('fields', []) if c['q'] == f.cls] if isinstance(p.classes, dict) else []
        # a function that produces a candidate
        makes = [c for c in f.calls() if 'VectorCandidate' in (f.nodes[c].get('cls') or '') and not f.nodes[c].get('copy') and not f.nodes[c].get('move')] + \
                [x for x in f.all() if f.nodes[x]['k'] == 'init' and 'VectorCandidate' in f.nodes[x].get('t', '')]
        if not makes:
            continue
        for null in (False, True):
            E = EvI(p, DI(null), maxpaths=3000)
            E.MAXSTEP = 1500

            def make():
                o = Obj(f.cls or '')
                for g in p.methods(f.cls) if f.cls else []:
                    pass
                o.f['blocked_mask_'] = None if null else Obj('Mask')
                for mm in mask_members(p, f):
                    o.f[mm] = None if null else Obj('Mask')
                o.f['pending_candidate_'] = Opt(False)
                return [('v', f.vars[str(d)]['n']) for d in f.params], o

            made = []
            orig = E.ev

            def ev(fr, i):
                nn = fr.f.nodes[i]
                v = orig(fr, i)
                if nn['k'] == 'init' and 'VectorCandidate' in nn.get('t', ''):
                    ident_ = None
                    if isinstance(v, Obj):
                        ident_ = next(iter(v.f.values()), None)
                    elif isinstance(v, Lst) and v.x:
                        ident_ = v.x[0]
                    E.log.append(('made', ident_, list(E.facts), i))
                return v
            E.ev = ev
            for o in E.outcomes(f, make):
                for e in o.log:
                    if e[0] != 'made':
                        continue
                    n += 1
                    free = null or any(t == ('blocked', e[1]) and v is False for t, v in e[2])
                    R.ob('mask', free, f.at(e[3]), 'a candidate is handed out without asking the mask about it' if not null else '', key='%s:%s:%d' % (f.cls, f.name, sorted(makes).index(e[3]) if e[3] in makes else 0))
                if o.kind == 'stuck' and ('mask %s' % f.q) not in str(R.notes):
                    R.notes.append('mask %s: partly analysed (%s)' % (f.q, o.value))
        R.saw([p.get(x) for x in E.visited if p.get(x)])


def mask_members(p, f):
    out = set()
    for x in f.all():
        n = f.nodes[x]
        if n['k'] == 'mem' and 'DynamicBitset *' in n.get('t', ''):
            out.add(n['n'])
    return out


def forwards(R, p):
    """a search given a mask hands it on"""
    for f in p.infile('include/executor/jobs/graph_search_job.hpp'):
        ms = [d for d in f.params if 'DynamicBitset' in f.vars[str(d)].get('t', '')]
        if not ms or f.d.get('lambda'):
            continue
        M = Obj('Mask')
        logs = []

        class DF(Domain):
            def inline(self, g):
                return False

            def call(self, ev, fr, i, n, q, obj, args):
                if q is None:
                    return NotImplemented
                name = q.rsplit('::', 1)[-1]
                passed = any(a is M for a in args)
                if name in ('make_unique', 'make_shared') or 'search_solo' in name or name.startswith('make_vector_iterator') or n['k'] == 'ctor' and 'VectorIterator' in n.get('cls', ''):
                    ev.log.append(('to', name, passed, i))
                    return Obj('Iter')
                if isinstance(obj, Obj) and obj.cls == 'Iter':
                    return Opt(True, Obj('cand', id_=('cid',), distance_=UNK)) if name == 'next' else NotImplemented
                return NotImplemented
        E = EvI(p, DF())
        outs = E.outcomes(f, lambda: ([M if d in ms else Obj('SearchInfo', topk_=3, ef_=4) if 'SearchInfo' in f.vars[str(d)].get('t', '') else ('v', f.vars[str(d)]['n']) for d in f.params], Obj(f.cls or '')))
        R.saw([f])
        for o in outs:
            if o.kind != 'ret':
                continue
            to = [e for e in o.log if e[0] == 'to']
            R.ob('mask', to and all(e[2] for e in to), f.at(), 'a search that is given blocked records runs without them', key=f.q + ':forward')


def scans(R, p):
    """a filtered scan keeps a record exactly when the filter is true for its metadata"""
    for f in p.infile('include/storage/rocksdb_storage.hpp'):
        fp = [d for d in f.params if 'function<bool' in f.vars[str(d)].get('t', '')]
        if not fp or f.d.get('lambda'):
            continue
        env = Env(f)
        for x in f.calls():
            n = f.nodes[x]
            if n['k'] == 'call' and bname(n) in ('push_back', 'emplace_back') :
                g = guards(env, x)
                fs = [(t, v) for t, v in g if isinstance(t, tuple) and 'P:' + f.vars[str(fp[0])]['n'] in str(t) ]
                R.ob('scan', any(v is True for t, v in fs), f.at(x), 'a record is kept without the filter having accepted it', key=f.name + ':keep')


class DFn(Domain):
    def __init__(self, t):
        self.t = t

    def call(self, ev, f, i, n, q, obj, args):
        if q == MF + '::evaluate':
            if isinstance(obj, Obj) and obj.cls == MF and args and args[0] == ('md',):
                return self.t
            raise Stuck('evaluate')
        return NotImplemented

    def inline(self, g):
        return True


def filterfns(R, progs):
    """the predicate a space hands to a filtered scan is the filter's own evaluation"""
    done = set()
    for p in progs:
        for f in p.fns.values():
            if not f.rel().startswith('include/space/') or f.d.get('lambda'):
                continue
            if not any('MetadataFilter' in f.vars[str(d)].get('t', '') for d in f.params):
                continue
            for g in p.lambdas_of(f):
                if g.id in done or 'ScalarData' not in str([g.vars[str(d)].get('t') for d in g.params]):
                    continue
                done.add(g.id)
                for t in (True, False):
                    E = Eval(p, DFn(t))

                    def make():
                        fr = Frame(f, {d: Obj(MF) if 'MetadataFilter' in f.vars[str(d)].get('t', '') else ('v', f.vars[str(d)]['n']) for d in f.params}, Obj(f.cls or ''), None)
                        E.up = fr
                        return [Obj('ScalarData', metadata=('md',))], None
                    orig = E.invoke
                    E.invoke = lambda gg, a, this=None, outer=None: orig(gg, a, this, outer if outer is not None or gg is not g else E.up)
                    outs = E.outcomes(g, make)
                    R.saw([f, g])
                    for o in outs:
                        if o.kind == 'stuck':
                            R.notes.append('scan %s: not analysed (%s)' % (f.q, o.value))
                            continue
                        R.ob('scan', o.kind == 'ret' and o.value is t, g.at(), 'a filtered scan keeps records for which the filter is %s' % ('false' if not t else 'not asked'), key=f.q + ':pred')


def run(R):
    R.rule('strategy', 'every search mode with a non-trivial filter returns only matching records, and finds the matching ones when it evaluates them exactly', 30)
    R.rule('mask', 'a record handed out by a masked search was found not to be blocked, and the mask reaches the iterator', 4)
    R.rule('scan', 'a filtered scan keeps a record only if the filter accepted it', 1)
    R.rule('operators', 'every operator evaluates to its meaning for every pair of value types and every ordering of the values; a record without the field does not satisfy it', 60)
    R.rule('nan', 'a NaN equals nothing and is ordered against nothing, decided without a floating-point comparison', 6)
    R.rule('combination', 'AND, OR and NOT combine the truth of the direct and nested conditions', 20)
    R.rule('lookup', 'an index lookup answers an operator with exactly the range or values it means, or declines', 30)
    R.rule('executor', 'indexed and unindexed evaluation select the records for which the filter is true, and count them', 30)
    p = R.program('core')
    conditions(R, p)
    combos(R, p)
    lookups(R, p)
    executor(R, p)
    batches(R, p)
    q = R.program('space')
    strategies(R, q)
    iterators(R, q)
    forwards(R, q)
    scans(R, p)
    filterfns(R, [p, q])
