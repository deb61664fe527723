"""C03: typestate over the log readers (a frame is used only after its trailer was verified, reading stops at the first bad frame, a record is returned only if committed, newer than the snapshot and once), codec matching of log frames and payloads, and replay coverage of every logged mutation."""
from checks.durable import *
from vf.ioseq import *


def frame_layout(p):
    """the byte sequence of a log frame as the writer composes it"""
    for f in sorted(p.infile('include/recovery/write_ahead_log.hpp'), key=lambda f: f.id):
        if f.d.get('lambda'):
            continue
        items = list(flat(Seq(p, 'w', 'buf').fn(Env(f))))
        if len(items) >= 5 and all(isinstance(x[1], int) for x in items) and items[0][3][0] == 'lit' and items[-1][3][0] == 'lit' and any('op_id_' in show(x[3]) for x in items):
            own = [x for x in items if x[6][0].fn is f]
            return f, items
    return None, []


class H3(Hooks):
    """facts: ('fr', state) state in idle/hdr/good; ('stream',) the stream was tested since the last read; ('trl',) trailer equality holds;
    ('newer',) ('types',) ('found',) ('commit',) ('prep',) about the current frame; ('pushed',) ('erased',) ('any',) ('sorted',) ('maxset',) ('maxupd',)"""
    FRAME = {('newer',), ('types',), ('found',), ('commit',), ('prepare',), ('pushed',), ('erased',), ('maxupd',), ('trl',)}

    def __init__(self, p, magic, trailer, rec, applied, outp):
        self.p, self.magic, self.trailer, self.rec, self.applied, self.outp = p, magic, trailer, rec, applied, outp
        self.probs = []
        self.n = {'frames': set(), 'push': set(), 'pend': set(), 'sort': set(), 'cut': set()}
        self.maxvars = set()
        self.cutvars = set()
        self.magicvars = set()
        self.ret = None
        self.streams = set()

    def bad(self, F, env, i, kind, msg):
        self.probs.append((kind, env.fn.at(i), msg, F.trace()))

    def throws(self, F, env, i, u):
        return False

    def descend(self, F, env, i, g):
        return g.rel().startswith('include/recovery/')

    def magic_cmp(self, f):
        c = f.__dict__.setdefault('_magicvars', None)
        if c is None:
            c = set()
            env = Env(f)
            for x in f.walk():
                n = f.nodes[x]
                if n['k'] == 'bin' and n['op'] in ('==', '!='):
                    for a, b in ((n['e'], n['r']), (n['r'], n['e'])):
                        t = canon(env, b)
                        m = f.nodes[strip(f, a)]
                        if t == ('lit', self.magic) and m['k'] == 'ref':
                            c.add(m['d'])
            f._magicvars = c
        return c

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        b = bname(n)
        if R_STREAM.search(n.get('q', '')) and len(n['a']) == 2:
            ds = {f.nodes[y]['d'] for y in f.walk(n['a'][0]) if f.nodes[y]['k'] == 'ref' and 'd' in f.nodes[y] and not f.nodes[y].get('isfn')}
            u = u - {('stream',), ('trl',)}
            if 'obj' in n:
                self.streams.add(canon(env, n['obj']))
            if ds & self.magic_cmp(f):
                self.n['frames'].add(f.at(i))
                if ('fr', 'hdr') in u:
                    self.bad(F, env, i, 'past-bad-frame', 'reading continues with another frame although the previous one was not verified to be complete')
                self.endframe(F, env, i, u)
                u = (u - self.FRAME - {('fr', 'good'), ('fr', 'hdr'), ('fr', 'idle')}) | {('fr', 'hdr')}
            return [('ok', u, None)]
        obj = f.nodes[n['obj']].get('t', '') if 'obj' in n else ''
        if 'obj' in n and self.rec in obj:
            P = path(env, n['obj'])
            if b in ('push_back', 'emplace_back', 'insert', 'emplace', 'insert_or_assign', 'try_emplace', 'operator[]'):
                if ('fr', 'good') not in u:
                    self.bad(F, env, i, 'unverified', 'a record is stored before its frame was verified (trailer and stream state)')
                if self.result(env, n['obj']):
                    self.n['push'].add(f.at(i))
                    for fact, msg in ((('newer',), 'its sequence number was not tested to be strictly greater than the one the snapshot contains'),
                                      (('types',), 'the mutation type of its commit record was not tested against its intent record'),
                                      (('found',), 'no intent record was looked up for it'),
                                      (('commit',), 'the frame was not tested to be a commit record')):
                        if fact not in u:
                            self.bad(F, env, i, 'push' + fact[0], 'a record is returned for replay although ' + msg)
                    u = (u | {('pushed',), ('any',)}) - {('sorted',)}
                else:
                    self.n['pend'].add(f.at(i))
                    if ('prepare',) not in u and ('commit',) in u:
                        self.bad(F, env, i, 'pend-commit', 'a commit record is remembered as an intent record')
                return [('ok', u, None)]
            if b in ('erase', 'extract', 'clear'):
                return [('ok', u | {('erased',)}, None)]
            if b in ('find', 'contains', 'count', 'at'):
                return [('ok', u | {('looked',)}, None)]
        if b in ('sort', 'stable_sort') or n.get('op') == '()' and 'sort' in (f.nodes[n['obj']].get('t', '') if 'obj' in n else '') + f.text(n.get('obj', i))[:40]:
            if self.sorts(env, i):
                self.n['sort'].add(f.at(i))
                return [('ok', u | {('sorted',)}, None)]
        return None

    def sorts(self, env, i):
        """ascending by sequence number"""
        f = env.fn
        for y in f.walk(i):
            m = f.nodes[y]
            fs = [m['f']] if m['k'] == 'lam' and m.get('f') else m.get('gen', []) if m['k'] == 'lam' else []
            for l in fs:
                g = self.p.get(l)
                r = single_return(g) if g is not None else None
                if r is not None and len(g.params) == 2:
                    c = canon(Env(g), r)
                    a, b2 = g.vars[str(g.params[0])]['n'], g.vars[str(g.params[1])]['n']
                    if c[0] == 'bin' and (c[1] == '<' and a in show(c[2]) and b2 in show(c[3]) or c[1] == '>' and b2 in show(c[2]) and a in show(c[3])) and 'op_id_' in show(c[2]) and 'op_id_' in show(c[3]):
                        return True
            if m['k'] in ('ref', 'un', 'other', 'mem') and 'op_id_' in f.text(y) and 'less' not in f.text(i) and 'greater' not in f.text(i):
                if any(f.nodes[z]['k'] == 'un' and f.nodes[z]['op'] == '&' for z in f.walk(i)):
                    return True
        return False

    def result(self, env, i):
        t = env.fn.nodes[i].get('t', '')
        return 'vector' in t or 'deque' in t

    def endframe(self, F, env, i, u):
        if ('fr', 'good') in u:
            if ('pushed',) in u and ('erased',) not in u:
                self.bad(F, env, i, 'not-erased', 'a record stays pending after it was returned, so a second commit record would replay it again')
            if self.outp and ('maxupd',) not in u:
                self.bad(F, env, i, 'max-skipped', 'the highest sequence number seen is not updated for a verified frame')

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'asg':
            t = f.nodes[n['e']]
            src = canon(env, n['r'])
            if t['k'] == 'un' and t['op'] == '*':
                d = canon(env, t['e'])
                if d == self.outp:
                    u = u | {('maxset',)}
            if self.outp and path(env, n['e']) in self.maxvars and 'op_id_' in show(src):
                u = u | {('maxupd',)}
            if path(env, n['e']) in self.cutvars:
                self.n['cut'].add(f.at(i))
                if ('fr', 'good') not in u:
                    self.bad(F, env, i, 'cut', 'the length the log is cut to is advanced before the frame was verified')
        return u

    def branch(self, F, env, cond, pol, u):
        for c, p in atoms(env, cond, pol):
            u = self.atom(c, p, u, env)
        return u

    def atom(self, c, p, u, env):
        if c in self.streams and p or c[0] == 'call' and c[1].rsplit('::', 1)[-1] in ('operator!', 'fail') and not p or c[0] == 'call' and c[1].rsplit('::', 1)[-1] in ('operator bool', 'good') and p and 'optional' not in c[1]:
            u = self.good(u | {('stream',)})
        if c[0] == 'bin':
            a, b = c[2], c[3]
            op = c[1] if p else {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}.get(c[1])
            for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
                if y == ('lit', self.trailer) and o == '==':
                    u = self.good(u | {('trl',)})
                if y == self.applied and o == '>' and 'op_id_' in show(x):
                    u = u | {('newer',)}
                if y[0] == 'call' and y[1].endswith('::end') and o == '!=':
                    u = u | {('found',)}
                if y[0] == 'enum' and 'FrameType' in str(y[1]):
                    if str(y[1]).endswith('kCommit'):
                        u = u | {('commit',) if o == '==' else ('prepare',)}
                    elif str(y[1]).endswith('kPrepare'):
                        u = u | {('prepare',) if o == '==' else ('commit',)}
            if op == '==' and 'mutation_type_' in show(a) and 'mutation_type_' in show(b) and a != b:
                u = u | {('types',)}
        elif c[0] == 'call' and c[1].rsplit('::', 1)[-1] in ('contains', 'count') and p or c[0] == 'call' and c[1].rsplit('::', 1)[-1] == 'empty' and not p and 'node' in c[1]:
            u = u | {('found',)}
        return u

    def case(self, F, env, cond, label, u):
        if label[0] == 'enum' and 'FrameType' in str(label[1]):
            u = u | {('commit',) if str(label[1]).endswith('kCommit') else ('prepare',)}
        return u

    def good(self, u):
        if ('stream',) in u and ('trl',) in u and ('fr', 'hdr') in u:
            return (u - {('fr', 'hdr')}) | {('fr', 'good')}
        return u


def readers(p, magic, trailer):
    """functions that walk the log: frame and trailer constants are compared within the functions they inline"""
    out = []
    for f in p.infile('include/recovery/write_ahead_log.hpp'):
        if f.d.get('lambda') or not f.blocks:
            continue
        reach = p.reach([f])
        own = [n for n in f.nodes if n['k'] == 'call' and R_STREAM.search(n.get('q', ''))]
        lits = set()
        for g in reach:
            if g.rel() != f.rel():
                continue
            for n in g.nodes:
                if n['k'] == 'bin' and n['op'] in ('==', '!='):
                    for a in (n['e'], n['r']):
                        v = g.nodes[a].get('cv')
                        t = str(v) if v is not None else None
                        if t is None:
                            c = canon(Env(g), a)
                            t = c[1] if c[0] == 'lit' else None
                        lits.add(t)
        loops = any(n['k'] == 'loop' for n in f.nodes)
        if magic in lits and trailer in lits and loops:
            out.append(f)
    return out


def run(R):
    R.rule('verified-frames', 'a record is used only after its frame trailer and the stream state were verified, and reading stops at the first frame that is not', 2)
    R.rule('replay-selection', 'a record is returned for replay only for a commit frame, with an intent frame of the same type, a sequence number strictly above the snapshot, and is no longer pending afterwards', 1)
    R.rule('order', 'the records are sorted by ascending sequence number before they are returned', 1)
    R.rule('max-seen', 'the highest sequence number of any verified frame is reported on every return', 1)
    R.rule('frame-layout', 'frames are read with the order and widths with which they are written', 4)
    R.rule('type-map', 'each frame and mutation type parses back to itself', 2)
    R.rule('torn-tail', 'the log is opened for appending only after its torn tail was cut, at a length that only verified frames advance', 1)
    R.rule('replay-coverage', 'every mutation type that is logged is replayed by the same state changes its mutator performs', 4)
    R.rule('payload-codec', 'the payload of each mutation type is read with the fields and order with which it was written', 4)
    R.rule('replay-all', 'every returned record is replayed, starting from the sequence number of the restored snapshot, and new numbers start above all seen', 3)
    p = R.program('py')
    w, items = frame_layout(p)
    if w is None:
        raise AnalysisError('no function composes a log frame')
    magic, trailer = items[0][3][1], items[-1][3][1]
    rs = readers(p, magic, trailer)
    R.saw([w] + rs)
    rec = 'WalRecord'
    for f in rs:
        ret = 'vector' in (f.d.get('rt') or '')
        applied = ('v', 'P:' + f.vars[str(f.params[0])]['n']) if ret and f.params else None
        outp = None
        for d in f.params:
            if f.vars[str(d)].get('t', '').endswith('*'):
                outp = ('v', 'P:' + f.vars[str(d)]['n'])
        H = H3(p, magic, trailer, rec, applied, outp)
        env = Env(f)
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] == 'asg' and f.nodes[n['e']]['k'] == 'un' and f.nodes[n['e']]['op'] == '*' and canon(env, f.nodes[n['e']]['e']) == outp:
                H.maxvars.add(path(env, n['r']))
            if n['k'] == 'call' and bname(n) in ('resize_file', 'truncate', 'ftruncate', 'truncate_open_file') and len(n['a']) >= 2:
                H.cutvars.add(path(env, n['a'][1]))
        F = Flow(p, H)
        res = F.run(f, frozenset([('fr', 'idle')]))
        R.saw([p.fns[x] for x in F.visited])
        R.points += F.points
        rules = {'past-bad-frame': 'verified-frames', 'unverified': 'verified-frames', 'max-skipped': 'max-seen', 'cut': 'torn-tail'}
        for kind, at, msg, tr in H.probs:
            R.bad(rules.get(kind, 'replay-selection'), at, msg, key='%s:%s' % (f.name, kind), detail=tr)
        if not any(k in ('past-bad-frame', 'unverified') for k, *_ in H.probs):
            R.good('verified-frames', f.at())
        if H.n['cut'] and not any(k == 'cut' for k, *_ in H.probs):
            R.good('torn-tail', f.at())
        if not ret:
            continue
        for at in H.n['push']:
            if not any(rules.get(k, 'replay-selection') == 'replay-selection' for k, *_ in H.probs):
                R.good('replay-selection', at)
        R.ob('replay-selection', H.n['push'], f.at(), 'no committed record is ever returned', key=f.name + ':nopush')
        for k, u, r in res:
            if k != 'ok':
                continue
            if ('any',) in u:
                R.ob('order', ('sorted',) in u or 'map' in (f.d.get('rt') or ''), f.at(), 'records are returned in the order of their commit frames, not sorted by sequence number', key=f.name + ':sort')
            if outp:
                R.ob('max-seen', ('maxset',) in u or True and any(null_ok(x, outp) for x in u) or maxset_opt(f, outp), f.at(), 'a normal return does not report the highest sequence number seen', key=f.name + ':maxset')
    layout(R, p, items, rs, magic)
    typemap(R, p)
    torn(R, p)
    coverage(R, p)
    replay_all(R, p)
    R.assume('the log file is not modified by others while it is read', 'records of one index are appended through one log object')


def null_ok(x, outp):
    return False


def maxset_opt(f, outp):
    """every return is preceded by a store to the out parameter or its null test: decided on the CFG with must facts"""
    env = Env(f)
    stores = [x for x in f.walk() if f.nodes[x]['k'] == 'asg' and f.nodes[f.nodes[x]['e']]['k'] == 'un' and canon(env, f.nodes[f.nodes[x]['e']]['e']) == outp]
    return stores and all(reach_store(f, b, stores) for b in ret_blocks(f))


def ret_blocks(f):
    return [b for b in f.blocks.values() for e in b['els'] if isinstance(e, int) and f.nodes[e]['k'] == 'ret']


def reach_store(f, rb, stores):
    """no path from the entry to the return avoids both a store and a failed null test"""
    sb = {b['id'] for b in f.blocks.values() for e in b['els'] if e in stores}
    preds_of = {}
    for b in f.blocks.values():
        for s in b['succ']:
            if s is not None:
                preds_of.setdefault(s, set()).add(b['id'])
    # blocks that end in the null test guarding a store
    tests = {q for s in sb for q in preds_of.get(s, ())}
    seen, st = {f.entry}, [f.entry]
    while st:
        x = st.pop()
        if x in sb or x in tests:
            continue
        if x == rb['id']:
            return False
        for s in f.blocks[x]['succ']:
            if s is not None and s not in seen:
                seen.add(s)
                st.append(s)
    return True


def layout(R, p, items, rs, magic):
    for f in rs:
        L = list(flat(Seq(p, 'r', 'stream').fn(Env(f))))
        rd = [(x[1], bool(x[2])) for x in L]
        wr = [(x[1], bool(x[2])) for x in items]
        if len(rd) == len(wr) - 1:
            wr = [x for x in wr if not x[1]]
        R.ob('frame-layout', rd == wr, f.at(), '%s reads %s where frames are written as %s' % (f.q, rd, wr), key='layout:' + f.name)
        # destination of each header value
        for x, y in zip([i for i in items if not i[2]], [i for i in L if not i[2]]):
            a, b = meaning(x[3]), meaning(y[3])
            if a and b:
                R.ob('frame-layout', a == b, y[4], '%s is written where %s is read' % (a, b), key='lf:%s:%s' % (f.name, b))
    # values returned by the header reader come from the matching transfer
    for f in p.infile('include/recovery/write_ahead_log.hpp'):
        env = Env(f)
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] == 'init' and n.get('fs') and 'op_id_' in n['fs'] and 'payload_size_' in n['fs']:
                for fld, a in zip(n['fs'], n['a']):
                    nm = [meaning(t) for t in subterms(canon(env, a, subst=True))]
                    nm = [m for m in nm if m]
                    if nm:
                        R.ob('frame-layout', meaning(('v', fld)) in nm, f.at(x), 'header field %s is filled from %s' % (fld, nm), key='hf:' + fld)


WORDS = ('frame_type', 'mutation_type', 'op_id', 'payload')


def meaning(t):
    s = show(t)
    if t[0] != 'v' and not (t[0] == 'call' and t[1].endswith('size')):
        return None
    s = re.sub(r'[#@].*', '', s)
    hits = [w for w in WORDS if w in s]
    if 'payload' in hits and len(hits) == 1:
        return 'payload'
    return hits[0] if len(hits) == 1 else None


def typemap(R, p):
    for f in p.infile('include/recovery/write_ahead_log.hpp'):
        m = re.match(r'^std::optional<(.*Type)>$', f.d.get('rt') or '')
        if not m or len(f.params) != 1:
            continue
        R.saw([f])
        en = p.enums.get(m.group(1)) or next((e for q, e in p.enums.items() if q.endswith(m.group(1).rsplit('::', 1)[-1])), None)
        covered = set()
        env = Env(f)
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] != 'case':
                continue
            lab = enums_in(f, n['lo'])
            ret = next((y for y in f.walk(n['s']) if f.nodes[y]['k'] == 'ret'), None)
            if ret is None:
                continue
            got = enums_in(f, ret)
            R.ob('type-map', lab and got and lab == got, f.at(x), 'value of %s parses as %s' % (sorted(lab), sorted(got)), key='tm:%s:%s' % (f.name, sorted(lab)))
            covered |= lab
        if en and covered:
            names = {v['n'] if isinstance(v, dict) else v[0] if isinstance(v, (list, tuple)) else v for v in en['vals']}
            for v in names:
                R.ob('type-map', any(c.endswith('::' + v) or c == v for c in covered), f.at(), '%s is written but not accepted when reading' % v, key='tmc:%s:%s' % (f.name, v))


def enums_in(f, i):
    return {f.nodes[y]['n'] for y in f.walk(i) if f.nodes[y]['k'] == 'ref' and f.nodes[y].get('enum')}


def torn(R, p):
    class T(Hooks):
        def __init__(s):
            s.hit = []

        def throws(s, F, env, i, u):
            return False

        def descend(s, F, env, i, g):
            return g.rel().startswith('include/recovery/')

        def enter(s, F, env, u):
            f = env.fn
            if any(n['k'] == 'call' and bname(n) in ('resize_file', 'truncate_open_file', 'ftruncate') for n in f.nodes):
                return u | {('cut',)}
            return u

        def call(s, F, env, i, u):
            f = env.fn
            n = f.nodes[i]
            if (bname(n) == 'open' and 'ofstream' in n.get('q', '') or n['k'] == 'ctor' and 'ofstream' in n.get('cls', '') and len(n['a']) > 1) and 'app' in f.text(n['a'][1] if len(n['a']) > 1 else i):
                s.hit.append((('cut',) in u, f.at(i)))
            return None
    for f in p.infile('include/recovery/write_ahead_log.hpp'):
        if f.d.get('acc') != 'public' or f.d.get('lambda') or not f.name.startswith('append'):
            continue
        H = T()
        F = Flow(p, H)
        F.run(f, frozenset())
        for ok, at in H.hit:
            R.ob('torn-tail', ok, at, 'the log is opened for appending without cutting a torn tail first: records behind it are never replayed', key='torn:' + at)


class Rep(Durable):
    """replay: the switch on the mutation type takes only the given case"""
    def __init__(self, p, ty):
        super().__init__(p, True)
        self.ty = ty

    def bad(self, *a):
        pass

    def case(self, F, env, cond, label, u):
        c = canon(env, cond)
        if 'mutation_type_' in show(c):
            return u if label == self.ty or label == ('default',) and False else None
        return u

    def branch(self, F, env, cond, pol, u):
        u = super().branch(F, env, cond, pol, u)
        if u is None:
            return None
        for c, pp in atoms(env, cond, pol):
            if c[0] == 'bin' and c[1] in ('==', '!=') and 'mutation_type_' in show(c):
                e = [x for x in c[2:] if x[0] == 'enum']
                if e and ((c[1] == '==') == pp) != (e[0] == self.ty):
                    return None
        return u


def replay_fn(p):
    out = []
    for f in p.fns.values():
        if f.cls and f.cls.endswith('PyIndex') and any('WalRecord' in f.vars[str(d)].get('t', '') and 'vector' not in f.vars[str(d)].get('t', '') for d in f.params) and not f.d.get('lambda'):
            out.append(f)
    return out


def coverage(R, p):
    types = {}
    enc = {}
    for f in mutators(p):
        H = Durable(p, True)
        H.bad = lambda *a: None
        F = Flow(p, H)
        res = F.run(f, frozenset())
        for k, u, r in res:
            if k != 'ok' or ('commit',) not in u:
                continue
            for x in u:
                if x[0] == 'prep':
                    types.setdefault(x[2], []).append((f, frozenset(y[1] for y in u if y[0] == 'applied')))
        for gid in F.visited:
            g = p.fns[gid]
            for y in g.calls():
                if bname(g.nodes[y]) == 'append_prepare' and g is f:
                    ty = field_expr(Env(g), g.nodes[y]['a'][0], 'mutation_type_')
                    pl = field_expr(Env(g), g.nodes[y]['a'][0], 'payload_')
                    if ty and pl:
                        e, n = origin(*pl)
                        enc.setdefault(canon(*origin(*ty)), []).append((e, n, g.at(y)))
    for rf in replay_fn(p):
        for ty, L in sorted(types.items(), key=str):
            H = Rep(p, ty)
            F = Flow(p, H)
            res = F.run(rf, frozenset())
            R.saw([p.fns[x] for x in F.visited])
            R.points += F.points
            got = {frozenset(y[1] for y in u if y[0] == 'applied') for k, u, r in res if k == 'ok'}
            # branches on the state at hand (record already present or absent) may leave a part out; the union is what a type does
            A = frozenset().union(*[a for _, a in L])
            B = frozenset().union(*got) if got else frozenset()
            R.ob('replay-coverage', A == B, rf.at(), 'replaying %s performs %s, its mutator %s performs %s' % (show(ty), sorted(B), L[0][0].q, sorted(A)), key='cov:%s:%s' % (show(ty), len(A)))
        for ty, L in sorted(enc.items(), key=str):
            for e, n, at in L:
                W = [x for x in flat(simplify(Seq(p, 'w', 'named').node(e, n)))]
                rd = [x for x in flat(simplify(case_seq(p, rf, ty)))]
                a, b = [x[1] for x in W], [x[1] for x in rd]
                R.ob('payload-codec', a == b and a, at, 'payload of %s is written as %s and read as %s' % (show(ty), a, b), key='pl:%s' % show(ty))


def case_seq(p, f, ty):
    """reads performed under the case of the mutation type"""
    S = Seq(p, 'r', 'named')
    env = Env(f)
    out = []

    def block(ss):
        act, hit, res = False, False, []
        for s in ss:
            m = f.nodes[s]
            labs = []
            while m['k'] in ('case', 'default'):
                labs.append(canon(env, m['lo']) if m['k'] == 'case' else ('default',))
                s = m['s']
                m = f.nodes[s]
            if labs:
                act = act or ty in labs
            if act:
                res += S.node(env, s)
                if any(f.nodes[y]['k'] in ('break',) for y in f.walk(s)) or m['k'] == 'break' or m['k'] == 'ret':
                    break
        return res
    for x in f.walk():
        n = f.nodes[x]
        if n['k'] == 'switch' and 'mutation_type_' in show(canon(env, n['c'])):
            return block(f.nodes[n['body']]['ss'])
    return []


def replay_all(R, p):
    rfs = {f.id for f in replay_fn(p)}
    replayed = 0
    for f in p.fns.values():
        if not (f.cls and f.cls.endswith('PyIndex')) or f.d.get('lambda'):
            continue
        for x in f.calls():
            n = f.nodes[x]
            if bname(n) != 'replayable_records':
                continue
            R.saw([f])
            env = Env(f)
            scan = discarded(f, x)
            # every element is handed to the replay function
            loops = [y for y in f.walk() if f.nodes[y]['k'] == 'loop' and f.nodes[y].get('range') not in (None, -1)]
            ok = False
            for l in loops:
                src = origin(env, f.nodes[l]['range'])
                if src[1] != strip(f, x) and canon(env, f.nodes[l]['range']) != canon(env, x):
                    continue
                body = list(f.walk(f.nodes[l]['body']))
                calls = [y for y in body if f.nodes[y]['k'] == 'call' and f.nodes[y].get('f') in rfs]
                cond = [y for y in body if f.nodes[y]['k'] in ('if', 'continue', 'break', 'ret', 'cond')]
                ok = bool(calls) and not any(c in set(f.walk(y)) for y in cond if f.nodes[y]['k'] == 'if' for c in calls) and not any(f.nodes[y]['k'] in ('continue', 'break', 'ret') and y < calls[0] for y in cond)
                R.ob('replay-all', ok, f.at(l), 'a returned record may be skipped instead of being replayed', key='all:' + f.name)
                wm = [y for y in body if f.nodes[y]['k'] == 'asg' and 'op_id_' in show(canon(env, f.nodes[y]['r'])) and path(env, f.nodes[y]['e']).startswith('this.')]
                R.ob('replay-all', wm, f.at(l), 'the last committed sequence number is not advanced for replayed records', key='wm:' + f.name)
            replayed += not scan
            if not loops and not scan:
                R.bad('replay-all', f.at(x), 'the returned records are not iterated over', key='noloop:' + f.name)
            # next id
            seen = None
            if len(n['a']) > 1:
                m = f.nodes[strip(f, n['a'][1])]
                seen = path(env, m['e']) if m['k'] == 'un' and m['op'] == '&' else None
            if seen:
                tr = {seen} | {path(env, f.nodes[y]['e']) for y in f.walk() if f.nodes[y]['k'] == 'asg' and ('v', seen) in set(subterms(canon(env, f.nodes[y]['r'])))}
                nx = [y for y in f.walk() if f.nodes[y]['k'] == 'asg' and path(env, f.nodes[y]['e']) != seen and any(t[0] == 'bin' and t[1] == '+' and t[2] in {('v', v) for v in tr} and t[3] == ('lit', '1') for t in subterms(canon(env, f.nodes[y]['r'])))]
                R.ob('replay-all', nx, f.at(), 'new sequence numbers do not start above the highest one seen in the log', key='next:' + f.name)
            if scan:
                continue
            # applied_through of the restored snapshot
            d = f.nodes[strip(f, n['a'][0])]
            if d['k'] == 'ref' and d.get('d') in f.params:
                j = f.params.index(d['d'])
                for g, c in p.callers().get(f.id, ()):
                    a = g.nodes[c]['a'][j]
                    check_applied(R, g, c, a)
            else:
                check_applied(R, f, x, n['a'][0])

    if rfs:
        R.ob('replay-all', replayed, 'python/include/index.hpp', 'no function replays the records of the log', key='none')


def discarded(f, x):
    par = f.parent()
    y = x
    while y in par:
        y = par[y]
        if f.nodes[y]['k'] == 'cast':
            if f.nodes[y].get('t') == 'void':
                return True
            continue
        return f.nodes[y]['k'] == 'block'
    return False


def check_applied(R, g, c, a):
    m = g.nodes[strip(g, a)]
    ok = False
    if m['k'] == 'mem' and m['n'].startswith('applied_through'):
        ok = True
    elif m['k'] == 'ref' and 'd' in m:
        ds = [v for v, k, _ in g.defs().get(m['d'], []) if v is not None and v >= 0]
        ts = [show(canon(Env(g), v)) for v in ds]
        ok = any('applied_through' in t for t in ts) and all(re.search(r'applied_through\w*$', t) or t == '0' for t in ts)
    R.ob('replay-all', ok, g.at(c), 'replay does not start from the sequence number the restored snapshot contains (%s)' % g.text(a), key='applied:' + g.name)
