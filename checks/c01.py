"""C01: interprocedural typestate over the log writer (bytes buffered / stream unchecked / unsynced) and over every public mutator of a durable index."""
from checks.durable import *


def run(R):
    R.rule('commit-durable', 'on every normal return of append_commit the log file has been flushed, its stream state checked after the flush, and synced with the result of the sync examined', 1)
    R.rule('prepare-written', 'on every normal return of append_prepare the record has been flushed and the stream state checked afterwards', 1)
    R.rule('created-file-durable', 'a log file opened by an append has its parent directory synced before append_commit returns', 1)
    R.rule('whole-buffer', 'a log frame is handed to the stream from its first byte with its full length', 1)
    R.rule('ack-after-commit', 'every public mutator of an index with recovery enabled returns normally only after append_commit returned normally', 4)
    R.rule('no-swallow', 'no exception of append_prepare / append_commit is caught and turned into a normal return', 2)
    p = R.program('core')
    wal = p.cls('WriteAheadLog')['q']

    class W(IOHooks):
        def __init__(s):
            super().__init__()
            s.writes = []

        def on_open_write(s, F, env, i, P, u):
            return u | {('opened', P)}

        def stream_op(s, F, env, i, n, b, S, u):
            if b == 'write' and len(n['a']) == 2 and 'wal' in S.rsplit('.', 1)[-1].lower() or b == 'write' and len(n['a']) == 2 and S.startswith('this.'):
                s.writes.append((env, i))
            return super().stream_op(F, env, i, n, b, S, u)

    seenw = set()
    for name, rule in (('append_commit', 'commit-durable'), ('append_prepare', 'prepare-written')):
        for f in p.fn(wal + '::' + name):
            H = W()
            F = Flow(p, H)
            res = F.run(f, frozenset())
            R.saw([p.fns[x] for x in F.visited])
            R.points += F.points
            oks = [u for k, u, r in res if k == 'ok']
            for u in oks:
                files = {x[2] for x in u if x[0] == 'open'}
                why = []
                wrote = bool(files) or any(x[0] in ('unsync', 'synced') for x in u)
                if not wrote:
                    why.append('nothing was written to the log')
                for P in files | {x[1] for x in u if x[0] in ('unsync', 'lost')}:
                    pend = H.pending(u, P)
                    if name == 'append_prepare':
                        pend = [w for w in pend if 'synced' not in w]
                    why += pend
                if name == 'append_commit' and not any(x[0] == 'synced' and x[1] in files for x in u):
                    why.append('the log file was not synced with a checked result')
                R.ob(rule, not why, f.at(), '%s can return normally although: %s' % (f.q, '; '.join(sorted(set(why)))), key=name + ':' + ';'.join(sorted(set(why))))
                if name == 'append_commit':
                    for x in u:
                        if x[0] == 'opened':
                            par = parent_of(x[1])
                            ok = any(y[0] == 'synced' and y[1] in (par, ('parent', x[1])) for y in u)
                            R.ob('created-file-durable', ok, f.at(), 'the log file %s may be newly created and its directory is not synced before the commit is acknowledged' % show(x[1]), key='dir-sync')
            for env, i in H.writes:
                n = env.fn.nodes[i]
                if (env.fn.id, i) in seenw:
                    continue
                seenw.add((env.fn.id, i))
                ok, msg = whole(env, n)
                R.ob('whole-buffer', ok, env.fn.at(i), msg, key='whole:' + env.fn.name)
    # acknowledgement
    q = R.program('py')
    ms = mutators(q)
    R.saw(ms)
    for f in ms:
        H = Durable(q)
        F = Flow(q, H)
        res = F.run(f, frozenset())
        R.saw([q.fns[x] for x in F.visited])
        R.points += F.points
        for k, u, r in res:
            if k != 'ok':
                continue
            if ('apply',) in u:
                R.ob('ack-after-commit', ('commit',) in u, f.at(), 'can return normally with the mutation applied but without a durable commit record', key='ack:' + f.name)
    # exceptions of the log writer are not swallowed: any handler around a call that reaches append_* must not fall through
    for prog in (p, q):
        for f in prog.fns.values():
            for x in range(len(f.nodes)):
                n = f.nodes[x]
                if n['k'] == 'call' and bname(n) in ('append_prepare', 'append_commit', 'append_frame') and f.nodes[x].get('f'):
                    ok = True
                    t = n.get('y')
                    while t is not None:
                        for h, hb in f.handlers(t):
                            if hb is None:
                                continue
                            if not always_raises(f, hb):
                                ok = False
                        t = f.nodes[t].get('y')
                    R.ob('no-swallow', ok, f.at(x), 'an exception of %s is caught here and does not always leave the function as an error' % bname(n), key='swallow:%s:%s' % (f.q, bname(n)))
    R.assume('fsync(2) returning 0 means the data is on stable storage', 'std::ofstream reports failed writes in its state after flush()/close()')
    return __doc__


def always_raises(f, b, seen=None):
    """no path from block b to the normal exit"""
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == f.exit:
            return False
        blk = f.blocks[x]
        if any(isinstance(e, int) and (f.nodes[e]['k'] == 'throw' or f.nodes[e].get('nr')) for e in blk['els']):
            continue
        st += [s for s in blk['succ'] if s is not None]
    return True


def whole(env, n):
    """write(ptr, len): ptr is the start of an object and len its own size"""
    f = env.fn
    e0, a = origin(env, n['a'][0])
    e1, b = origin(env, n['a'][1])
    ca, cb = canon(e0, a), canon(e1, b)
    base = None
    if ca[0] == 'call' and ca[1].rsplit('::', 1)[-1] in ('data', 'c_str') and ca[2]:
        base = ca[2]
        from vf.ioseq import split_size
        k, sym = split_size(cb)
        if len(sym) == 1 and sym[0][0] == 'call' and sym[0][1].rsplit('::', 1)[-1] in ('size', 'length') and sym[0][2] == base:
            return True, ''
        return False, 'the number of bytes written to the file (%s) is not the size of the buffer %s' % (show(cb), show(base))
    if ca[0] == 'addr':
        if cb[0] in ('sizeof', 'lit'):
            return True, ''
    return True, ''
