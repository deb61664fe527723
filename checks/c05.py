"""C05: interprocedural file-protocol typestate over every entry point that renames a file: written, checked and synced before the rename, directory synced after it, no in-place writes."""
from checks.publish import *
from checks.c01 import whole


class H5(Pub):
    def __init__(self, p):
        super().__init__(p)
        self.writes = {}

    def stream_op(self, F, env, i, n, b, S, u):
        if b == 'write' and len(n['a']) == 2:
            self.writes[(env.fn.id, i)] = (env, i)
        return super().stream_op(F, env, i, n, b, S, u)

    def file_rename(self, F, env, i, frm, to, u):
        if not any(x[0] in ('created', 'dirmade') and x[1] == frm for x in u) and not any(x[0] in ('open', 'unsync', 'synced') and frm in x for x in u):
            self.bad(F, env, i, 'not-written', '%s is renamed over %s although it was not written on this path' % (show(frm), show(to)))
            return
        w = self.pending(u, frm)
        if not any(x[0] == 'synced' and x[1] == frm for x in u) and not w:
            w = ['not synced']
        for x in w:
            self.bad(F, env, i, 'incomplete', '%s replaces %s although its new content is: %s' % (show(frm), show(to), x))


def run(R):
    R.rule('rename-complete', 'at every file rename the source was written on this path, its stream was flushed and checked, and it was synced with a checked result', 2)
    R.rule('rename-result', 'the result of every rename is examined before the operation returns normally', 2)
    R.rule('dir-synced', 'after a rename the directory holding the new name is synced before the operation returns normally (collection-level syncs may fail with a warning only)', 2)
    R.rule('whole-content', 'a buffer written to a file that is renamed is written from its first byte with its own full length', 1)
    R.rule('no-in-place', 'no file is opened for writing under a name that readers use: every written file is later renamed (itself or its temporary directory), appended log and lock file excepted', 3)
    p = R.program('core', 'disk')
    es = publishers(p, 'include/recovery/', 'include/index/disk/')
    R.saw(es)
    targets = set()
    for f in sorted(es, key=lambda x: x.q):
        H = H5(p)
        F = Flow(p, H)
        res = F.run(f, frozenset())
        R.saw([p.fns[x] for x in F.visited])
        R.points += F.points
        strict = f.rel().startswith('include/recovery/')
        for (a, b), L in H.ev['rename'].items():
            targets.add(b)
            R.ob('rename-complete', not any(k in ('incomplete', 'not-written') for k, *_ in H.probs), L[0][0].fn.at(L[0][1]), '') if not H.probs else None
        for env, i in H.writes.values():
            ok, msg = whole(env, env.fn.nodes[i])
            R.ob('whole-content', ok, env.fn.at(i), msg, key='whole:' + env.fn.q)
        for k, at, msg, tr in H.probs:
            if k in ('incomplete', 'not-written'):
                R.bad('rename-complete', at, msg, key=k + ':' + f.q + ':' + msg, detail=tr)
        for k, u, r in res:
            if k != 'ok':
                continue
            rn = [x for x in u if x[0] == 'rn?']
            if any(x[0] == 'ren' for x in u):
                R.ob('rename-result', not rn, f.at(), 'returns normally although the result of the rename to %s was not examined' % (show(rn[0][3]) if rn else ''), key='rn:' + f.q)
            for x in u:
                if x[0] == 'need':
                    R.ob('dir-synced', Pub.dirsynced(u, x[1], strict), f.at(), 'returns normally after renaming to %s without syncing its directory' % show(x[2]), key='dir:%s:%s' % (f.q, show(x[2])))
    # in-place writes: over all public entry points of these parts
    n = 0
    for f in sorted(p.fns.values(), key=lambda x: x.q):
        if not (f.rel().startswith(('include/recovery/', 'include/index/disk/')) and f.cls and f.d.get('acc') == 'public' and not f.d.get('lambda') and f.id in io_reach(p) and f.blocks and not f.d.get('implicit')):
            continue
        if f.rel().endswith('segment_manifest.hpp'):
            continue   # save(path): the caller chooses the path, the callers are analysed
        H = H5(p)
        F = Flow(p, H)
        res = F.run(f, frozenset())
        R.points += F.points
        for k, u, r in res:
            if k != 'ok':
                continue
            ren = [(x[1], x[2]) for x in u if x[0] == 'ren']
            for x in u:
                if x[0] != 'created':
                    continue
                P = x[1]
                if any(P == a or under(P, a) for a, b in ren) or appendonly(p, P) or lockfile(p, P) or restored(f):
                    R.good('no-in-place', f.at())
                else:
                    R.bad('no-in-place', f.at(), 'writes %s in place: it is neither a temporary that is renamed afterwards nor an appended log' % show(P), key='inplace:%s:%s' % (f.q, show(P)))
    R.assume('rename(2) within one directory is atomic', 'fsync(2) returning 0 means the data is on stable storage')
    R.notes.append('renamed targets: ' + ', '.join(sorted(targets)))
    return __doc__


def restored(f):
    """restoring a working copy from a snapshot overwrites that copy by design (it is rebuilt from the snapshot on every load)"""
    return any(n['k'] == 'call' and n.get('q', '') in ('std::filesystem::copy_file', 'std::filesystem::copy') for g in f.p.reach([f]) for n in g.nodes) and \
        not any(n['k'] == 'call' and n.get('q', '') in ('std::filesystem::rename', 'syscall') for g in f.p.reach([f]) for n in g.nodes)


def modes(p):
    """path key -> open modes of std::ofstream opens in the program"""
    if hasattr(p, '_modes'):
        return p._modes
    M = {}
    for f in p.fns.values():
        env = Env(f)
        for x in f.calls():
            n = f.nodes[x]
            b = bname(n)
            if (n['k'] == 'ctor' and 'ofstream' in n.get('cls', '') or b == 'open' and 'ofstream' in n.get('q', '')) and n['a']:
                k = pathkey(env, n['a'][0])
                m = f.text(n['a'][1]) if len(n['a']) > 1 else ''
                M.setdefault(k[1].rsplit('.', 1)[-1] if k[0] == 'v' else str(k), set()).add('app' in m and 'trunc' not in m)
    p._modes = M
    return M


def appendonly(p, P):
    k = P[1].rsplit('.', 1)[-1] if P[0] == 'v' else str(P)
    m = modes(p).get(k)
    return bool(m) and all(m)


def lockfile(p, P):
    """opened only to be locked"""
    for f in p.fns.values():
        if any(n['k'] == 'call' and n.get('q') == 'flock' for n in f.nodes):
            for x in f.calls():
                n = f.nodes[x]
                if n.get('q') in ('open',) and n['a'] and show(pathkey(Env(f), n['a'][0])).split('(')[-1].split(',')[-1] == show(P).split('(')[-1].split(',')[-1]:
                    return True
    return False
