"""C21: lock-set analysis. For every class that owns a mutex, every two conflicting accesses of a data member of that class (outside construction, loading and destruction) hold a common lock, the writing one exclusively."""
from vf.flow import *
from vf.prog import Env, ALL
from vf.locks import Locks, MUTEX_T, bare
from vf.shared import accesses
from vf.util import bname, strip

# operations documented to have the object to themselves: nothing else may run on it meanwhile
LIFECYCLE = {'load', 'build', 'open', 'close', 'generate', 'init_updatable', 'teardown', 'initialize', 'build_graph', 'fit', 'read_ids', 'reset'}
# data that is handed over between phases by joining all workers, not by a lock
PHASED = {
    'alaya::NndescentImpl::Nhood': 'each phase of NN-descent touches disjoint nodes and is ended by a parallel-region barrier; only insert() crosses nodes and it locks',
    'alaya::vamana::VamanaBuilder::graph_@graph': 'read through graph() only after build() has joined its workers',
    'alaya::vamana::VamanaGreedySearch::last_visited_order_@last_visited_order': 'diagnostic accessor used by one thread after the search',
    'alaya::HNSWImpl::tableint_lookup_': 'the slot of an element is written before the element is linked into any list and never changes afterwards',
    'alaya::HNSWImpl::element_levels_': 'as tableint_lookup_',
    'alaya::HNSWImpl::enterpoint_node_': 'entry point and level are hints read without the lock by design of HNSW; they change only under the global lock',
    'alaya::HNSWImpl::maxlevel_': 'as enterpoint_node_',
}
# members that are shared between threads in the reviewed design: they must be lock-protected or atomic whatever else changes
SHARED = ['WriteAheadLog::wal_stream_', 'AsyncGate::free_', 'AsyncGate::waiters_', 'QueryScratchPool::pool_', 'HNSWImpl::label_lookup_', 'HashSetPool::pool_',
          'VisitedListPool::pool_', 'PyIndex::hybrid_batch_pool_', 'PyIndex::hybrid_batch_pool_threads_', 'ThreadPool::tasks_', 'UringReactor::poisoned_',
          'LaserSegmentSearcher::last_set_params_', 'StagedEdges::maps', 'DiskANNIndex::label_to_slot_', 'DiskANNIndex::labels_', 'DiskANNIndex::live_count_',
          'DiskANNIndex::max_slot_id_', 'DiskANNIndex::slot_alloc_', 'DiskANNIndex::update_ctx_', 'DiskANNIndex::pq_', 'DiskANNIndex::pipeline_tds_', 'Shard::cache', 'DiskPageIO::vec_cache_',
          'OverrideShard::map', 'ConcurrentQueue::queue_', 'AlignedFileReader::ctx_map_', 'VamanaBuilder::graph_']


def exclusive(f):
    return f.d.get('ctor') or f.d.get('dtor') or f.name in LIFECYCLE or f.name == 'operator='


def isroot(f):
    return not f.d.get('lambda') and f.d.get('acc') in ('public', None)


def collect(p, L):
    """field -> [(fn, node, write, must locks, may locks)] for shared phases only"""
    L.sites()
    L._sites = [s for s in L._sites if not exclusive(s[0])]
    called = {s[2].id for s in L._sites}
    E, M = L.entry_must(isroot), L.entry_may()
    owners = {}
    for fid, A in L.acq.items():
        for i, l, m, h, inst in A:
            if not l.startswith(('P:', 'G:')) and '#' not in l:
                owners.setdefault(l.rstrip('[]').rsplit('::', 1)[0], set()).add(l)
    for c in p.classes.values():
        for fl in c['fields']:
            if bare(fl['t']) in MUTEX_T or bare(fl['t']).endswith('::SpinLock'):
                owners.setdefault(c['q'], set())
    outer = {o.rsplit('::', 1)[0] for o in owners if o.rsplit('::', 1)[0] in p.classes}
    F = {}
    for f in L.fns.values():
        if exclusive(f) or f.id not in called and not isroot(f):
            continue
        par = f.parent()
        for x, q, w, b in accesses(f):
            n = f.nodes[x]
            if bare(n['t']) in owners or bare(n['t']) in outer:
                continue   # locks itself
            if q.rsplit('::', 1)[0] not in owners or any(m in n['t'] for m in MUTEX_T) or 'atomic' in n['t'] or 'condition_variable' in n['t'] or 'SpinLock' in n['t']:
                continue
            must = L.join(E[f.id], L.must(f, x))
            pn = f.nodes[par[x]] if par.get(x) is not None else {}
            if pn.get('k') == 'un' and pn['op'] == '&':
                must = L.join(must, L.join(M[f.id], L.may(f, x)))   # only the address is taken here
            F.setdefault(q, []).append((f, x, w, must))
    return F, owners


def common(a, b):
    """some lock protects the pair (a writes)"""
    da, db = dict(a[3]), dict(b[3])
    for l in da:
        if l in db and da[l] == 'x' and (not b[2] or db[l] == 'x'):
            return True
    return False


def run(R):
    R.rule('common-lock', 'two accesses of a shared member of a lock-owning class, one of them a write, hold a common lock (the write exclusively)', 60)
    R.rule('stays-shared', 'a member known to be shared between threads is accessed under a lock or is atomic', 12)
    R.rule('no-escape', 'a function that takes the lock itself does not return a reference, pointer or iterator into the protected member', 5)
    p = R.program(*ALL)
    L = Locks(p)
    R.points += sum(len(v) for v in L.acq.values())
    F, owners = collect(p, L)
    R.saw(L.fns.values())
    prot = set()
    for q, A in sorted(F.items()):
        if not any(a[2] for a in A) or not any(a[3] for a in A):
            continue
        if any(q == k or q.startswith(k + '::') for k in PHASED):
            continue
        A = [a for a in A if q + '@' + a[0].name not in PHASED]
        W = [a for a in A if a[2]]
        # a lock that protects something in this class must be involved at all
        if not any(l.rsplit('::', 1)[0].split('[')[0] == q.rsplit('::', 1)[0] or dict(a[3])[l] == 'x' for a in A for l in dict(a[3])):
            continue
        prot.add(q)
        for a in A:
            bad = None
            if a[2] and not any(m == 'x' for l, m in a[3]):
                bad = a
            for w in W:
                if bad is None and not common(w, a):
                    bad = w
            if bad is not None and bad is not a:
                # blame the side with fewer locks
                n_ok = lambda z: sum(1 for y in A if (y[2] and common(y, z)) or (z[2] and common(z, y)))
                if n_ok(bad) < n_ok(a):
                    R.ob('common-lock', True, a[0].at(a[1]))
                    continue
            R.ob('common-lock', bad is None, a[0].at(a[1]), '%s of %s %s' % ('write' if a[2] else 'read', q, 'without a lock held exclusively' if bad is a else
                 'holding {%s} has no lock in common with the write at %s holding {%s}' % (', '.join(sorted(l for l, m in a[3])), bad[0].at(bad[1]), ', '.join(sorted('%s%s' % (l, '' if m == 'x' else ' (shared)') for l, m in bad[3]))) if bad else ''),
                 key='%s@%s' % (q, a[0].q.split('(')[0]))
    for s in SHARED:
        c = [c for c in p.classes.values() if c['q'].endswith(s.rsplit('::', 1)[0]) and any(f['n'] == s.rsplit('::', 1)[1] for f in c['fields'])]
        for cl in c[:1]:
            q = cl['q'] + '::' + s.rsplit('::', 1)[1]
            fl = [f for f in cl['fields'] if f['n'] == s.rsplit('::', 1)[1]][0]
            ok = q in prot or any(q == k.split('@')[0] for k in PHASED) or 'atomic' in fl['t'] or fl.get('const') or not any(a[2] for a in F.get(q, []))
            R.ob('stays-shared', ok, '%s:%s' % (cl['file'], fl.get('l', cl['l'])) if 'file' in cl else q, '%s is shared between threads and no access of it is protected by a lock' % q, key='unprotected:' + q)
    for f in L.fns.values():
        rt = f.d['rt']
        if not (rt.rstrip().endswith(('&', '*')) or 'iterator' in rt) or not L.acq.get(f.id) or f.d.get('lambda') or f.q in ESCAPE_OK:
            continue
        env = Env(f)
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] != 'ret' or 'e' not in n:
                continue
            bad = [y for y, q, w, b in accesses(f) if q in prot and y in set(f.walk(n['e'])) and derives(f, n['e'], y)]
            d = f.nodes[strip(f, n['e'])]
            if d['k'] == 'ref' and 'd' in d:
                sd = f.single_def(d['d'], ignore=('addr', 'cap'))
                if sd is not None and (f.vars[str(d['d'])]['t'].rstrip().endswith(('&', '*')) or f.vars[str(d['d'])].get('ref')):
                    bad += [y for y, q, w, b in accesses(f) if q in prot and y in set(f.walk(sd)) and derives(f, sd, y)]
            R.ob('no-escape', not bad, f.at(x), 'returns a reference into %s, which is protected by the lock released here' % (f.nodes[bad[0]]['q'] if bad else ''), key='escape:' + f.q)
    R.assume('lifecycle operations (%s, constructors, destructors, assignment) have the object to themselves' % ', '.join(sorted(LIFECYCLE)))
    for k, v in PHASED.items():
        R.assume('%s: %s' % (k, v))
    for k, v in ESCAPE_OK.items():
        R.assume('%s: %s' % (k, v))
    R.notes.append('%d members of %d lock-owning classes are protected: %s' % (len(prot), len(owners), ', '.join(sorted(prot))))


ESCAPE_OK = {'LinuxAlignedFileReader::get_ctx': 'the context of the calling thread: map nodes are stable and no other thread removes it'}


def derives(f, top, y):
    """the value of top points into the member y (no load through a pointer stored there)"""
    cur = strip(f, top)
    n = f.nodes[cur]
    if n.get('t', '').rstrip().endswith('*') and not (n['k'] == 'un' and n['op'] == '&' or n['k'] == 'call' and bname(n) in ('data', 'begin', 'end', 'c_str', 'find')):
        return False   # a pointer value loaded from the member
    for _ in range(12):
        if cur == y:
            return True
        n = f.nodes[cur]
        k = n['k']
        if k in ('mem', 'idx'):
            cur = n['b']
        elif k == 'un' and n['op'] in ('&', '*'):
            cur = n['e']
        elif k in ('cast',):
            cur = n['e']
        elif k == 'call' and 'obj' in n:
            t = f.nodes[strip(f, n['obj'])].get('t', '')
            if n.get('op') in ('->', '*') and 'ptr' in t or bname(n) == 'get' and 'ptr' in t:
                return False
            cur = n['obj']
        else:
            return False
        cur = strip(f, cur)
    return False
