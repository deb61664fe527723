"""C04: typestate analysis of the checkpoint: order of snapshot sync, manifest, pointer switch, log removal and clean-up on every path; effect order and data flow of the caller that fills the snapshot."""
from checks.publish import *


def log_paths(p):
    """field access suffixes of the log file: path fields opened for append"""
    out = set()
    for f in p.fns.values():
        if not f.rel().startswith('include/recovery/'):
            continue
        env = Env(f)
        for x in f.calls():
            n = f.nodes[x]
            if (bname(n) == 'open' and 'ofstream' in n.get('q', '') or n['k'] == 'ctor' and 'ofstream' in n.get('cls', '')) and len(n['a']) > 1 and 'app' in f.text(n['a'][1]):
                P = pathkey(env, n['a'][0])
                if P[0] == 'v':
                    out.add(P[1].rsplit('.', 1)[-1])
    return out


class H4(Pub):
    def __init__(self, p, params):
        super().__init__(p)
        self.params = params           # pathkeys of the directory parameters
        self.logs = log_paths(p)
        self.n_ptr = self.n_log = self.n_rm = 0
        self.lost = []

    def is_log(self, P):
        return P[0] == 'v' and '.' in P[1] and P[1].rsplit('.', 1)[-1] in self.logs and P[1].count('.') >= 2 and P[1].startswith('this.')

    def in_snapshot(self, P):
        return any(P == D or under(P, D) for D in self.params)

    def call(self, F, env, i, u):
        n = env.fn.nodes[i]
        g = self.p.get(n.get('f'))
        # opening or truncating the log file itself discards it
        return super().call(F, env, i, u)

    def file_rename(self, F, env, i, frm, to, u):
        if self.in_snapshot(to):
            return
        # the pointer switch
        self.n_ptr += 1
        for D in self.params:
            if ('tree', D) not in u:
                self.bad(F, env, i, 'pointer', 'the pointer %s is switched although the files in %s were not all synced on this path' % (show(to), show(D)))
            mani = [x for x in u if x[0] == 'ren' and self.in_snapshot(x[2])]
            if not mani:
                self.bad(F, env, i, 'pointer', 'the pointer is switched although no manifest was published in %s on this path' % show(D))
            for x in mani:
                if not self.dirsynced(u, parent_of(x[2]), True):
                    self.bad(F, env, i, 'pointer', 'the pointer is switched although the directory of the manifest %s was not synced after the manifest was renamed' % show(x[2]))
            if not any(x[0] == 'synced' and self.is_parent(x[1], D) for x in u):
                self.bad(F, env, i, 'pointer', 'the pointer is switched although the directory that holds %s was not synced' % show(D))

    def is_parent(self, P, D):
        return P == parent_of(D) or P in getattr(self, 'parents', ())

    def durable_pointer(self, u):
        for x in u:
            if x[0] == 'ren' and not self.in_snapshot(x[2]) and self.dirsynced(u, parent_of(x[2]), True) and not any(y[0] == 'rn?' and y[3] == x[2] for y in u):
                return True
        return False

    def discard(self, F, env, i, P, u, what):
        if self.is_log(P):
            self.n_log += 1
            if not self.durable_pointer(u):
                self.bad(F, env, i, 'log', '%s the log before the pointer switch is durable' % what)

    def on_open_write(self, F, env, i, P, u):
        m = env.fn.text(env.fn.nodes[i]['a'][1]) if len(env.fn.nodes[i].get('a', [])) > 1 else ''
        if 'app' not in m:
            self.discard(F, env, i, P, u, 'truncates')
        return super().on_open_write(F, env, i, P, u)

    def on_remove(self, F, env, i, P, u):
        q = env.fn.nodes[i].get('q', '')
        if self.is_log(P):
            self.discard(F, env, i, P, u, 'removes')
        elif q.endswith('remove_all') or q.endswith('::remove'):
            if any(k in show(P) for k in ('directory_entry', 'iterator')) or P[0] != 'v' and not self.in_snapshot(P):
                self.n_rm += 1
                if not self.durable_pointer(u):
                    self.bad(F, env, i, 'old', 'removes %s before the pointer switch is durable' % show(P))
                if not self.excludes_live(env, i, P, u):
                    self.bad(F, env, i, 'live', 'removes %s without comparing it with the live snapshot on this path' % show(P))
            elif any(P == D for D in self.params):
                self.bad(F, env, i, 'live', 'removes the snapshot it publishes')
        return super().on_remove(F, env, i, P, u)

    def excludes_live(self, env, i, P, u):
        for c, pol in guards(env, i):
            if c[0] == 'bin' and c[1] in ('==', '!=') and (c[1] == '!=') == pol or c[0] == 'call' and c[1].endswith(('operator==', 'operator!=')) and c[1].endswith('operator!=') == pol:
                a = c[2:]
                s = [self.is_id(env, x) for x in a]
                nm = [self.names(x, P) for x in a]
                if len(a) == 2 and (s[0] and nm[1] or s[1] and nm[0]):
                    return True
        return False

    @staticmethod
    def names(t, P):
        return any(s[0] == 'call' and s[1].rsplit('::', 1)[-1] in ('filename', 'stem') for s in subterms(t)) and any(s == P or s[0] == 'v' and s in list(subterms(P)) for s in subterms(t))

    def is_id(self, env, t):
        """the value written to the pointer in this run"""
        return any(s[0] == 'v' and s[1].endswith('snapshot_id_') for s in subterms(t)) or any(t == w for w in getattr(self, 'written', ()))


def run(R):
    R.rule('pointer', 'at the pointer switch every file of the snapshot is synced, its manifest is published and its directory entry is durable', 1)
    R.rule('log', 'the log is discarded only after the pointer switch is durable', 0)
    R.rule('old', 'other snapshots are removed only after the pointer switch is durable and never the one just published', 0)
    R.rule('fresh-dir', 'a snapshot directory is handed out only if this call created it', 1)
    R.rule('caller-order', 'the code that fills a snapshot does every save before the publish call and publishes only if all of them succeeded', 1)
    R.rule('manifest-data', 'the manifest names exactly the files that were saved and the sequence number of the last committed operation', 1)
    R.rule('load-order', 'loading restores, loads, replays and only then checkpoints', 1)
    p = R.program('core')
    mgrs = [f for f in publishers(p, 'include/recovery/')]
    R.saw(mgrs)
    dirs = makers(p)
    for f in sorted(mgrs, key=lambda x: x.q):
        env = Env(f)
        params = []
        for d in f.params:
            v = f.vars[str(d)]
            if 'path' in v['t']:
                params.append(('v', 'P:' + v['n']) if False else pkey_of_param(f, d))
        H = H4(p, params)
        H.parents = {parent_of(k) for k in dirs.values()}
        F = Flow(p, H)
        res = F.run(f, frozenset())
        R.saw([p.fns[x] for x in F.visited])
        R.points += F.points
        R.notes.append('%s: %d pointer switches, %d log discards, %d removals over all paths' % (f.q, H.n_ptr, H.n_log, H.n_rm))
        kinds = {}
        for k, at, msg, tr in H.probs:
            kinds.setdefault({'pointer': 'pointer', 'log': 'log', 'old': 'old', 'live': 'old', 'write-after-publish': 'pointer'}[k], []).append((at, msg, tr))
        for rule, n in (('pointer', H.n_ptr), ('log', H.n_log), ('old', H.n_rm)):
            for at, msg, tr in kinds.get(rule, []):
                R.bad(rule, at, msg, key='%s:%s' % (rule, msg), detail=tr)
            if n and rule not in kinds:
                R.good(rule, f.at())
    # log removal anywhere else
    for f in p.fns.values():
        if f.rel().startswith('include/recovery/') and f.cls and f not in mgrs and f.d.get('acc') == 'public' and f.blocks:
            pass
    for f, k in dirs.items():
        pass
    fresh(R, p)
    fill(R)
    R.assume('rename(2) within one directory is atomic', 'fsync(2) returning 0 means the data is on stable storage')
    return __doc__


def pkey_of_param(f, d):
    for x in f.walk():
        n = f.nodes[x]
        if n['k'] == 'ref' and n.get('d') == d:
            return pathkey(Env(f), x)
    return ('v', 'unused')


def makers(p):
    """functions of the recovery layer that create and return a directory -> key of the returned path"""
    out = {}
    for f in p.fns.values():
        if f.rel().startswith('include/recovery/') and not f.d.get('lambda') and 'path' in f.d.get('rt', ''):
            if any(n['k'] == 'call' and n.get('q') in MKDIR for n in f.nodes):
                env = Env(f)
                for x in f.walk():
                    n = f.nodes[x]
                    if n['k'] == 'ret' and 'e' in n:
                        out[f] = pathkey(env, n['e'])
    return out


def fresh(R, p):
    for f in makers(p):
        env = Env(f)
        R.saw([f])
        rets = [x for x in f.walk() if f.nodes[x]['k'] == 'ret' and 'e' in f.nodes[x]]
        for x in rets:
            P = pathkey(env, f.nodes[x]['e'])
            ok = False
            for c, pol in guards(env, x):
                if pol and c[0] == 'call' and c[1] in ('std::filesystem::create_directory', 'std::filesystem::create_directories') and norm_path(c[2] or c[3]) == P:
                    ok = True
                if pol and c[0] == 'call' and c[1] in ('std::filesystem::create_directory', 'std::filesystem::create_directories') and any(norm_path(a) == P for a in c[2:] if a):
                    ok = True
            R.ob('fresh-dir', ok, f.at(x), 'returns %s although it may have existed before (it may be the live snapshot)' % show(P), key='fresh:' + f.q)


# ---- the code that fills snapshots -------------------------------------------------------------
SAVES = ('save', 'save_state', 'serialize')


def fill(R):
    p = R.program('py')
    fs = []
    for f in p.fns.values():
        if f.rel().startswith(('python/include/', 'include/')) and not f.rel().startswith('include/recovery/'):
            if any(f.nodes[x].get('q', '').endswith('RecoveryManager::publish_snapshot') for x in f.calls()):
                fs.append(f)
    R.saw(fs)
    seen = set()
    for f in sorted(fs, key=lambda x: (x.q, x.id)):
        one_fill(R, p, f)
    loaders(R, p, {f.id for f in fs})


class HF(Hooks):
    """orders saves and publication; a save result that reports failure must stop the checkpoint"""
    def __init__(self, p):
        self.p = p
        self.saves = set()
        self.pubs = []
        self.probs = []
        self.iosave = reaches(p, ('std::basic_ofstream::write', 'write', 'Flush', 'CreateCheckpoint'))

    def descend(self, F, env, i, g):
        return False

    def throws(self, F, env, i, u):
        return False

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] != 'call':
            return None
        b = bname(n)
        if n.get('q', '').endswith('RecoveryManager::publish_snapshot'):
            self.pubs.append((env, i, u))
            for x in u:
                if x[0] == 'unchecked':
                    self.probs.append((f.at(i), 'the snapshot is published although the result of %s was not found to be success' % x[2]))
            return [('ok', u | {('pub',)}, None)]
        if b in SAVES and self.p.get(n.get('f')) is not None and any(self.names_dir(env, a) for a in n['a']):
            self.saves.add((f.id, i))
            if ('pub',) in u:
                self.probs.append((f.at(i), '%s writes into the snapshot after it was published' % n['q']))
            u = u | {('saved', i)}
            if self.p.get(n['f']).d.get('rt') == 'bool':
                u = u | {('unchecked', i, n['q'])}
            return [('ok', u, None)]
        return [('ok', u, None)]

    @staticmethod
    def names_dir(env, a):
        t = canon(env, a)
        return any(s[0] == 'call' and s[1].endswith('create_snapshot_dir') for s in subterms(t))

    def branch(self, F, env, cond, pol, u):
        for kind, c in success_calls(env, cond, pol):
            if kind == 'true':
                u = frozenset(x for x in u if not (x[0] == 'unchecked' and x[1] == c))
        return u


def one_fill(R, p, f):
    H = HF(p)
    F = Flow(p, H)
    res = F.run(f, frozenset())
    R.points += F.points
    for at, msg in H.probs:
        R.bad('caller-order', at, msg, key='order:' + msg)
    if not H.probs and H.saves:
        R.good('caller-order', f.at())
    # manifest data
    for env, i, u in H.pubs:
        n = f.nodes[i]
        m = n['a'][0]
        e = field_expr(env, m, 'applied_through_op_id_')
        ok = False
        if e:
            v = path(e[0], e[1])
            ok = v.startswith('this.') and advanced_after_commit(p, f.cls, v.split('.')[-1])
        R.ob('manifest-data', ok, f.at(i), 'the snapshot\'s applied-through number is not the last committed operation', key='applied')
        sid = field_expr(env, m, 'snapshot_id_')
        t = canon(*sid) if sid else ('?',)
        d = canon(env, n['a'][1])
        R.ob('manifest-data', any(s[0] == 'call' and s[1].endswith('filename') for s in subterms(t)) and any(s == d for s in subterms(t)), f.at(i),
             'the snapshot id written to the pointer is not the name of the directory that is published', key='sid')
        # file fields <-> saved paths
        cls = [c for c in p.classes.values() if c['q'].endswith('SnapshotManifest')][0] if hasattr(p, 'classes') else None
        fields = [x['n'] for x in cls['fields'] if x['n'].endswith(('_file_', '_dir_'))] if cls else []
        saved = []
        for fid, s in H.saves:
            for a in f.nodes[s]['a']:
                saved.append((s, roots(env, a)))
        for fl in fields:
            e = field_expr(env, m, fl)
            if not e:
                R.bad('manifest-data', f.at(i), 'the manifest field %s is never set' % fl, key='mf:' + fl)
                continue
            me = ident(e[0], e[1])[1]
            ok = any(me in rs for s, rs in saved)
            R.ob('manifest-data', ok or not saved, f.at(i), 'the manifest field %s does not name a file that was saved into the snapshot' % fl, key='mf:' + fl)
        # distinct fields name distinct files
        ids = [ident(*field_expr(env, m, fl))[1] for fl in fields if field_expr(env, m, fl)]
        R.ob('manifest-data', len(set(map(str, ids))) == len(ids), f.at(i), 'two manifest fields name the same file', key='mf-dup')


def roots(env, a):
    """identities of the local variables an argument mentions"""
    f = env.fn
    out = set()
    for x in f.walk(a):
        n = f.nodes[x]
        if n['k'] == 'ref' and 'd' in n and not n.get('isfn'):
            out.add(path(env, x))
            sd = f.single_def(n['d'])
            if sd is not None and sd >= 0:
                for y in f.walk(sd):
                    if f.nodes[y]['k'] == 'ref' and 'd' in f.nodes[y]:
                        out.add(path(env, y))
    return out


def advanced_after_commit(p, cls, fld):
    """the field is assigned only in functions that also append a commit record, or when state is loaded"""
    n = 0
    for g in p.fns.values():
        if g.cls == cls:
            for x in g.walk():
                nd = g.nodes[x]
                if nd['k'] == 'asg' and g.nodes[nd['e']]['k'] == 'mem' and g.nodes[nd['e']]['n'] == fld:
                    n += 1
    return n > 0 and 'commit' in fld


def loaders(R, p, fills):
    """functions that replay: restore -> load -> replay -> checkpoint"""
    order = {'restore_active_rocksdb_from_snapshot': 0, 'load_state': 1, 'replayable_records': 2, 'publish_snapshot': 3}
    stage = {}
    for name, k in order.items():
        for fid in reaches_q(p, name):
            stage.setdefault(fid, set()).add(k)
    for f in sorted(p.fns.values(), key=lambda x: (x.q, x.id)):
        if not (f.cls and 2 in stage.get(f.id, ()) and 1 in stage.get(f.id, ()) and 3 in stage.get(f.id, ())):
            continue
        R.saw([f])
        H = HL(p, stage, order)
        F = Flow(p, H)
        F.run(f, frozenset())
        R.points += F.points
        for at, msg in H.probs:
            R.bad('load-order', at, msg, key='load:' + msg)
        if not H.probs:
            R.good('load-order', f.at())


def reaches_q(p, name):
    s = reaches(p, (name,))
    return set(s) | {f.id for f in p.fns.values() if f.name == name}


NAMES = {0: 'restoring the scalar store from the snapshot', 1: 'loading the snapshot', 2: 'replaying the log', 3: 'publishing a new snapshot'}


class HL(Hooks):
    def __init__(self, p, stage, order):
        self.p = p
        self.stage = stage
        self.probs = []
        self.leaf = set(order)

    def descend(self, F, env, i, g):
        return len(self.stage.get(g.id, ())) > 1 and g.name not in self.leaf

    def throws(self, F, env, i, u):
        return False

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        g = self.p.get(n.get('f'))
        if g is None:
            return None
        st = self.stage.get(g.id, set())
        if g.name in self.leaf:
            st = {k for k in st} if g.name != 'replayable_records' else {2}
        if len(st) > 1 and g.name not in self.leaf:
            return None
        for k in st:
            late = [x for x in u if x > k]
            if late and not (k == 2 and late == [3] and False):
                self.probs.append((f.at(i), '%s after %s' % (NAMES[k], NAMES[max(late)])))
            u = u | {k}
        return [('ok', u, None)]
