"""C06: interprocedural file-protocol typestate over every entry point that publishes a segment directory: complete and synced before the no-replace rename, cleaned up on failure, listed only after publication."""
from checks.publish import *


class H6(Pub):
    def __init__(self, p):
        super().__init__(p)
        self.listed = 0

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        if n['k'] == 'call' and 'obj' in n and bname(n) in ('push_back', 'emplace_back', 'insert', 'assign', 'operator=') and n['a']:
            P = path(env, n['obj'])
            if P.endswith('.segment_ids') or self.is_idlist(env, n['obj']):
                self.listed += 1
                a = n['a'][-1]
                u = u | {('listed', norm_path(canon(env, a)), env.fn.at(i))}
                return [('ok', u, None)]
        return super().call(F, env, i, u)

    @staticmethod
    def is_idlist(env, i):
        n = env.fn.nodes[i]
        return n['k'] == 'mem' and 'segment_id' in n['n'] and 'vector' in n.get('t', '')

    def on_remove(self, F, env, i, P, u):
        return super().on_remove(F, env, i, P, u)

    def dir_rename(self, F, env, i, frm, to, u, kids):
        at = ('d', env.fn.q)
        if not kids:
            self.bad(F, env, i, 'empty', 'publishes %s although nothing was written into it on this path' % show(to))
        for P in sorted(kids, key=str):
            w = self.pending(u, P)
            if not w and not any(x[0] == 'synced' and x[1] == P for x in u):
                w = ['not synced']
            for x in w:
                self.bad(F, env, i, 'incomplete', 'publishes the segment although its file %s is: %s' % (show(P), x))
        if not any(x[0] == 'synced' and x[1] == frm for x in u):
            self.bad(F, env, i, 'dir-unsynced', 'publishes %s although the directory %s was not synced after its last file was created' % (show(to), show(frm)))
        if not any('manifest' in show(P) for P in kids):
            self.bad(F, env, i, 'no-manifest', 'publishes a segment directory without its manifest')
        if not self.noreplace(env, i):
            self.bad(F, env, i, 'replace', 'publishes with a rename that can replace an existing directory')

    def file_rename(self, F, env, i, frm, to, u):
        for x in u:
            if x[0] != 'listed':
                continue
            names = [y[2] for y in u if y[0] == 'ren' and self.lists(y[2], x[1])]
            if not names:
                self.bad(F, env, i, 'listed-early', 'the manifest lists segment %s before a directory of that name was published on this path' % show(x[1]))

    @staticmethod
    def lists(to, name):
        return to[0] == 'join' and to[-1] == name


def run(R):
    R.rule('complete', 'at every rename of a segment directory each file created in it was written, checked and synced, and the directory itself was synced after the last of them', 3)
    R.rule('no-replace', 'the rename refuses to replace an existing directory', 3)
    R.rule('dir-synced', 'the parent directory is synced (or its failure reported) after the rename', 3)
    R.rule('result', 'the result of the rename is examined before the operation continues', 3)
    R.rule('cleanup', 'every exceptional exit after a file was created in the temporary directory and before the rename removes that directory', 3)
    R.rule('listed-after-publish', 'a collection manifest that lists a new segment is published only after that very segment directory was published', 1)
    R.rule('no-removal', 'a published segment directory is neither written nor removed afterwards', 3)
    p = R.program('disk')
    es = publishers(p, 'include/index/disk/')
    R.saw(es)
    for f in sorted(es, key=lambda x: x.q):
        H = H6(p)
        F = Flow(p, H)
        res = F.run(f, frozenset())
        R.saw([p.fns[x] for x in F.visited])
        R.points += F.points
        dirs = H.ev['dirrename']
        n = sum(len(L) for L in dirs.values())
        kinds = {k for k, *_ in H.probs}
        for k, at, msg, tr in H.probs:
            rule = {'incomplete': 'complete', 'dir-unsynced': 'complete', 'empty': 'complete', 'no-manifest': 'complete', 'replace': 'no-replace',
                    'listed-early': 'listed-after-publish', 'write-after-publish': 'no-removal'}.get(k)
            if rule:
                R.bad(rule, at, msg, key='%s:%s:%s' % (k, f.q, msg), detail=tr)
        if dirs:
            for rule, ks in (('complete', {'incomplete', 'dir-unsynced', 'empty', 'no-manifest'}), ('no-replace', {'replace'}), ('no-removal', {'write-after-publish'})):
                if not kinds & ks:
                    for (a, b), L in dirs.items():
                        R.good(rule, L[0][0].fn.at(L[0][1]))
        if H.listed and 'listed-early' not in kinds:
            R.good('listed-after-publish', f.at())
        for k, u, r in res:
            made = {x[1] for x in u if x[0] == 'dirmade'}
            ren = {x[1]: x[2] for x in u if x[0] == 'ren'}
            if k == 'exc':
                # an error while the result of the rename is unexamined is the failure of the rename itself
                failed = {x[3] for x in u if x[0] == 'rn?'}
                ren = {a: b for a, b in ren.items() if b not in failed}
            if k == 'ok':
                for x in u:
                    if x[0] == 'need' and any(to == x[2] and frm in made for frm, to in ren.items()):
                        R.ob('dir-synced', Pub.dirsynced(u, x[1], False), f.at(), 'returns normally after publishing %s without syncing its parent directory' % show(x[2]), key='parent:%s' % f.q)
                if ren:
                    bad = [x for x in u if x[0] == 'rn?']
                    R.ob('result', not bad, f.at(), 'the result of the rename to %s is not examined' % (show(bad[0][3]) if bad else ''), key='rn:' + f.q)
            for D in made:
                if D in ren:
                    R.ob('no-removal', ('removed', ren[D]) not in u and not (k == 'exc' and ('removed', D) in u and False), f.at(), 'removes the published segment directory %s' % show(ren[D]), key='rm:' + f.q)
                elif k == 'exc' and any(x[0] == 'created' and under(x[1], D) for x in u) and tmpdir(u, D):
                    R.ob('cleanup', ('removed', D) in u, f.at(), 'an error after files were created leaves the directory %s behind' % show(D), key='leak:%s' % f.q)
    for c in sorted(guard_classes(p)):
        check_guard(R, p, c)
    R.assume('renameat2 with RENAME_NOREPLACE fails when the target exists')
    return __doc__


def check_guard(R, p, c):
    """a scope guard removes its tree in the state its constructor leaves it in; only the methods that disarm it change that"""
    dt = [f for f in p.fns.values() if f.cls == c and f.d.get('dtor')]
    cts = [f for f in p.fns.values() if f.cls == c and f.d.get('ctor') and f.blocks and not f.d.get('implicit')]
    R.saw(dt + cts)
    for f in dt:
        env = Env(f)
        rm = [i for i in f.walk() if f.nodes[i]['k'] == 'call' and f.nodes[i].get('q', '') in ('std::filesystem::remove_all', 'std::filesystem::remove')]
        ok, why = bool(rm), 'the destructor removes nothing'
        for i in rm:
            for atom, pol in guards(env, i):
                if atom[0] == 'call' and bname_of(atom) == 'empty' and not pol:
                    continue
                v = atom[1] if atom[0] == 'v' else None
                fld = v.split('.')[-1] if v and v.startswith('this.') else None
                for g in cts:
                    iv = ctor_value(p, g, fld) if fld else None
                    if iv is None or iv != pol:
                        ok, why = False, 'the destructor does not remove the directory of a guard in the state its constructor leaves it in (%s)' % show(atom)
                for g in p.fns.values():
                    if fld and g.cls == c and not g.d.get('ctor') and not g.d.get('dtor'):
                        for j in g.walk():
                            n = g.nodes[j]
                            if n['k'] == 'asg' and g.nodes[n['e']]['k'] == 'mem' and g.nodes[n['e']]['n'] == fld:
                                x = g.nodes[n['r']]
                                if x['k'] == 'lit' and (x['v'] == 'true') == pol:
                                    ok, why = False, '%s re-arms the guard it should disarm' % g.q
        R.ob('cleanup', ok, f.at(), why, key='guard:' + c)


def bname_of(t):
    return t[1].rsplit('::', 1)[-1]


def ctor_value(p, g, fld):
    """constant boolean a constructor gives the field, or None"""
    for it in g.d.get('inits', []):
        if it.get('m', '').rsplit('::', 1)[-1] == fld and it.get('init', -1) >= 0:
            x = g.nodes[it['init']]
            while x['k'] in ('silist', 'cast', 'init') and ('e' in x or x.get('a')):
                x = g.nodes[x['e'] if 'e' in x else x['a'][0]]
            if x['k'] == 'lit' and x['v'] in ('true', 'false'):
                return x['v'] == 'true'
    return None


def tmpdir(u, D):
    """D is a private build directory: files are created directly in it, and it is not an ancestor of a renamed path"""
    return any(x[0] == 'created' and parent_of(x[1]) == D and not (x[1][0] == 'join' and ('str', '.lock') in x[1]) for x in u) and not any(x[0] == 'ren' and (x[1] != D and under(x[1], D)) for x in u)
