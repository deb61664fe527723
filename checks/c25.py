"""C25: typestate of a worker's task slot over every path of its loop, the counting around the queue, the exit condition of the loop and the hand-over of the counters between scheduler and worker."""
import re
from vf.flow import *
from vf.util import *

HANDLE = re.compile(r'coroutine_handle\b')
UNITS = ('space', 'py')


def st(f, x):
    while x is not None and f.nodes[x]['k'] == 'cast':
        x = f.nodes[x]['e']
    return x


def ishandle(f, x):
    return x is not None and x >= 0 and bool(HANDLE.search(str(f.nodes[st(f, x)].get('t', '')))) and 'vector' not in str(f.nodes[st(f, x)].get('t', ''))


def null(f, x):
    x = st(f, x)
    n = f.nodes[x]
    if n['k'] == 'lit':
        return n['v'] == 'null'
    if n['k'] == 'ctor' and HANDLE.search(n.get('cls', '')):
        return not n.get('a') or null(f, n['a'][0])
    if n['k'] in ('init', 'silist'):
        return not n.get('a')
    return False


def fieldname(env, x, depth=0):
    """class field an expression denotes, looking through references, address-of and parameters"""
    while depth < 12:
        depth += 1
        f = env.fn
        x = st(f, x)
        n = f.nodes[x]
        if n['k'] == 'mem':
            return n['n']
        if n['k'] == 'un' and n['op'] in ('*', '&'):
            x = n['e']
            continue
        if n['k'] == 'call' and n.get('obj') is not None and n.get('op') in ('->', '*') or n['k'] == 'call' and n.get('obj') is not None and str(n.get('q', '')).endswith('::get'):
            x = n['obj']
            continue
        if n['k'] == 'ref' and 'd' in n:
            pk = env.params.get(n['d']) if hasattr(env, 'params') else None
            if pk is not None and env.up:
                e2 = env.up[0]
                if isinstance(pk, int):
                    env, x = e2, pk
                    continue
            sd = f.single_def(n['d'])
            if sd is None:
                return None
            x = sd
            continue
        return None
    return None


class Queue:
    """which functions give a handle to, or take one from, the queue of tasks"""

    def __init__(self, p):
        self.p = p
        self.m = {}

    def kind(self, f, n):
        if n['k'] != 'call' or n.get('obj') is None or n['obj'] < 0:
            return None
        q = str(n.get('q', '')).rsplit('::', 1)[-1].split('<')[0]
        t = str(f.nodes[st(f, n['obj'])].get('t', ''))
        if 'coroutine_handle' not in t or not re.search(r'(Queue|deque|queue|list)<', t):
            return None
        if q in ('enqueue', 'try_enqueue', 'push', 'push_back', 'push_front', 'emplace', 'emplace_back', 'emplace_front'):
            return 'push'
        if q in ('try_dequeue', 'wait_dequeue'):
            return 'pop'
        return None

    def reaches(self, g, what, seen=None):
        seen = set() if seen is None else seen
        if g is None or g.id in seen or g.body is None:
            return False
        seen.add(g.id)
        for n in g.nodes:
            if n and n['k'] == 'call':
                if self.kind(g, n) == what:
                    return True
                h = self.p.get(n['f']) if n.get('f') else None
                if h is not None and self.reaches(h, what, seen):
                    return True
        return False


def atomics(f, i):
    """('inc'|'load'|'store', object node, value node) of an access to an atomic"""
    n = f.nodes[i]
    if n['k'] == 'call' and n.get('obj') is not None:
        t = str(f.nodes[st(f, n['obj'])].get('t', ''))
        q = str(n.get('q', ''))
        if 'atomic' in t or 'atomic' in q:
            nm = q.rsplit('::', 1)[-1]
            if nm == 'fetch_add' or n.get('op') in ('++', '+='):
                return 'inc', n['obj'], n['a'][0] if n.get('a') and n.get('op') != '++' else None
            if nm == 'load' or nm.startswith('operator ') and n.get('op') is None:
                return 'load', n['obj'], None
            if nm in ('store', 'exchange') or n.get('op') == '=':
                return 'store', n['obj'], n['a'][0] if n.get('a') else None
            if nm.startswith('compare_exchange'):
                return 'store', n['obj'], n['a'][1] if len(n.get('a', [])) > 1 else None
            if nm in ('fetch_sub',) or n.get('op') == '--':
                return 'dec', n['obj'], None
    return None


class Put(Hooks):
    """u: (increments, pushes) on this path, each up to 2"""

    def __init__(self, Q, counter):
        self.Q, self.counter = Q, counter

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        k = self.Q.kind(f, n)
        if k == 'push':
            if u[1] == 0 and u[0] == 0 and self.first is None:
                self.first = f.at(i)
            return [('ok', (u[0], min(2, u[1] + 1)), None)]
        a = atomics(f, i)
        if a and fieldname(env, a[1]) == self.counter:
            if a[0] == 'inc':
                self.late = self.late or u[1] > 0
                return [('ok', (min(2, u[0] + 1), u[1]), None)]
            return [('ok', u, None)]
        return None

    first = None
    late = False

    def throws(self, F, env, i, u):
        return False

    def descend(self, F, env, i, g):
        return '/usr/' not in g.file


class Slot(Hooks):
    """u: (state of the slot in hand, counted, counts equal, told to stop)"""

    def __init__(self, R, Q, f, fin, tot, stop, idx):
        self.R, self.Q, self.f, self.fin, self.tot, self.stop, self.idx = R, Q, f, fin, tot, stop, idx
        self.bad = {}
        self.seen = set()

    def err(self, env, i, kind, msg):
        self.bad.setdefault(kind, (env.fn.at(i) if i is not None else self.f.at(), msg))

    def throws(self, F, env, i, u):
        return False

    def descend(self, F, env, i, g):
        return '/usr/' not in g.file and 'log' not in g.name.lower()

    def pending(self, env, i, u):
        s, c = u[0], u[1]
        if s == 'resumed':
            self.err(env, i, 'again', 'a task that was resumed is kept without asking whether it is done; it can be resumed after its end')
        elif s == 'done':
            self.err(env, i, 'again', 'a task that is done stays in its slot and is resumed again')
        elif s == 'given':
            self.err(env, i, 'again', 'a task is put into the queue and kept in its slot as well: two workers resume it')
        if s in ('done', 'cleared') and not c:
            self.err(env, i, 'uncounted', 'a task that is done is not counted as finished, so the workers never stop')

    def boundary(self, env, i, u):
        self.pending(env, i, u)
        return ('any', False, False, u[3])

    def slot(self, env, x):
        return ishandle(env.fn, x)

    def call(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        s, c, eq, stop = u
        q = str(n.get('q', ''))
        nm = q.rsplit('::', 1)[-1]
        ops = ([n['obj']] if n.get('obj') is not None and n['obj'] >= 0 else []) + list(n.get('a', []))
        if n.get('op') in ('==', '!=') and any(ishandle(f, x) for x in ops) and any(null(f, x) for x in ops):
            self.seen.add('test')
            return self.fork(u, n['op'] == '==')
        if HANDLE.search(q) and nm == 'operator bool':
            self.seen.add('test')
            return self.fork(u, False)
        if HANDLE.search(q) and (nm == 'resume' or n.get('op') == '()'):
            self.seen.add('resume')
            if s in ('any', 'empty', 'cleared'):
                self.err(env, i, 'again', 'a slot that may hold no task is resumed')
            elif s in ('resumed', 'done'):
                self.err(env, i, 'again', 'a task is resumed again without having been found not done')
            return [('ok', ('resumed', False, eq, stop), None)]
        if HANDLE.search(q) and nm == 'done':
            self.seen.add('done')
            if s in ('any', 'empty', 'cleared'):
                self.err(env, i, 'again', 'a slot that may hold no task is asked whether it is done')
                return None
            if s == 'done':
                return [('ok', u, True)]
            return [('ok', ('done', False, eq, stop), True), ('ok', ('held', False, eq, stop), False)]
        if self.Q.kind(f, n) == 'pop':
            self.seen.add('pop')
            if s in ('held', 'resumed'):
                self.err(env, i, 'lost', 'a task is taken from the queue over one that is not done')
            if s == 'any':
                self.err(env, i, 'lost', 'a task is taken from the queue into a slot that may hold one that is not done')
            self.pending(env, i, u)
            return [('ok', ('held', False, False, stop), True), ('ok', ('empty', False, eq, stop), False)]
        if self.Q.kind(f, n) == 'push':
            if s in ('held', 'resumed'):
                return [('ok', ('given', False, eq, stop), None)]
            return [('ok', u, None)]
        if n.get('op') == '=' and n.get('obj') is not None and ishandle(f, n['obj']):
            return [('ok', self.assign(env, i, n['a'][0], u), None)]
        a = atomics(f, i)
        if a:
            fl = fieldname(env, a[1])
            if fl == self.fin and a[0] == 'inc':
                self.seen.add('count')
                if s not in ('done', 'cleared') or c:
                    self.err(env, i, 'twice', 'a task is counted as finished %s' % ('more than once' if c else 'before it is done'))
                v = a[2]
                if v is not None and f.nodes[st(f, v)].get('v', f.nodes[st(f, v)].get('cv')) not in ('1', 1):
                    self.err(env, i, 'twice', 'a finished task is not counted as one')
                return [('ok', (s, True, eq, stop), None)]
            if fl == self.tot and a[0] in ('inc', 'dec', 'store') or fl == self.fin and a[0] != 'load':
                self.err(env, i, 'twice', 'the worker changes the number of tasks itself')
            return [('ok', u, None)]
        if n['k'] == 'call' and n.get('op') == '[]' and n.get('obj') is not None and 'coroutine_handle' in str(f.nodes[st(f, n['obj'])].get('t', '')):
            return [('ok', u, None)]
        return None

    def fork(self, u, eqnull):
        s, c, eq, stop = u
        if s in ('empty', 'cleared'):
            return [('ok', u, eqnull)]
        if s in ('held', 'resumed', 'done'):
            return [('ok', u, not eqnull)]
        return [('ok', ('empty', False, eq, stop), eqnull), ('ok', ('held', False, eq, stop), not eqnull)]

    def assign(self, env, i, v, u):
        s, c, eq, stop = u
        if null(env.fn, v):
            if s in ('held', 'resumed', 'any'):
                self.err(env, i, 'lost', 'a slot is emptied while its task may not be done')
            return ('empty' if s == 'given' else 'cleared' if s == 'done' else s if s == 'cleared' else 'empty', c, eq, stop)
        return u

    def elem(self, F, env, i, u):
        f = env.fn
        n = f.nodes[i]
        ds = set()
        if n['k'] == 'decl':
            ds = {v['d'] for v in n['vs'] if v.get('init', -1) is not None and v.get('init', -1) >= 0}
        elif n['k'] == 'asg':
            m = f.nodes[st(f, n['e'])]
            if m['k'] == 'ref' and 'd' in m:
                ds = {m['d']}
            if ishandle(f, n['e']) and n['op'] == '=':
                return self.assign(env, i, n['r'], u)
        elif n['k'] == 'un' and n['op'] in ('++', '--'):
            m = f.nodes[st(f, n['e'])]
            if m['k'] == 'ref' and 'd' in m:
                ds = {m['d']}
        if f.id == self.f.id and ds & self.idx:
            return self.boundary(env, i, u)
        return u

    def branch(self, F, env, cond, pol, u):
        s, c, eq, stop = u
        for a, b, pl in leaves(env, cond, pol):
            f = env.fn
            n = f.nodes[a]
            x = b if n['k'] in ('bin', 'call') else None
            if n['k'] == 'bin' and n['op'] in ('==', '!=', '>=', '<', '>', '<='):
                l, r = self.counts(env, n['e']), self.counts(env, n['r'])
                if {l, r} == {self.fin, self.tot}:
                    op = n['op'] if l == self.fin else {'>=': '<=', '<=': '>=', '<': '>', '>': '<'}.get(n['op'], n['op'])
                    if pl and op in ('==', '>=') or not pl and op in ('!=', '<'):
                        eq = True
            if n['k'] == 'call' and HANDLE.search(str(n.get('q', ''))) and str(n['q']).endswith('operator bool'):
                if s in ('empty', 'cleared') and pl or s in ('held', 'resumed', 'done') and not pl:
                    return None
            fl, v = self.flag(env, a)
            if fl in self.stop and self.stop[fl] == (pl == v):
                stop = True
        return (s, c, eq, stop)

    def counts(self, env, x):
        f = env.fn
        x = st(f, x)
        n = f.nodes[x]
        if n['k'] == 'ref' and 'd' in n and f.single_def(n['d']) is not None:
            x = st(f, f.single_def(n['d']))
            n = f.nodes[x]
        a = atomics(f, x) if n['k'] == 'call' else None
        return fieldname(env, a[1]) if a and a[0] == 'load' else None

    def flag(self, env, x):
        f = env.fn
        x = st(f, x)
        n = f.nodes[x]
        if n['k'] == 'call':
            a = atomics(f, x)
            if a and a[0] == 'load':
                return fieldname(env, a[1]), True
        if n['k'] == 'mem':
            return n['n'], True
        return None, None


def leaves(env, c, pol, depth=0):
    """conditions certain to have this outcome"""
    f = env.fn
    c = st(f, c)
    n = f.nodes[c]
    if n['k'] == 'un' and n['op'] == '!':
        return leaves(env, n['e'], not pol, depth)
    if n['k'] == 'bin' and n['op'] in ('&&', '||'):
        if pol == (n['op'] == '&&'):
            return leaves(env, n['e'], pol, depth) + leaves(env, n['r'], pol, depth)
        return []
    if n['k'] == 'ref' and 'd' in n and depth < 4 and f.single_def(n['d']) is not None and f.nodes[st(f, f.single_def(n['d']))]['k'] in ('bin', 'un', 'call', 'ref'):
        return leaves(env, f.single_def(n['d']), pol, depth + 1)
    if n['k'] == 'call' and n.get('f') and depth < 4:
        g = env.fn.p.get(n['f']) if hasattr(env.fn, 'p') else None
        if g is not None and g.body is not None and '/usr/' not in g.file:
            rs = [m for m in g.nodes if m and m['k'] == 'ret' and 'e' in m]
            if len(rs) == 1:
                return [(a, b, pl) for a, b, pl in leaves(child_env(env, c, g), rs[0]['e'], pol, depth + 1)] if False else []
    return [(c, c, pol)]


def index_vars(f):
    """the locals the selection of a slot is computed from"""
    out = set()
    work = []
    for i, n in enumerate(f.nodes):
        if n and n['k'] == 'call' and n.get('op') == '[]' and n.get('obj') is not None and 'coroutine_handle' in str(f.nodes[st(f, n['obj'])].get('t', '')) or n and n['k'] == 'call' and str(n.get('q', '')).endswith('::at') and 'coroutine_handle' in str(n.get('q', '')):
            work += list(n['a'])
    refs = False
    for i, n in enumerate(f.nodes):
        if n and n['k'] == 'loop' and n.get('lk') == 'range' or n and n['k'] == 'loop' and n.get('range') is not None:
            refs = True
    while work:
        x = work.pop()
        for y in f.walk(x):
            n = f.nodes[y]
            if n['k'] == 'ref' and 'd' in n and n['d'] not in out:
                v = f.vars.get(str(n['d']), {})
                if v.get('k') == 'local':
                    out.add(n['d'])
                    for val, kind, node in f.defs().get(n['d'], []):
                        if val is not None and val >= 0:
                            work.append(val)
    return out


def run(R):
    R.rule('counted', 'a task given to the scheduler is counted once and put into the queue once, counted no later than it can be taken', 1)
    R.rule('loop', 'a worker resumes only a task that is not done, gives up no task that is not done and counts each task once when it is done', 4)
    R.rule('leaves', 'a worker leaves its loop only when it was told to stop and all counted tasks are finished', 1)
    R.rule('queue', 'the queue gives and takes exactly the handle it is asked to', 2)
    R.rule('wired', 'the counters, the queue and the workers are the ones the scheduler owns, one worker started per processor', 3)
    R.rule('joined', 'shutting down stops and joins every started worker, whichever of join() and destruction comes first and only once', 3)
    R.rule('once', 'a task that suspends is resumed by the worker that holds it only', 1)
    R.rule('users', 'every task of a batch is scheduled, workers exist, and they are joined before the results are looked at', 2)
    p = R.program('space')
    Q = Queue(p)
    S = meths(p, 'alaya::Scheduler')
    W = meths(p, 'alaya::Worker')
    T = meths(p, 'alaya::TaskQueue')
    if not S or not W or not T:
        raise AnalysisError('scheduler, worker or queue')
    R.saw(S + W + T)
    sc = p.cls('alaya::Scheduler')
    # wiring: constructor arguments of the worker
    wctor = [g for g in W if g.d.get('ctor') and len(g.params) >= 4]
    if not wctor:
        raise AnalysisError('construction of a worker')
    wctor = wctor[0]
    init = {}
    for m in wctor.d.get('inits', []):
        if 'm' not in m:
            continue
        e = m.get('init')
        if e is None or e < 0:
            continue
        x = st(wctor, e)
        n = wctor.nodes[x]
        if n['k'] in ('init', 'ctor') and n.get('a') and len(n['a']) == 1:
            x = st(wctor, n['a'][0])
            n = wctor.nodes[x]
        if n['k'] == 'ref' and n.get('d') in wctor.params:
            init[wctor.params.index(n['d'])] = m['m'].rsplit('::', 1)[-1]
    runs = [g for g in W if Q.reaches(g, 'pop') and any(n and n['k'] == 'loop' for n in g.nodes) and started(p, W, g)]
    if not runs:
        raise AnalysisError('the loop of a worker')
    loop = runs[0]
    puts = [g for g in S if Q.reaches(g, 'push') and not g.d.get('ctor')]
    # the places a worker is made
    sites = []
    for g in S:
        for i, n in enumerate(g.nodes):
            if n and n['k'] in ('call', 'ctor', 'new') and (n['k'] == 'call' and n.get('q') in ('std::make_unique', 'std::make_shared') and '<alaya::Worker>' in str(n.get('t', '')) or n['k'] == 'ctor' and n.get('cls') == 'alaya::Worker' and not n.get('move')):
                if len(n.get('a', [])) >= 4:
                    sites.append((g, i, n))
    if not sites:
        raise AnalysisError('where workers are made')
    g0, i0, n0 = sites[0]
    give = {}
    for k, a in enumerate(n0['a']):
        fl = fieldname(Env(g0), a)
        if fl is not None:
            give[k] = fl
    w2s = {init[k]: give[k] for k in init if k in give}
    # roles: the worker's counter it adds to is 'finished'
    incs = {fieldname(Env(g), atomics(g, i)[1]) for g in reach(p, loop, W) for i in range(len(g.nodes)) if g.nodes[i] and g.nodes[i]['k'] == 'call' and atomics(g, i) and atomics(g, i)[0] == 'inc'}
    cnt = {fieldname(Env(g), atomics(g, i)[1]) for g in S for i in range(len(g.nodes)) if g.nodes[i] and g.nodes[i]['k'] == 'call' and atomics(g, i) and atomics(g, i)[0] == 'inc'}
    ptrs = [x['n'] for x in p.cls('alaya::Worker')['fields'] if 'atomic' in str(x.get('t', '')) and '*' in str(x.get('t', '')) or 'atomic' in str(x.get('t', '')) and '&' in str(x.get('t', ''))]
    fin = next((x for x in ptrs if x in incs), None)
    tot = next((x for x in ptrs if x != fin and x not in incs), None)
    R.ob('wired', fin is not None and tot is not None, loop.at(), 'the worker adds to %s of its two counters' % ('none' if fin is None else 'both'), key='roles')
    if fin is None or tot is None:
        return
    stot, sfin = w2s.get(tot), w2s.get(fin)
    R.ob('wired', stot is not None and sfin is not None and stot != sfin and stot in cnt and sfin not in cnt, g0.at(i0), 'the worker gets %s as the number of tasks and %s as the number of finished ones, while scheduling counts %s' % (stot, sfin, ', '.join(sorted(map(str, cnt)))), key='counters')
    wq = [x['n'] for x in p.cls('alaya::Worker')['fields'] if 'TaskQueue' in str(x.get('t', ''))]
    sq = [x['n'] for x in sc['fields'] if 'TaskQueue' in str(x.get('t', ''))]
    R.ob('wired', bool(wq and sq and w2s.get(wq[0]) == sq[0]), g0.at(i0), 'the worker does not take tasks from the queue of the scheduler', key='queue')
    # scheduling
    for g in sorted(puts, key=lambda g: g.line):
        if g.d.get('lambda') or not g.params or not any(HANDLE.search(str(g.vars[str(d)].get('t', ''))) for d in g.params):
            continue
        H = Put(Q, stot)
        F = Flow(p, H)
        outs = {u for kind, u, _ in F.run(g, (0, 0), Env(g)) if kind == 'ok'}
        R.points(F.points) if callable(getattr(R, 'points', None)) else None
        if g.name == 'schedule' or any(u[0] for u in outs):
            ok = outs == {(1, 1)} and not H.late
            why = 'counts a task after it can be taken and finished' if H.late and outs == {(1, 1)} else 'can count a task %s and put it into the queue %s' % (times({u[0] for u in outs}), times({u[1] for u in outs}))
            R.ob('counted', ok, g.at(), '%s %s' % (g.q, why), key=g.q)
        else:
            R.ob('counted', outs == {(0, 1)}, g.at(), '%s can put a task into the queue %s' % (g.q, times({u[1] for u in outs})), key=g.q)
        for i, n in enumerate(g.nodes):
            if n and n['k'] == 'call' and (Q.kind(g, n) == 'push' or n.get('f') and Q.reaches(p.get(n['f']), 'push')) and n.get('a'):
                a = st(g, n['a'][0])
                while g.nodes[a]['k'] in ('call', 'ctor') and g.nodes[a].get('a') and ('move' in str(g.nodes[a].get('q', '')) or g.nodes[a]['k'] == 'ctor'):
                    a = st(g, g.nodes[a]['a'][0])
                ok = g.nodes[a]['k'] == 'ref' and g.nodes[a].get('d') in g.params
                R.ob('counted', ok, g.at(i), '%s puts something other than the task it was given into the queue' % g.q, key='which:' + g.q)
    if not any(g.name == 'schedule' for g in puts):
        raise AnalysisError('scheduling')
    # the queue
    for g in sorted(T, key=lambda g: g.line):
        for what in ('push', 'pop'):
            if g.d.get('ctor') or g.d.get('dtor') or not Q.reaches(g, what):
                continue
            queue(R, p, Q, g, what)
    # stop flags
    stop = {}
    joiners = [g for g in W if any(n and n['k'] == 'call' and str(n.get('q', '')) == 'std::thread::join' for n in g.nodes)]
    for g in joiners + [h for h in S if not h.d.get('ctor')]:
        for i, n in enumerate(g.nodes):
            e = v = None
            if n and n['k'] == 'asg' and n.get('op') == '=':
                e, v = fieldname(Env(g), n['e']), n['r']
            elif n and n['k'] == 'call':
                a = atomics(g, i)
                if a and a[0] == 'store':
                    e, v = fieldname(Env(g), a[1]), a[2]
            if e and v is not None:
                m = g.nodes[st(g, v)]
                if m.get('v') in ('true', 'false', True, False) or m.get('cv') in ('0', '1', 0, 1):
                    stop[e] = m.get('v') in ('true', True) or m.get('cv') in ('1', 1)
    wf = {x['n']: str(x.get('t', '')) for x in p.cls('alaya::Worker')['fields']}
    stop = {k: v for k, v in stop.items() if k in wf and 'bool' in wf[k] or w2s.get(k) in stop}
    # the loop
    H = Slot(R, Q, loop, fin, tot, stop, index_vars(loop))
    if not H.idx:
        H.idx = set()
        R.notes.append('the slot is not chosen by an index')
    F = Flow(p, H)
    outs = F.run(loop, ('any', False, False, False), Env(loop))
    R.points(F.points) if callable(getattr(R, 'points', None)) else None
    R.saw([p.get(x) for x in F.visited if p.get(x)])
    for need in ('resume', 'done', 'pop', 'count'):
        if need not in H.seen:
            R.bad('loop', loop.at(), 'the loop of a worker never %s' % {'resume': 'resumes a task', 'done': 'asks whether a task is done', 'pop': 'takes a task from the queue', 'count': 'counts a finished task'}[need], key='never:' + need)
    for kind in ('again', 'lost', 'uncounted', 'twice'):
        b = H.bad.get(kind)
        R.ob('loop', b is None, b[0] if b else loop.at(), b[1] if b else '', key=kind)
    oks = [u for kind, u, _ in outs if kind == 'ok']
    if not oks:
        R.bad('leaves', loop.at(), 'a worker never leaves its loop', key='never')
    bad = [u for u in oks if not u[2]]
    R.ob('leaves', not bad, loop.at(), 'a worker can leave its loop although a counted task is not finished', key='unfinished')
    bad = [u for u in oks if not u[3]]
    R.ob('leaves', not bad, loop.at(), 'a worker leaves its loop when it finds nothing to do, although it was not told to stop: tasks scheduled later are never run', key='idle')
    for k in stop:
        if any(u[3] for u in oks):
            R.ob('leaves', 'atomic' in wf.get(k, ''), loop.at(), 'the worker is told to stop through %s, which another thread writes without synchronisation' % k, key='flag:' + k)
    # joining
    for g in joiners:
        must_join(R, p, g, stop, 'std::thread::join')
    ends = [g for g in S if g.d.get('dtor') or g.name == 'join']
    for g in ends:
        ok, why = ends_all(p, g, W)
        R.ob('joined', ok, g.at(), '%s %s' % (g.q, why), key=g.q)
    # one worker per processor, each started
    begin = [g for g in S if any(n and n['k'] == 'call' and n.get('f') and p.get(n['f']) in starters(p, W) for n in g.nodes)]
    R.ob('wired', bool(begin), g0.at(i0), 'the workers are never started', key='start')
    for g in begin:
        ls = [(i, n) for i, n in enumerate(g.nodes) if n and n['k'] == 'loop']
        c = [i for i, n in enumerate(g.nodes) if n and n['k'] == 'call' and n.get('f') and p.get(n['f']) in starters(p, W)]
        ok = len(c) == 1 and any(c[0] in set(g.walk(n['body'])) and plain(g, n['body'], c[0]) for i, n in ls)
        R.ob('wired', ok, g.at(c[0]), '%s does not start each worker once' % g.q, key='starts')
    # a suspended task has one owner
    for c in p.classes.values():
        if not c.get('file', '').endswith(('executor/scheduler.hpp', 'executor/worker.hpp')) and 'executor' not in c.get('file', ''):
            continue
        for f in p.fns.values():
            if f.cls == c['q'] and f.name == 'await_suspend':
                R.saw([f])
                R.ob('once', not Q.reaches(f, 'push'), f.at(), 'a task that awaits %s is put into the queue although the worker that runs it keeps it: two workers resume it' % c['q'], key=c['q'])
    R.good('once', loop.at())
    users(R)
    R.assume('the queue of concurrentqueue is linearizable: each element put in is taken out at most once, and every element is found once no one takes any other', 'no memory exhaustion', 'tasks are scheduled by threads that finish doing so before they join the scheduler')


def times(s):
    return ' or '.join({0: 'never', 1: 'once', 2: 'more than once'}[x] for x in sorted(s))


def meths(p, q):
    return sorted((f for f in p.fns.values() if f.cls == q and f.body is not None and not f.d.get('implicit')), key=lambda f: (f.line, f.id))


def reach(p, f, within):
    out, work = [], [f]
    while work:
        g = work.pop()
        if g in out:
            continue
        out.append(g)
        for n in g.nodes:
            if n and n['k'] == 'call' and n.get('f') and p.get(n['f']) in within:
                work.append(p.get(n['f']))
    return out


def started(p, W, g):
    """g runs on the thread of a worker"""
    for h in W:
        for i, n in enumerate(h.nodes):
            if n and n['k'] == 'ctor' and n.get('cls') == 'std::thread' or n and n['k'] == 'call' and 'thread' in str(n.get('q', '')):
                for a in n.get('a', []):
                    for y in h.walk(a):
                        m = h.nodes[y]
                        if m.get('f') == g.id or m['k'] == 'mem' and m.get('n') == g.name or m['k'] == 'ref' and m.get('isfn') and str(m.get('q', '')) == g.q:
                            return True
                        if m['k'] == 'lam':
                            l = p.get(m.get('f')) if isinstance(m.get('f'), str) else None
                            if l is not None and any(x and x['k'] == 'call' and x.get('f') == g.id for x in l.nodes):
                                return True
    return False


def starters(p, W):
    return [g for g in W if any(n and n['k'] == 'ctor' and n.get('cls') == 'std::thread' and n.get('a') for n in g.nodes)]


def plain(f, body, x):
    """x is executed on every iteration of the loop with this body"""
    y = f.parent().get(x)
    while y is not None and y != body:
        if f.nodes[y]['k'] in ('if', 'switch', 'loop', 'cond', 'lam', 'try') or f.nodes[y]['k'] == 'bin' and f.nodes[y]['op'] in ('&&', '||'):
            return False
        y = f.parent().get(y)
    for z in f.walk(body):
        if f.nodes[z]['k'] in ('break', 'continue', 'ret'):
            return False
    return True


def queue(R, p, Q, g, what):
    class H(Hooks):
        def call(self, F, env, i, u):
            n = env.fn.nodes[i]
            if Q.kind(env.fn, n) == what:
                if what == 'pop':
                    return [('ok', min(2, u + 1), True), ('ok', u, False)]
                return [('ok', min(2, u + 1), None)]
            return None

        def throws(self, F, env, i, u):
            return False

        def descend(self, F, env, i, h):
            return '/usr/' not in h.file
    F = Flow(p, H())
    outs = F.run(g, 0, Env(g))
    if what == 'push':
        us = {u for k, u, r in outs if k == 'ok'}
        ok, why = us == {1}, 'can put a task in %s' % times(us)
    else:
        us = {(u, r) for k, u, r in outs if k == 'ok'}
        ok, why = us <= {(1, True), (0, False)} and (1, True) in us, 'does not say whether it took a task, or takes more than one'
    R.ob('queue', ok, g.at(), '%s %s' % (g.q, why), key=g.q)
    for i, n in enumerate(g.nodes):
        if n and n['k'] == 'call' and Q.kind(g, n) == what and n.get('a'):
            a = st(g, n['a'][0])
            while g.nodes[a]['k'] in ('call', 'ctor') and g.nodes[a].get('a'):
                a = st(g, g.nodes[a]['a'][0])
            ok = g.nodes[a]['k'] == 'ref' and g.nodes[a].get('d') in g.params
            R.ob('queue', ok, g.at(i), '%s passes on something other than the task it was given' % g.q, key='which:' + g.q)


def must_join(R, p, g, stop, what):
    """on every way through g the thread is joined unless it cannot be, after the flag was set"""
    class H(Hooks):
        early = None

        def call(self, F, env, i, u):
            f = env.fn
            n = f.nodes[i]
            q = str(n.get('q', ''))
            if q == what:
                if not u[0] and self.early is None:
                    self.early = f.at(i)
                return [('ok', (u[0], True), None)]
            if q == 'std::thread::joinable':
                return [('ok', u, True), ('ok', (u[0], True), False)]
            a = atomics(f, i)
            if a and a[0] == 'store' and fieldname(env, a[1]) in stop:
                return [('ok', (True, u[1]), None)]
            return None

        def elem(self, F, env, i, u):
            n = env.fn.nodes[i]
            if n['k'] == 'asg' and fieldname(env, n['e']) in stop:
                return (True, u[1])
            return u

        def throws(self, F, env, i, u):
            return False
    h = H()
    F = Flow(p, h)
    outs = {u for k, u, r in F.run(g, (not stop, False), Env(g)) if k == 'ok'}
    R.ob('joined', all(u[1] for u in outs), g.at(), '%s can return without having joined the thread' % g.q, key='thread:' + g.q)
    R.ob('joined', h.early is None, h.early or g.at(), '%s waits for the thread before telling it to stop' % g.q, key='told:' + g.q)


def ends_all(p, g, W):
    """(ok, why): g joins every worker, exactly when it is the first to shut down"""
    J = [h for h in W if any(n and n['k'] == 'call' and str(n.get('q', '')) == 'std::thread::join' for n in h.nodes)]
    for h in [g] + [p.get(n['f']) for n in g.nodes if n and n['k'] == 'call' and n.get('f') and p.get(n['f']) is not None and p.get(n['f']).cls == g.cls]:
        for i, n in enumerate(h.nodes):
            if not (n and n['k'] == 'loop'):
                continue
            c = [x for x in h.walk(n['body']) if h.nodes[x]['k'] == 'call' and h.nodes[x].get('f') and p.get(h.nodes[x]['f']) in J]
            if not c:
                continue
            if not plain(h, n['body'], c[0]):
                return False, 'does not join every worker'
            if n.get('range') is None and n.get('var') is None and n.get('lk') != 'range':
                t = h.text(n['c']) if n.get('c') is not None and n['c'] >= 0 else ''
                if 'size' not in t and 'end' not in t:
                    return False, 'does not join every worker'
            # gate: the exchange of the shutdown flag
            y = h.parent().get(i)
            last = i
            gate = None
            while y is not None:
                m = h.nodes[y]
                if m['k'] == 'if':
                    gate = gate or once(h, m['c'], last == m['th'] or last in set(h.walk(m['th'])))
                    if once(h, m['c'], last in set(h.walk(m['th']))) is None:
                        return False, 'joins the workers only in some cases'
                last, y = y, h.parent().get(y)
            for x, m in enumerate(h.nodes):
                if m and m['k'] == 'if' and i not in set(h.walk(x)) and any(h.nodes[z]['k'] == 'ret' for z in h.walk(x)):
                    o = once(h, m['c'], not any(h.nodes[z]['k'] == 'ret' for z in h.walk(m['th'])))
                    if o is None:
                        return False, 'joins the workers only in some cases'
                    gate = gate or o
            return True, ''
    return False, 'does not join the workers'


def once(f, c, pol):
    """the condition, having this outcome, says that this is the first call: True; the second: None"""
    c = st(f, c)
    n = f.nodes[c]
    if n['k'] == 'un' and n['op'] == '!':
        return once(f, n['e'], not pol)
    if n['k'] == 'ref' and 'd' in n and f.single_def(n['d']) is not None:
        return once(f, f.single_def(n['d']), pol)
    if n['k'] == 'call':
        nm = str(n.get('q', '')).rsplit('::', 1)[-1]
        if nm.startswith('compare_exchange_strong'):
            return True if pol else None
        if nm in ('exchange', 'test_and_set'):
            return True if not pol else None
    return None


def users(R):
    p = R.program('py')
    done = set()
    for f in sorted(p.fns.values(), key=lambda f: (f.rel(), f.line, f.id)):
        if f.body is None or '/usr/' in f.file or f.cls and f.cls.startswith('alaya::Scheduler'):
            continue
        sch = [i for i, n in enumerate(f.nodes) if n and n['k'] == 'call' and str(n.get('q', '')) == 'alaya::Scheduler::schedule' and n.get('a')]
        if not sch:
            continue
        R.saw([f])
        key = '%s:%s' % (f.rel(), f.name)
        ctor = [i for i, n in enumerate(f.nodes) if n and (n['k'] == 'call' and n.get('q') in ('std::make_unique', 'std::make_shared') and '<alaya::Scheduler>' in str(n.get('t', '')) or n['k'] == 'ctor' and n.get('cls') == 'alaya::Scheduler')]
        for i in ctor:
            a = f.nodes[i].get('a', [])
            ok = bool(a) and nonempty(f, a[0])
            R.ob('users', ok, f.at(i), '%s can make a scheduler without any worker: its tasks are never run and the results stay as they were initialised' % f.name, key='workers:' + key)
        beg = [i for i, n in enumerate(f.nodes) if n and n['k'] == 'call' and str(n.get('q', '')) == 'alaya::Scheduler::begin']
        joi = [i for i, n in enumerate(f.nodes) if n and n['k'] == 'call' and str(n.get('q', '')) == 'alaya::Scheduler::join']
        R.ob('users', bool(beg) and always(f, beg[0]), f.at(beg[0]) if beg else f.at(sch[0]), '%s does not always start the workers it gives tasks to' % f.name, key='begin:' + key)
        R.ob('users', bool(joi) and always(f, joi[0]), f.at(joi[0]) if joi else f.at(sch[0]), '%s does not wait for the tasks it has scheduled' % f.name, key='join:' + key)
        for i in sch:
            y = i
            lp = None
            while y is not None:
                if f.nodes[y]['k'] == 'loop':
                    lp = y
                    break
                y = f.parent().get(y)
            ok = lp is not None and plain(f, f.nodes[lp]['body'], i) and always(f, lp) or lp is None and always(f, i)
            R.ob('users', ok, f.at(i), '%s does not give every task it has made to the scheduler' % f.name, key='each:' + key)
            # the scheduled handle is that of the task made in this iteration
            n = f.nodes[i]
            mk = [x for x in f.walk(f.nodes[lp]['body'])] if lp is not None else []
            made = [x for x in mk if f.nodes[x]['k'] == 'call' and re.search(r'::(emplace_back|push_back)$', str(f.nodes[x].get('q', ''))) and 'coro::task' in str(f.nodes[st(f, f.nodes[x]['obj'])].get('t', ''))]
            if made:
                t = f.text(n['a'][0])
                R.ob('users', 'back' in t or any(f.nodes[y]['k'] == 'ref' and single_from(f, y, made) for y in f.walk(n['a'][0])), f.at(i), '%s schedules something other than the task it has just made' % f.name, key='which:' + key)


def single_from(f, y, made):
    sd = f.single_def(f.nodes[y]['d']) if 'd' in f.nodes[y] else None
    return sd is not None and (any(m in set(f.walk(sd)) for m in made) or 'back' in f.text(sd) or 'handle' in f.text(sd))


def always(f, i):
    """no condition decides whether i is executed, apart from loops it is not in and constant ones"""
    last, y = i, f.parent().get(i)
    while y is not None:
        n = f.nodes[y]
        if n['k'] in ('switch', 'loop', 'lam', 'cond') and last != n.get('init'):
            return False
        if n['k'] == 'if' and not n.get('cx'):
            return False
        last, y = y, f.parent().get(y)
    return True


def nonempty(f, x):
    """the vector is filled by a loop that runs at least once, or has a positive size"""
    x = st(f, x)
    n = f.nodes[x]
    if n['k'] != 'ref' or 'd' not in n:
        return False
    d = n['d']
    for val, kind, node in f.defs().get(d, []):
        if kind == 'decl' and val is not None and val >= 0:
            m = f.nodes[st(f, val)]
            if m['k'] == 'ctor' and m.get('a') and atleast1(f, m['a'][0]):
                return True
            if m['k'] in ('init', 'ctor') and any(f.nodes[z]['k'] == 'lit' for z in f.walk(st(f, val))) and m.get('a') and f.nodes[st(f, m['a'][0])]['k'] in ('silist', 'init'):
                return True
    for i, m in enumerate(f.nodes):
        if not (m and m['k'] == 'call' and m.get('obj') is not None and f.nodes[st(f, m['obj'])].get('d') == d):
            continue
        nm = str(m.get('q', '')).rsplit('::', 1)[-1].split('<')[0]
        if nm in ('push_back', 'emplace_back'):
            y = f.parent().get(i)
            lp = None
            cond = False
            while y is not None and lp is None:
                if f.nodes[y]['k'] == 'loop':
                    lp = y
                elif f.nodes[y]['k'] in ('if', 'switch', 'cond'):
                    cond = True
                y = f.parent().get(y)
            if cond:
                c = None
                yy = f.parent().get(i)
                while yy is not None:
                    if f.nodes[yy]['k'] == 'if' and re.search(r'empty\(\)', f.text(f.nodes[yy]['c'])):
                        return True
                    yy = f.parent().get(yy)
                continue
            if lp is None:
                return True
            L = f.nodes[lp]
            c = L.get('c')
            if c is not None and c >= 0:
                cn = f.nodes[st(f, c)]
                if cn['k'] == 'bin' and cn['op'] in ('<', '!=') and atleast1(f, cn['r']):
                    return True
                if cn['k'] == 'bin' and cn['op'] == '>' and atleast1(f, cn['e']):
                    return True
        if nm in ('resize', 'assign') and m.get('a') and atleast1(f, m['a'][0]):
            return True
    return False


def atleast1(f, x, depth=0):
    """the number is provably positive: a positive constant, a maximum with one, or one of these chosen where it would be zero"""
    x = st(f, x)
    n = f.nodes[x]
    v = n.get('cv', n.get('v') if n['k'] == 'lit' else None)
    if v is not None:
        try:
            return int(v) > 0
        except (TypeError, ValueError):
            return False
    if n['k'] == 'call' and str(n.get('q', '')).startswith('std::max'):
        return any(atleast1(f, a, depth + 1) for a in n.get('a', []))
    if n['k'] == 'call' and str(n.get('q', '')).startswith(('std::min', 'std::clamp')):
        return all(atleast1(f, a, depth + 1) for a in n.get('a', [])[:2])
    if n['k'] == 'cond':
        if atleast1(f, n['a1'], depth + 1) and atleast1(f, n['a2'], depth + 1):
            return True
        c = f.nodes[st(f, n['c'])]
        t = f.text(n['c']).replace(' ', '')
        z, nz = (n['a1'], n['a2']) if re.search(r'==0', t) else (n['a2'], n['a1']) if re.search(r'!=0|>0', t) or c['k'] == 'ref' else (None, None)
        if z is not None and atleast1(f, z, depth + 1):
            return f.text(nz).replace(' ', '') in t
        return False
    if n['k'] == 'ref' and 'd' in n and depth < 5:
        d = n['d']
        defs = [v for v, k, _ in f.defs().get(d, []) if v is not None]
        isparam = d in f.params
        if defs and not isparam:
            return all(v >= 0 and atleast1(f, v, depth + 1) for v in defs)
        if isparam:
            for v, k, node in f.defs().get(d, []):
                if k in ('asg', 'decl') or v is not None and v >= 0:
                    if v is not None and v >= 0 and atleast1(f, v, depth + 1) and (always(f, node) or zero_guard(f, node, d)):
                        return True
            # thrown out when zero
            for i, m in enumerate(f.nodes):
                if m and m['k'] == 'if' and any(f.nodes[z]['k'] in ('throw', 'ret') for z in f.walk(m['th'])) and re.search(r'\b%s==0|!%s\b|\b%s<1|\b%s<=0' % ((f.vars[str(d)]['n'],) * 4), f.text(m['c']).replace(' ', '')):
                    return True
    return False


def zero_guard(f, node, d):
    y = f.parent().get(node)
    nm = f.vars[str(d)]['n']
    while y is not None:
        if f.nodes[y]['k'] == 'if':
            return bool(re.search(r'\b%s==0|!%s\b|\b%s<1|\b%s<=0' % (nm, nm, nm, nm), f.text(f.nodes[y]['c']).replace(' ', '')))
        y = f.parent().get(y)
    return False
