"""Which exceptions can leave a function: throw expressions and throwing library calls, closed over the call graph, minus what handlers catch. Running out of memory is not considered."""
import re
from vf.flow import *

EXT = re.compile(r'(^std::(stoi|stol|stoll|stoul|stoull|stof|stod|stold|rethrow_exception|get|any_cast|visit|vformat|__throw_\w+)$)'
                 r'|^std::(basic_string|vector|deque|array|map|unordered_map|basic_string_view)(<.*>)?::at$|::(optional|expected)(<.*>)?::value$'
                 r'|^std::(shared_|)future(<.*>)?::get$|^std::bad_\w+::')
FSREF = re.compile(r'^std::filesystem::(\w+)$')
FSPURE = {'path', 'operator/', 'operator==', 'operator!=', 'operator<', 'operator<<', 'swap', 'is_regular_file', 'is_directory', 'exists', 'status', 'is_symlink'}


class Throws:
    def __init__(self, p, ext=None):
        self.p, self.memo, self.busy, self.cut = p, {}, set(), False
        self.extra = ext

    def may(self, f):
        """chain [(fn, node, what)] to an exception that leaves f, or None"""
        if f is None:
            return None
        if f.id in self.memo:
            return self.memo[f.id]
        if f.id in self.busy:
            self.cut = True
            return None
        if f.d.get('nt'):
            self.memo[f.id] = None
            return None
        self.busy.add(f.id)
        old, self.cut = self.cut, False
        r = self.within(f, sorted(self.live(f)))
        self.busy.discard(f.id)
        if r or not self.cut or not self.busy:
            self.memo[f.id] = r
        self.cut = old or self.cut
        return r

    def live(self, f):
        """nodes of the function's own body that are evaluated (not in discarded constexpr branches, unevaluated operands or nested lambdas)"""
        if '_live' not in f.__dict__:
            out, todo = set(), [f.body] if f.body is not None else []
            for x in f.d.get('inits', []):
                if isinstance(x.get('init'), int) and x['init'] >= 0:
                    todo.append(x['init'])
            while todo:
                i = todo.pop()
                if i is None or i < 0 or i in out:
                    continue
                n = f.nodes[i]
                out.add(i)
                if n['k'] == 'sizeof':
                    continue
                if n['k'] == 'if' and n.get('cx') and f.nodes[n['c']].get('cv') is not None:
                    cv = str(f.nodes[n['c']]['cv'])
                    todo.append(n['th'] if cv not in ('0', 'false') else n.get('el'))
                    continue
                todo.extend(f.kids(i))
            f.__dict__['_live'] = out
        return f.__dict__['_live']

    def within(self, f, nodes, top=None):
        """first node among these whose exception leaves them; handlers of try blocks inside 'top' (or f) count"""
        for i in nodes:
            w = self.node(f, i)
            if w and not self.caught(f, i, w, top):
                return w
        return None

    def node(self, f, i):
        n = f.nodes[i]
        k = n['k']
        if k == 'throw':
            return [(f, i, 'throws %s' % str(n.get('tt') or 'again'))]
        if k in ('call', 'ctor'):
            if n.get('nt') and self.p.get(n.get('f')) is None:
                return None
            g = self.p.get(n.get('f'))
            if g is not None and (g.blocks or g.body is not None) and not g.d.get('defaulted'):
                for h in self.targets(g, n):
                    w = self.may(h)
                    if w:
                        return [(f, i, 'calls %s' % h.q)] + w
                return None
            if g is not None and n.get('virt'):
                for h in self.targets(g, n):
                    w = self.may(h)
                    if w:
                        return [(f, i, 'calls %s' % h.q)] + w
            w = self.external(f, i)
            if w:
                return [(f, i, w)]
            # callables handed to library calls run there
            if k == 'call' and not str(n.get('q', '')).startswith('std::function') and not re.search(r'thread|async|enqueue|emplace|push', str(n.get('q', ''))):
                for a in n.get('a', []):
                    x = a
                    while f.nodes[x]['k'] == 'cast':
                        x = f.nodes[x]['e']
                    if f.nodes[x]['k'] == 'lam':
                        fs = f.nodes[x].get('f')
                        for h in ([fs] if fs else f.nodes[x].get('gen', [])):
                            w = self.may(self.p.get(h))
                            if w:
                                return [(f, i, 'runs a callable')] + w
        return None

    def targets(self, g, n):
        out = [g] if (g.blocks or g.body is not None) else []
        if n.get('virt'):
            for h in self.p.fns.values():
                if h is not g and g.q in h.d.get('ov', ()) and len(h.params) == len(g.params) and (h.blocks or h.body is not None):
                    out.append(h)
        return out

    def external(self, f, i):
        n = f.nodes[i]
        q = str(n.get('q', '')) or str(n.get('cls', ''))
        if n['k'] == 'ctor':
            if re.match(r'std::j?thread$', str(n.get('cls', ''))) and len(n.get('a', [])) >= 1 and not n.get('move') and not n.get('copy'):
                return 'starts a thread'
            if re.match(r'std::filesystem::.*iterator$', str(n.get('cls', ''))) and n.get('a') and not self.ec(f, n) and not n.get('copy') and not n.get('move'):
                return 'calls %s' % n['cls']
            return None
        if self.extra:
            w = self.extra(f, i)
            if w:
                return w
        m = FSREF.match(q)
        if m and m.group(1) not in FSPURE and not self.ec(f, n):
            return 'calls %s' % q
        if EXT.search(q):
            return 'calls %s' % q
        if q.startswith('std::vector<std::thread') or q.startswith('std::vector') and 'obj' in n and 'std::thread' in str(f.nodes[n['obj']].get('t', '')):
            if q.rsplit('::', 1)[-1] in ('emplace_back', 'push_back') and any('thread' not in str(f.nodes[a].get('t', '')) for a in n.get('a', [])):
                return 'starts a thread'
        if q.startswith('pybind11::'):
            return 'calls %s' % q
        return None

    def ec(self, f, n):
        return any('error_code' in str(f.nodes[a].get('t', '')) for a in n.get('a', []))

    def caught(self, f, i, w, top):
        tt = None
        lf, li, _ = w[-1]
        if lf.nodes[li]['k'] == 'throw':
            tt = lf.nodes[li].get('tt')
        t = f.nodes[i].get('y')
        inside = set(f.walk(top)) if top is not None else None
        while t is not None:
            if inside is None or t in inside:
                for h, hb in self.handlers(f, t):
                    hn = f.nodes[h]
                    ct = str(hn.get('ct', '')).replace('const ', '').strip(' &')
                    if hn.get('all') or ct == 'std::exception' or tt and ct == str(tt).replace('const ', '').strip(' &'):
                        return True
            t = f.nodes[t].get('y')
        return False

    def handlers(self, f, t):
        return [(h, f.nodes[h].get('body')) for h in f.nodes[t].get('hs', [])]


def chain(w):
    return ', which '.join(x[2] for x in w) + ' (%s)' % w[-1][0].at(w[-1][1]).split(' ')[0]
