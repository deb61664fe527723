"""Accesses of class fields: (function, node, field, write?)"""
from .util import strip, bname
from .locks import MUTEX_T

READ_OPS = ('==', '!=', '<', '>', '<=', '>=', '->', '*', '[]', '()')


def accesses(f):
    """every use of a data member in f: (node, field qualified name, is a write, base node)"""
    par = f.parent()
    out = []
    for x in f.all():
        n = f.nodes[x]
        if n['k'] != 'mem' or n.get('isfn'):
            continue
        out.append((x, n['q'], is_write(f, x, par), n['b']))
    return out


def is_write(f, x, par):
    """may the object denoted by the lvalue x be changed by the expression it stands in"""
    cur = x
    for _ in range(12):
        p = par.get(cur)
        if p is None:
            return False
        n = f.nodes[p]
        k = n['k']
        if k == 'asg':
            return n['e'] == cur
        if k == 'un':
            if n['op'] in ('++', '--'):
                return True
            if n['op'] == '&':
                cur = p
                continue
            return False
        if k == 'mem':
            if n.get('isfn'):
                cur = p
                continue
            if '->' in f.text(p) and ('*' in f.nodes[cur].get('t', '')):
                return False
            cur = p
            continue
        if k == 'idx':
            if n['b'] != cur:
                return False
            if f.nodes[cur].get('t', '').rstrip().endswith('*'):
                return False
            cur = p
            continue
        if k == 'call':
            if n.get('obj') == cur or n.get('fnode') == cur:
                if n.get('op') in ('->', '*') or bname(n) in ('get', 'operator->', 'operator*') and n.get('q', '').startswith('std::'):
                    return False      # a smart pointer or iterator: the pointee is another object
                if n.get('cm'):
                    return False
                if n.get('op') == '[]' or bname(n) in ('at', 'data', 'front', 'back', 'begin', 'end', 'find', 'rbegin', 'rend'):
                    if bname(n) in ('find', 'begin', 'end', 'rbegin', 'rend', 'data'):
                        return False
                    cur = p
                    if n.get('op') == '[]' and 'map' in f.nodes[n['obj']].get('t', ''):
                        return True
                    continue
                return True
            if cur in n.get('a', ()):
                j = n['a'].index(cur)
                if j in n.get('ra', ()):
                    return True
                if n.get('q') in ('std::move', 'std::exchange', 'std::swap') or bname(n) == 'swap':
                    return True
                if n.get('op') in ('>>',) and j == 1:
                    return True
                return False
            return False
        if k == 'ctor' and n.get('move'):
            return True
        if k in ('cast', 'cond', 'silist'):
            cur = p
            continue
        return False
    return False
