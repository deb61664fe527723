"""Small helpers shared by the rules."""
from .flow import *


def bname(n):
    return n.get('q', '').rsplit('::', 1)[-1]


def strip(f, i):
    """skip casts, copies and temporaries"""
    while True:
        n = f.nodes[i]
        if n['k'] in ('cast', 'silist'):
            i = n['e']
        elif n['k'] == 'ctor' and len(n['a']) == 1 and (n.get('copy') or n.get('move')):
            i = n['a'][0]
        elif n['k'] == 'call' and n.get('q') in PASS_CALLS and n['a']:
            i = n['a'][0]
        else:
            return i


def origin(env, i, depth=0):
    """(env, node) of the expression a value comes from: follows parameters to the call site and single-assignment locals"""
    f = env.fn
    i = strip(f, i)
    n = f.nodes[i]
    if depth > 12:
        return env, i
    if n['k'] == 'ref' and 'd' in n and not n.get('isfn') and not n.get('enum'):
        v = f.vars.get(str(n['d']))
        if v and v['k'] == 'local':
            sd = f.single_def(n['d'])
            if sd is not None and sd >= 0:
                return origin(env, sd, depth + 1)
        if v and v['k'] == 'param' and env.up and n['d'] in f.params:
            ue, call = env.up
            j = f.params.index(n['d'])
            a = ue.fn.nodes[call].get('a', [])
            if j < len(a) and not f.d.get('lambda'):
                return origin(ue, a[j], depth + 1)
            if j < len(a) and ue.fn.nodes[call].get('op') == '()':
                return origin(ue, a[j], depth + 1)
    return env, i


def ident(env, i):
    """identity of a value: access path of the variable it lives in, else its canonical expression"""
    i2 = strip(env.fn, i)
    p = path(env, i2)
    if not p.startswith('?') and not p.startswith('K:'):
        return ('p', p)
    e2, j = origin(env, i2)
    return ('c', canon(e2, j))


def field_expr(env, i, field, depth=0):
    """(env, node) giving the value of `field` of the aggregate denoted by node i, or None"""
    f = env.fn
    i = strip(f, i)
    n = f.nodes[i]
    if depth > 8:
        return None
    if n['k'] == 'init':
        fs = n.get('fs')
        if fs and field in fs:
            j = fs.index(field)
            return (env, n['a'][j]) if j < len(n['a']) else None
        if len(n['a']) == 1:
            return field_expr(env, n['a'][0], field, depth + 1)
        return None
    if n['k'] == 'ref' and 'd' in n:
        v = f.vars.get(str(n['d']), {})
        # last assignment to the field, when there is exactly one
        asg = [x for x in f.walk() if f.nodes[x]['k'] in ('asg', 'call') and field_target(f, x, n['d'], field)]
        if len(asg) == 1:
            x = f.nodes[asg[0]]
            return env, (x['r'] if x['k'] == 'asg' else x['a'][0])
        if v.get('k') == 'local':
            sd = f.single_def(n['d'])
            if sd is not None:
                return field_expr(env, sd, field, depth + 1)
        if v.get('k') == 'param' and env.up and n['d'] in f.params:
            ue, call = env.up
            a = ue.fn.nodes[call].get('a', [])
            j = f.params.index(n['d'])
            if j < len(a):
                return field_expr(ue, a[j], field, depth + 1)
        return None
    if n['k'] == 'call':
        g = f.p.get(n.get('f'))
        if g is not None:
            rets = [x for x in g.walk() if g.nodes[x]['k'] == 'ret' and 'e' in g.nodes[x]]
            if len(rets) == 1:
                return field_expr(child_env(env, i, g), g.nodes[rets[0]]['e'], field, depth + 1)
    return None


def field_target(f, x, d, field):
    n = f.nodes[x]
    if n['k'] == 'asg' and n['op'] == '=':
        t = f.nodes[n['e']]
    elif n['k'] == 'call' and n.get('op') == '=' and 'obj' in n:
        t = f.nodes[n['obj']]
    else:
        return False
    return t['k'] == 'mem' and t['n'] == field and f.nodes[t['b']]['k'] == 'ref' and f.nodes[t['b']].get('d') == d


NOTHROW = {'std::max', 'std::min', 'std::move', 'std::forward', 'std::swap', 'std::exchange', 'std::as_const', 'std::addressof', 'std::clamp',
           'std::abs', 'std::isfinite', 'std::isnan', 'memcpy', 'memset', 'memmove', 'memcmp', 'std::memcpy', 'std::memset', 'std::memmove'}


def nothrow_call(n):
    q = n.get('q', '')
    return q in NOTHROW or bool(n.get('nt'))


def null_atom(c, p, v):
    """does the atom (c, p) say that access path v is null/false"""
    if c == ('v', v):
        return not p
    if c[0] == 'call' and c[1].endswith('operator bool') and c[2] == ('v', v):
        return not p
    if c[0] == 'bin' and c[1] in ('==', '!=') and ('v', v) in c[2:] and ('lit', 'null') in c[2:]:
        return (c[1] == '==') == p
    return False
