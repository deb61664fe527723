"""C08: key-by-key matching of every text manifest's writer and reader, and path facts of the readers (every malformed form leads to a rejection; every number is converted strictly)."""
from checks.publish import *


def strs(f, i):
    return [f.nodes[x]['v'] for x in f.walk(i) if f.nodes[x]['k'] == 'str']


def appended(f):
    """ordered list of (node id, kind 'str'|'expr', value) appended to the output text of a writer"""
    out = []
    for x in f.walk():
        n = f.nodes[x]
        if n['k'] != 'call' or 'obj' not in n and n.get('op') not in ('<<', '+='):
            continue
        a = None
        if n.get('op') in ('+=', '<<'):
            a = n['a'][-1]
        elif bname(n) in ('append', 'push_back') and n['a']:
            a = n['a'][0]
        if a is None:
            continue
        out.append((x, a))
    out.sort(key=lambda t: (seqpos(f, t[0]),))
    return out


def seqpos(f, x):
    b, j = f.pos().get(x, (None, None))
    return (-(b or 0), j or 0)   # clang numbers blocks from the exit upwards


def fields_in(f, i, cls):
    """fields of the manifest class mentioned in expression i (of *this or of a local of the class)"""
    r = []
    for x in f.walk(i):
        n = f.nodes[x]
        if n['k'] == 'mem' and (n.get('q', '').rsplit('::', 2)[-2:-1] == [cls.rsplit('::', 1)[-1]] or f.nodes[n['b']].get('t', '').replace('const ', '').strip(' &*').endswith(cls.rsplit('::', 1)[-1])):
            r.append(n['n'])
    return r


def writer(p, f, cls):
    """key -> (field, unconditional, site)"""
    W = {}
    key = None
    frag = []
    for x, a in appended(f):
        # a concatenation inside one append is flattened left to right
        for y in flatten(f, a):
            n = f.nodes[y]
            if n['k'] == 'str' or n['k'] == 'lit':
                s = n['v'] if n['k'] == 'str' else ''
                m = re.search(r'(\w+)=$', s)
                if m:
                    key = m.group(1)
                    W.setdefault(key, [None, x])
                elif '=' in s:
                    for m in re.finditer(r'(\w+)=([^\n]+)\n', s):
                        W.setdefault(m.group(1), [('const', m.group(2)), x])
            elif key is not None:
                fs = fields_in(f, y, cls) or [d for d in loopfields(f, y, cls)]
                if W[key][0] is None:
                    W[key] = [fs[0] if fs else None, x]
                key = None
    return W


def loopfields(f, i, cls):
    """field of the class over which the loop variable used in i ranges"""
    out = []
    for x in f.walk(i):
        n = f.nodes[x]
        if n['k'] == 'ref' and 'd' in n:
            for a in f.ancestors(i):
                na = f.nodes[a]
                if na['k'] == 'loop' and 'range' in na:
                    out += fields_in(f, na['range'], cls)
    return out


def flatten(f, i):
    i2 = strip(f, i)
    n = f.nodes[i2]
    if n['k'] == 'call' and n.get('op') == '+':
        for a in ([n['obj']] if 'obj' in n else []) + n['a']:
            yield from flatten(f, a)
        return
    if n['k'] == 'ctor' and 'basic_string' in n.get('cls', '') and n['a'] and f.nodes[strip(f, n['a'][0])]['k'] == 'str':
        i2 = strip(f, n['a'][0])
    yield i2


def constkey(env, t):
    """string constant denoted by a canonical term"""
    if t[0] == 'str':
        return t[1]
    if t[0] == 'ctor' and len(t) >= 3:
        return constkey(env, t[2])
    if t[0] == 'v':
        nm = t[1].split('#')[0].split(':')[-1]
        for dk, v in env.fn.vars.items():
            if v['n'] == nm:
                for d in env.fn.walk():
                    n = env.fn.nodes[d]
                    if n['k'] == 'decl':
                        for w in n['vs']:
                            if w['d'] == int(dk) and 'init' in w:
                                s = strs(env.fn, w['init'])
                                if len(s) == 1:
                                    return s[0]
    return None


def guardkeys(env, i):
    out = set()
    for c, pol in guards(env, i, local=True):
        if c[0] == 'bin' and c[1] == '==' and pol:
            for t in c[2:]:
                k = constkey(env, t)
                if k is not None:
                    out.add(k)
    return out


def rhs_keys(env, i, depth=0):
    """manifest keys the value of expression i comes from"""
    f = env.fn
    out = set()
    for x in f.walk(i):
        n = f.nodes[x]
        if n['k'] == 'call' and (n.get('op') == '[]' or bname(n) in ('find', 'at', 'contains', 'get')) and 'obj' in n and n['a']:
            c = canon(env, n['a'][0])
            k = constkey(env, c)
            if k is not None:
                out.add(k)
        if n['k'] == 'ref' and 'd' in n and depth < 3:
            v = f.vars[str(n['d'])]
            if v['k'] != 'local':
                continue
            for val, kind, at in f.defs().get(n['d'], []):
                if kind in ('decl', 'asg=') and val is not None and val >= 0 and val != i:
                    if kind != 'decl':
                        out |= guardkeys(env, at)
                    out |= rhs_keys(env, val, depth + 1)
            for y in f.calls():
                m = f.nodes[y]
                if 'obj' in m and f.nodes[m['obj']].get('d') == n['d'] and bname(m) in ('push_back', 'emplace_back', 'insert', 'assign'):
                    out |= guardkeys(env, y)
    return out


def reader(p, f, cls):
    """field -> set of keys; plus sites"""
    env = Env(f)
    Rd = {}
    site = {}
    ctn = cls.rsplit('::', 1)[-1]

    def tgt(i):
        n = f.nodes[strip(f, i)]
        if n['k'] == 'mem' and f.nodes[n['b']]['k'] == 'ref' and f.nodes[n['b']].get('t', '').endswith(ctn):
            return n['n']
        return None
    for x in f.walk():
        n = f.nodes[x]
        fld = val = None
        if n['k'] == 'asg' and n['op'] == '=':
            fld, val = tgt(n['e']), n['r']
        elif n['k'] == 'call' and n.get('op') == '=' and 'obj' in n:
            fld, val = tgt(n['obj']), n['a'][0]
        elif n['k'] == 'call' and n['a'] and n.get('op') != '[]':
            for a in n['a']:
                t = tgt(a)
                g = p.get(n.get('f'))
                if t and g is not None and g.d['rt'] == 'bool':
                    Rd.setdefault(t, set()).update(guardkeys(env, x) | rhs_keys(env, x))
                    site[t] = x
            continue
        if fld:
            ks = rhs_keys(env, val)
            if not ks:
                ks = guardkeys(env, x)
            Rd.setdefault(fld, set()).update(ks)
            site[fld] = x
    return Rd, site


NUM = ('std::stoull', 'std::stoul', 'std::stoi', 'std::stol', 'std::stoll', 'strtoull', 'strtoul', 'strtol', 'atoi', 'atol', 'std::strtoull', 'std::strtoul', 'sscanf', 'std::atoi')
FNUM = ('std::stof', 'std::stod', 'strtof', 'strtod', 'std::strtof', 'std::strtod')


def strict_number(R, p, f):
    """every text-to-number conversion in f consumes the whole text, detects overflow and rejects signs"""
    env = Env(f)
    n_ = 0
    for x in f.calls():
        n = f.nodes[x]
        q = n.get('q', '')
        if n['k'] != 'call':
            continue
        uses = None
        if q in NUM or q in FNUM or q == 'std::from_chars':
            n_ += 1
            fa = post_all(env)
            txt = show_src(canon(env, n['a'][0]))
            if q == 'std::from_chars':
                base = n['a'][3] if len(n['a']) > 3 else None
                ok_end = any(c[0] == 'bin' and c[1] == '==' and p_ and any(s[1].endswith('.ptr') for s in subterms(c) if s[0] == 'v') for c, p_ in fa) or any(c[0] == 'bin' and c[1] == '==' and p_ and 'ptr' in show(c) for c, p_ in fa)
                ok_ec = any('ec' in show(c) and p_ and c[0] == 'bin' and c[1] == '==' for c, p_ in fa)
                R.ob('strict-number', ok_end and ok_ec, f.at(x), 'a number is accepted although it was %s' % ('not fully consumed' if not ok_end else 'out of range or malformed'), key='num:' + f.name)
            else:
                pos_ok = any(c[0] == 'bin' and c[1] == '==' and p_ and 'size' in show(c) and 'pos' in show(c) for c, p_ in fa) or any(c[0] == 'bin' and c[1] == '==' and p_ and any(s[0] == 'call' and s[1].endswith('::size') for s in c[2:]) for c, p_ in fa)
                sign_ok = q in FNUM or any(c[0] == 'bin' and ('45' in show(c) or "'-'" in show(c)) for c, p_ in fa)
                R.ob('strict-number', pos_ok, f.at(x), 'trailing characters after a number are accepted', key='tail:' + f.name)
                R.ob('strict-number', sign_ok, f.at(x), 'a negative number is accepted and wraps to a huge unsigned value', key='sign:' + f.name)
    return n_


def show_src(t):
    return show(t)


def post_all(env):
    """facts at normal accepting returns (union over loops is not needed: straight-line code)"""
    f = env.fn
    fs = None
    for x in f.walk():
        n = f.nodes[x]
        if n['k'] == 'ret' and 'e' in n:
            e = f.nodes[strip(f, n['e'])]
            if e['k'] == 'lit' and e['v'] == 'false':
                continue
            # returning an absent key's default does not accept a text
            g = set(guards(env, x, local=True))
            if not any(f.nodes[y]['k'] == 'call' and (f.nodes[y].get('q', '') in NUM + FNUM + ('std::from_chars',)) for y in f.walk(n['e'])) and not depends_on_number(f, n['e']) and e['k'] != 'lit':
                continue
            fs = g if fs is None else fs & g
    return fs or set()


def depends_on_number(f, i, depth=0):
    for x in f.walk(i):
        n = f.nodes[x]
        if n['k'] == 'call' and n.get('q', '') in NUM + FNUM + ('std::from_chars',):
            return True
        if n['k'] == 'ref' and 'd' in n and depth < 4:
            for v, k, a in f.defs().get(n['d'], []):
                if v is not None and v >= 0 and depends_on_number(f, v, depth + 1):
                    return True
                if k == 'addr':
                    return True
    return False


def digit_loop(R, p, f):
    """a hand-written decimal parser: accumulates only digits, after an overflow test, and never accepts an empty text"""
    env = Env(f)
    n_ = 0
    for x in f.walk():
        n = f.nodes[x]
        if n['k'] != 'asg' or f.nodes[n['e']]['k'] != 'ref':
            continue
        c = canon(env, n['r'], subst=True)
        acc = canon(env, n['e'], subst=False)
        if not any(s == ('bin', '*', acc, ('lit', '10')) or s == ('bin', '*', ('lit', '10'), acc) for s in subterms(c)):
            continue
        n_ += 1
        g = guards(env, x, local=True)
        lo = any(q[0] == 'bin' and q[1] == '>=' and q[3] == ('lit', '48') for q, pp in g)
        hi = any(q[0] == 'bin' and q[1] == '<=' and q[3] == ('lit', '57') for q, pp in g)
        ov = any(q[0] == 'bin' and q[1] in ('<=', '<') and q[2] == acc and any(s[0] == 'bin' and s[1] == '/' for s in subterms(q[3])) for q, pp in g)
        R.ob('strict-number', lo and hi, f.at(x), 'a character that is not a digit is accumulated into a number', key='digit:' + f.name)
        R.ob('strict-number', ov, f.at(x), 'a number is accumulated without an overflow test', key='overflow:' + f.name)
        rets = [y for y in f.walk() if f.nodes[y]['k'] == 'ret']
        em = all(any('empty' in show(q) and not pp or q[0] == 'bin' and 'size' in show(q) for q, pp in guards(env, y, local=True)) for y in rets)
        R.ob('strict-number', em, f.at(), 'an empty text is accepted as a number', key='empty:' + f.name)
    return n_


def run(R):
    R.rule('same-field', 'every key written from a field is read back into the same field and every field read from a key is written under that key', 20)
    R.rule('all-fields', 'every field of a manifest is both written and read', 20)
    R.rule('required-written', 'every key the reader requires is written unconditionally by the writer', 10)
    R.rule('reject-duplicate', 'a key is stored only if it was not seen before', 2)
    R.rule('reject-missing', 'an iteration over the required keys continues only if the key is present (and not empty, one listed key excepted)', 2)
    R.rule('reject-unknown', 'a key that is neither known nor an extension never gets past the reader', 2)
    R.rule('reject-range', 'the reader returns only if version, dimension, count, metric and identifiers were validated', 6)
    R.rule('strict-number', 'text is converted to a number only if all of it was consumed, it has no sign and it fits', 6)
    R.rule('extras', 'every parameter stored as a manifest extension is read back from the same key into the same parameter, with a type at least as wide', 5)
    R.rule('whole-text', 'the manifest text is written as a whole and read from a regular file', 2)
    p = R.program('core', 'disk')
    pairs = []
    for cls, c in p.classes.items():
        ms = [f for f in p.fns.values() if f.cls == cls and f.blocks and not f.d.get('lambda')]
        w = [f for f in ms if f.name in ('save', 'serialize', 'to_text', 'write')]
        r = [f for f in ms if f.name in ('load', 'deserialize', 'parse', 'from_text', 'read')]
        if w and r and any(re.search(r'\w+=$', f.nodes[x].get('v', '')) for f in w for g in p.reach([f]) for x in range(len(f.nodes)) if f.nodes[x]['k'] == 'str'):
            pairs.append((cls, c, w[0], r[0]))
    for cls, c, w, r in pairs:
        analyse(R, p, cls, c, w, r)
    # numeric conversion in everything the readers use, and in the extension parsers
    roots = [r for _, _, _, r in pairs]
    ext = [f for f in p.fns.values() if f.rel().startswith('include/index/disk/') and f.params and any('Manifest' in f.vars[str(d)]['t'] for d in f.params) and f.blocks]
    fs = {g.id: g for g in p.reach(roots + ext) if g.rel().startswith(('include/index/disk/', 'include/recovery/')) and g.blocks}
    for g in sorted(fs.values(), key=lambda x: x.q):
        if strict_number(R, p, g) + digit_loop(R, p, g) + narrowing(R, p, g) + list_parser(R, p, g):
            R.saw([g])
    extras(R, p)
    return __doc__


def analyse(R, p, cls, c, w, r):
    R.saw([w, r])
    short = cls.rsplit('::', 1)[-1]
    W = writer(p, w, cls)
    Rd, site = reader(p, r, cls)
    fields = [x['n'] for x in c['fields'] if not x['t'].startswith('std::map') and not x['t'].startswith('std::unordered_map')]
    wf = {v[0]: k for k, v in W.items() if v[0]}
    for fld in fields:
        k = wf.get(fld)
        rk = Rd.get(fld)
        R.ob('all-fields', k is not None, w.at(), '%s.%s is not written' % (short, fld), key='unwritten:%s.%s' % (short, fld))
        R.ob('all-fields', rk is not None, r.at(), '%s.%s is not read back' % (short, fld), key='unread:%s.%s' % (short, fld))
        if k is not None and rk:
            R.ob('same-field', k in rk or any(x.rstrip('s') == k for x in rk), r.at(site[fld]), '%s.%s is written as "%s" but read from %s' % (short, fld, k, sorted(rk)), key='key:%s.%s' % (short, fld))
    for k, v in W.items():
        if v[0] is None:
            R.bad('same-field', w.at(v[1]), 'the value written as "%s" is not a field of %s' % (k, short), key='val:%s.%s' % (short, k))
    # maps of extensions: written in a loop over the map, read into it
    for x in c['fields']:
        if x['t'].startswith(('std::map', 'std::unordered_map')):
            wr = any(n['k'] == 'loop' and 'range' in n and x['n'] in fields_in(w, n['range'], cls) for n in w.nodes)
            rd = any(n['k'] == 'mem' and n['n'] == x['n'] for n in r.nodes)
            R.ob('all-fields', wr and rd, w.at(), '%s.%s is not written and read back' % (short, x['n']), key='ext:%s' % short)
    # unconditional writes
    req = required(r)
    env = Env(w)
    for k in req:
        if k not in W:
            R.bad('required-written', w.at(), '"%s" is required by the reader but never written' % k, key='req:%s.%s' % (short, k))
            continue
        gs = [g for g in guards(env, W[k][1], local=True)]
        inloop = any(w.nodes[a]['k'] in ('loop', 'if') for a in w.ancestors(W[k][1]))
        R.ob('required-written', not inloop, w.at(W[k][1]), '"%s" is required by the reader but written only conditionally' % k, key='reqc:%s.%s' % (short, k))
    e = Env(r)
    if not req:
        # a reader without a required list: identity must be present
        ids = [f for f in fields if f.rstrip('_').endswith('id') and 'op' not in f]
        rets = [x for x in r.walk() if r.nodes[x]['k'] == 'ret' and 'e' in r.nodes[x] and 'nullopt' not in r.text(r.nodes[x]['e'])]
        for fld in ids[:1]:
            ok = all(any('empty' in show(q) and fld in show(q) and not pp for q, pp in guards(e, x, local=True)) for x in rets)
            R.ob('reject-missing', ok and bool(rets), r.at(), '%s is accepted without its %s' % (short, fld), key='id:' + short)
        # a conversion that fails rejects the text
        for x in r.calls():
            n = r.nodes[x]
            g = p.get(n.get('f'))
            if n['k'] == 'call' and g is not None and g.d['rt'] == 'bool' and g.name.startswith('parse'):
                bad = False
                for y in rets:
                    pass
                R.ob('strict-number', rejects_false(r, e, x), r.at(x), 'a malformed number is ignored', key='ign:%s:%s' % (short, r.text(x)[:60]))
        return
    # duplicates: stores into the key map
    maps = {d for d, v in r.vars.items() if v['k'] == 'local' and v['t'].startswith(('std::map<', 'std::unordered_map<'))}
    for x in r.calls():
        n = r.nodes[x]
        if n['k'] == 'call' and 'obj' in n and r.nodes[n['obj']]['k'] == 'ref' and str(r.nodes[n['obj']].get('d')) in maps and (bname(n) in ('emplace', 'insert', 'try_emplace', 'insert_or_assign') or n.get('op') == '[]' and assigned(r, x)):
            m = canon(e, n['obj'], subst=False)
            g = guards(e, x, local=True)
            ok = any(q[0] == 'call' and q[1].endswith('::contains') and q[2] == m and not pp for q, pp in g) or any(q[0] == 'bin' and q[1] == '==' and pp and m in list(subterms(q)) and any(s[0] == 'call' and s[1].endswith('::end') for s in subterms(q)) for q, pp in g) \
                or any(q[0] == 'bin' and q[1] == '==' and q[3] == ('lit', '0') and any(s[0] == 'call' and s[1].endswith('::count') and s[2] == m for s in subterms(q)) for q, pp in g)
            if not ok and bname(n) in ('emplace', 'insert', 'try_emplace'):
                ok = second_checked(r, e, x)
            R.ob('reject-duplicate', ok, r.at(x), 'a repeated key is accepted', key='dup:' + short)
    # alternative list forms
    for x in r.walk():
        n = r.nodes[x]
        if n['k'] == 'asg' and n['op'] == '=' and r.nodes[n['r']]['k'] == 'lit' and r.nodes[n['r']]['v'] == 'true' and r.nodes[n['e']]['k'] == 'ref':
            ks = guardkeys(e, x)
            if 'segments' in ks:
                v = canon(e, n['e'], subst=False)
                ok = any(q == v and not pp for q, pp in guards(e, x, local=True))
                R.ob('reject-duplicate', ok, r.at(x), 'a repeated "segments" line is accepted', key='dup2:' + short)
    # required loop
    loops = [x for x in r.walk() if r.nodes[x]['k'] == 'loop']
    ok_req = ok_empty = None
    for x in loops:
        n = r.nodes[x]
        if 'range' not in n:
            continue
        ps = loop_paths(e, x)
        nxt = [fs for fs, o in ps if o in ('next', 'leave')]
        rng = canon(e, n['range'], subst=False)
        if reqname(r, n['range']):
            pres = all(any(present(q, pp) for q, pp in fs) for fs in nxt)
            R.ob('reject-missing', pres and bool(nxt), r.at(x), 'a missing required key is accepted', key='miss:' + short)
            exempt = set()
            emp = True
            for fs in nxt:
                if any(q[0] == 'call' and q[1].endswith('::empty') and not pp for q, pp in fs):
                    continue
                ks = {constkey(e, t) for q, pp in fs if q[0] == 'bin' and q[1] == '==' and pp for t in q[2:]} - {None}
                if ks and ks <= {'vectors_file'}:
                    continue
                emp = False
            R.ob('reject-missing', emp, r.at(x), 'a required key with an empty value is accepted', key='empty:' + short)
        elif any(str(r.nodes[y].get('d')) in maps for y in r.walk(n['range']) if r.nodes[y]['k'] == 'ref'):
            ok = bool(nxt)
            for fs in nxt:
                known = any(q[0] == 'call' and q[1].endswith('::contains') and pp for q, pp in fs) or any(q[0] == 'bin' and q[1] in ('!=', '==') and pp == (q[1] == '!=') and any(s[0] == 'call' and s[1].endswith('::end') for s in subterms(q)) and any(s[0] == 'call' and s[1].endswith('::find') for s in subterms(q)) for q, pp in fs)
                ext = any(q[0] == 'call' and q[1].endswith('::starts_with') and pp and any(s == ('str', 'x_') for s in subterms(q)) for q, pp in fs) or any("x_" in show(q) and pp and q[0] == 'bin' and q[1] == '==' for q, pp in fs)
                ok = ok and (known or ext)
            R.ob('reject-unknown', ok, r.at(x), 'an unknown key is accepted', key='unk:' + short)
        else:
            # loop over a list of identifiers
            els = [fld for fld in fields_in(r, n['range'], cls)]
            for fld in els:
                ok = bool(nxt) and all(any(q[0] == 'call' and 'valid' in q[1] and pp for q, pp in fs) for fs in nxt)
                R.ob('reject-range', ok, r.at(x), 'an element of %s is not validated' % fld, key='elem:%s.%s' % (short, fld))
    # facts at the accepting returns
    rets = [x for x in r.walk() if r.nodes[x]['k'] == 'ret' and 'e' in r.nodes[x]]
    facts = None
    for x in rets:
        g = guards(e, x, local=True)
        facts = g if facts is None else facts & g
    facts = facts or frozenset()

    def fld(t, n):
        return t[0] == 'v' and t[1].endswith('.' + n)
    ver = any(q[0] == 'bin' and q[1] == '==' and pp and fld(q[2], 'version') and q[3][0] == 'lit' for q, pp in facts) or any(q[0] == 'bin' and q[1] == '==' and pp and any(fld(t, 'version') for t in q[2:]) for q, pp in facts)
    R.ob('reject-range', ver, r.at(), 'a manifest of another version is accepted', key='version:' + short)
    for nme in ('dim', 'count'):
        if nme in fields:
            ok = any(q[0] == 'bin' and pp and fld(q[2], nme) and (q[1] in ('!=', '>') and q[3] == ('lit', '0') or q[1] == '>=' and q[3] == ('lit', '1')) for q, pp in facts)
            R.ob('reject-range', ok, r.at(), '%s = 0 is accepted' % nme, key='zero:%s.%s' % (short, nme))
    if 'metric' in fields:
        ok = any(q[0] == 'bin' and q[1] == '!=' and pp and fld(q[2], 'metric') and q[3][0] == 'enum' and q[3][1].endswith('NONE') for q, pp in facts)
        R.ob('reject-range', ok, r.at(), 'an unknown metric is accepted', key='metric:' + short)
    for nme in fields:
        if nme.endswith('_id') and not nme.startswith('next') or nme.endswith('_file'):
            ok = any(q[0] == 'call' and 'valid' in q[1] and pp and nme in show(q) for q, pp in facts)
            if not ok and nme == 'vectors_file':
                # empty is allowed; a non-empty name is validated: some throw requires non-empty and invalid
                ok = any(r.nodes[x]['k'] == 'throw' and any(q[0] == 'call' and 'valid' in q[1] and not pp and nme in show(q) for q, pp in guards(e, x, local=True)) for x in r.walk())
            R.ob('reject-range', ok, r.at(), '%s is accepted without validation' % nme, key='valid:%s.%s' % (short, nme))
    # mixing both list forms
    if any('segments' in strs(r, x) for x in r.walk() if r.nodes[x]['k'] in ('decl', 'str')):
        bools = [canon(e, r.nodes[x]['e'], subst=False) for x in r.walk() if r.nodes[x]['k'] == 'asg' and r.nodes[r.nodes[x]['r']]['k'] == 'lit' and r.nodes[r.nodes[x]['r']]['v'] == 'true']
        thr = False
        for x in r.walk():
            if r.nodes[x]['k'] == 'throw':
                own = guards(e, x, local=True)
                i = next((a for a in r.ancestors(x) if r.nodes[a]['k'] == 'if'), None)
                if i is not None:
                    own = own - guards(e, firstof(r, r.nodes[i]['c']), local=True)
                if sum((b, True) in own for b in bools) >= 2 and len(own) == 2:
                    thr = True
        R.ob('reject-duplicate', thr, r.at(), 'both list forms in one manifest are accepted', key='mix:' + short)
    # whole text
    for f, names in ((w, ('write_all_fsync',)), (r, ('read_regular_file_bounded',))):
        R.ob('whole-text', any(g.name in names for g in p.reach([f])), f.at(), 'the manifest is not %s' % ('written with a full, synced write' if f is w else 'read through the bounded regular-file reader'), key='whole:%s:%s' % (short, f.name))


def firstof(f, i):
    """first evaluated operand of a condition"""
    while True:
        n = f.nodes[i]
        if n['k'] == 'bin' and n['op'] in ('&&', '||') or n['k'] in ('cast',):
            i = n['e']
        elif n['k'] == 'un' and n['op'] == '!':
            i = n['e']
        else:
            return i


def narrowing(R, p, f):
    """a parsed 64-bit number is narrowed only after a range test"""
    env = Env(f)
    k = 0
    for x in f.walk():
        n = f.nodes[x]
        if n['k'] != 'cast':
            continue
        a, b = f.nodes[n['e']].get('t', '').replace('const ', ''), n.get('t', '').replace('const ', '')
        if RANK.get(a) != 64 or RANK.get(b, 99) > 32 or not parsed_value(p, f, n['e']):
            continue
        k += 1
        c = canon(env, n['e'])
        ok = any(q[0] == 'bin' and pp and q[1] in ('<=', '<') and q[2] == c and q[3][0] == 'lit' and q[3][1].isdigit() and int(q[3][1]) <= 4294967296 for q, pp in guards(env, x, local=True))
        R.ob('strict-number', ok, f.at(x), 'a parsed number is narrowed to %s without a range test' % b, key='narrow:' + f.name)
    return k


def parsed_value(p, f, i, depth=0):
    for x in f.walk(i):
        n = f.nodes[x]
        if n['k'] == 'call' and (n.get('q', '') in NUM or p.get(n.get('f')) is not None and p.get(n['f']).name.startswith('parse')):
            return True
        if n['k'] == 'ref' and 'd' in n and depth < 3 and f.vars[str(n['d'])]['k'] == 'local':
            for v, kd, a in f.defs().get(n['d'], []):
                if v is not None and v >= 0 and parsed_value(p, f, v, depth + 1):
                    return True
                if kd == 'decl' and filled_by_parse(p, f, n['d']):
                    return True
    return False


def filled_by_parse(p, f, d):
    return any(n['k'] == 'call' and p.get(n.get('f')) is not None and p.get(n['f']).name.startswith('parse') and any(f.nodes[strip(f, a)].get('d') == d for a in n['a']) for n in f.nodes)


def list_parser(R, p, f):
    """a function splitting text into a list: no empty element, also not at the ends"""
    if not f.d['rt'].startswith('std::vector<std::basic_string') or not any(',' in (f.nodes[x].get('v') or '') or f.nodes[x].get('v') == '44' for x in f.walk() if f.nodes[x]['k'] in ('lit', 'str')):
        return 0
    env = Env(f)
    for x in f.calls():
        n = f.nodes[x]
        if bname(n) in ('push_back', 'emplace_back') and n['a']:
            c = canon(env, n['a'][0])
            own = [c] + [a for a in c[2:] if c[0] == 'ctor']
            isz = lambda s, names: s[0] == 'call' and s[1].rsplit('::', 1)[-1] in names and len(s) > 2 and s[2] in own
            ok = any(isz(q, ('empty',)) and not pp or q[0] == 'bin' and pp and (
                     q[1] in ('!=', '>', '<') and any(isz(s, ('size', 'length')) for s in q[2:4]) and ('lit', '0') in q[2:4] or
                     q[1] in ('>=', '<=') and any(isz(s, ('size', 'length')) for s in q[2:4]) and ('lit', '1') in q[2:4])
                     for q, pp in guards(env, x, local=True)) or any(
                     q[0] == 'bin' and q[1] in ('<', '!=', '>') and pp and c[0] == 'call' and c[1].endswith('::substr') and c[-1][0] == 'bin' and c[-1][1] == '-'
                     and set(q[2:4]) == set(c[-1][2:4]) for q, pp in guards(env, x, local=True))
            R.ob('reject-missing', ok, f.at(x), 'an empty list element is accepted', key='elem:' + f.name)
    for x in f.walk():
        if f.nodes[x]['k'] == 'ret':
            g = guards(env, x, local=True)
            for end in ('back', 'front'):
                ok = any(q[0] == 'bin' and q[1] == '!=' and pp and q[3] in (('lit', '44'), ('lit', "','")) and any(s[0] == 'call' and s[1].endswith('::' + end) for s in subterms(q)) for q, pp in g) or any(q[0] == 'call' and q[1].endswith('_with') and not pp for q, pp in g)
                if end == 'front':
                    continue   # an empty first element is an empty element of the loop
                R.ob('reject-missing', ok, f.at(x), 'a trailing separator is accepted', key='trail:' + f.name)
    return 1


def rejects_false(f, env, x):
    """the branch on which the bool call x returned false leaves with an empty result or an exception"""
    for b in f.blocks.values():
        t = b.get('term')
        if not t or 'c' not in t or len(b['succ']) != 2:
            continue
        for j in (0, 1):
            at = []
            nn = t['c']
            pol = j == 0
            while f.nodes[nn]['k'] == 'un' and f.nodes[nn]['op'] == '!':
                nn = f.nodes[nn]['e']
                pol = not pol
            if nn == x and not pol:
                s = f.blocks[b['succ'][j]]
                for e in s['els']:
                    if isinstance(e, int) and (f.nodes[e]['k'] == 'throw' or f.nodes[e]['k'] == 'ret'):
                        return True
    return False


def present(q, pp):
    if q[0] == 'bin' and q[1] in ('!=', '=='):
        return pp == (q[1] == '!=') and any(s[0] == 'call' and s[1].endswith('::find') for s in subterms(q)) and any(s[0] == 'call' and s[1].endswith('::end') for s in subterms(q))
    return q[0] == 'call' and q[1].endswith('::contains') and pp


def assigned(f, x):
    for a in f.ancestors(x):
        n = f.nodes[a]
        return n['k'] == 'asg' and n['e'] == x or n['k'] == 'call' and n.get('op') == '=' and n.get('obj') == x
    return False


def second_checked(f, env, x):
    """result of emplace bound to a local whose .second is tested with a throw"""
    for y in f.walk():
        if f.nodes[y]['k'] == 'throw' and any(('emplace' in show(q) or 'insert' in show(q) or 'second' in show(q) or 'inserted' in show(q)) and not pp for q, pp in guards(env, y, local=True)):
            return True
    return False


def reqname(f, i):
    """the range is a constant list of key strings"""
    for x in f.walk(i):
        n = f.nodes[x]
        if n['k'] == 'ref' and 'd' in n:
            for y in f.walk():
                m = f.nodes[y]
                if m['k'] == 'decl':
                    for v in m['vs']:
                        if v['d'] == n['d'] and 'init' in v and v['init'] >= 0 and len(strs(f, v['init'])) >= 3:
                            return True
    return len(strs(f, i)) >= 3


def required(f):
    for x in f.walk():
        n = f.nodes[x]
        if n['k'] == 'loop' and 'range' in n and reqname(f, n['range']):
            for y in f.walk(n['range']):
                m = f.nodes[y]
                if m['k'] == 'ref' and 'd' in m:
                    for z in f.walk():
                        d = f.nodes[z]
                        if d['k'] == 'decl':
                            for v in d['vs']:
                                if v['d'] == m['d'] and 'init' in v:
                                    return strs(f, v['init'])
    return []


RANK = {'bool': 1, 'unsigned char': 8, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'uint32_t': 32, 'unsigned long': 64, 'uint64_t': 64, 'size_t': 64, 'unsigned long long': 64, 'float': 132, 'double': 164}


def ty(f, i):
    return f.nodes[strip(f, i)].get('t', '').replace('const ', '').strip(' &')


def extras(R, p):
    """x_extras["k"] = text(value)  versus  value = parse(manifest, "k", ...)"""
    st, ld = {}, {}
    for f in p.fns.values():
        if not f.rel().startswith('include/index/disk/') or not f.blocks:
            continue
        env = Env(f)
        for x in f.walk():
            n = f.nodes[x]
            if n['k'] == 'call' and n.get('op') == '=' and 'obj' in n or n['k'] == 'asg':
                t = n['obj'] if n['k'] == 'call' else n['e']
                tn = f.nodes[t]
                if tn['k'] == 'call' and tn.get('op') == '[]' and 'obj' in tn and f.nodes[tn['obj']].get('n') == 'x_extras':
                    k = constkey(env, canon(env, tn['a'][0]))
                    if k:
                        v = n['a'][0] if n['k'] == 'call' else n['r']
                        st.setdefault(k, []).append((f, x, v))
            if n['k'] == 'call' and n['a'] and p.get(n.get('f')) is not None and any('Manifest' in f.nodes[strip(f, a)].get('t', '') for a in n['a']):
                for a in n['a']:
                    k = constkey(env, canon(env, a))
                    if k and k.startswith('x_'):
                        ld.setdefault(k, []).append((f, x))
            if n['k'] == 'call' and bname(n) in ('find', 'at', 'contains') and 'obj' in n and f.nodes[n['obj']].get('n') == 'x_extras' and n['a']:
                k = constkey(env, canon(env, n['a'][0]))
                if k:
                    ld.setdefault(k, []).append((f, x))
    for k, L in sorted(ld.items()):
        for f, x in L:
            n = f.nodes[x]
            tgt = None
            for a in f.ancestors(x):
                na = f.nodes[a]
                if na['k'] == 'asg':
                    t = f.nodes[na['e']]
                    tgt = (t['n'], ty(f, na['e'])) if t['k'] == 'mem' else None
                    break
                if na['k'] not in ('cast', 'call', 'ctor', 'silist'):
                    break
            if k not in st:
                continue
            R.good('extras', f.at(x))
            for g, y, v in st[k]:
                src = None
                for z in g.walk(v):
                    m = g.nodes[z]
                    if m['k'] == 'mem':
                        src = (m['n'], m.get('t', '').replace('const ', ''))
                        break
                if src is None:
                    # text built in a local stream or string
                    for z in g.walk(v):
                        m = g.nodes[z]
                        if m['k'] == 'ref' and 'd' in m:
                            for c in g.calls():
                                cn = g.nodes[c]
                                if cn.get('op') == '<<' and any(g.nodes[q].get('d') == m['d'] for q in g.walk(cn['obj'] if 'obj' in cn else cn['a'][0])):
                                    for q in g.walk(cn['a'][-1]):
                                        if g.nodes[q]['k'] == 'mem':
                                            src = (g.nodes[q]['n'], g.nodes[q].get('t', '').replace('const ', ''))
                # same parameter class on both sides
                if tgt and src and same_owner(f, g):
                    R.ob('extras', tgt[0].rstrip('_') == src[0].rstrip('_'), f.at(x), '"%s" is stored from %s but read into %s' % (k, src[0], tgt[0]), key='param:' + k)
                    rt = p.get(n['f']).d['rt'] if n.get('f') and p.get(n['f']) else tgt[1]
                    a, b = RANK.get(src[1], 0), RANK.get(rt.replace('const ', ''), 0)
                    R.ob('extras', not a or not b or b >= a, f.at(x), '"%s" is stored from a %s but read through a %s' % (k, src[1], rt), key='width:' + k)
                    if src[1] in ('float', 'double'):
                        R.ob('extras', exact_float(p, g, v), g.at(y), '"%s" is stored with fewer digits than a %s needs' % (k, src[1]), key='digits:' + k)
    # every parameter stored for reopening is read back
    for k, L in sorted(st.items()):
        for g, y, v in L:
            if g.name.startswith('store') or any('CollectionManifest' in g.vars[str(d)]['t'] for d in g.params):
                R.ob('extras', k in ld, g.at(y), '"%s" is stored but never read back' % k, key='unread:' + k)


def same_owner(f, g):
    return True


def exact_float(p, g, v):
    """to_chars, or a stream with max_digits10, or hexfloat"""
    fs = [g] + [p.get(g.nodes[z].get('f')) for z in g.walk(v) if g.nodes[z]['k'] == 'call' and p.get(g.nodes[z].get('f'))]
    for h in fs:
        for n in h.nodes:
            q = n.get('q', '')
            if n['k'] == 'call' and q in ('std::to_chars', 'std::hexfloat'):
                return True
            if n['k'] == 'call' and bname(n) in ('precision', 'setprecision') and n['a']:
                a = h.nodes[strip(h, n['a'][0])]
                cv = a.get('cv') or a.get('v')
                if cv is not None and int(cv) >= 9:
                    return True
    return False
