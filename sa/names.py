"""Mechanism names: everything that turns bytes into a `Mechname`."""
from engine import *
from fw import *
import mech

MN = 'mechname::Mechname'
ALLOWED = b'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_'
VALID = sum(1 << c for c in ALLOWED)
ERR = 'rsasl::mechname::MechanismNameError'


def valid_bytes(b):
    return len(b) > 0 and all(c in ALLOWED for c in b)


def is_name(t):
    return MN in t


def unchecked(e, s, v):
    """None if the value is known to be a well-formed name in this state, else what is missing"""
    v = e.deep(s, v)
    if v[0] == 'b':
        return None if valid_bytes(v[1]) else 'the constant %r is not a valid name' % (v[1],)
    m = known_mask(s, v)
    if m & ~VALID:
        bad = [i for i in range(256) if (m & ~VALID) >> i & 1]
        return 'bytes such as %s are let through' % ', '.join('0x%02x' % c for c in bad[:5])
    if s.decide(mkeq(mklen(v), ('i', 0))) is not False:
        return 'an empty string is let through'
    return None


def known_mask(s, v):
    m = ALLB
    for k, val in s.facts.items():
        if k[0] == 'ALL' and k[1] == v:
            m &= val
        if k[0] == 'B' and val is True and k[1][0] == 'allin' and k[1][1] == v:
            m &= k[1][2]
    return m


def check_parse(f, V):
    """every function of the crate that makes a name out of something else"""
    done = set()
    for x in f.fns:
        ret = x['sig'].rsplit('->', 1)[-1] if '->' in x['sig'] else ''
        ins = x['sig'].rsplit('->', 1)[0]
        if not is_name(ret) or is_name(ins) or '__typecheck' in x['path']:
            continue
        ks = [k for k in f.bodies if short(k) == x['path'] and 'blocks' in f.bodies[k]]
        if not ks:
            continue
        k = sorted(ks)[0]
        if '&' in ins and ('session' in ins.lower()):
            V.count('accessors of names')
        makes = False
        e, outs = run(f, k)
        raw = [r for r in e.reint if is_name(r[2]) and not is_name(r[1])]
        if not raw:
            V.count('functions returning names')
            continue
        V.count('functions making names')
        open_ = x['exported'] and x['reachable'] and not x['unsafe']
        vals = {e.deep(s, v) for _, _, _, v, s in raw}
        for s, r in outs:
            rt = f.types[f.bodies[k]['locals'][0]] if False else None
            for s2, var, p in ([(s, 0, r)] if not is_result(ret) else result(e, s, r)):
                if var == 0:
                    V.count('ways to make a name')
                    got = e.deep(s2, p)
                    why = unchecked(e, s2, got) if got in vals or got[0] != 'b' else None
                    if why and open_:
                        V('unchecked-name %s' % x['path'], '%s is a safe public function and makes a mechanism name without checking it: %s' % (x['path'], why))
                    elif why:
                        callers(f, V, x['path'], done)
                    if open_ and not why and got != ('arg', 0) and got[0] != 'b':
                        V('other-name %s' % x['path'], '%s returns another name than the string it was given: %s' % (x['path'], str(got)[:120]))
                elif is_result(ret):
                    V.count('ways to refuse a name')
                    refusal(e, s2, e.deep(s2, p), V, x['path'])
        if e.unmodelled and open_:
            V('unknown-call %s' % x['path'], '%s uses %s, which this analysis does not know' % (x['path'], sorted(e.unmodelled)[0]))
        for p in e.panics:
            V('panic %s' % x['path'], '%s can panic (%s in %s)' % (x['path'], p[1], p[3]))


def is_result(t):
    return 'result::Result' in t


def rounds(e, t):
    """counters that step together are one"""
    return rewrite(t, lambda q: ('round', q[1][0]) if q[0] == 'phi' and e.counter(q) else None)


def refusal(e, s, r, V, path):
    """an error says which byte was wrong, and it was the first wrong one"""
    a = ('arg', 0)
    if r[0] != 'A' or not r[1].endswith('MechanismNameError'):
        V('refusal-unknown %s' % path, '%s fails with something else than a name error: %s' % (path, str(r)[:120]))
        return
    name = e.f.variant_name(r[1], r[2])
    if name == 'TooShort':
        if s.decide(mkeq(mklen(a), ('i', 0))) is not True:
            V('short-nonempty %s' % path, '%s calls a string too short that may not be empty' % path)
        return
    if name != 'InvalidChar':
        V('refuses-valid %s' % path, '%s refuses strings that are valid names (%s)' % (path, name))
        return
    fields = [x['name'] for x in e.f.adts[r[1]]['variants'][r[2]]['fields']]
    d = dict(zip(fields, r[3]))
    i, v = rounds(e, d.get('index')), rounds(e, d.get('value'))
    if v != at(a, i):
        V('wrong-position %s' % path, '%s reports a byte that is not the one at the reported position: %s at %s' % (path, str(v)[:80], str(i)[:80]))
        return
    v = d['value']
    m = s.mask(v) if v[0] != 'i' else 1 << v[1]
    if i[0] == 'pos' and i[1] == a:
        m &= i[2]
    if m & VALID:
        V('refuses-valid %s' % path, '%s refuses bytes that are allowed in a name: %s' % (path, ', '.join(repr(chr(c)) for c in range(256) if (m & VALID) >> c & 1)[:60]))
    first = i == ('i', 0) or i[0] == 'pos' or (i[0] == 'anyidx') or i[0] == 'round'
    if not first:
        V('not-first %s' % path, '%s does not report the first offending byte: position %s' % (path, str(i)[:80]))


def callers(f, V, path, done):
    """a crate-private function that makes names unchecked: whoever calls it has to have checked, or to pass a constant"""
    if path in done:
        return
    done.add(path)
    V.count('unchecked constructors')
    fn = {x['path']: x for x in f.fns}
    for k, b in sorted(f.bodies.items()):
        if not any(c['path'] == path or c.get('rpath') == path for c, _ in calls(f, k)):
            continue
        V.count('calls of unchecked constructors')
        name = short(k)
        if name in f.statics:
            continue     # judged by its value, below
        if name in fn and is_name(fn[name]['sig'].rsplit('->', 1)[-1]):
            continue     # judged as a function making names
        e, outs = run(f, k)
        for _, _, to, v, s in e.reint:
            if not is_name(to):
                continue
            V.count('ways to make a name')
            why = unchecked(e, s, v)
            if why:
                V('unchecked-name %s' % name, '%s makes a mechanism name without checking it: %s' % (name, why))


def check_builtin(f, V):
    for m in mech.mechanisms(f):
        V.count('built-in names')
        if not isinstance(m.name, str) or not valid_bytes(m.name.encode('latin1', 'replace')):
            V('built-in %s' % m.path, 'the built-in mechanism %s has the invalid name %r' % (m.path, m.name))


def check_escape(f, V):
    """nothing else hands out names: no public field of that type, no other cast to it"""
    for p, a in f.adts.items():
        if p.endswith(MN) and a.get('local'):
            for v in a['variants']:
                for fld in v['fields']:
                    V.count('fields of the name type')
                    if fld.get('pub'):
                        V('public-field', 'the text inside a mechanism name is a public field')
    for i in f.impls:
        if is_name(i['self']) and (i.get('trait_str') or i.get('trait') or '').split('<')[0].endswith(('DerefMut', 'AsMut', 'BorrowMut')):
            V('mutable-name', 'a mechanism name can be changed after it was checked (%s)' % (i.get('trait_str') or i.get('trait')))
    for i in [i for i in f.impls if is_name(i['self'])]:
        V.count('impls for names')
