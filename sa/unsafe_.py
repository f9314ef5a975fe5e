"""Inventory of unsafe operations in the crate and the argument for each."""
import re
from engine import *
from fw import *
from names import is_name, VALID, known_mask

ASCII = (1 << 128) - 1
GENERATED = re.compile(r'^linkme::|^core::fmt::Arguments|^core::fmt::rt::')     # emitted by the linkme and format macros
TEXT = re.compile(r'^core::str::(converts::)?from_utf8_unchecked(_mut)?$|^alloc::string::String::from_utf8_unchecked$|^core::str::.*from_boxed_utf8_unchecked$')
CONVERT = re.compile(r'^core::intrinsics::transmute|^core::mem::transmute')
ID = 'rsasl::typed::Erased'


def norm(t):
    """type without lifetimes"""
    t = re.sub(r"for<[^>]*> ?", '', t)
    t = re.sub(r" ?\+ ('\w+|core::marker::(Send|Sync|Unpin))", '', t)
    t = re.sub(r"'\w+,? ?", '', t)
    t = t.replace('<>', '')
    t = re.sub(r'\((dyn [^()]*)\)', r'\1', t)
    return t.strip().replace('rsasl::', '')


def split_ty(t):
    m = re.match(r'^(&mut |&|\*mut |\*const )(.*)$', t)
    if m:
        return 'ptr', m.group(2)
    m = re.match(r'^([\w:]+)<([^<>,]*)>$', t)
    if m:
        return m.group(1), m.group(2)
    return None, t


def wraps(f, outer, inner):
    """outer is a transparent wrapper around exactly inner"""
    for p, a in f.adts.items():
        if norm(p) != re.sub(r'<.*$', '', outer) or not a.get('transparent'):
            continue
        fs = [x['s'] for v in a['variants'] for x in v['fields'] if not x['s'].startswith('core::marker::PhantomData')]
        if len(fs) == 1 and norm(fs[0]) == inner and '<' not in outer:
            return True
    return False


def textlike(f, t):
    return t == 'str' or any(wraps(f, t, 'str') for _ in (0,))


def relation(f, fr, to):
    """why reading a value of type fr as type to is sound, or None: 'same', 'transparent', 'text' (needs a check)"""
    a, b = norm(fr), norm(to)
    if a == b:
        return 'same'
    (ka, ia), (kb, ib) = split_ty(a), split_ty(b)
    if (ka, kb) == ('ptr', 'ptr') or (ka == kb and ka and ka.startswith(('alloc::rc', 'alloc::boxed', 'alloc::sync'))):
        if ia == ib:
            return 'same'
        if wraps(f, ia, ib) or wraps(f, ib, ia):
            return 'transparent'
        if ia == '[u8]' and textlike(f, ib):
            return 'text'
        return None
    if a == '[u8]' and b == 'str':
        return 'text'
    return None


def guarded(s, to, v):
    """a downcast behind a comparison of the very object's recorded type identity"""
    (_, t) = split_ty(norm(to))
    m = re.match(r'^typed::Tagged<(.*)>$', t)
    if not m:
        return False
    while v[0] in ('D',):
        v = v[1]
    for k, val in s.facts.items():
        if k[0] == 'B' and val is True and k[1][0] == 'eq':
            for x, y in (k[1][1:], k[1][:0:-1]):
                if x == ('call', ID + '::tag_id', v) and y[0] == 'of' and norm(y[1]) == m.group(1):
                    return True
    return False


def sites(f, k):
    """unsafe operations of one body: (kind, detail)"""
    for bl in blocks(f, k):
        for s in bl['s'] + [bl['t']]:
            for p in places(s):
                for e in p['pr']:
                    if e.get('p') == 'deref' and f.types[e['of']]['s'].startswith('*'):
                        yield 'raw pointer read', f.types[e['of']]['s'], s
            if s.get('s') == 'assign' and s['rv'].get('r') == 'cast' and 'ransmute' in s['rv']['ck']:
                yield 'conversion', s['rv']['ck'], s
            if s.get('t') == 'call':
                fn = s['f'].get('const', {}).get('fn') if isinstance(s['f'], dict) else None
                if fn and fn.get('unsafe'):
                    yield 'call', fn.get('rpath') or fn['path'], s
                elif not fn and isinstance(s['f'], dict) and 'unsafe fn' in json_ty(f, s['f']):
                    yield 'call', 'unsafe function pointer', s
            if s.get('t') in ('asm', 'inlineasm'):
                yield 'asm', 'inline assembly', s


def json_ty(f, o):
    p = o.get('copy') or o.get('move')
    return f.types[p['ty']]['s'] if p and isinstance(p.get('ty'), int) else ''


def places(o):
    if isinstance(o, dict):
        if 'pr' in o:
            yield o
        for v in o.values():
            yield from places(v)
    elif isinstance(o, list):
        for v in o:
            yield from places(v)


def check_unsafe(f, V):
    seen = set()
    for k, b in sorted(f.bodies.items()):
        if not b.get('local') or 'blocks' not in b:
            continue
        V.count('bodies searched')
        found = list(sites(f, k))
        if not found:
            continue
        name = short(k).split('::{closure')[0]
        real = []
        gen = any(kind == 'call' and d.startswith('linkme::') for kind, d, _ in found)
        for kind, d, s in found:
            V.count('unsafe operations')
            if kind == 'call' and GENERATED.match(d):
                continue
            if gen and name in f.statics:
                continue      # expansion of #[distributed_slice]
            if kind == 'call' and not TEXT.match(d) and not CONVERT.match(d):
                V('unsafe-call %s %s' % (name, d), '%s calls the unsafe function %s; no argument for that is known' % (name, d))
                continue
            if kind == 'asm':
                V('asm %s' % name, '%s contains inline assembly' % name)
                continue
            real.append((kind, d))
        if not real:
            continue
        judge(f, V, k, b, name, real, seen)


def judge(f, V, k, b, name, real, seen):
    key = (b['path'], tuple(sorted(set(real))))
    tys = tuple(norm(f.types[t]['s']) for t in (b['args'] if all(isinstance(a, int) for a in b['args']) else ()))
    host = b.get('host') or b['path']
    roots = [k] if '{closure' not in short(k) else bodies(f, host)
    if not roots:
        V('no-root %s' % name, 'the function around %s was not found' % name)
        return
    todo, tried = [roots[0]] if '{closure' in short(k) else [k], set()
    e, outs = run(f, todo[0])
    recs = [r for r in e.reint if r[0] in (b['path'], host)]
    tos = {r[2] for r in recs}
    for kind, d in real:
        if kind == 'raw pointer read' and norm(d) not in {norm(t) for t in tos}:
            V('foreign-pointer %s' % name, '%s follows a raw pointer of type %s whose origin is not a reference cast in the same function' % (name, d))
        if kind != 'raw pointer read' and not recs:
            V('unreached %s' % name, '%s contains a conversion the analysis did not reach' % name)
    for where, fr, to, v, s in recs:
        V.count('reinterpretations')
        r = relation(f, fr, to)
        if r in ('same', 'transparent'):
            V.count('between a transparent wrapper and its content')
            continue
        if r == 'text':
            if is_name(to):
                V.count('names, decided as C21')
                text(f, V, host, todo[0], s, e, v, name, is_name(to))
                continue
            text(f, V, host, todo[0], s, e, v, name, False)
            continue
        if guarded(s, to, v):
            V.count('downcasts behind a type comparison')
            continue
        V('reinterprets %s' % name, '%s reads a value of type %s as %s: neither a transparent wrapper nor behind a comparison of the recorded type' % (name, fr, to))
    for bd in outs:
        pass


def ascii_known(s, e, v):
    v = e.deep(s, v)
    if v[0] == 'b':
        return all(c < 128 for c in v[1])
    return known_mask(s, v) & ~ASCII == 0 or s.decide(('utf8', v)) is True


def text(f, V, host, k, s, e, v, name, isname, depth=0):
    """bytes become text: known ASCII here, or at every call site of a private function"""
    V.count('bytes taken as text')
    if ascii_known(s, e, v):
        return
    fn = [x for x in f.fns if x['path'] == host]
    if fn and fn[0]['exported'] and fn[0]['reachable']:
        V('unchecked-text %s' % name, '%s takes bytes for text that may not be ASCII or UTF-8' % name)
        return
    users = sorted({short(k2).split('::{closure')[0] for k2, b2 in f.bodies.items() if b2.get('local')
                    and any(c['path'] == host or c.get('rpath') == host for c, _ in calls(f, k2))} - {host})
    for u in users:
        if u in f.statics:
            st = None      # a constant: judged as a built-in name by C21
            continue
        ks = bodies(f, u)
        ks = [x for x in ks if short(x) == u]
        if not ks:
            V('unchecked-text %s' % u, '%s takes bytes for text through %s and was not analysed' % (u, host))
            continue
        e2, outs2 = run(f, ks[0])
        for where, fr, to, v2, s2 in e2.reint:
            if where != host or relation(f, fr, to) != 'text':
                continue
            V.count('bytes taken as text')
            if ascii_known(s2, e2, v2):
                continue
            late = [o for o, r in outs2 if holds(o, s2)]
            if late and all(ascii_known(o, e2, v2) for o in late):
                continue
            V('unchecked-text %s' % u, '%s takes bytes for text that may not be ASCII or UTF-8' % u)


def holds(o, s):
    return all(o.facts.get(k) == v for k, v in s.facts.items() if k[0] == 'B')


def check_identity(f, V):
    """the recorded type identity of an erased value is that of its own tag"""
    n = 0
    for i in f.impls:
        if (i.get('trait') or '') != ID and ID.split('::', 1)[1] not in str(i.get('trait_str') or '').split(' as ')[-1]:
            continue
        n += 1
        V.count('types that can be erased')
        m = re.match(r'^typed::Tagged<(\w+)>$', norm(i['self']))
        if not m:
            V('erases %s' % i['self'], 'a type other than Tagged can be erased: %s' % i['self'])
            continue
        for nm, k in i['items']:
            if nm != 'tag_id':
                continue
            ks = [x for x in f.bodies if x == k or short(x) == short(k)]
            for x in ks:
                e, outs = run(f, x)
                want = norm(f.types[f.bodies[x]['locals'][1] if isinstance(f.bodies[x]['locals'][1], int) else f.bodies[x]['locals'][1].get('ty')]['s'])
                want = re.sub(r'^&typed::Tagged<(.*)>$', r'\1', want)
                for s, v in outs:
                    V.count('identities read')
                    if v[0] != 'of' or norm(v[1]) != want:
                        V('identity', 'an erased value reports the type identity %s instead of its own tag %s' % (str(v)[:80], want))
    for a in f.adts:
        if a == 'rsasl::typed::Tagged' and not f.adts[a].get('transparent') and False:
            pass
    for p in ('rsasl::typed::Tagged',):
        a = f.adts.get(p)
        if a and any(x['pub'] for v in a['variants'] for x in v['fields']):
            V('tag-public', 'the value inside Tagged is public')


def check_unsafe_items(f, V):
    for i in f.impls:
        V.count('impls searched')
        if i.get('unsafe') and not i.get('negative') and not str(i.get('trait_str')).endswith('core::clone::TrivialClone>'):   # from derive(Copy)
            V('unsafe-impl %s' % (i.get('trait_str') or i['self']), 'unsafe impl: %s' % (i.get('trait_str') or i['self']))
    for x in f.fns:
        V.count('functions searched')
        if x['unsafe'] and '__typecheck' not in x['path'] and 'linkme' not in x['path']:
            V('unsafe-fn %s' % x['path'], 'the crate has an unsafe function: %s' % x['path'])
        if x['exported'] and x['reachable'] and not x['unsafe'] and 'typed::Tagged' in x['sig'] and 'typed::Erased' in x['sig']:
            V('erasure-public %s' % x['path'], 'type erasure is reachable from outside: %s' % x['path'])
    for p, s in f.statics.items():
        V.count('statics searched')
        if s['mut'] and 'LINKME' not in p:
            V('static-mut %s' % p, 'the crate has a mutable static: %s' % p)
    for p, a in f.adts.items():
        if a.get('local') and a.get('kind') == 'union':
            V('union %s' % p, 'the crate has a union: %s' % p)
