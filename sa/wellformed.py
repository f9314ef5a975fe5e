"""C29: what a SCRAM side has established about a peer message once it goes on."""
from framing import *
from scram import is_scram, contains_hmac
from fw import run, result

CBCHARS = sum(1 << c for c in b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.-')
PRINTABLE = sum(1 << c for c in range(0x21, 0x7f)) & ~(1 << 44)
COM = C_COMMA


def chars(k, f):
    """bytes a field may contain"""
    m = ALLB
    for key, v in k.st.facts.items():
        if key[0] == 'ALL' and canon(key[1], k) == f:
            m &= v
        elif key[0] == 'B' and v is True and key[1][0] == 'allin' and canon(key[1][1], k) == f:
            m &= key[1][2]
    return m


def goes_on(d):
    return d['kind'] not in ('err', 'unbounded')


def check_messages(x, V):
    if not is_scram(x.mech):
        return
    V.count('SCRAM sides')
    for st, steps in live(x):
        p = (steps, st)
        first = None
        for n, d in enumerate(steps):
            looked = any(ev[0] in ('validate', 'cbdata') or ev[0] == 'req' and ev[3] for ev in d['events'])
            if d.get('input') is None or not (goes_on(d) or looked):
                continue
            k = Known(d['st'])
            q = Seen(k)
            I = inp(d['input'][1])
            if x.side == 'server':
                if first is None:
                    first = n
                    client_first(x, V, k, q, I, looked and not goes_on(d), p)
                else:
                    client_final(x, V, k, q, I, d, p)
            else:
                if not any(e[0] == 'write' for s in steps[:n] for e in s['events']):
                    continue       # nothing was sent yet: there is nothing of the peer to read
                if first is None:
                    first = n
                    server_first_(x, V, k, q, I, p)
                else:
                    server_final(x, V, k, q, I, p)


def client_first(x, V, k, q, I, early, p):
    V.count('client-first messages')
    p0, p1, p2, p3 = (part(I, COM, i) for i in range(4))
    if not (q.is_(p0, b'n') or q.is_(p0, b'y')):
        if not q.starts(p0, b'p='):
            V('gs2-flag', "a client-first is taken whose flag may be something else than n, y or p=", p)
        else:
            name = off(p0, 2)
            if chars(k, name) & ~CBCHARS:
                V('binding-name', 'a channel binding name with other characters than letters, digits, . and - is taken', p)
    if not (q.is_(p1, b'') or q.starts(p1, b'a=')):
        V('gs2-authzid', 'a client-first is taken whose second field may be neither empty nor a=', p)
    elif q.starts(p1, b'a=') and not text(k, off(p1, 2)):
        V('not-text AuthzId', 'an authorization identity that may not be UTF-8 is taken', p)
    if early and not any(ev[0] != 'cbdata' and (ev[0] == 'validate' or ev[0] == 'req' and ev[3]) for d in p[0] for ev in d['events']) and False:
        return
    if not q.starts(p2, b'n='):
        V('no-user', 'a client-first is taken whose third field may not be n= (a mandatory extension, for example)', p)
    elif not text(k, off(p2, 2)):
        V('not-text AuthId', 'a user name that may not be UTF-8 is taken', p)
    if not q.starts(p3, b'r='):
        V('no-nonce', 'a client-first is taken whose fourth field may not be r=', p)
    elif chars(k, off(p3, 2)) & ~PRINTABLE:
        V('nonce-characters', 'a client nonce with characters outside printable ASCII is taken', p)


def client_final(x, V, k, q, I, d, p):
    V.count('client-final messages')
    if not q.starts(part(I, COM, 0), b'c='):
        V('no-binding', 'a client-final is taken whose first field may not be c=', p)
    if not q.starts(part(I, COM, 1), b'r='):
        V('no-nonce', 'a client-final is taken whose second field may not be r=', p)
    last = proofs(k, q, I)
    if not last:
        V('no-proof', 'a client-final is taken whose last field may not be p=', p)
        return
    # between nonce and proof: nothing, or extensions that are looked at
    for f, i in last:
        if i == ('i', 2):
            V.count('proofs at a fixed place')
            continue
        if i is None or i[0] != 'phi':
            V('skipped-unseen', 'fields between nonce and proof are skipped in a way that was not followed', p)
            continue
        V.count('proofs behind extensions')
        if x.e.phinit.get(i) != ('i', 2):
            V('skipped-unseen', 'fields between nonce and proof are skipped without being looked at', p)
        for seq, s in x.e.loop_events.get(i[1][0], ()):
            V.count('skipped extensions')
            t = ('nth', I[0], ('sepmask', COM), i)
            if may_be_mandatory(s, t):
                V('mandatory-extension', 'an extension in client-final is skipped although it may be mandatory (m=)', p)


def proofs(k, q, I):
    """fields that start with p= and are the last of the message: [(field, index or None)]"""
    out = []
    for b in {key[0] for key in q.bytes if key[0] != 'end'} | {f[0] for f in q.whole}:
        f = (b, 0, 0)
        if not q.starts(f, b'p='):
            continue
        if b[0] == 'nth' and b[1] == I and b[2] == COM:
            i = b[3] if isinstance(b[3], tuple) else ('i', b[3])
            cnt = q.nparts(I, COM)
            if cnt is not None and i == ('i', cnt - 1):
                out.append((f, i))
            elif k.st.decide(mklt(add(i, ('i', 1)), ('nparts', I[0], ('sepmask', COM)))) is False:
                out.append((f, i))
        elif b[0] == 'tail' and endof(f) == I[0] and b[1] == I and b[2] == COM and not chars_from(k, f) & COM:
            out.append((f, ('i', b[3])))
    return out


def chars_from(k, f):
    m = chars(k, f)
    for j in (1, 2):
        m &= chars(k, off(f, j)) | 0
    return m


def may_be_mandatory(s, t):
    two = mkslice(t, ('i', 0), ('i', 2))
    if s.decide(mkeq(two, ('b', b'm='))) is False or s.ivlin(mklen(t))[1] < 2:
        return False
    if s.decide(mkeq(at(t, ('i', 0)), ('i', ord('m')))) is False or s.decide(mkeq(at(t, ('i', 1)), ('i', ord('=')))) is False:
        return False
    m0, m1 = s.mask(at(t, ('i', 0))), s.mask(at(t, ('i', 1)))
    return bool(m0 >> ord('m') & 1 and m1 >> ord('=') & 1)


def server_first_(x, V, k, q, I, p):
    V.count('server-first messages')
    for i, (l, what) in enumerate(((b'r=', 'nonce'), (b's=', 'salt'), (b'i=', 'iterations'))):
        if not q.starts(part(I, COM, i), l) and not (i == 2 and q.starts(tail(I, COM, 2), l)):
            V('no-' + what, 'a server-first is taken whose field %d may not be %s' % (i + 1, l.decode()), p)
    if q.nparts(I, COM) != 3:
        V('surplus', 'a server-first with further attributes is taken', p)


def server_final(x, V, k, q, I, p):
    V.count('server-final messages')
    if not q.starts(I, b'v='):
        V('no-signature', 'a server-final is taken as success that may not start with v=', p)


# ---- error values --------------------------------------------------------------------------------------

def error_type(f):
    return [p for p, a in f.adts.items() if p.endswith('ServerErrorValue') and a.get('local')]


def texts(x):
    """wire text of every error value, by running the function that gives it"""
    f = x.f
    ty = error_type(f)
    if not ty:
        return None, {}
    ty = ty[0]
    out = {}
    for g in f.fns:
        sig = g['sig']
        if '->' not in sig or 'ServerErrorValue' not in sig.split('->')[0] or '[u8]' not in sig.split('->')[1]:
            continue
        ks = [k for k in f.bodies if short(k) == g['path'] and 'blocks' in f.bodies[k]]
        for k in ks[:1]:
            if f.bodies[k]['argc'] != 1:
                continue
            for i, v in enumerate(f.adts[ty]['variants']):
                st = State()
                a = ('A', ty, i, ())
                if '&' in sig.split('->')[0]:
                    a = st.alloc(a)
                e, outs = run(f, k, [a], st=st)
                vals = {e.deep(s, r) for s, r in outs}
                if len(vals) == 1:
                    r = vals.pop()
                    if r[0] == 'b':
                        out[i] = r[1]
    return ty, out


def check_errors(x, V):
    if not is_scram(x.mech):
        return
    ty, tx = texts(x)
    if ty is None or len(tx) < len(x.f.adts[ty]['variants']):
        V('error-texts', 'the wire text of the error values is not known')
        return
    names = [v['name'] for v in x.f.adts[ty]['variants']]
    if x.side == 'server':
        for st, steps in live(x):
            for d in steps:
                w = [ev[2] for ev in d['events'] if ev[0] == 'write']
                for t in w:
                    ps = parts(cat(*t[1]) if t[0] == 'R' else t)
                    if ps and ps[0][0] == 'b' and ps[0][1].startswith(b'e='):
                        V.count('errors sent')
                        if len(ps) != 1 or ps[0][1][2:] not in tx.values():
                            V('unknown-error-sent', 'an error value is sent that is not in the table: %s' % (t,), (steps, st))
        return
    for i, a in tx.items():
        for j, b in tx.items():
            if i < j and a == b:
                V('same-text', 'two error values have the same wire text %r' % a)
    read, rest = {}, set()
    for st, steps in live(x):
        d = steps[-1]
        r = d.get('ret')
        if d['kind'] != 'err' or d.get('input') is None or not isinstance(r, tuple):
            continue
        vs = {t[2] for t in subterms(r) if t[0] == 'A' and t[1] == ty}
        if len(vs) != 1:
            continue
        v = vs.pop()
        k = Known(d['st'])
        if k.prefix(d['input'])[:2] != b'e=':
            V('error-unread', 'an error is taken from a server-final that may not start with e=', (steps, st))
            continue
        c = k.exact(d['input'])
        V.count('errors read')
        if c is None:
            rest.add(v)
            if tx[v] != b'other-error':
                V('error-guessed ' + names[v], 'error values that are not determined are read as %s' % names[v], (steps, st))
        elif c[2:] in tx.values():
            read[c[2:]] = v
            if tx[v] != c[2:]:
                V('error-misread ' + c[2:].decode('latin1'), 'the error value %r is read as %s' % (c[2:], names[v]), (steps, st))
    for v, t in tx.items():
        if t not in read and t != b'other-error':
            V('error-not-read ' + names[v], 'the error value %r that this crate sends is not read as %s' % (t, names[v]))
