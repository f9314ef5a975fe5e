"""C07: the identity shown to validation (and to credential lookups) is the one in the peer's message."""
from fields import *
from rules import live
from scram import is_scram, ServerPath, server_first, cfirst, QuietV


def prep(f): return ('saslprep', f)


class Want:
    """expected canonical forms per property; `opt`: property may be missing if this field is known to be empty"""
    def __init__(self):
        self.forms, self.opt, self.last = {}, {}, {}

    def put(self, P, forms, opt=None):
        self.forms[P] = list(forms)
        if opt is not None:
            self.opt[P] = opt


def body_parts(I):
    """the ways to look at the SOH separated parts of a message that ends with SOH SOH"""
    B = off(I, 0, 2)
    return B, I


def expected(x, steps, n):
    name = x.mech.name
    w = Want()
    I = inp(n + 1)
    has = steps[n].get('input') is not None
    if name == 'ANONYMOUS':
        w.put('AnonymousToken', [I] if has else ['empty'])
    elif name == 'EXTERNAL':
        w.put('AuthzId', [I] if has else ['empty'], I if has else None)
    elif name == 'LOGIN':
        w.put('AuthId', [inp(n)])
        w.put('Password', [I])
    elif name == 'PLAIN':
        p = [part(I, C_NUL, i) for i in range(3)]
        w.put('AuthId', [prep(p[1]), p[1]])
        w.put('Password', [prep(p[2]), p[2], prep(tail(I, C_NUL, 2)), tail(I, C_NUL, 2)])
        w.put('AuthzId', [p[0]], p[0])
    elif name == 'XOAUTH2':
        B = off(I, 0, 2)
        w.put('AuthId', [off(part(b, C_SOH, 0), 5) for b in (I, B)])
        w.put('OAuthBearerToken', [off(tail(I, C_SOH, 1), 12, 2), off(tail(B, C_SOH, 1), 12), off(part(I, C_SOH, 1), 12), off(part(B, C_SOH, 1), 12)])
    elif name == 'OAUTHBEARER':
        B = off(I, 0, 2)
        az = [part(part(b, C_SOH, 0), C_COMMA, 1) for b in (I, B)]
        w.put('AuthzId', [off(a, 2) for a in az], az)
        w.put('OAuthBearerToken', [])
        w.put('OAuthBearerKV', [])
    else:
        return None
    return w


def bearer_ok(c):
    """canonical form of a token cut from an `auth=` part: number of bytes cut off in front, or None"""
    if not isfield(c) or c[2] != 0:
        return None
    b = c[0]
    if b[0] == 'nth' and b[2] == C_SOH and b[3] != 0 and b[1] in (off(inp(1), 0, 2), inp(1)):
        return c[1]
    return None


def check_oauth(x, k, st, steps, P, v, V, p):
    """fields of an OAUTHBEARER message that are collected in a loop over its parts"""
    srcs = {v}
    loops = set()
    for _ in range(4):
        for s in list(srcs):
            if s[0] == 'fld' and s[1][0] == 'phi' and s[2] == 'Some.0':
                srcs.discard(s)
                loops.add(s[1])
                for q in x.e.phisrc.get(s[1], ()):
                    if q[0] == 'A' and q[1] == OPT:
                        if q[2] == 1:
                            srcs.add(q[3][0])
                    else:
                        srcs.add(q if q[0] != 'phi' else ('fld', q, 'Some.0'))
            elif s[0] == 'phi':
                srcs.discard(s)
                loops.add(s)
                srcs |= {q for q in x.e.phisrc.get(s, ()) if q != s}
    if P == 'OAuthBearerToken':
        if not srcs:
            V('token-unknown', 'the token shown is not part of the message', p)
        for s in srcs:
            n = bearer_ok(canon(s, k))
            if n == 5:
                V('token-keeps-scheme', 'the token shown still carries the authentication scheme ("Bearer ")', p)
            elif n != 12:
                V('token-source', 'the token shown is not taken from the auth= part: %s' % (s,), p)
        return
    # key/value pairs: every pair is both halves of one part of this message
    for s in srcs:
        for q in [z for y in parts(s) for z in (y[1] if y[0] == 'R' else (y,))]:
            if q[0] == 'phi':
                continue
            t = q[1] if q[0] == 'byte' else q
            if t[0] != 'T' or len(t[1]) != 2:
                V('kv-source', 'an extra field is not a key and a value: %s' % (t,), p)
                continue
            if not pair_ok(k, t):
                V('kv-source', 'an extra field is not key=value of one part of the message: %s' % (t,), p)
    if not loops:
        # nothing is collected: each part of the message must be the token
        for uid, evs in x.e.loop_events.items():
            for seq, s in evs:
                if walks_parts(s, uid) and not is_auth_part(Known(s), uid, s):
                    V('kv-dropped', 'a part of the message that is not auth= is neither shown nor refused', p)
    for phi in loops:
        uid = phi[1][0]
        for seq, s in x.e.loop_events.get(uid, ()):
            new = iter_value(s, phi)
            if new is None:
                continue
            V.count('message parts followed')
            if new == phi:
                # the pair list is unchanged: this part must be the token
                if not is_auth_part(Known(s), uid, s):
                    V('kv-dropped', 'a part of the message that is not auth= is neither shown nor refused', p)
            elif not (new[0] == 'cat' and new[1][0] == phi and len(new[1]) == 2):
                V('kv-lost', 'an extra field replaces others: %s' % (new,), p)


def walks_parts(s, uid):
    """does the iteration look at a part of the message chosen by the loop?"""
    def part(t):
        return t[0] == 'nth' and t[2][:2] == ('sepmask', 2) and t[3][0] == 'phi' and t[3][1][0] == uid and contains(t[1], lambda q: q == ('input', 1))
    return any(contains(key, part) for key in s.facts)


def is_auth_part(k, uid, s):
    for key, val in s.facts.items():
        if key[0] == 'B' and val is True and key[1][0] == 'eq' and ('b', b'auth=') in key[1][1:]:
            t = key[1][1] if key[1][1][0] != 'b' else key[1][2]
            c = canon(t)
            if (isfield(c) and c[1] == 0) or t[0] == 'slice' and t[2] == ('i', 0):
                return True
    return False


def pair_ok(k, t):
    a, b = canon(t[1][0], k), canon(t[1][1], k)
    if not (isfield(a) and isfield(b)):
        return False
    ka, kb = a[0], b[0]
    if a[1:] != (0, 0) or b[1:] != (0, 0) or ka[0] != 'nth' or kb[0] not in ('nth', 'tail'):
        return False
    if ka[1] != kb[1] or ka[2] != C_EQ or kb[2] != C_EQ or ka[3] != 0 or kb[3] != 1:
        return False
    f = ka[1]
    return isfield(f) and f[1:] == (0, 0) and f[0][0] == 'nth' and f[0][2] == C_SOH and f[0][3] != 0 and f[0][1] in (off(inp(1), 0, 2), inp(1))


def matches(k, v, forms, P, last=None):
    c = canon(v, k)
    if 'empty' in forms and empty(k, v):
        return True
    if c in forms:
        c0 = c[1] if c[0] == 'saslprep' else c
        if isfield(c0) and c0[0][0] == 'tail' and c0[2] == 0:
            r = v[1] if v[0] == 'saslprep' else v
            return single(k, r, c0[0][2]) or nparts_known(k, c0)
        return True
    return any(isfield(f) and empty(k, v) and False for f in forms)


def nparts_known(k, c):
    """the message is known to have no more parts than the tail starts at"""
    b = c[0]
    for key, val in k.st.facts.items():
        if key[0] == 'IV' and key[1][0] == 'nparts' and key[1][2] == ('sepmask', b[2]) and canon(key[1][1], k) == b[1] and val[1] == b[3] + 1:
            return True
    return False


def check_identity(x, V):
    if x.side != 'server':
        return
    V.count('server mechanisms')
    seen = 0
    for st, steps in live(x):
        p = (steps, st)
        for n, d in enumerate(steps):
            evs = [ev for ev in d.get('events', ()) if ev[0] == 'validate' or (ev[0] == 'req' and ev[3])]
            if not evs:
                continue
            k = Known(d['st'])
            if is_scram(x.mech):
                seen += check_scram(x, k, st, steps, n, evs, V, p)
                continue
            w = expected(x, steps, n)
            if w is None:
                V('unknown-mechanism', 'no specification is known for the fields of %s' % x.mech.name, p)
                return
            for ev in evs:
                ctx = ev[1] if ev[0] == 'validate' else ev[3]
                what = 'validation' if ev[0] == 'validate' else 'request ' + ev[2]
                V.count('contexts shown')
                seen += ev[0] == 'validate'
                got = {}
                for P, v in ctx:
                    if P in got:
                        V('shown-twice ' + P, '%s is shown %s twice' % (what, P), p)
                    got[P] = v
                    if P not in w.forms:
                        V('unexpected ' + P, '%s is shown %s, which the message does not carry: %s' % (what, P, v), p)
                    elif x.mech.name == 'OAUTHBEARER' and P != 'AuthzId':
                        check_oauth(x, k, st, steps, P, v, V, p)
                    elif x.mech.name == 'OAUTHBEARER' and matches(k, v, w.forms[P], P):
                        V('escaped-name', 'the authorization identity shown is the escaped form of the GS2 header (=2C, =3D not decoded)', p)
                    elif not matches(k, v, w.forms[P], P):
                        V('wrong-field ' + P, '%s is shown as %s something else than the field of the message meant for it: %s' % (what, P, v), p)
                for P in w.forms:
                    if P in got:
                        continue
                    if P in w.opt and known_empty(k, w.opt[P], st):
                        continue
                    V('missing ' + P, '%s is not shown %s although the message may carry it' % (what, P), p)
    if not seen and x.mech.name != 'GSSAPI':
        V('no-validation', 'no path of this server validates: the rule has nothing to check')


def known_empty(k, fs, st):
    """one of the fields is known to be empty on this path"""
    for f in (fs if isinstance(fs, list) else [fs]):
        for key, val in k.st.facts.items():
            if key[0] == 'IV' and key[1][0] == 'len' and val[1] == 0 and canon(key[1][1], k) == f:
                return True
            if key[0] == 'V' and key[1][0] == 'len' and val == 0 and canon(key[1][1], k) == f:
                return True
    return False


def check_scram(x, k, st, steps, n, evs, V, p):
    sp = ServerPath(x, d_state(steps, n), steps[:n + 1])
    nval = 0
    for ev in evs:
        ctx = ev[1] if ev[0] == 'validate' else ev[3]
        val = ev[0] == 'validate'
        nval += val
        m = sp.in1() if val else (steps[n]['input'][1] if steps[n]['input'] else None)
        what = 'validation' if val else 'request ' + ev[2]
        V.count('contexts shown')
        I = inp(m)
        want = Want()
        want.put('AuthId', [off(part(I, C_COMMA, 2), 2)])
        az = part(I, C_COMMA, 1)
        want.put('AuthzId', [off(az, 2)], az)
        got = {}
        for P, v in ctx:
            if P in got:
                V('shown-twice ' + P, '%s is shown %s twice' % (what, P), p)
            got[P] = v
            if P == 'ChannelBindingName' and not val:
                continue
            if P not in want.forms:
                V('unexpected ' + P, '%s is shown %s, which the message does not carry: %s' % (what, P, v), p)
            elif matches(k, v, want.forms[P], P):
                V('escaped-name', 'the name shown is the escaped form of the message (=2C, =3D not decoded)', p)
            elif not unescaped(k, v, want.forms[P]):
                V('wrong-field ' + P, '%s is shown as %s something else than the field of client-first meant for it: %s' % (what, P, v), p)
        for P in want.forms:
            if P not in got and not (P in want.opt and known_empty(k, want.opt[P], st)):
                V('missing ' + P, '%s is not shown %s although client-first may carry it' % (what, P), p)
        if val:
            look = [e2 for d in steps[:n + 1] for e2 in d.get('events', ()) if e2[0] == 'req' and e2[2] == 'ScramStoredPassword']
            V.count('lookups compared')
            if not look or dict((P, v) for P, v in look[-1][3] if P != 'ChannelBindingName') != got:
                V('lookup-differs', 'validation is shown another identity than the credential lookup of this exchange', p)
    return nval


def d_state(steps, n):
    return steps[n]['st']


def unescaped(k, v, forms):
    """a decoded form of one of the fields: built from it alone"""
    return False
