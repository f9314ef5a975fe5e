"""SCRAM rules: what every exchange of a SCRAM mechanism must look like (RFC 5802, RFC 7677)."""
from terms import *
import mech

ALGS = {'SCRAM-SHA-1': 'sha1', 'SCRAM-SHA-256': 'sha256', 'SCRAM-SHA-512': 'sha512', 'SCRAM-SHA-224': 'sha224', 'SCRAM-SHA-384': 'sha384'}


def is_scram(m): return m.name.startswith('SCRAM-')
def is_plus(m): return m.name.endswith('-PLUS')
def base(m): return m.name[:-5] if is_plus(m) else m.name
def alg_of(m): return ALGS.get(base(m))


def rngs(t):
    return [x for x in subterms(t) if x[0] == 'rng']


def contains_hmac(t):
    return any(x[0] in ('HMAC', 'XOR') for x in subterms(t))


def one(xs):
    return xs[0] if len(xs) == 1 else None


class ClientPath:
    """the pieces of one client exchange, taken from what was written and what is known"""
    def __init__(self, x, st, steps):
        self.x, self.st, self.steps = x, st, steps
        self.m = x.mech
        self.k = Known(st)
        self.evs = list(events(steps))
        self.writes = [(n, ev[2]) for n, ev in self.evs if ev[0] == 'write']
        self.msgs = {}
        for n, d in self.writes:
            self.msgs[n] = cat(self.msgs[n], d) if n in self.msgs else d
        self.first = None        # step index of client-first
        self.final = None        # step index of client-final
        ns = sorted(self.msgs)
        if ns:
            self.first = ns[0]
        for n in ns:
            if contains_hmac(self.msgs[n]):
                self.final = n
                break
        self.parse_first()

    def parse_first(self):
        self.gs2 = self.flag = self.user = self.nonce = self.authz = self.bare = None
        if self.first is None:
            return
        a = split_literal(parts(self.msgs[self.first]))
        if len(a) != 4 or not a[0]:
            return
        self.flagparts = a[0]
        if a[0][0][0] != 'b':
            return
        self.flag = a[0][0][1][:1].decode('latin1')
        self.authz = a[1]
        if not (a[2] and a[2][0][0] == 'b' and a[2][0][1].startswith(b'n=')):
            return
        if not (a[3] and a[3][0][0] == 'b' and a[3][0][1].startswith(b'r=')):
            return
        strip = lambda ps: ([('b', ps[0][1][2:])] if ps[0][1][2:] else []) + ps[1:]
        self.user = strip(a[2])
        self.nonce = strip(a[3])
        self.gs2 = cat(*(a[0] + [('b', b',')] + a[1] + [('b', b',')]))
        self.bare = cat(*([('b', b'n=')] + self.user + [('b', b',r=')] + self.nonce))

    # fields of the server's first message: whatever peer terms of that input are known to carry the letter
    def fields(self, inp, letter):
        out = []
        seen = set()
        for key in list(self.st.facts):
            t = key[1]
            if not isinstance(t, tuple):
                continue
            for s in subterms(t):
                if s[0] in ('nth', 'input'):
                    s = mkslice(s, ('i', 2), None)
                elif s[0] != 'slice':
                    continue
                if s not in seen and roots(s) == {inp}:
                    seen.add(s)
                    if self.k.letter(s) == letter:
                        out.append(s)
        out.sort(key=lambda t: t[3] is not None)
        return out


def client_exchanges(x):
    for st, steps in x.paths:
        if steps[-1]['kind'] == 'start-error':
            continue
        yield ClientPath(x, st, steps)


def auth_message(bare, first_fields, cfinal):
    return cat(bare, ('b', b','), first_fields, ('b', b','), cfinal)


def client_final_parts(msg):
    """'c=' X ',r=' Y ',p=' Z -> X, Y, Z (part lists)"""
    a = attrs(msg)
    if [l for l, _ in a] != ['c', 'r', 'p']:
        return None
    return [p for _, p in a]


def key_terms(cp):
    """(client key, server key) pairs that this exchange may use, keyed by how they were obtained"""
    alg = alg_of(cp.m)
    return alg


def check_client_transcript(cp, V):
    """C03 on the client: message layout, AuthMessage, keys and proof"""
    m, k = cp.m, cp.k
    alg = alg_of(m)
    if cp.first is not None:
        if cp.bare is None or cp.flag not in ('n', 'y', 'p'):
            V('client-first-layout', 'client-first is not gs2-header n=<user>,r=<nonce>: %s' % (cp.msgs[cp.first],), cp)
            return
    if cp.final is None:
        return
    V.count('client-final messages')
    if len(cp.msgs) != 2:
        V('client-message-count', 'a SCRAM client writes exactly client-first and client-final', cp)
        return
    f = client_final_parts(cp.msgs[cp.final])
    if f is None:
        V('client-final-layout', 'client-final is not c=,r=,p=: %s' % (cp.msgs[cp.final],), cp)
        return
    c, r, p = f
    cp.c, cp.r = c, r
    inp = cp.steps[cp.final]['input']
    n = inp[1] if inp else None
    # r= is the full nonce of server-first
    R = [t for t in cp.fields(n, 'r') if k.same(t, cat(*r))]
    if not R:
        V('client-final-nonce', 'the r= attribute of client-final is not the nonce of server-first', cp)
        return
    S = cp.fields(n, 's')
    I = cp.fields(n, 'i')
    if not S or not I:
        V('client-server-first-fields', 'client-final is sent although s= or i= of server-first is not established', cp)
        return
    # c= is base64 of gs2 header and binding data
    cb = one(c)
    if cb is None or cb[0] != 'b64e':
        V('client-final-cb', 'c= is not base64 of the GS2 header and binding data', cp)
        return
    cbin = parts(cb[1])
    g = parts(cp.gs2)
    cbn, gn = parts(cat(*cbin)), parts(cat(*g))
    pre = cat(*cbn)
    data = strip_prefix(cbn, gn)
    if data is None:
        V('client-final-cb', 'c= does not start with the GS2 header sent in client-first', cp)
        return
    cp.cbdata = data
    pz = one(p)
    if pz is None or pz[0] != 'b64e' or pz[1][0] != 'XOR' or len(pz[1]) != 3:
        V('client-proof', 'p= is not base64 of ClientKey XOR ClientSignature', cp)
        return
    a, b = pz[1][1], pz[1][2]
    ok = None
    why = 'proof operands are not (ClientKey, HMAC(H(ClientKey), AuthMessage))'
    for ck, sig in ((a, b), (b, a)):
        if sig[0] == 'HMAC' and sig[1] == alg and sig[2] == ('H', alg, ck):
            ok = (ck, sig)
    if ok is None:
        V('client-proof', why, cp)
        return
    ck, sig = ok
    am = sig[3]
    woproof = cat(('b', b'c='), *(c + [('b', b',r=')] + r))
    good = False
    for s in S:
        for i in I:
            sf = cat(('b', b'r='), *(r + [('b', b',s='), s, ('b', b',i='), i]))
            want = auth_message(cp.bare, sf, woproof)
            if cat(*k.expand(am)) == cat(*k.expand(want)):
                good = True
                cp.salt, cp.iter = s, i
    raw = auth_message(cp.bare, inp, woproof)
    if not good and cat(*k.expand(am)) == cat(*k.expand(raw)):
        good = True
        cp.salt, cp.iter = S[0], I[0]
    if not good:
        V('client-authmessage', 'AuthMessage is not client-first-bare,server-first,client-final-without-proof of this exchange: %s' % (am,), cp)
        return
    cp.ck, cp.am = ck, am
    # client key
    why = key_source(cp, ck, 'Client Key', alg)
    if why:
        V('client-key', why, cp)


def strip_prefix(ps, pre):
    """parts of ps after the parts pre, or None"""
    ps, pre = list(ps), list(pre)
    while pre:
        if not ps:
            return None
        a, b = ps[0], pre[0]
        if a == b:
            ps.pop(0)
            pre.pop(0)
        elif a[0] == 'b' and b[0] == 'b' and a[1].startswith(b[1]):
            ps[0] = ('b', a[1][len(b[1]):])
            pre.pop(0)
        else:
            return None
    return [p for p in ps if p != ('b', b'')]


SECRET_FIELDS = {'Client Key': 'client_key', 'Server Key': 'server_key'}


def key_source(cp, key, label, alg):
    """None if key is the client/server key this exchange may use, else the reason"""
    k = cp.k
    if key[0] == 'HMAC':
        if key[1] != alg or key[3] != ('b', label.encode()):
            return '%s is not HMAC(SaltedPassword, "%s") of this mechanism' % (label, label)
        sp = key[2]
        if sp == ('prop', 'SaltedPassword') or (sp[0] in ('fld', 'slice') and contains(sp, lambda t: t == ('prop', 'SaltedPassword'))):
            cp.keysrc = 'salted'
            return None
        if sp[0] == 'pbkdf2':
            pw = sp[2]
            if sp[1] != alg:
                return 'salted password uses another hash'
            if pw not in (('prop', 'Password'), ('saslprep', ('prop', 'Password'))):
                return 'salted password is not derived from the Password property: %s' % (pw,)
            salt, it = sp[3], sp[4]
            if not (salt[0] == 'b64d' and cp.k.letter(salt[1]) == 's' and roots(salt) == {cp.steps[cp.final]['input'][1]}):
                return 'salt is not the decoded s= of server-first'
            if not (it[0] == 'parse' and cp.k.letter(it[1]) == 'i' and roots(it) == {cp.steps[cp.final]['input'][1]}):
                return 'iteration count is not the i= of server-first'
            cp.keysrc = 'password'
            return None
        return '%s derives from %s' % (label, sp[0])
    want = SECRET_FIELDS[label]
    if key[0] == 'fld' and key[1] == ('prop', 'ScramCachedPassword') and key[2] == want:
        cp.keysrc = 'cached'
        return None
    return '%s comes from %s' % (label, key)


def check_client_gate(cp, V):
    """C02: checks before the proof is sent and before success is reported"""
    k, m = cp.k, cp.m
    alg = alg_of(m)
    if cp.final is not None:
        V.count('proofs sent')
        inp = cp.steps[cp.final]['input']
        n = inp[1] if inp else None
        Rs = cp.fields(n, 'r')
        cn = cat(*(cp.nonce or []))
        l = mklen(cn)
        okr = False
        for t in Rs:
            if cp.nonce and k.yes(mkeq(mkslice(t, ('i', 0), l), cn)) and k.yes(mklt(l, mklen(t))):
                okr = True
        if not okr:
            V('nonce-not-extended', 'a proof is sent although server-first does not carry the client nonce extended by at least one byte', cp)
        oki = False
        for t in cp.fields(n, 'i'):
            it = ('parse', t)
            if k.yes(('parses', t)) and k.yes(mknot(mkeq(it, ('i', 0)))):
                oki = True
        if not oki:
            V('iterations-unchecked', 'a proof is sent although the iteration count is not known to be a non-zero number', cp)
    last = cp.steps[-1]
    fin = last['kind'] == 'Finished'
    act = [(n, ev) for n, ev in cp.evs if ev[0] == 'action']
    if not fin and not act:
        return
    if fin:
        V.count('successful ends')
    if cp.final is None:
        V('finished-without-proof', 'the exchange finishes or caches keys without having sent a proof', cp)
        return
    n = last['input'][1] if last.get('input') else None
    for an, ev in act:
        if an <= cp.final:
            V('cached-before-verification', 'keys are handed out before the server answered the proof', cp)
    okv = False
    for q in k.eqs:
        for a, b in ((q[1], q[2]), (q[2], q[1])):
            if b[0] == 'HMAC' and b[1] == alg and a[0] == 'b64d' and k.letter(a[1]) == 'v' and roots(a) == {n}:
                if getattr(cp, 'am', None) is not None and cat(*k.expand(b[3])) == cat(*k.expand(cp.am)):
                    src = getattr(cp, 'keysrc', None)
                    if key_source(cp, b[2], 'Server Key', alg) is None and cp.keysrc == src:
                        okv = True
                        cp.sk = b[2]
    if not okv:
        V('unverified-finish' if fin else 'unverified-cache',
          'the exchange ends (or offers keys for caching) on a path where v= is not known to equal the server signature', cp)
        return
    for an, ev in act:
        if ev[1] != 'ScramCachedPassword':
            continue
        d = ev[3]
        if d[0] == 'A':
            names = [f['name'] for f in cp.x.f.adts[d[1]]['variants'][0]['fields']]
            vals = dict(zip(names, d[3]))
            if vals.get('client_key') != cp.ck or vals.get('server_key') != cp.sk:
                V('cached-wrong-keys', 'the keys offered for caching are not the ones of this exchange', cp)
        else:
            V('cached-wrong-keys', 'the value offered for caching is not built from the keys of this exchange', cp)
        V.count('cache offers')


# ---- server ----------------------------------------------------------------------------------------

class ServerPath(ClientPath):
    def __init__(self, x, st, steps):
        self.x, self.st, self.steps = x, st, steps
        self.m = x.mech
        self.k = Known(st)
        self.evs = list(events(steps))
        self.msgs = {}
        for n, ev in self.evs:
            if ev[0] == 'write':
                self.msgs[n] = cat(self.msgs[n], ev[2]) if n in self.msgs else ev[2]
        ns = sorted(self.msgs)
        self.first = ns[0] if ns else None
        self.sf = attrs(self.msgs[ns[0]]) if ns else None
        self.accept = None
        for n, ev in self.evs:
            if ev[0] == 'validate' or (ev[0] == 'write' and contains_hmac(ev[2])):
                self.accept = n
                break

    def in1(self):
        return self.steps[self.first]['input'][1] if self.first is not None and self.steps[self.first]['input'] else None


def server_exchanges(x):
    for st, steps in x.paths:
        if steps[-1]['kind'] == 'start-error':
            continue
        yield ServerPath(x, st, steps)


def server_first(sp, V, quiet=False):
    """layout of server-first: r=<client nonce><server nonce>,s=<b64 salt>,i=<iterations>"""
    def bad(k, w):
        if not quiet:
            V(k, w, sp)
        return None
    if sp.first is None:
        return None
    a = sp.sf
    if [l for l, _ in a] != ['r', 's', 'i']:
        return bad('server-first-layout', 'server-first is not r=,s=,i=: %s' % (sp.msgs[sp.first],))
    r, s, i = [p for _, p in a]
    n = sp.in1()
    if len(r) < 2 or not all(rngs(p) for p in r[1:]) or rngs(r[0]):
        return bad('server-first-nonce', 'r= is not the client nonce followed by a fresh server nonce')
    if sp.k.letter(r[0]) != 'r' or roots(r[0]) != {n}:
        return bad('server-first-nonce', 'r= does not start with the nonce of client-first')
    if len(s) != 1 or s[0][0] != 'b64e':
        return bad('server-first-salt', 's= is not base64 of a salt')
    sp.cn, sp.sn, sp.salt, sp.it = r[0], cat(*r[1:]), s[0], i
    return True


def cfirst(sp, V):
    """GS2 header and bare part of the peer's client-first, rebuilt from the message itself"""
    n = sp.in1()
    f = [('nth', ('input', n), COMMA, ('i', j)) for j in range(4)]
    k = sp.k
    u = mkslice(f[2], ('i', 2), None)
    if k.letter(u) != 'n':
        us = sp.fields(n, 'n')
        if not us:
            V('client-first-user', 'no n= attribute established in client-first', sp)
            return None
        u = us[0]
    sp.user = u
    head = k.expand(f[0]) + [('b', b',')] + k.expand(f[1]) + [('b', b',')]
    sp.gs2 = cat(*head)
    sp.flag = k.prefix(f[0])[:1]
    sp.cbname = mkslice(f[0], ('i', 2), None)
    sp.authz = f[1]
    sp.bare = cat(('b', b'n='), u, ('b', b',r='), sp.cn)
    return True


def check_server_accept(sp, V, want):
    """C01/C03/C05: everything that must be known when a server signature is sent or validation runs"""
    k, m = sp.k, sp.m
    alg = alg_of(m)
    if sp.accept is None:
        return
    n2 = sp.steps[sp.accept]['input']
    if sp.first is None or sp.accept <= sp.first or n2 is None:
        if want == 'C01':
            V('accept-without-challenge', 'validation or server signature before a challenge was answered', sp)
        return
    n2 = n2[1]
    V.count('accepting paths')
    if not server_first(sp, V, quiet=want != 'C03') or not cfirst(sp, V):
        if want != 'C03':
            V('accept-malformed-challenge', 'a proof is accepted for a challenge that is not r=,s=,i= of this exchange', sp)
        return
    T = [t for t in sp.fields(n2, 'r') if k.is_concat(t, [sp.cn, sp.sn])]
    if not T:
        if want == 'C01':
            V('nonce-unchecked', 'the nonce returned by the client is not known to be client nonce + server nonce', sp)
        return
    # channel binding
    cbq = None
    for q in k.eqs:
        for a, b in ((q[1], q[2]), (q[2], q[1])):
            if a[0] == 'b64d' and k.letter(a[1]) == 'c' and roots(a) == {n2}:
                e = k.expand(b)
                g = k.expand(sp.gs2)
                d = strip_prefix(parts(cat(*e)), parts(cat(*g)))
                if d is not None:
                    cbq = (a[1], d)
    if cbq is None:
        if want == 'C01':
            V('cb-unchecked', 'c= is not known to decode to the GS2 header of client-first and the binding data', sp)
        return
    C, data = cbq
    if want == 'C05':
        check_server_binding(sp, data, V)
        return
    # proof
    proof = None
    for q in k.eqs:
        for a, b in ((q[1], q[2]), (q[2], q[1])):
            if a[0] == 'H' and a[2][0] == 'XOR' and len(a[2]) == 3:
                for p, sig in ((a[2][1], a[2][2]), (a[2][2], a[2][1])):
                    p = p[1] if p[0] == 'fit' else p
                    if sig[0] == 'HMAC' and p[0] == 'b64d' and k.letter(p[1]) == 'p' and roots(p) == {n2}:
                        proof = (a, b, p, sig)
    if proof is None:
        if want == 'C01':
            V('proof-unchecked', 'the proof is not known to yield the stored key', sp)
        return
    h, stored, p, sig = proof
    SK = ('fld', ('prop', 'ScramStoredPassword'), 'stored_key')
    if want == 'C01':
        if h[1] != alg or sig[1] != alg:
            V('wrong-hash', 'the proof is checked under another hash than the one the mechanism names', sp)
        if stored != SK or sig[2] != SK:
            V('proof-wrong-key', 'the proof is not checked against the stored key of the named user', sp)
    woproof = cat(('b', b'c='), C, ('b', b',r='), sp.cn, sp.sn)
    wants = [auth_message(sp.bare, sp.msgs[sp.first], woproof)]
    norm = lambda t: cat(*k.expand(t))
    wn = [norm(w) for w in wants]
    if norm(sig[3]) not in wn:
        V('server-authmessage', 'the AuthMessage the proof is checked over is not client-first-bare,server-first,client-final-without-proof of this exchange', sp)
    if want == 'C03':
        msg = sp.msgs.get(sp.accept)
        if msg is None:
            V('no-server-signature', 'the client is accepted without a server signature', sp)
            return
        a = attrs(msg)
        if [l for l, _ in a] != ['v'] or len(a[0][1]) != 1 or a[0][1][0][0] != 'b64e':
            V('server-final-layout', 'the accepting server-final is not v=<base64 signature>', sp)
            return
        s = a[0][1][0][1]
        if s[0] != 'HMAC' or s[1] != alg or s[2] != ('fld', ('prop', 'ScramStoredPassword'), 'server_key') or norm(s[3]) not in wn:
            V('server-signature', 'v= is not HMAC(ServerKey, AuthMessage) of this exchange', sp)
        # challenge belongs to the user's stored data
        salt = sp.salt[1]
        if salt != ('fld', ('prop', 'ScramStoredPassword'), 'salt'):
            V('server-first-salt', 'an accepted exchange used another salt than the stored one', sp)
        if not any(contains(t, lambda y: y == ('fld', ('prop', 'ScramStoredPassword'), 'iterations')) for t in sp.it) or len(sp.it) != 1:
            V('server-first-iterations', 'an accepted exchange used another iteration count than the stored one', sp)
    if want == 'C01':
        # the stored key is that of the user named in client-first, asked for in this exchange
        reqs = [ev for n, ev in sp.evs if ev[0] == 'req' and ev[2] == 'ScramStoredPassword' and ev[4] == 'value']
        if not reqs or not any(P == 'AuthId' and k.same(v, sp.user) for P, v in reqs[-1][3]):
            V('lookup-wrong-user', 'the stored key was not looked up for the user named in client-first', sp)


def check_server_binding(sp, data, V):
    k, m = sp.k, sp.m
    if sp.flag == b'p':
        V.count('bound accepts')
        name = sp.cbname
        if len(data) != 1:
            V('bound-without-data', 'a bound exchange is accepted without binding data being compared', sp)
        elif data[0][0] == 'cbdata':
            if not k.same(data[0][1], name):
                V('binding-other-name', 'binding data of another binding type than announced is used', sp)
        elif data[0] == ('prop', 'ChannelBindings'):
            rq = [ev for n, ev in sp.evs if ev[0] == 'req' and ev[2] == 'ChannelBindings']
            if not rq or not any(P == 'ChannelBindingName' and k.same(v, name) for P, v in rq[-1][3]):
                V('binding-other-name', 'binding data was requested for another binding type than announced', sp)
        else:
            V('binding-unknown-data', 'binding data comes from %s' % (data[0],), sp)
    else:
        V.count('unbound accepts')
        if data:
            V('unbound-with-data', 'an unbound exchange is compared against binding data', sp)
        if is_plus(m):
            V('plus-unbound', 'a -PLUS exchange is accepted although the client did not bind the channel', sp)
        if sp.flag not in (b'n', b'y'):
            V('flag', 'GS2 flag %r accepted' % (sp.flag,), sp)


def origin(st):
    for ev in st.events():
        if ev[0] == 'start':
            return ev[3]
    return None


def check_client_binding(cp, V):
    """C05 on the client: the flag announces what is done, and a -PLUS client only proceeds with binding data"""
    m, k = cp.m, cp.k
    if cp.first is None:
        return
    V.count('client-first messages')
    if cp.flag is None:
        V('client-first-layout', 'the GS2 flag of client-first is not determined', cp)
        return
    o = origin(cp.st)
    if is_plus(m):
        want = 'p'
    elif o and o.startswith('selector') and (m.name + '-PLUS') not in o.split():
        want = 'y'
        V.count('unoffered -PLUS starts')
    else:
        want = 'n'
    fp = cp.flagparts
    name = None
    if cp.flag == 'p':
        if fp[0][0] == 'b' and fp[0][1].startswith(b'p=') :
            name = cat(*(([('b', fp[0][1][2:])] if fp[0][1][2:] else []) + list(fp[1:])))
    if cp.flag != want or (cp.flag != 'p' and fp != [('b', cp.flag.encode())]) or (cp.flag == 'p' and name is None):
        V('client-flag', 'client-first announces %r where %r is what this client does (started by %s)' % (cat(*fp), want, o), cp)
        return
    if cp.flag == 'p':
        V.count('bound client-firsts')
        n = cp.first
        got = [ev for i, ev in cp.evs if i <= n and ((ev[0] == 'cbdata' and k.same(ev[1], name)) or
               (ev[0] == 'req' and ev[2] == 'ChannelBindings' and ev[4] == 'value' and any(P == 'ChannelBindingName' and k.same(v, name) for P, v in ev[3])))]
        if not got:
            V('bound-without-data', "'p=' is announced without binding data having been obtained for that name", cp)
            return
    if cp.final is None:
        return
    W = QuietV()
    check_client_transcript(cp, W)
    data = getattr(cp, 'cbdata', None)
    if data is None:
        V('client-final-cb', 'c= of client-final is not base64 of the GS2 header sent and the binding data', cp)
        return
    if cp.flag != 'p':
        if data:
            V('unbound-with-data', 'an unbound client puts data after the GS2 header', cp)
        return
    if len(data) == 1 and data[0][0] == 'cbdata' and k.same(data[0][1], name):
        V.count('provider-bound finals')
    elif data == [('prop', 'ChannelBindings')]:
        rq = [ev for i, ev in cp.evs if ev[0] == 'req' and ev[2] == 'ChannelBindings' and ev[4] == 'value']
        if not rq or not any(P == 'ChannelBindingName' and k.same(v, name) for P, v in rq[-1][3]):
            V('binding-other-name', 'binding data was requested for another binding type than announced', cp)
        V.count('application-bound finals')
    else:
        V('binding-other-data', 'c= carries %s instead of the data of the announced binding' % (data,), cp)


class QuietV:
    def __call__(self, *a, **k): pass
    def count(self, *a): pass


def check_server_flag(sp, V):
    """C05 on the server: 'y' is refused when the matching -PLUS mechanism is available; -PLUS needs 'p='"""
    k, m = sp.k, sp.m
    if sp.first is None:
        return
    V.count('challenges')
    if not server_first(sp, QuietV()) or not cfirst(sp, QuietV()):
        V('challenge-malformed', 'the GS2 flag of the answered client-first is not determined', sp)
        return
    V.count('challenges %s' % (sp.flag.decode('latin1') or '?'))
    if sp.flag not in (b'n', b'y', b'p'):
        V('flag', 'GS2 flag %r answered with a challenge' % (sp.flag,), sp)
    if is_plus(m):
        if sp.flag != b'p':
            V('plus-unbound', 'a -PLUS server continues with a client that does not bind the channel', sp)


MECH_ITER = 'rsasl::config::ConfigInstance::get_mech_iter'


def answered_flags(x, names, rounds=1):
    """GS2 flags of the client-firsts a server answers when exactly the named mechanisms are registered"""
    ms = [m for m in mech.mechanisms(x.f) if m.name in names]

    def entries(e, st, c, a):
        return [(st, ('it', 'seq', ('R', tuple(e.static_ptr(st, m.path) for m in ms)), ('i', 0)))]
    y = mech.Exchange(x.f, x.mech, 'server', {'finite': 16, 'hooks': {MECH_ITER: entries}}, maxrounds=rounds)
    out = {}
    for sp in server_exchanges(y):
        if sp.first is not None and server_first(sp, QuietV()) and cfirst(sp, QuietV()):
            out.setdefault(sp.flag, sp)
    return out


def check_downgrade(x, V):
    """a client announcing 'y' is not answered if the matching -PLUS mechanism is registered"""
    own = x.mech.name + '-PLUS'
    every = [q.name for q in mech.mechanisms(x.f)]
    if x.absent or own not in every:
        return
    for names in [every, [own, x.mech.name]]:
        V.count('registries tried')
        sp = answered_flags(x, names).get(b'y')
        if sp is not None:
            V('downgrade', "a client announcing 'y' is challenged although %s is registered" % own, sp)


# ---- C04 -------------------------------------------------------------------------------------------

GOOD_RNG = ('thread_rng', 'from_entropy', 'OsRng')
PRINT = set(range(0x21, 0x7f)) - {ord(',')}


def good_rng(r):
    return (r[0] == 'rng' and r[1] in GOOD_RNG) or (r[0] == 'A' and r[1].split('::')[-1] in ('OsRng',))


def alphabet(d):
    """distinct characters a distribution draws from, or None"""
    if d[0] == 'slicedist' and d[1][0] == 'b':
        return set(d[1][1]) if len(set(d[1][1])) == len(d[1][1]) else None
    if d[0] == 'A' and d[1].split('::')[-1] == 'Alphanumeric':
        return set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
    return None


def drawn(v):
    """(draw number, generator, alphabet) of one character, or None"""
    if v[0] == 'sample':
        return v[3], v[2], alphabet(v[1])
    if v[0] == 'at' and v[1][0] == 'b' and v[2][0] == 'random' and v[2][1] in ('gen_range', 'random_range'):
        g, rg = v[2][2][0], v[2][2][1]
        n = len(v[1][1])
        lo, hi = (rg[3][0], rg[3][1]) if rg[0] == 'A' and len(rg[3]) >= 2 else (None, None)
        if lo == ('i', 0) and rg[1].endswith('::Range') and hi == ('i', n):
            return v[2][3], g, set(v[1][1]) if len(set(v[1][1])) == n else None
    return None


def random_text(ps):
    """why a value is not an independently drawn random text, None if it is; and its length"""
    total, used = 0, set()
    for p in ps:
        if p[0] == 'byte':
            p = ('R', (p[1],))
        if p[0] == 'amap':
            d = drawn(p[2])
            if d is None:
                return 'characters are %s' % (p[2],), 0
            if d[0] <= p[3]:
                return 'all characters share one draw', 0
            els, n = [d], p[1]
        elif p[0] == 'R':
            els, n = [drawn(q) for q in p[1]], len(p[1])
        elif p[0] == 'b64e' and p[1][0] == 'randbytes':
            rb = p[1]
            if rb[2][0] != 'i' or not good_rng(rb[1]):
                return 'random bytes come from %s' % (rb[1],), 0
            els, n = [(rb[3], rb[1], set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/'))], rb[2][1] * 4 // 3
        elif p[0] == 'collected' and p[1][0] == 'it' and p[1][1] == 'take' and p[1][2][0:2] == ('it', 'samples') and p[1][3][0] == 'i':
            els, n = [(('collected', str(p)), p[1][2][3], alphabet(p[1][2][2]))], p[1][3][1]
        else:
            return 'it contains %s' % (p,), 0
        for d in els:
            if d is None:
                return 'a character is not drawn from a known alphabet', 0
            uid, g, al = d
            if not good_rng(g):
                return 'the generator is %s' % (g,), 0
            if al is None or len(al) <= 60 or not al <= PRINT:
                return 'the alphabet is not more than 60 distinct printable characters without comma', 0
            if uid in used:
                return 'two characters share one draw', 0
            used.add(uid)
        total += n
    return None, total


def check_fresh(cp, V, server):
    """C04"""
    if server:
        if cp.first is None:
            return
        W = QuietV()
        if not server_first(cp, W):
            V('server-first-nonce', 'the server nonce or salt of the challenge is not determined', cp)
            return
        own = parts(cp.sn)
        # everything after the client nonce
        why, n = random_text(own)
    else:
        if cp.first is None:
            return
        if not cp.nonce:
            V('client-nonce', 'client-first carries no own nonce', cp)
            return
        own = cp.nonce
        why, n = random_text(own)
    V.count('server nonces' if server else 'client nonces')
    if why:
        V('nonce-not-random', 'the own nonce is not drawn character by character from an OS seeded generator: %s' % why, cp)
    elif n < 18:
        V('nonce-short', 'the own nonce has only %s characters' % n, cp)
    if not server:
        return
    salt = cp.salt[1]
    if roots(salt):
        V('salt-from-peer', 'the salt shown to the client is made from its own message', cp)
    rq = [ev for i, ev in cp.evs if ev[0] == 'req' and ev[2] == 'ScramStoredPassword' and i <= cp.first]
    if rq and rq[-1][4] == 'value':
        V.count('stored salts')
        if salt != ('fld', ('prop', 'ScramStoredPassword'), 'salt') and not (salt[0] == 'randbytes' and good_rng(salt[1])):
            V('salt-other', 'the salt shown is neither the stored nor a random one: %s' % (salt,), cp)
        return
    V.count('decoy salts')
    if salt[0] != 'randbytes' or not good_rng(salt[1]) or salt[2][0] != 'i' or salt[2][1] < 8:
        V('decoy-not-random', 'the salt shown for an unknown user is not drawn from an OS seeded generator: %s' % (salt,), cp)
    elif any(x == salt for p in own for x in subterms(p)):
        V('decoy-shares-nonce', 'the decoy salt is the nonce', cp)
