"""C08: where secrets of the application may go."""
from terms import *
from rules import live, iterations
from scram import is_scram, alg_of

SECRET_PROPS = {'Password', 'SaltedPassword', 'ScramCachedPassword', 'ScramStoredPassword', 'OAuthBearerToken'}
KEYF = {'stored_key', 'server_key', 'client_key'}
LABELS = {('b', b'Client Key'), ('b', b'Server Key')}

MAY_ASK = {
    ('PLAIN', 'client'): {'Password'}, ('LOGIN', 'client'): {'Password'},
    ('XOAUTH2', 'client'): {'OAuthBearerToken'}, ('OAUTHBEARER', 'client'): {'OAuthBearerToken'},
}
SCRAM_ASK = {'client': {'Password', 'SaltedPassword', 'ScramCachedPassword'}, 'server': {'ScramStoredPassword'}}
PLAINTEXT = {('PLAIN', 'client'): 'Password', ('LOGIN', 'client'): 'Password',
             ('XOAUTH2', 'client'): 'OAuthBearerToken', ('OAUTHBEARER', 'client'): 'OAuthBearerToken'}
SINK = ('_print', '_eprint')


def secret_atom(t):
    """(the value itself is secret, name)"""
    if t[0] == 'prop' and t[1] in SECRET_PROPS and t[1] != 'ScramStoredPassword':
        return t[1]
    if t[0] == 'fld' and t[1] == ('prop', 'ScramStoredPassword'):
        return 'stored ' + t[2] if t[2] in KEYF else None
    if t == ('prop', 'ScramStoredPassword'):
        return 'ScramStoredPassword'
    if t[0] == 'pbkdf2':
        return 'salted password'
    if t[0] == 'HMAC' and t[3] in LABELS:
        return 'derived key'
    return None


PHI, BUSY = {}, []


def leaks(t, out=None):
    """secrets that occur in the clear in a value"""
    out = out if out is not None else []
    if not isinstance(t, tuple) or not t:
        return out
    if not isinstance(t[0], str):
        for x in t:
            leaks(x, out)
        return out
    n = secret_atom(t)
    if n:
        out.append((n, t))
        return out
    k = t[0]
    if k == 'fld' and t[1] == ('prop', 'ScramStoredPassword'):
        return out
    if k == 'HMAC':
        return leaks(t[3], out) if t[3][0] in ('prop', 'fld', 'saslprep', 'slice') else out
    if k == 'H':
        if any(secret_key(s) for s in subterms(t[2])) and t[2][0] != 'XOR':
            out.append(('hash of a key', t))
        return out
    if k == 'XOR':
        if not any(x[0] == 'HMAC' and x[3] not in LABELS for x in t[1:]):
            for x in t[1:]:
                leaks(x, out)
        return out
    if k in ('len', 'preperr', 'utf8err', 'b64err', 'parseerr', 'jsonerr', 'typename', 'discr', 'eq', 'lt'):
        return out
    if k == 'phi':
        if t not in BUSY:
            BUSY.append(t)
            for q in PHI.get(t, ()):
                leaks(q, out)
            BUSY.pop()
        return out
    for x in t[1:]:
        if isinstance(x, tuple):
            leaks(x, out)
    return out


def secret_key(s):
    return secret_atom(s) is not None


def all_events(x, steps):
    for n, d in enumerate(steps):
        for ev in d.get('events', ()):
            yield n, ev
            if ev[0] == 'loop':
                for ev2, s in iterations(x, ev[1]):
                    yield n, ev2


def check_secrets(x, V):
    m = x.mech
    who = (m.name, x.side)
    ask = SCRAM_ASK[x.side] if is_scram(m) else MAY_ASK.get(who, set())
    plain = PLAINTEXT.get(who)
    seen = set()
    PHI.clear()
    PHI.update(x.e.phisrc)
    for st, steps in x.paths:
        p = (steps, st)
        d0 = steps[-1]
        if d0['kind'] == 'start-error':
            continue
        shown = 0
        for n, ev in all_events(x, steps):
            if ev[0] == 'req' and ev[2] in SECRET_PROPS:
                V.count('secret requests')
                if ev[2] not in ask:
                    V('asks-secret ' + ev[2], '%s asks the application for %s' % (m.name, ev[2]), p)
            if ev[0] == 'write':
                if id(ev) not in seen or plain:
                    seen.add(id(ev))
                    V.count('writes')
                    for name, t in leaks(ev[2]):
                        if plain and name == plain:
                            shown += 1
                            V.count('secrets in their field')
                        else:
                            V('written ' + name, 'a message carries %s in the clear' % name, p)
            elif ev[0] in ('req', 'validate', 'action'):
                if id(ev) in seen:
                    continue
                seen.add(id(ev))
                ctx = ev[3] if ev[0] == 'req' else ev[1] if ev[0] == 'validate' else ev[2]
                V.count('contexts')
                for P, v in ctx:
                    for name, t in leaks(v):
                        V('context ' + name, 'a callback context carries %s in the clear (as %s)' % (name, P), p)
                if ev[0] == 'action' and ev[1] != 'ScramCachedPassword':
                    for name, t in leaks(ev[3]):
                        V('action ' + name, 'the action %s carries %s in the clear' % (ev[1], name), p)
                elif ev[0] == 'action':
                    V.count('cache actions')
                    for name, t in leaks(ev[3]):
                        if name in ('Password', 'SaltedPassword', 'salted password'):
                            V('action ' + name, 'the caching action carries %s' % name, p)
            elif ev[0] == 'call' and any(s in ev[1] for s in SINK):
                for name, t in leaks(ev[2]):
                    V('printed ' + name, '%s is printed' % name, p)
        if shown > 1:
            V('written-twice ' + plain, '%s is written more than once in one exchange' % plain, p)
        if d0['kind'] == 'err':
            V.count('error values')
            for name, t in leaks(d0['ret']):
                V('error ' + name, 'an error value carries %s in the clear: %s' % (name, d0['ret']), p)
