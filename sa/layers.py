"""Security layers: what every reachable mechanism object answers to has_security_layer, encode and decode, and what GSSAPI
negotiated before it got there."""
from engine import *
from terms import *
import models

SE = 'rsasl::error::SessionError'
DATA, SINK = ('plain-data',), ('op-writer',)
NO, INTEGRITY, CONFIDENTIALITY = 1, 2, 4
LAYER = 'GssSecurityLayer'


def ends(x):
    """(state, steps, object) of every reachable situation of a session: fresh, between steps, and after the end"""
    seen = set()
    for s, r, origin in x.starts:
        for s2, var, p in models.cases(x.e, s.fork(), r, RES):
            if var == 0:
                yield s2, [], p
    for st, steps in x.paths:
        if steps[-1]['kind'] == 'start-error':
            continue
        for n, d in enumerate(steps):
            if d['kind'] == 'unbounded':
                continue
            key = (id(d['st']), n)
            if key not in seen:
                seen.add(key)
                yield d['st'], steps[:n + 1], d['obj']


def op(x, st, obj, name):
    e = x.e
    while obj[0] == 'P':
        obj = e.read(st, obj[1], obj[2])
    vt = e.vts[obj[2]]
    meth = dict((n, mm) for n, mm in vt['methods'])[name]
    n0 = st.trace
    args = [obj[1]] + ([] if name == 'has_security_layer' else [DATA, SINK])
    return [(s, e.deep(s, v) if v[0] != 'A' else v, x.since(s, n0)) for s, v in e.call_fn(st, meth, args, name)]


def no_layer(e, s, v):
    return v[0] == 'A' and v[1] == RES and v[2] == 1 and e.deep(s, v[3][0]) == ('A', SE, e.f.variant_index(SE, 'NoSecurityLayer'), ())


def check_ops(x, V):
    """has_security_layer, encode and decode agree in every reachable situation; no layer before the negotiation finished"""
    seen = {}
    for st, steps, obj in ends(x):
        kind = steps[-1]['kind'] if steps else 'fresh'
        ctx = negotiated(x, steps) if kind == 'Finished' and x.mech.name == 'GSSAPI' else None
        key = (x.snapshot(st, obj), kind, ctx)
        if key in seen:
            continue
        seen[key] = 1
        p = (steps, st)
        V.count('situations asked for a layer')
        for s, h, ev in op(x, st.fork(), obj, 'has_security_layer'):
            if h not in (TRUE, FALSE):
                V('layer-unknown', 'whether a security layer is active is not determined by the state: %s' % str(h)[:80], p)
                continue
            if [q for q in ev if q[0] in ('write', 'gss', 'req', 'action', 'validate')]:
                V('layer-query-acts', 'has_security_layer does more than answer', p)
            if h == TRUE and kind != 'Finished':
                V('layer-too-early', 'a security layer is reported although the negotiation has not succeeded (%s)' % kind, p)
            if h == TRUE:
                V.count('situations with a layer')
            for name, prim in (('encode', 'wrap'), ('decode', 'unwrap')):
                for s2, v, ev2 in op(x, s.fork(), obj, name):
                    V.count('layer operations')
                    uses = [q for q in ev2 if q[0] == 'gss']
                    writes = [q for q in ev2 if q[0] in ('write', 'partial-write')]
                    okk = v[0] == 'A' and v[1] == RES and v[2] == 0
                    if h == FALSE:
                        if not no_layer(x.e, s2, v):
                            V(name + '-without-layer', '%s without a security layer does not fail with the "no security layer" error but %s' % (name, str(v)[:80]), p)
                        if uses or [q for q in ev2 if q[0] in ('write', 'partial-write', 'writefail')]:
                            V(name + '-without-layer-acts', '%s without a security layer wraps, unwraps or writes' % name, p)
                        continue
                    if no_layer(x.e, s2, v):
                        V(name + '-denies-layer', '%s fails with "no security layer" although one is reported' % name, p)
                        continue
                    failed = [q for q in ev2 if q[0] in ('gssfail', 'writefail')]
                    if failed:
                        if okk:
                            V(name + '-failure-ignored', '%s succeeds although the layer or the writer failed' % name, p)
                        continue
                    if not okk:
                        V(name + '-fails', '%s fails although neither the layer nor the writer did' % name, p)
                        continue
                    V.count('protected transfers')
                    enc, data = split(uses, prim)
                    if len(uses) != 1 or data != DATA:
                        V(name + '-not-layer', '%s does not pass exactly the data through the layer' % name, p)
                        continue
                    out = layer_output(uses[0], prim)
                    got = [q for q in writes if q[0] == 'write']
                    if len(writes) != 1 or len(got) != 1 or got[0][1] != SINK or got[0][2] != out:
                        V(name + '-output', '%s does not write exactly the layer\'s output' % name, p)
                    if x.e.deep(s2, v[3][0]) != mklen(DATA):
                        V(name + '-count', '%s does not report the whole input as processed' % name, p)
                    if name == 'encode' and ctx is not None:
                        judge_encrypt(x, V, ctx, enc, st, p)
            if ctx is not None:
                judge_layer(x, V, ctx, h, st, p)


def split(uses, prim):
    """(encrypt flag, data) of a wrap or unwrap"""
    for q in uses:
        if q[1].endswith('::' + prim):
            a = q[3]
            return (a[0], a[1]) if prim == 'wrap' else (None, a[0])
    return None, None


def layer_output(q, prim):
    return ('gss' + prim, q[2]) + tuple(q[3])


# ---- negotiation -----------------------------------------------------------------------------------

def first_byte(t):
    if t[0] == 'b':
        return ('i', t[1][0]) if t[1] else None
    if t[0] == 'R':
        return t[1][0] if t[1] else None
    return None


def negotiated(x, steps):
    """(server's offer, client's selection) as byte terms, from the tokens exchanged: what was wrapped and sent, and the
    first byte of what was unwrapped"""
    sent, got = [], []
    for d in steps:
        for ev in d['events']:
            if ev[0] == 'write' and ev[2][0] == 'gsswrap':
                sent.append((ev[2][2], ev[2][3]))
            if ev[0] == 'gss' and ev[1].endswith('::unwrap'):
                got.append(('gssunwrap', ev[2]) + tuple(ev[3]))
    return tuple(sent), tuple(got)


def check_negotiation(x, V):
    """every finished GSSAPI exchange selected one or more layers the server offered and both sides accept"""
    for st, steps in x.paths:
        if steps[-1]['kind'] in ('start-error', 'unbounded'):
            continue
        for n, d in enumerate(steps):
            for ev in d['events']:
                if ev[0] == 'gss' and ev[1].endswith('::wrap'):
                    V.count('negotiation tokens')
                    enc, data = ev[3][0], ev[3][1]
                    if enc != FALSE:
                        V('negotiation-encrypted', 'a negotiation token is wrapped with encryption', (steps, st))
                    if roots(data) & {'plain-data'} or (first_byte(data) is None):
                        V('token-data', 'something else than a layer token is wrapped before the negotiation finished: %s' % str(data)[:80], (steps, st))
        if x.side == 'server':
            check_offer(x, V, st, steps)
        if steps[-1]['kind'] != 'Finished':
            continue
        V.count('finished negotiations')
        p = (steps, st)
        sent, got = negotiated(x, steps)
        if len(sent) != 1 or len(got) != 1:
            V('tokens', 'the exchange finishes after %d layer tokens sent and %d received instead of one each' % (len(sent), len(got)), p)
            continue
        ours, theirs = first_byte(sent[0][1]), at(got[0], ('i', 0))
        ln = mklen(got[0])
        if st.decide(mkeq(ln, ('i', 4))) is not True:
            V('token-length', 'a layer token that is not four bytes long is accepted', p)
        if ours is None:
            continue
        app = answers(steps)
        for env in assignments(st, [ours, theirs] + [t for t in app]):
            o, t = value(ours, env), value(theirs, env)
            offer, sel = (t, o) if x.side == 'client' else (o, t)
            if sel == 0:
                V('no-selection', 'the exchange finishes although no layer was selected', p)
            if sel & ~offer:
                V('not-offered', 'the exchange finishes with a layer the server did not offer (offer %d, selection %d)' % (offer, sel), p)
            if x.side == 'client':
                for a in app:
                    V.count('selections held against the application')
                    if sel & ~value(a, env):
                        V('not-acceptable', 'the client selects a layer the application does not accept (acceptable %d, selected %d)' % (value(a, env), sel), p)
                if sel & (sel - 1):
                    V('several-selected', 'the client selects several layers at once', p)


def check_offer(x, V, st, steps):
    sent, _ = negotiated(x, steps)
    for enc, data in sent[:1]:
        b = first_byte(data)
        if b is None:
            continue
        V.count('offers')
        app = answers(steps)
        for env in assignments(st, [b] + app):
            o = value(b, env)
            for a in app:
                V.count('offers held against the application')
                if o & ~value(a, env):
                    V('offer-not-acceptable', 'the server offers a layer the application does not accept', (steps, st))
            for bit, flag, what in ((CONFIDENTIALITY, 4, 'confidentiality'), (INTEGRITY, 5, 'integrity')):
                if o & bit and not any(k[0] == 'B' and v is True and k[1][0] == 'ctxbit' and k[1][2] == flag for k, v in st.facts.items()):
                    V('offer-unavailable ' + what, 'the server offers %s although its context may not provide it' % what, (steps, st))


def answers(steps):
    """terms of the layers the application accepts, if it was asked and answered"""
    r = []
    for d in steps:
        for ev in d['events']:
            if ev[0] == 'req' and ev[2] == LAYER and ev[4] == 'value':
                r.append(('fld', ('fld', ('prop', LAYER), '0'), '0'))
    return sorted(set(r))


def atoms(t, acc):
    if t[0] == 'bf':
        atoms(t[1], acc)
    elif t[0] == 'b2':
        atoms(t[2], acc)
        atoms(t[3], acc)
    elif t[0] != 'i':
        acc.add(t)
    return acc


def value(t, env):
    if t[0] == 'i':
        return t[1]
    if t[0] == 'bf':
        return t[2][value(t[1], env)]
    if t[0] == 'b2':
        a, b = value(t[2], env), value(t[3], env)
        return a & b if t[1] == 'BitAnd' else a | b if t[1] == 'BitOr' else a ^ b
    return env[t]


def holds(c, env):
    """truth of a condition over bytes, None if it speaks of something else"""
    k = c[0]
    if k == 'i':
        return bool(c[1])
    if k == 'not':
        r = holds(c[1], env)
        return None if r is None else not r
    if k == 'and':
        a, b = holds(c[1], env), holds(c[2], env)
        return False if False in (a, b) else None if None in (a, b) else True
    if k in ('inset', 'eq', 'lt', 'le'):
        ts = [c[1]] if k == 'inset' else [c[1], c[2]]
        acc = set()
        for t in ts:
            atoms(t, acc)
        if not acc <= set(env):
            return None
        a = value(c[1], env)
        if k == 'inset':
            return bool(c[2] >> a & 1)
        b = value(c[2], env)
        return a == b if k == 'eq' else a < b if k == 'lt' else a <= b
    return None


def assignments(st, terms):
    """every assignment of bytes to the atoms of the terms that the path's facts allow"""
    ats = set()
    for t in terms:
        atoms(t, ats)
    ats = sorted(ats, key=str)
    conds = [(k[1], v) for k, v in st.facts.items() if k[0] == 'B']
    doms = []
    for t in ats:
        m = st.mask(t)
        mine = [(c, v) for c, v in conds if cond_atoms(c) == {t}]
        doms.append([b for b in range(256) if m >> b & 1 and all(holds(c, {t: b}) in (None, v) for c, v in mine)])
    joint = [(c, v) for c, v in conds if len(cond_atoms(c)) > 1]

    def rec(i, env):
        if i == len(ats):
            if all(holds(c, env) in (None, v) for c, v in joint):
                yield dict(env)
            return
        for b in doms[i]:
            env[ats[i]] = b
            yield from rec(i + 1, env)
        env.pop(ats[i], None)
    return list(rec(0, {}))


_catoms = {}


def cond_atoms(c):
    r = _catoms.get(c)
    if r is None:
        r = set()
        if c[0] == 'not':
            r = cond_atoms(c[1])
        elif c[0] == 'and':
            r = cond_atoms(c[1]) | cond_atoms(c[2])
        elif c[0] == 'inset':
            r = atoms(c[1], set())
        elif c[0] in ('eq', 'lt', 'le') and isinstance(c[1], tuple) and isinstance(c[2], tuple):
            r = atoms(c[1], set()) | atoms(c[2], set())
        _catoms[c] = r
    return r


def selection_of(x, ctx):
    sent, got = ctx
    if len(sent) != 1 or len(got) != 1:
        return None
    return first_byte(sent[0][1]) if x.side == 'client' else at(got[0], ('i', 0))


def judge_layer(x, V, ctx, h, st, p):
    sel = selection_of(x, ctx)
    if sel is None:
        return
    for env in assignments(st, [sel]):
        V.count('selections compared')
        v = value(sel, env)
        if bool(v & (INTEGRITY | CONFIDENTIALITY)) != (h == TRUE):
            V('layer-not-selected' if h == TRUE else 'selected-no-layer', 'after selecting %d a security layer is %sactive' % (v, '' if h == TRUE else 'not '), p)


def judge_encrypt(x, V, ctx, enc, st, p):
    sel = selection_of(x, ctx)
    if sel is None:
        return
    if enc not in (TRUE, FALSE) and enc[0] in ('not', 'eq', 'lt', 'inset', 'lt0'):
        # decided by what was selected
        for b in (True, False):
            s = st.fork()
            if s.assume(enc, b):
                judge_encrypt(x, V, ctx, TRUE if b else FALSE, s, p)
        return
    if enc not in (TRUE, FALSE):
        V('encryption-unknown', 'whether data is encrypted is not determined: %s' % str(enc)[:60], p)
        return
    for env in assignments(st, [sel]):
        v = value(sel, env)
        if bool(v & CONFIDENTIALITY) != (enc == TRUE):
            V('encryption', 'after selecting %d data is %sencrypted' % (v, '' if enc == TRUE else 'not '), p)
