"""How a refused OAuth login is told: server steps after a negative answer of the application, client steps that receive the
error message, and the JSON form of OAUTHBEARER errors (field names on the wire), read from the derived code."""
from engine import *
from fw import *
import models, itertools, re
from models import cases

ANSWER = {'OAUTHBEARER': 'OAuthBearerValidate', 'XOAUTH2': 'XOAuth2Validate'}
TOLD = {'OAUTHBEARER': 'OAuthBearerErrored', 'XOAUTH2': 'XOAuth2Error'}
ERROR = 'rsasl::mechanisms::oauthbearer::properties::OAuthBearerError'
# RFC 7628 section 3.2.2: names on the wire of the fields of the public error type
WIRE = {'status': 'status', 'scope': 'scope', 'openid_config': 'openid-configuration'}
NONE = ('A', OPT, 0, ())


def writes(d):
    return [ev for ev in d['events'] if ev[0] in ('write', 'partial-write', 'writefail')]


def check_server(x, V):
    """a refusal is sent as the application gave it and keeps the exchange open; nothing is sent otherwise"""
    if x.mech.name not in ANSWER or x.side != 'server':
        return
    prop = ANSWER[x.mech.name]
    fact = ('V', ('discr', ('prop', prop)))
    error = ('fld', ('prop', prop), 'Err.0')
    want = ('json', error) if x.mech.name == 'OAUTHBEARER' else error
    for st, steps in x.paths:
        refused = False
        for n, d in enumerate(steps):
            if d['kind'] == 'panic':
                continue
            asked = any(ev[0] == 'req' and ev[2] == prop for ev in d['events'])
            out = writes(d)
            if refused:
                V.count('steps after a refusal')
                if out or any(ev[0] in ('validate', 'req', 'action') for ev in d['events']):
                    V('after-refusal', 'the step after a refusal writes, asks or validates')
                if d['kind'] not in ('Finished', 'err'):
                    V('after-refusal', 'the step after a refusal does not end the exchange')
                continue
            if d['kind'] == 'err':
                continue
            if not asked:
                V('unasked', 'step %d succeeds (%s) without asking the application about the token' % (n + 1, d['kind']))
                continue
            v = d['facts'].get(fact)
            if v is None:
                ne = d['facts'].get(('NE', fact[1]), ())
                v = 0 if 1 in ne else 1 if 0 in ne else None
            if v is None:
                V('undetermined', 'a step succeeds without regard to the application\'s answer to %s' % prop)
            elif v == 0:
                V.count('accepted tokens')
                if out or d['kind'] != 'Finished':
                    V('accepted', 'after an accepted token the step %s' % ('writes' if out else 'does not finish'))
            else:
                V.count('refused tokens')
                refused = True
                if d['kind'] != 'Running':
                    V('refused-finishes', 'the step that refuses a token finishes the exchange before the client had the error')
                text = e_text(out)
                if [ev[0] for ev in out] != ['write'] * len(out) or text != want:
                    V('refusal-text', 'the client is sent %s instead of the error the application gave' % str(text)[:120])


def e_text(out):
    """what the writes amount to"""
    if len(out) == 1:
        return out[0][2]
    return ('cat', tuple(ev[2] for ev in out))


def check_client(x, V):
    """a client that received an error message finishes only after its application was told exactly that error"""
    if x.mech.name not in ANSWER or x.side != 'client':
        return
    prop = TOLD[x.mech.name]
    for st, steps in x.paths:
        for n, d in enumerate(steps[1:], 1):
            if d['kind'] in ('panic', 'err'):
                continue
            inp = d['input']
            acts = [ev for ev in d['events'] if ev[0] == 'action']
            empty = inp is None or inp in (('b', b''),) or d['facts'].get(('B', ('eq', ('len', inp), ('i', 0)))) is True
            # what the answer to an error looks like is C12; nothing answers an acceptance
            if writes(d) and (empty or not acts):
                V('client-writes', 'the client answers although it received no error')
            if d['kind'] != 'Finished':
                V('client-goes-on', 'after the server\'s answer the client goes on')
            if empty:
                V.count('empty answers')
                if acts:
                    V('client-invented', 'without an error message the application is told of an error')
                continue
            V.count('errors received')
            if d['facts'].get(('B', ('eq', ('len', inp), ('i', 0)))) is not False:
                V('client-undetermined', 'the client finishes without regard to whether an error was received')
                continue
            told = [ev for ev in acts if ev[1] == prop and ev[4] == 'ok']
            if len(acts) != 1 or len(told) != 1:
                V('client-silent', 'the client finishes on an error message although its application %s' % (
                    'was not told' if not told else 'was told %d times' % len(acts)))
                continue
            received(x, V, d, inp, told[0][3])


def received(x, V, d, inp, v):
    if x.mech.name == 'XOAUTH2':
        if v != inp:
            V('client-error', 'the application is told %s instead of the received error' % str(v)[:100])
        return
    f = x.f
    if v[0] == 'json-de' and v[1] == inp:
        # decoded straight into the public type
        if v[2].split('<')[0].split('::')[-1] != ERROR.split('::')[-1]:
            V('client-error', 'the application is told a %s' % v[2])
        form(f, V, v[2])
        return
    if not (v[0] == 'A' and v[1] == ERROR):
        V('client-error', 'the application is told %s instead of the received error' % str(v)[:100])
        return
    for fld, val in zip(fields(f, ERROR), v[3]):
        src = None
        if val == NONE:
            # nothing to tell: the message had none either
            for k, w in d['facts'].items():
                if k[0] == 'V' and k[1][0] == 'discr' and w == 0 and of_input(k[1][1], inp):
                    if wire(f, V, k[1][1][1][2]).get(k[1][1][2]) == WIRE[fld]:
                        src = k[1][1]
        else:
            src = val[3][0] if val[0] == 'A' and val[1] == OPT and val[2] == 1 else val
            if val[0] == 'A' and src[0] == 'fld' and src[2] == 'Some.0':
                src = src[1]
        if src is None or not of_input(src, inp):
            V('client-error', 'the field %s of the error the application is told is %s, not what was received' % (fld, str(val)[:100]))
            continue
        got = wire(f, V, src[1][2]).get(src[2])
        if got != WIRE[fld]:
            V('client-error', 'the field %s of the error the application is told is what was received as %s instead of %s' % (fld, got, WIRE[fld]))


def of_input(v, inp):
    return v[0] == 'fld' and v[1][0] == 'json-de' and v[1][1] == inp


def fields(f, adt):
    return [x['name'] for x in f.adts[adt]['variants'][0]['fields']]


# ---- the JSON form ------------------------------------------------------------------------------------------------------
def derived(f, ty, tail):
    name = ty.split('<')[0]
    ks = [k for k in f.bodies if 'blocks' in f.bodies[k] and k.split('#')[0].endswith(tail) and 'Deserialize' in k
          and re.search(r'for (rsasl::)?%s(<[^>]*>)?>::deserialize' % re.escape(name.replace('rsasl::', '')), k)]
    if len(ks) != 1:
        raise Budget('%d derived decoders for %s' % (len(ks), ty))
    return ks[0]


def decode(f, ty, keys):
    """results of decoding an object with these keys in this order: [(value or None, state)]"""
    vm, vs = derived(f, ty, '::visit_map'), derived(f, ty, "__FieldVisitor as serde::de::Visitor<'de>>::visit_str")

    def at(st):
        return sum(1 for ev in st.events() if ev[0] == 'key')

    def next_key(e, st, c, args):
        n = at(st)
        st.ev('key', n)
        if n >= len(keys):
            return [(st, ('A', RES, 0, (NONE,)))]
        out = []
        for s, v in e.exec_body(st, vs, [('arg', 'fields'), ('b', keys[n].encode())]):
            out.append((s, ('A', RES, 0, (('A', OPT, 1, (v[3][0],)),)) if v[2] == 0 else v))
        return out

    def next_value(e, st, c, args):
        return [(st, ('A', RES, 0, (('json-value', keys[at(st) - 1]),)))]
    e = Engine(f, models, {'hooks': {'serde::de::MapAccess::next_key': next_key, 'serde::de::MapAccess::next_value': next_value}})
    return [(e.deep(s, v), s) for s, v in e.exec_body(State(), vm, [('arg', 'visitor'), ('arg', 'map')])]


TABLES = {}


def wire(f, V, ty):
    """field of the decoded type -> name on the wire"""
    if (id(f), ty) in TABLES:
        return TABLES[id(f), ty]
    names = sorted(WIRE.values())
    full = [v for v, s in decode(f, ty, names)]
    table = {}
    if len(full) == 1 and full[0][2] == 0:
        rec = full[0][3][0]
        for fld, v in zip(fields(f, rec[1]), rec[3]):
            if v[0] == 'json-value':
                table[fld] = v[1]
    TABLES[id(f), ty] = table
    return table


def form(f, V, ty):
    """a type decoded from the peer's JSON: no field needs text without escapes, all names are taken, others passed over"""
    adt = ty.split('<')[0]
    adt = adt if adt in f.adts else 'rsasl::' + adt
    V.count('decoded types')
    for x in f.adts[adt]['variants'][0]['fields']:
        t = f.types[x['ty']]['s'] if isinstance(x.get('ty'), int) else str(x.get('ty'))
        if re.search(r"&('\w+ )?str", t):
            V('escapes', 'the field %s of the decoded %s borrows its text from the message: text whose JSON form has an escape is refused' % (x['name'], adt.split('::')[-1]))
    names = sorted(WIRE.values())
    for k in range(1, len(names) + 1):
        for keys in itertools.permutations(names, k):
            if 'status' not in keys:
                continue
            for extra in (None, 'schemes'):
                seq = list(keys) if extra is None else [extra] + list(keys)
                for v, s in decode(f, ty, seq):
                    V.count('objects decoded')
                    if v[2] != 0:
                        V('decode', 'an error object with the keys %s is refused' % seq)
                        continue
                    rec = v[3][0]
                    for fld, got in zip(fields(f, rec[1]), rec[3]):
                        name = wire(f, V, ty).get(fld)
                        want = ('json-value', name) if name in keys else NONE
                        if got != want:
                            V('decode', 'an error object with the keys %s decodes its field %s to %s' % (seq, fld, str(got)[:80]))


def check_form(f, V):
    """the server writes, and the client reads, the fields of an error under their RFC 7628 names"""
    written(f, V)
    ks = [c for c in decoded_types(f)]
    if not ks:
        V.count('decoded types')
        V('no-decoder', 'no code of the OAUTHBEARER client decodes a JSON error')
    for ty in ks:
        form(f, V, ty)


def decoded_types(f):
    """the types serde_json is asked to decode in the mechanism code"""
    out = set()
    for k, b in f.bodies.items():
        if 'blocks' not in b or 'oauthbearer' not in k or 'tests' in k:
            continue
        for blk in b['blocks']:
            t = blk.get('term') or blk.get('t')
            if isinstance(t, dict) and t.get('t') == 'call':
                fn = t['f'].get('const', {}).get('fn') if isinstance(t['f'], dict) else None
                if fn and fn['path'].startswith('serde_json::de::from_'):
                    for a in fn['args']:
                        if isinstance(a, dict) and 't' in a:
                            out.add(f.types[a['t']]['s'])
    return sorted(out)


def written(f, V):
    ks = [k for k in f.bodies if 'blocks' in f.bodies[k] and k.split('#')[0].endswith('::serialize') and 'OAuthBearerError' in k]
    if len(ks) != 1:
        raise Budget('%d serializers of OAuthBearerError' % len(ks))

    def struct(e, st, c, args):
        return [(st, ('A', RES, 0, (('arg', 'object'),)))]

    def field(e, st, c, args):
        st.ev('field', e.deep(st, args[1]), e.deep(st, args[2]))
        return [(st, ('A', RES, 0, (UNIT,)))]

    def skip(e, st, c, args):
        return [(st, ('A', RES, 0, (UNIT,)))]

    def end(e, st, c, args):
        st.ev('end')
        return [(st, ('A', RES, 0, (('arg', 'written'),)))]
    S = 'serde::ser::SerializeStruct::'
    e = Engine(f, models, {'hooks': {'serde::ser::Serializer::serialize_struct': struct, S + 'serialize_field': field, S + 'skip_field': skip, S + 'end': end}})
    me = ('arg', 'error')
    for s, v in e.exec_body(State(), ks[0], [me, ('arg', 'serializer')]):
        V.count('objects written')
        got = {}
        for ev in s.events():
            if ev[0] == 'field':
                if ev[1][0] != 'b' or ev[1][1].decode() in got:
                    V('written', 'an error object has a field twice or under a name that is not constant')
                else:
                    got[ev[1][1].decode()] = ev[2]
        if e.deep(s, v) != ('A', RES, 0, (('arg', 'written'),)) or sum(1 for ev in s.events() if ev[0] == 'end') != 1:
            V('written', 'the error object is not ended exactly once')
        for fld, name in WIRE.items():
            val = ('fld', me, fld)
            present = s.facts.get(('V', ('discr', val)))
            g = got.pop(name, None)
            if fld != 'status' and present == 0:
                if g is not None:
                    V('written', 'an absent %s is written' % name)
            elif g is None:
                V('written', 'the field %s is not written as %s' % (fld, name))
            elif g != val and g != ('fld', val, 'Some.0') and g != ('A', OPT, 1, (('fld', val, 'Some.0'),)):
                V('written', 'the field %s is written as %s' % (name, str(g)[:80]))
        for name in got:
            V('written', 'an error object has a field %s RFC 7628 does not know' % name)
