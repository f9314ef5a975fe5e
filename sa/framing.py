"""C11, C12: how client messages are put together from application values, and which peer messages a server takes."""
import re
from fields import *
from fw import short
from rules import live, iterations
from scram import is_scram

ONEWAY = ('hmac', 'hash', 'pbkdf2', 'digest', 'xor', 'b64e', 'saltedpw')


# ---- what is known about single characters -----------------------------------------------------------

def charset(st, t):
    """the bytes a term may contain"""
    m = ALLB
    for key, v in st.facts.items():
        if key[0] == 'ALL' and key[1] == t:
            m &= v
        elif key[0] == 'B' and v is True and key[1][0] == 'allin' and key[1][1] == t:
            m &= key[1][2]
    return m


def filled(st, t):
    return st.decide(mkeq(mklen(t), ('i', 0))) is False or st.ivlin(mklen(t))[0] > 0


class Escapes:
    """terms that are made from an application value character by character"""
    def __init__(self, x):
        self.x, self.memo = x, {}

    def source(self, t):
        """(value, {character: replacement}, rest kept) if t is such an image, else None"""
        if t[0] == 'collected' and t[1][0] == 'it' and t[1][1] in ('flat_map', 'map'):
            it = t[1]
            inner = it[2]
            if inner[0] == 'it' and inner[1] == 'chars' and inner[3] == ('i', 0):
                return inner[2], self.table(it[3], it[1])
        if t[0] == 'replaced':
            s = self.source(t[1])
            base, tab = s if s else (t[1], {})
            if tab is None:
                return base, None
            a, b = t[2], t[3]
            if a[0] == 'i' and b[0] == 'b':
                a = a[1]
            elif a[0] == 'b' and b[0] == 'b' and len(a[1]) == 1:
                a = a[1][0]
            else:
                return base, None
            # what was put in before is looked at again
            tab = {c: r.replace(bytes([a]), b[1]) for c, r in tab.items()}
            tab.setdefault(a, b[1])
            return base, tab
        if t[0] == 'phi':
            return self.loop(t)
        return None

    def loop(self, phi):
        """a text built in a loop over the characters of a value"""
        e = self.x.e
        uid = phi[1][0]
        if e.phinit.get(phi) not in (('R', ()), ('b', b'')):
            return None
        base, tab, other = None, {}, None
        for seq, s in e.loop_events.get(uid, ()):
            new = iter_value(s, phi)
            if new is None or new == phi:
                return None
            ps = parts(new)
            if not ps or ps[0] != phi:
                return None
            add_ = ps[1:]
            chars = {q for q in subterms(('T', tuple(s.facts) + tuple(add_))) if q[0] == 'char'}
            chars = {q for q in chars if contains(q[2], lambda t: t[0] == 'phi' and t[1][0] == uid)}
            if len(chars) != 1:
                return None
            c = chars.pop()
            if base is not None and c[1] != base:
                return None
            base = c[1]
            may = [b for b in range(128) if s.decide(mkeq(c, ('i', b))) is not False]
            if all(p[0] == 'b' for p in add_):
                lit = b''.join(p[1] for p in add_)
                if s.facts.get(('V', c)) is None and not any(s.decide(mkeq(c, ('i', b))) for b in may):
                    return base, None       # a constant in place of characters that are not known
                for b in may:
                    tab[b] = lit
            elif not (len(add_) == 1 and add_[0] in (c, ('byte', c))):
                return base, None
        return (base, tab) if base is not None else None

    def table(self, fn, kind):
        """replacement of each ASCII character under a function from a character to characters; None: not determined"""
        key = (repr(fn), kind)
        if key not in self.memo:
            self.memo[key] = self.make(fn, kind)
        return self.memo[key]

    def make(self, fn, kind):
        e, m = self.x.e, self.x.models
        tab = {}
        for c in [('i', b) for b in range(128)]:
            outs = self.run(fn, kind, c)
            if outs is None or len(outs) != 1:
                return None
            o = outs.pop()
            if any(q[0] != 'i' or q[1] > 127 for q in o):
                return None
            o = bytes(q[1] for q in o)
            if o != bytes([c[1]]):
                tab[c[1]] = o
        c = ('arg', 'char')
        outs = self.run(fn, kind, c)
        if outs is None or (c,) not in outs:
            return None
        return tab

    def run(self, fn, kind, c):
        """sequences of characters the function yields for c"""
        e = self.x.e
        mark = len(e.panics)
        try:
            res = set()
            st = State()
            for s, v in e.call_value(st, fn, [c], 'escape'):
                if kind == 'map':
                    res.add((e.deep(s, v),))
                    continue
                r = self.drain(s, v)
                if r is None:
                    return None
                res |= r
            return res
        except Budget:
            return None
        finally:
            del e.panics[mark:]

    def drain(self, s, v):
        import models
        e = self.x.e
        if v[0] == 'A':
            key = self.next_of(v[1])
            if key is None:
                if v[1] == OPT:
                    return {(e.deep(s, v[3][0]),)} if v[2] == 1 else {()}
                return None
            ptr = s.alloc(v)
            work, res = [(s, ())], set()
            for _ in range(40):
                nxt = []
                for s1, acc in work:
                    for s2, r in e.exec_body(s1, key, [ptr]):
                        for s3, var, p in models.cases(e, s2, r):
                            if var == 0:
                                res.add(acc)
                            else:
                                nxt.append((s3, acc + (e.deep(s3, p),)))
                work = nxt
                if not work:
                    return res
            return None
        it = models.mkiter(e, s, v, 'escape')
        if it is None:
            return None
        work, res = [(s, it, ())], set()
        for _ in range(40):
            nxt = []
            for s1, i, acc in work:
                for s2, x, n in models.it_next(e, s1, i, 'escape'):
                    res.add(acc) if x is None else nxt.append((s2, n, acc + (e.deep(s2, x),)))
            work = nxt
            if not work:
                return res
        return None

    def next_of(self, adt):
        f = self.x.f
        for k, b in f.bodies.items():
            if short(k).endswith('::next') and 'Iterator' in k and adt.split('<')[0].split('::', 1)[-1] + ' as ' in k and 'blocks' in b:
                return k
        return None


# ---- C11 ---------------------------------------------------------------------------------------------

def seps(name, P, half):
    """bytes an application value must not bring into a message of this mechanism unescaped"""
    if name == 'PLAIN':
        return NULMASK
    if name in ('XOAUTH2', 'OAUTHBEARER'):
        m = SOHMASK
        if half == 0:
            m |= 1 << 61
        if name == 'OAUTHBEARER' and P == 'AuthzId':
            m |= 1 << 44
        return m
    if name.startswith('SCRAM-'):
        return NULMASK | 1 << 44 | 1 << 61
    return 0


NULMASK, SOHMASK = 1, 2
NAMES = {1: 'NUL', 2: '0x01', 1 << 44: "','", 1 << 61: "'='"}
NONEMPTY = {('PLAIN', 'AuthId'), ('PLAIN', 'Password')}


def values(t):
    """application values inside a message term: (value, property, half of a pair or None), one-way functions cut off"""
    if t[0] in ONEWAY or t[0] == 'len':
        return
    if t[0] == 'prop':
        yield t, t[1], None
        return
    if t[0] == 'fld' and contains(t, lambda q: q[0] == 'prop'):
        p = [q for q in subterms(t) if q[0] == 'prop'][0]
        yield t, p[1], int(t[2]) if str(t[2]).isdigit() else None
        return
    for q in t[1:]:
        if isinstance(q, tuple):
            if q and isinstance(q[0], str):
                yield from values(q)
            else:
                for r in q:
                    if isinstance(r, tuple) and r and isinstance(r[0], str):
                        yield from values(r)


def pieces(x, esc, s, t, depth=0):
    """(part of a message, state) pairs; a text put together in a loop counts for every iteration"""
    for p in parts(t):
        if p[0] == 'phi' and depth < 3 and esc.source(p) is None:
            for q in x.e.phisrc.get(p, ()):
                if q != p and not contains(q, lambda u: u == p):
                    yield from pieces(x, esc, s, q, depth + 1)
            for seq, s2 in x.e.loop_events.get(p[1][0], ()):
                new = iter_value(s2, p)
                if new is not None and new != p:
                    for q in parts(new):
                        if q != p:
                            yield from pieces(x, esc, s2, q, depth + 1)
        else:
            yield p, s


def written(x, steps, st):
    """(step, data, state that wrote it, in a loop)"""
    for n, d in enumerate(steps):
        for ev in d.get('events', ()):
            if ev[0] in ('write', 'partial-write'):
                yield n, ev[2], d['st'], None
            elif ev[0] == 'loop':
                for ev2, s in iterations(x, ev[1]):
                    if ev2[0] in ('write', 'partial-write'):
                        yield n, ev2[2], s, ev[1]


def check_values(x, V):
    if x.side != 'client' or x.mech.name == 'GSSAPI':
        return
    name = x.mech.name
    esc = Escapes(x)
    done = set()
    for st, steps in live(x):
        p = (steps, st)
        for n, data, s, lp in written(x, steps, st):
            if data[0] == 'R':
                data = cat(*data[1])
            for part_, s2 in pieces(x, esc, s, data):
                got = esc.source(part_)
                if got is not None:
                    V.count('escaped values')
                    base, tab = got
                    for v, P, half in values(base):
                        judge(V, x, name, P, half, v, s2, tab, p)
                    continue
                for v, P, half in values(part_):
                    V.count('values written')
                    judge(V, x, name, P, half, v, s2, {}, p)


WANT = {44: b'=2C', 61: b'=3D'}


def judge(V, x, name, P, half, v, s, tab, p):
    m = seps(name, P, half)
    bad = charset(s, v) & m
    if tab is None:
        V('unknown-escape ' + P, '%s is sent in a form that could not be followed' % P, p)
        return
    for c, r in sorted(tab.items()):
        if 1 << c & charset(s, v) and r != WANT.get(c):
            V('wrong-escape %s %d' % (P, c), '%s: %r is sent as %r' % (P, chr(c), r), p)
        bad &= ~(1 << c)
    for b in sorted(NAMES):
        if bad & b:
            V('unescaped %s %s' % (P, NAMES[b]), '%s is sent although it may contain the separator %s' % (P if half is None else 'a key of ' + P if half == 0 else 'a value of ' + P, NAMES[b]), p)
    if (name, P) in NONEMPTY or name.startswith('SCRAM-'):
        V.count('values that must not be empty')
        if not filled(s, v):
            V('empty ' + P, '%s is sent although it may be empty' % P, p)


# ---- C12: client layouts -----------------------------------------------------------------------------

def P_(name): return ('P', name)
def O_(name, *seq): return ('O', name, seq)     # present exactly if the application gave that value


LAYOUT = {
    'PLAIN': {0: [O_('AuthzId', P_('AuthzId')), b'\0', P_('AuthId'), b'\0', P_('Password')]},
    'LOGIN': {0: [], 1: [P_('AuthId')], 2: [P_('Password')]},
    'EXTERNAL': {0: [O_('AuthzId', P_('AuthzId'))]},
    'ANONYMOUS': {0: [O_('AnonymousToken', P_('AnonymousToken'))]},
    'XOAUTH2': {0: [b'user=', P_('AuthId'), b'\x01auth=Bearer ', P_('OAuthBearerToken'), b'\x01\x01']},
    'OAUTHBEARER': {0: [b'n,', O_('AuthzId', b'a=', P_('AuthzId')), b',', ('KV', 'OAuthBearerKV'), b'\x01auth=Bearer ', P_('OAuthBearerToken'), b'\x01\x01']},
}
# the answer to an error message, with which the client lets the server finish
ACK = {'XOAUTH2': ('XOAuth2Error', []), 'OAUTHBEARER': ('OAuthBearerErrored', [b'\x01'])}


def flatten(tpl, given):
    """a layout for the values the application gave"""
    out = []
    for t in tpl:
        if isinstance(t, bytes):
            t = ('b', t)
        if t[0] == 'O':
            if t[1] in given:
                out += flatten(t[2], given)
        elif t[0] == 'b' and out and out[-1][0] == 'b':
            out[-1] = ('b', out[-1][1] + t[1])
        else:
            out.append(t)
    return out


def stream(x, d):
    """what a step sends: parts of its writes in order, ('loop', uid) where a loop writes"""
    out = []

    def put(t):
        for p in parts(t):
            if p[0] == 'phi' and p in x.e.phisrc and Escapes(x).source(p) is None:
                for q in x.e.phisrc[p]:
                    if q != p and not contains(q, lambda u: u == p):
                        put(q)
                        break
                out.append(('loop', p[1][0], p))
            elif p[0] == 'b' and out and out[-1][0] == 'b':
                out[-1] = ('b', out[-1][1] + p[1])
            else:
                out.append(p)
    for ev in d['events']:
        if ev[0] == 'write':
            put(cat(*ev[2][1]) if ev[2][0] == 'R' else ev[2])
        elif ev[0] == 'loop':
            if any(e2[0] in ('write', 'partial-write') for e2, s in iterations(x, ev[1])):
                out.append(('loop', ev[1], None))
    return out


def rounds_of(x, item):
    """what each abstract iteration of a loop sends: [(parts, state)]"""
    _, uid, phi = item
    r = []
    for seq, s in x.e.loop_events.get(uid, ()):
        if phi is not None:
            new = iter_value(s, phi)
            ps = parts(new) if new is not None else []
            r.append((ps[1:] if ps and ps[0] == phi else None, s))
        else:
            ps = []
            for ev in seq:
                if ev[0] == 'write':
                    ps += parts(cat(*ev[2][1]) if ev[2][0] == 'R' else ev[2])
                elif ev[0] == 'loop':
                    ps = None
                    break
            r.append((parts(cat(*ps)) if ps is not None else None, s))
    return r


def is_value(esc, t, name):
    got = esc.source(t)
    if got is not None and got[1] is not None:
        t = got[0]
    return t in (('prop', name), ('saslprep', ('prop', name)))


def given(d, before):
    r = set()
    for dd in before + [d]:
        for ev in dd['events']:
            if ev[0] == 'req' and ev[1] == 'satisfy' and ev[4] == 'value':
                r.add(ev[2])
    return r


def check_layout(x, V):
    if x.side != 'client' or x.mech.name not in LAYOUT:
        return
    V.count('client mechanisms')
    tpls = LAYOUT[x.mech.name]
    esc = Escapes(x)
    sent = 0
    for st, steps in live(x):
        p = (steps, st)
        # LOGIN: the client may be asked first; steps that send nothing do not count
        n = -1
        for i, d in enumerate(steps):
            if d['kind'] in ('err', 'unbounded'):
                break
            s = stream(x, d)
            if x.mech.name == 'LOGIN':
                n = n + 1
                want = tpls[n + 1] if n + 1 in tpls else []
            else:
                n = i
                want = tpls.get(n, [])
            if x.mech.name in ACK and any(ev[:2] == ('action', ACK[x.mech.name][0]) for ev in d['events']):
                want = ACK[x.mech.name][1]
            want = flatten(want, given(d, []) if n == 0 or x.mech.name == 'LOGIN' else set())
            V.count('messages compared')
            sent += bool(want)
            if not align(x, esc, s, want, d, V, p, i):
                break
    if not sent:
        V('nothing-sent', 'no abstract exchange sends anything: the rule has nothing to check')


def align(x, esc, s, want, d, V, p, i):
    where = 'step %d' % i
    s, want = list(s), list(want)
    while want:
        w = want.pop(0)
        if w[0] == 'KV':
            # zero or more pairs
            if s and s[0][0] == 'loop':
                pairs(x, esc, s.pop(0), w[1], d, V, p)
            elif w[1] in given(d, []) and d['st'].decide(mkeq(mklen(('prop', w[1])), ('i', 0))) is not True:
                V('fields-dropped', '%s: the extra fields of the application are not sent' % where, p)
                return False
            continue
        g = s.pop(0) if s else None
        if w[0] == 'b':
            if g is None or g[0] != 'b' or not g[1].startswith(w[1]):
                V('framing ' + where, '%s: %r expected in the message, found %s' % (where, w[1], show(g)), p)
                return False
            rest = g[1][len(w[1]):]
            if rest:
                s.insert(0, ('b', rest))
        elif g is None or not is_value(esc, g, w[1]):
            V('wrong-value %s %s' % (where, w[1]), '%s: %s expected in the message, found %s' % (where, w[1], show(g)), p)
            return False
    if s:
        V('surplus ' + where, '%s: the message goes on after its last field: %s' % (where, show(s[0])), p)
        return False
    return True


def show(g):
    from show_paths import pv
    return 'nothing' if g is None else pv(g)[:200]


def pairs(x, esc, item, name, d, V, p):
    rs = rounds_of(x, item)
    if not rs:
        V('fields-dropped', 'the loop over the extra fields never completes a round', p)
    for ps, s in rs:
        V.count('rounds over extra fields')
        okay = ps is not None and len(ps) == 4 and ps[0] == ('b', b'\x01') and ps[2] == ('b', b'=')
        if okay:
            k, v = ps[1], ps[3]
            okay = half_of(k, name) and half_of(v, name) and k[1] == v[1] and str(k[2]).endswith('0') and str(v[2]).endswith('1')
            if okay and not whole_walk(x, k[1], name, d):
                V('fields-skipped', 'not every extra field is sent', p)
        if not okay:
            V('extra-field', 'an extra field is not sent as 0x01 key = value: %s' % (show(('cat', tuple(ps))) if ps else ps), p)


def half_of(t, name):
    return t[0] == 'fld' and t[1][0] == 'at' and t[1][1] == ('prop', name)


def whole_walk(x, item, name, d):
    """the loop runs over all elements: from 0, by one, until the end"""
    i = item[2]
    if i[0] != 'phi':
        return i[0] == 'anyidx'
    e = x.e
    if e.phinit.get(i, ('?',))[0] == 'i' and not e.counter(i):
        return False     # starts later, or skips some
    if not e.counter(i):
        return True      # not a counter this analysis follows
    return d['st'].decide(mklt(i, mklen(item[1]))) is False


# ---- C12: server framing -----------------------------------------------------------------------------

class Seen:
    """constants and counts a path knows about the fields of a message"""
    def __init__(self, k):
        self.k, self.bytes, self.whole, self.counts = k, {}, {}, []
        st = k.st
        for key, v in st.facts.items():
            t = key[1]
            if key[0] == 'B' and v is True and t[0] == 'eq':
                for a, b in ((t[1], t[2]), (t[2], t[1])):
                    if b[0] == 'b' and a[0] in ('slice', 'nth', 'input'):
                        self.const(a, b[1])
            if key[0] == 'IV' and t[0] == 'nparts' and v[0] == v[1]:
                self.counts.append((t[1], t[2], v[0]))
            if key[0] == 'V' and t[0] == 'nparts':
                self.counts.append((t[1], t[2], v))
            if key[0] == 'U8' and t[0] == 'at' and v & (v - 1) == 0:
                self.put(mkslice(t[1], t[2], None), v.bit_length() - 1)
            if key[0] == 'V' and t[0] == 'at':
                self.put(mkslice(t[1], t[2], None), v)

    def put(self, t, b):
        c = canon(t, self.k)
        if isfield(c):
            self.bytes[(c[0], c[1])] = b
        elif t[0] == 'slice':
            e = sub(mklen(t[1]), t[2])
            ce = canon(t[1], self.k)
            if e[0] == 'i' and isfield(ce):
                self.bytes[('end', endof(ce), e[1] + ce[2])] = b

    def const(self, a, c):
        ca = canon(a, self.k)
        if isfield(ca):
            self.whole[ca] = c
        x, lo = (a[1], a[2]) if a[0] == 'slice' else (a, ('i', 0))
        for j, b in enumerate(c):
            self.put(mkslice(x, add(lo, ('i', j)), None), b)

    def starts(self, f, c):
        if f in self.whole:
            return self.whole[f].startswith(c)
        # a part's bytes are those of the whole as long as nothing but known parts lies in front of it
        mk = next((b[2] for b, *_ in self.bytes if isinstance(b, tuple) and b[0] == 'nth' and b[1] == f), None)
        return all(self.bytes.get((f[0], f[1] + j)) == b for j, b in enumerate(c)) or \
            mk is not None and all(self.bytes.get((('nth', f, mk, 0), j)) == b for j, b in enumerate(c))

    def ends(self, f, c):
        e = endof(f)
        return all(self.bytes.get(('end', e, f[2] + len(c) - j)) == b for j, b in enumerate(c))

    def is_(self, f, c):
        if self.whole.get(f) == c:
            return True
        if not c:
            return known_len(self.k, f, 0)
        return self.starts(f, c) and known_len(self.k, f, len(c))

    def nparts(self, f, mk):
        """exact number of parts of f, if known"""
        for x, sep, n in self.counts:
            if sep[0] != 'sepmask' or sep[1] != mk or len(sep) > 2 and not (sep[2] == 'n' and sep[3][0] == 'i' and n < sep[3][1]):
                continue
            c = canon(x, self.k)
            if not isfield(c) or c[0] != f[0]:
                continue
            n += self.more(f, c, mk)
            if n > 0:
                return n
        for key, v in self.k.st.facts.items():
            t = key[1]
            m = None
            if key[0] == 'B' and v is True and t[0] == 'allin':
                t, m = t[1], t[2]
            elif key[0] == 'ALL':
                m = v
            if m is None or m & mk:
                continue
            c = canon(t)
            if not (isfield(c) and c[0][0] == 'tail'):
                c = canon(t, self.k)
            if isfield(c) and c[0][0] == 'tail' and c[0][1] == f and c[0][2] == mk and c[1] >= 0:
                # what lies between the start of that tail and the part known to be clean
                n = c[0][3] + 1
                bs = [self.bytes.get((c[0], j)) for j in range(c[1])]
                be = [self.bytes.get(('end', endof(c), j + 1)) for j in range(c[2])]
                if None not in bs + be:
                    return n + sum(mk >> b & 1 for b in bs + be)
            if isfield(c) and c[0] == f[0] and c[1] >= f[1] and c[2] >= f[2]:
                bs = [self.bytes.get((f[0], j)) for j in range(f[1], c[1])]
                be = [self.bytes.get(('end', endof(c), j + 1)) for j in range(f[2], c[2])]
                if None not in bs + be:
                    return 1 + sum(mk >> b & 1 for b in bs + be)
        return None

    def more(self, f, c, mk):
        """separators in f in front of and behind its part c"""
        bs = [self.bytes.get((f[0], j)) for j in range(f[1], c[1])]
        be = [self.bytes.get(('end', endof(f), j + 1)) for j in range(f[2], c[2])]
        if None in bs + be or c[1] < f[1] or c[2] < f[2]:
            return -1 << 20
        return sum(mk >> b & 1 for b in bs + be)


def endof(f):
    """where a field ends: the input or part whose end it shares"""
    b = f[0]
    while b[0] == 'tail' and isfield(b[1]) and b[1][2] == 0:
        b = b[1][0]
    return b


def known_len(k, f, n):
    for key, val in k.st.facts.items():
        if key[0] == 'IV' and key[1][0] == 'len' and val == (n, n) and canon(key[1][1], k) == f:
            return True
        if key[0] == 'V' and key[1][0] == 'len' and val == n and canon(key[1][1], k) == f:
            return True
        if key[0] == 'B' and val is True and key[1][0] == 'eq' and ('b', b'') in key[1][1:] and n == 0:
            t = key[1][1] if key[1][2] == ('b', b'') else key[1][2]
            if canon(t, k) == f:
                return True
    return False


def text(k, f):
    """the field is known to be UTF-8: it was checked itself, or as part of a larger text"""
    for key, val in k.st.facts.items():
        t = key[1]
        if key[0] == 'B' and val is True and t[0] in ('utf8', 'prepok'):
            t = t[-1]
            c = canon(t, k)
            g = f
            for _ in range(8):
                if c == g or isfield(c) and c[0] == g[0] and c[1] <= g[1] and c[2] <= g[2]:
                    return True
                if g[0][0] in ('nth', 'tail') and isfield(g[0][1]):
                    g = g[0][1]
                else:
                    break
        if key[0] == 'ALL' and val >> 128 == 0 and canon(t, k) == f:
            return True
        if key[0] == 'B' and val is True and t[0] == 'allin' and t[2] >> 128 == 0 and canon(t[1], k) == f:
            return True
    return False


def check_framing(x, V):
    if x.side != 'server' or x.mech.name not in LAYOUT:
        return
    name = x.mech.name
    V.count('server mechanisms')
    seen = 0
    for st, steps in live(x):
        p = (steps, st)
        for n, d in enumerate(steps):
            if not any(ev[0] == 'validate' or ev[0] == 'req' and ev[3] for ev in d['events']):
                continue
            seen += 1
            V.count('validations and lookups')
            k = Known(d['st'])
            q = Seen(k)
            I = inp(n + 1)
            has = d.get('input') is not None

            def need(cond, key, what):
                if not cond:
                    V(key, what, p)

            if name in ('EXTERNAL', 'ANONYMOUS'):
                need(not has or text(k, I), 'not-text', 'a message that may not be UTF-8 is accepted')
            elif name == 'LOGIN':
                need(text(k, inp(n)), 'not-text AuthId', 'a user name that may not be UTF-8 is accepted')
            elif name == 'PLAIN':
                need(q.nparts(I, NULMASK) == 3, 'part-count', 'a message that may not consist of exactly three parts is accepted')
                need(text(k, part(I, C_NUL, 1)), 'not-text AuthId', 'a user name that may not be UTF-8 is accepted')
                need(text(k, part(I, C_NUL, 0)) or q.is_(part(I, C_NUL, 0), b''), 'not-text AuthzId', 'an authorization identity that may not be UTF-8 is accepted')
            elif name == 'XOAUTH2':
                need(q.starts(I, b'user='), 'no-user', 'a message that may not start with user= is accepted')
                t = tail(I, C_SOH, 1)
                need(q.starts(t, b'auth=Bearer ') or q.starts(part(I, C_SOH, 1), b'auth=Bearer '), 'no-auth', 'a message whose second field may not be auth=Bearer is accepted')
                cnt = q.nparts(I, SOHMASK)
                need(q.ends(I, b'\x01\x01') or cnt == 4 and q.is_(part(I, C_SOH, 2), b'') and q.is_(part(I, C_SOH, 3), b''), 'no-end', 'a message that may not end with 0x01 0x01 is accepted')
                need(cnt == 4, 'surplus', 'a message with further fields is accepted')
                need(text(k, off(part(I, C_SOH, 0), 5)), 'not-text AuthId', 'a user name that may not be UTF-8 is accepted')
                need(any(text(k, f) for f in (off(t, 12, 2), off(part(I, C_SOH, 1), 12))), 'not-text token', 'a token that may not be UTF-8 is accepted')
            elif name == 'OAUTHBEARER':
                need(q.ends(I, b'\x01\x01'), 'no-end', 'a message that may not end with 0x01 0x01 is accepted')
                gs = [part(part(b, C_SOH, 0), C_COMMA, 0)[0][1] for b in (I, off(I, 0, 2))]
                ok_ = False
                for g in gs:
                    p0, p1, p2 = (part(g, C_COMMA, j) for j in range(3))
                    flag = q.is_(p0, b'n') or q.is_(p0, b'y') or q.is_(g, b'n,,') or q.is_(g, b'y,,')
                    cnt = q.nparts(g, 1 << 44) == 3 and q.is_(p2, b'') or q.is_(g, b'n,,') or q.is_(g, b'y,,')
                    az = q.is_(p1, b'') or q.starts(p1, b'a=') and text(k, off(p1, 2)) or q.is_(g, b'n,,') or q.is_(g, b'y,,')
                    if flag and cnt and az:
                        ok_ = True
                        break
                    miss = 'flag' if not flag else 'authzid' if not az else 'end'
                need(ok_, 'gs2-header', 'a message whose GS2 header may be malformed is accepted (%s)' % (None if ok_ else miss))
    if not seen:
        V('no-validation', 'no path of this server validates: the rule has nothing to check')
