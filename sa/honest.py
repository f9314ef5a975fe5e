"""C36: no well-formed message of the peer is refused.  The messages of a mechanism's specification are given as sequences of
constant bytes and fields (with what the grammar says about their characters and length); a step is followed with such a message
as its input: every question the code asks about the input (where a separator is, how many parts there are, what a prefix is,
whether a part is text, ...) is answered from the structure of the message, or left open if it depends on the field's content."""
from engine import *
from terms import parts, wire, contains
from scram import is_scram, is_plus, base, attrs, alphabet, drawn, MECH_ITER
import mech, models

B64SET = sum(1 << c for c in b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=')


def chars(s):
    return sum(1 << c for c in set(s))


NOT = lambda s: ALLB & ~chars(s)
LETTERS = chars(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
DIGITS = chars(b'0123456789')
PRINTABLE = sum(1 << c for c in range(0x21, 0x7f) if c != 0x2c)


class Field:
    def __init__(self, mask=ALLB, least=1, most=MAXU, text=True, kind=None):
        self.mask, self.least, self.most, self.text, self.kind = mask, least, most, text, kind


def seq(*ps):
    """constant bytes are merged"""
    out = []
    for p in ps:
        for q in (p if isinstance(p, tuple) and (not p or isinstance(p[0], tuple)) else (p,)):
            if isinstance(q, bytes):
                q = ('c', q)
            if q == ('c', b''):
                continue
            if q[0] == 'c' and out and out[-1][0] == 'c':
                out[-1] = ('c', out[-1][1] + q[1])
            else:
                out.append(q)
    return tuple(out)


def F(name):
    return ('f', name)


NUMERIC = ('i', 'lin', 'len', 'nparts', 'pos', 'rpos', 'at', 'parse')


class Oracle:
    """what is known about terms over the peer's messages, given the structure of these messages"""
    def __init__(self, fields):
        self.fields, self.msgs, self.memo, self.same = fields, {}, {}, {}

    def set(self, n, s):
        if self.msgs.get(n) != s:
            self.msgs[n] = s
            self.memo = {}

    def about(self, t):
        k = ('about', t)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = contains(t, lambda u: u[0] == 'input' and u[1] in self.msgs)
        return r

    # pieces
    def mask(self, p):
        if p[0] == 'c':
            return chars(p[1])
        if p[0] == 'f':
            return self.fields[p[1]].mask
        if p[0] == 'e':
            return B64SET
        t = p[1]
        if t[0] == 'amap':
            d = drawn(t[2])
            if d and d[2]:
                return chars(bytes(d[2]))
        if t[0] == 'R':
            ds = [drawn(q) for q in t[1]]
            if all(d and d[2] for d in ds):
                return chars(bytes(set().union(*[d[2] for d in ds])))
        if t[0] == 'collected' and t[1][0] == 'it' and t[1][1] == 'take' and t[1][2][0:2] == ('it', 'samples'):
            al = alphabet(t[1][2][2])
            if al:
                return chars(bytes(al))
        if t[0] == 'byte':
            d = drawn(t[1])
            if d and d[2]:
                return chars(bytes(d[2]))
        if t[0] == 'b64e':
            return B64SET
        if t[0] in ('fmt', 'tostr', 'uint'):
            return DIGITS
        return ALLB

    def size(self, p):
        if p[0] == 'c':
            return len(p[1]), len(p[1])
        if p[0] == 'f':
            f = self.fields[p[1]]
            return f.least, f.most
        if p[0] == 'e':
            lo, hi = self.total(p[1])
            return (lo + 2) // 3 * 4, (hi + 2) // 3 * 4
        if p[1][0] == 'amap':
            return p[1][1], p[1][1]
        n = mklen(p[1])
        return (n[1], n[1]) if n[0] == 'i' else (1 if p[1][0] in ('fmt', 'tostr', 'uint') else 0, MAXU)

    def total(self, s):
        return sum(self.size(p)[0] for p in s), sum(self.size(p)[1] for p in s)

    # linear expressions: (constant, {piece: coefficient})
    def length(self, s):
        c, m = 0, {}
        for p in s:
            lo, hi = self.size(p)
            if lo == hi:
                c += lo
            else:
                m[p] = m.get(p, 0) + 1
        return c, m

    def num(self, t):
        k = ('num', t)
        if k not in self.memo:
            self.memo[k] = self.num_(t)
        return self.memo[k]

    def num_(self, t):
        if t[0] == 'i':
            return t[1], {}
        if t[0] == 'lin':
            c, m = t[1], {}
            for a, co in t[2]:
                r = self.num(a)
                if r is None:
                    return None
                c += co * r[0]
                for p, q in r[1].items():
                    m[p] = m.get(p, 0) + co * q
            return c, {p: q for p, q in m.items() if q}
        if t[0] == 'len':
            s = self.seq(t[1])
            return None if s is None else self.length(s)
        if t[0] == 'nparts':
            r = self.split(t[1], t[2])
            return None if r is None else (len(r), {})
        if t[0] in ('pos', 'rpos') and isinstance(t[2], int):
            s = self.seq(t[1])
            if s is None:
                return None
            if t[0] == 'rpos':
                return None
            c, m = 0, {}
            for p in s:
                if p[0] == 'c':
                    for j, b in enumerate(p[1]):
                        if t[2] >> b & 1:
                            return c + j, m
                elif self.mask(p) & t[2]:
                    return None
                a, b = self.length((p,))
                c += a
                for q, n in b.items():
                    m[q] = m.get(q, 0) + n
            return None
        return None

    def difference(self, a, b):
        """bounds of a - b, from the structure of the messages"""
        a, b = self.num(a), self.num(b)
        if a is None or b is None:
            return None
        m = dict(a[1])
        for p, k in b[1].items():
            m[p] = m.get(p, 0) - k
        return self.range_(a[0] - b[0], m)

    def range_(self, c, m):
        lo = hi = c
        for p, k in m.items():
            if k:
                a, b = self.size(p)
                lo, hi = (lo + a * k, hi + b * k) if k > 0 else (lo + b * k, hi + a * k)
        return lo, hi

    def bounds(self, v):
        if v[0] == 'parse':
            s = self.seq(v[1])
            return (1, 0xffffffff) if s and len(s) == 1 and s[0][0] == 'f' and self.fields[s[0][1]].kind == 'number' else None
        r = self.num(v)
        if r is None:
            return None
        return self.range_(*r)

    # byte strings
    def seq(self, t):
        k = ('seq', t)
        if k not in self.memo:
            self.memo[k] = self.seq_(t)
        return self.memo[k]

    def seq_(self, t):
        h = t[0]
        if t in self.same:
            return self.same[t]
        if h == 'input':
            return self.msgs.get(t[1])
        if h == 'b':
            return seq(t[1])
        if h == 'fit':
            return self.seq(t[1])
        if h == 'cat':
            r = [self.seq(p) for p in t[1]]
            return None if None in r else seq(*r)
        if h == 'b64d':
            s = self.seq(t[1])
            return s[0][1] if s and len(s) == 1 and s[0][0] == 'e' else None
        if h == 'b64e':
            s = self.seq(t[1])
            return None if s is None else (('e', s),)
        if h == 'nth':
            i = self.num(t[3])
            if i is None or i[1]:
                return None
            r = self.split(t[1], t[2])
            return r[i[0]] if r is not None and 0 <= i[0] < len(r) else None
        if h == 'slice':
            s, lo = self.seq(t[1]), self.num(t[2])
            hi = self.num(t[3]) if t[3] is not None else None
            if s is None or lo is None or (t[3] is not None and hi is None):
                return None
            a = self.locate(s, lo)
            b = self.locate(s, hi) if hi is not None else (len(s), 0)
            return None if a is None or b is None or a > b else self.between(s, a, b)
        if h == 'cbdata' or t == ('prop', 'ChannelBindings'):
            return (F('CB'),) if 'CB' in self.fields else None
        if self.about(t):
            return None
        return (('o', t),)

    def locate(self, s, pos):
        c, m = 0, {}
        for k, p in enumerate(s):
            d = pos[0] - c
            if m == pos[1]:
                if d == 0:
                    return k, 0
                if p[0] == 'c' and 0 < d < len(p[1]):
                    return k, d
            a, b = self.length((p,))
            c += a
            for q, n in b.items():
                m[q] = m.get(q, 0) + n
        return (len(s), 0) if (c, m) == pos else None

    def between(self, s, a, b):
        out = []
        for k in range(a[0], b[0] + (1 if b[1] else 0)):
            p = s[k]
            lo = a[1] if k == a[0] else 0
            hi = b[1] if k == b[0] else None
            out.append(('c', p[1][lo:hi]) if p[0] == 'c' else p)
        return seq(*out)

    def split(self, t, sep):
        """the parts of a byte string, None if they depend on what a field holds"""
        s = self.seq(t)
        if s is None or sep[0] != 'sepmask' or len(sep) > 2 and not (sep[2] == 'n' and sep[3][0] == 'i'):
            return None
        lim = sep[3][1] if len(sep) > 2 else None
        out, cur = [], []
        for p in s:
            if lim is not None and len(out) == lim - 1:
                cur.append(p)
            elif p[0] == 'c':
                j = 0
                for i, b in enumerate(p[1]):
                    if sep[1] >> b & 1 and not (lim is not None and len(out) == lim - 1):
                        cur.append(('c', p[1][j:i]))
                        out.append(seq(*cur))
                        cur, j = [], i + 1
                cur.append(('c', p[1][j:]))
            elif self.mask(p) & sep[1]:
                return None
            else:
                cur.append(p)
        return out + [seq(*cur)]

    def byte(self, t, lo=0, hi=MAXU):
        """the values a byte of a message can have (its index is between lo and hi)"""
        x, i = t[1], t[2]
        s = self.seq(x)
        if s is None:
            return ALLB
        n = self.num(i)
        everything, a, b = 0, 0, 0
        for p in s:
            least, most = self.size(p)
            if a <= hi and lo < b + most:
                everything |= self.mask(p)
            a, b = a + least, b + most
        everything = everything or ALLB
        if n is None:
            return everything
        # bytes from the front as long as it is clear where they are
        if not n[1]:
            m, at_ = 0, {0}
            return self.front(s, n[0])
        a = self.locate(s, n)
        if a is not None and a[0] < len(s):
            p = s[a[0]]
            if p[0] == 'c':
                return 1 << p[1][a[1]]
            return self.front(s[a[0]:], 0)
        return everything

    def front(self, s, n):
        """possible values of byte n"""
        m, offs = 0, (0, 0)
        for p in s:
            lo, hi = self.size(p)
            a, b = offs[0], offs[1]           # the piece starts somewhere between these
            if a <= n and n < b + hi:
                if p[0] == 'c' and a == b:
                    m |= 1 << p[1][n - a]
                else:
                    m |= self.mask(p)
            offs = (a + lo, b + hi)
            if offs[0] > n:
                break
        return m or ALLB

    # conditions
    def cond(self, c):
        k = ('cond', c)
        if k not in self.memo:
            self.memo[k] = self.cond_(c) if self.about(c) else None
        return self.memo[k]

    def cond_(self, c):
        h = c[0]
        if h in ('utf8', 'jsonok', 'b64ok', 'parses'):
            s = self.seq(c[-1])
            if s is None:
                return None
            if h == 'utf8':
                return True if all(p[0] in 'ce' or p[0] == 'f' and self.fields[p[1]].text or p[0] == 'o' and self.mask(p) >> 128 == 0 for p in s) else None
            if h == 'b64ok':
                return True if all(p[0] == 'e' for p in s) and len(s) == 1 else None
            if len(s) == 1 and s[0][0] == 'f' and self.fields[s[0][1]].kind == {'jsonok': 'json', 'parses': 'number'}[h]:
                return True
            return None
        if h == 'allin':
            s = self.seq(c[1])
            if s is None:
                return None
            r = True
            for p in s:
                m = self.mask(p)
                if p[0] == 'c' and m & ~c[2] or self.size(p)[0] > 0 and not m & c[2]:
                    return False
                if m & ~c[2]:
                    r = None
            return r
        if h == 'lt':
            d = self.difference(c[1], c[2])
            return None if d is None else True if d[1] < 0 else False if d[0] >= 0 else None
        if h == 'eq':
            if c[1][0] in NUMERIC or c[2][0] in NUMERIC:
                d = self.difference(c[1], c[2])
                return None if d is None else True if d == (0, 0) else False if d[0] > 0 or d[1] < 0 else None
            a, b = self.seq(c[1]), self.seq(c[2])
            return None if a is None or b is None else self.equal(list(a), list(b))
        return None

    def equal(self, a, b):
        for end in (0, -1):
            while a and b:
                x, y = a[end], b[end]
                if x == y:
                    a.pop(end), b.pop(end)
                elif x[0] == y[0] == 'c':
                    n = min(len(x[1]), len(y[1]))
                    if (x[1][:n] != y[1][:n]) if end == 0 else (x[1][-n:] != y[1][-n:]):
                        return False
                    for l, z in ((a, x), (b, y)):
                        rest = z[1][n:] if end == 0 else z[1][:len(z[1]) - n]
                        l.pop(end)
                        if rest:
                            l.insert(0, ('c', rest)) if end == 0 else l.append(('c', rest))
                else:
                    if end == 0 and self.size(x)[0] > 0 and self.size(y)[0] > 0 and not self.front(tuple(a), 0) & self.front(tuple(b), 0):
                        return False
                    break
        if not a and not b:
            return True
        if not a or not b:
            return False if self.total(a or b)[0] > 0 else None
        (l1, h1), (l2, h2) = self.total(a), self.total(b)
        return False if h1 < l2 or h2 < l1 else None


class HState(State):
    """a state in which questions about the peer's messages are answered from their structure"""
    __slots__ = ()
    oracle = None

    def decide(self, c):
        if c[0] not in ('i', 'not', 'and'):
            r = HState.oracle.cond(c)
            if r is not None:
                return r
        return State.decide(self, c)

    def iv(self, t):
        lo, hi = State.iv(self, t)
        r = HState.oracle.bounds(t) if HState.oracle.about(t) else None
        return (lo, hi) if r is None else (max(lo, r[0]), min(hi, r[1]))

    def ivlin(self, v):
        lo, hi = State.ivlin(self, v)
        r = HState.oracle.bounds(v) if HState.oracle.about(v) else None
        return (lo, hi) if r is None else (max(lo, r[0]), min(hi, r[1]))

    def mask(self, t):
        m = State.mask(self, t)
        if t[0] == 'at' and HState.oracle.about(t):
            m &= HState.oracle.byte(t, *self.ivlin(t[2]))
        return m


class Run(mech.Exchange):
    """one side's exchange with a peer whose messages are given: script is a list of functions (run, steps) -> message or None"""
    def __init__(self, f, m, side, fields, script):
        self.orc = Oracle(fields)
        self.script = script
        HState.oracle = self.orc
        self.others = [q for q in mech.mechanisms(f) if q.name != m.name + '-PLUS']
        mech.Exchange.__init__(self, f, m, side, {'finite': 16, 'known_parts': lambda x, sep: self.orc.split(x, sep) is not None, 'hooks': {MECH_ITER: self.registered}}, len(script))

    def registered(self, e, st, c, a):
        """a registry without the mechanism's -PLUS variant: nothing to downgrade"""
        return [(st, ('it', 'seq', ('R', tuple(e.static_ptr(st, q.path) for q in self.others)), ('i', 0)))]

    def run(self):
        e, m = self.e, self.mech
        st = HState()
        ptr = e.static_ptr(st, m.path)
        v = e.read(st, ptr[1], ptr[2])
        names = [x['name'] for x in self.f.adts[mech.MECH]['variants'][0]['fields']]
        fn = e.datum(st, v[3][names.index(self.side)])
        self.absent = fn[0] == 'A' and fn[1] == OPT and fn[2] == 0
        if self.absent:
            return
        start = e.datum(st, fn[3][0])
        args = ([('sasl',), ('offered',)] if self.side == 'client' else [('sasl',)])[:max(1, self.nargs(start))]
        work = []
        for s, r in e.call_value(st, start, args, 'start'):
            for s2, var, p in models.cases(e, s, r, RES):
                if var == 0:
                    work.append((s2, p, []))
        for n, msg in enumerate(self.script, 1):
            nxt = []
            for s, obj, steps in work:
                text = msg(self, steps)
                if text is not None:
                    self.orc.set(n, text)
                s2 = s.fork()
                t0 = s2.trace
                for s3, r in self.step(s2, obj, NONE if text is None else some(('input', n))):
                    ev = self.since(s3, t0)
                    for s4, var, p in models.cases(e, s3, r, RES):
                        d = {'input': None if text is None else ('input', n), 'events': ev, 'facts': dict(s4.facts), 'st': s4, 'obj': obj}
                        if var == 1:
                            self.paths.append((s4, steps + [dict(d, kind='err', ret=e.deep(s4, p))]))
                            continue
                        for s5, k, mw in self.state_cases(s4, p):
                            d2 = dict(d, kind=k, ret=mw, facts=dict(s5.facts), st=s5)
                            if k == 'Running' and n < len(self.script):
                                nxt.append((s5, obj, steps + [d2]))
                            else:
                                self.paths.append((s5, steps + [d2]))
            work = nxt


# ---- the messages ------------------------------------------------------------------------------------

def fixed(*ps):
    s = seq(*ps)
    return lambda run, steps: s


def nothing(run, steps):
    return None


TEXT_NOSOH = Field(NOT(b'\1'))
SCRIPTS = {}


def plain():
    fs = {'Z': Field(NOT(b'\0')), 'A': Field(NOT(b'\0')), 'P': Field(NOT(b'\0'))}
    yield 'with an authorization identity', fs, [fixed(F('Z'), b'\0', F('A'), b'\0', F('P'))]
    yield 'without authorization identity', fs, [fixed(b'\0', F('A'), b'\0', F('P'))]


def login():
    fs = {'A': Field(), 'P': Field(text=False)}
    yield 'user name and password', fs, [nothing, fixed(F('A')), fixed(F('P'))]


def external():
    yield 'with an authorization identity', {'Z': Field()}, [fixed(F('Z'))]
    yield 'empty', {}, [fixed(b'')]


def anonymous():
    yield 'with a token', {'T': Field()}, [fixed(F('T'))]
    yield 'empty', {}, [fixed(b'')]


def xoauth2():
    fs = {'U': TEXT_NOSOH, 'T': TEXT_NOSOH}
    yield 'user and token', fs, [fixed(b'user=', F('U'), b'\1auth=Bearer ', F('T'), b'\1\1'), fixed(b'')]


def oauthbearer():
    key = LETTERS & ~chars(b'a')
    fs = {'Z': Field(NOT(b'\1,')), 'T': TEXT_NOSOH, 'k': Field(key), 'v': Field(NOT(b'\1'), 0), 'k2': Field(key), 'v2': Field(NOT(b'\1'), 0)}
    auth, kv, kv2 = (b'\1auth=Bearer ', F('T')), (b'\1', F('k'), b'=', F('v')), (b'\1', F('k2'), b'=', F('v2'))
    kv, kv2, auth = seq(*kv), seq(*kv2), seq(*auth)
    for z, zw in (((b'n,a=', F('Z'), b','), 'with'), ((b'n,,',), 'without')):
        for rest, what in ((auth, 'the token'), (seq(kv, auth), 'an extra field and the token'), (seq(kv, kv2, auth), 'two extra fields and the token'),
                           (seq(auth, kv), 'the token and an extra field')):
            yield '%s authorization identity, %s' % (zw, what), fs, [fixed(seq(*z), rest, b'\1\1'), fixed(b'\1')]


NAME = Field(NOT(b'\0,'))                            # saslname: '=' only in escapes
SIZE = {'SCRAM-SHA-1': 20, 'SCRAM-SHA-256': 32, 'SCRAM-SHA-512': 64}


def sent(run, steps, letter):
    """an attribute of what the other side wrote in its last step"""
    r = [ps for a, ps in attrs(wire(steps[-1]['events'])) if a == letter]
    return seq(*[run.orc.seq(p) or (('o', p),) for p in r[0]]) if len(r) == 1 else ()


def scram_server(m):
    n = SIZE[base(m)]
    fs = {'Z': NAME, 'U': NAME, 'N': Field(PRINTABLE), 'B': Field(chars(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-')),
          'CB': Field(text=False, least=1), 'proof': Field(text=False, least=n, most=n), 'x': Field(LETTERS & ~chars(b'mp'), 1, 1), 'xv': Field(NOT(b'\0,'))}
    for flag, fw in ([((b'p=', F('B')), 'p')] if is_plus(m) else [((b'n',), 'n'), ((b'y',), 'y')]):
        for z, zw in (((b',a=', F('Z'), b','), 'with'), ((b',,',), 'without')):
            for ext, ew in (((), ''), ((b',', F('x'), b'=', F('xv')), ' and an extension')):
                gs2 = seq(*flag, *z)
                first = fixed(gs2, b'n=', F('U'), b',r=', F('N'), *ext)

                def final(run, steps, gs2=gs2, ext=ext):
                    return seq(b'c=', ('e', seq(gs2, F('CB')) if is_plus(m) else gs2), b',r=', sent(run, steps, 'r'), *ext, b',p=', ('e', (F('proof'),)))
                yield 'flag %s, %s authorization identity%s' % (fw, zw, ew), fs, [first, final]


def scram_client(m):
    n = SIZE[base(m)]
    fs = {'N': Field(PRINTABLE), 'S': Field(text=False), 'i': Field(DIGITS, kind='number'), 'V': Field(text=False, least=n, most=n),
          'x': Field(LETTERS, 1, 1), 'xv': Field(NOT(b'\0,')), 'CB': Field(text=False, least=1)}
    ext = (b',', F('x'), b'=', F('xv'))
    for e1, e2, what in (((), (), ''), (ext, (), ', extension in server-first'), ((), ext, ', extension in server-final')):
        def first(run, steps, e1=e1):
            return seq(b'r=', sent(run, steps, 'r'), F('N'), b',s=', ('e', (F('S'),)), b',i=', F('i'), *e1)
        yield 'server-first and server-final' + what, fs, [nothing, first, fixed(b'v=', ('e', (F('V'),)), *e2)]


def bearer_client():
    yield 'accepted', {}, [nothing, fixed(b'')]
    yield 'error message', {'J': Field(kind='json')}, [nothing, fixed(F('J')), fixed(b'')]


def login_client():
    fs = {'P1': Field(), 'P2': Field()}
    yield 'two prompts', fs, [fixed(F('P1')), fixed(F('P2'))]


def single():
    yield 'no input', {}, [nothing]


SERVER = {'PLAIN': plain, 'LOGIN': login, 'EXTERNAL': external, 'ANONYMOUS': anonymous, 'XOAUTH2': xoauth2, 'OAUTHBEARER': oauthbearer}
CLIENT = {'PLAIN': single, 'LOGIN': login_client, 'EXTERNAL': single, 'ANONYMOUS': single, 'XOAUTH2': bearer_client, 'OAUTHBEARER': bearer_client}


def scripts(m, side):
    if is_scram(m):
        return (scram_server if side == 'server' else scram_client)(m)
    t = (SERVER if side == 'server' else CLIENT).get(m.name)
    return None if t is None else t()


APPLICATION = ('writefail', 'missing', 'closure-error', 'cb-error')
SECRET = ('HMAC', 'pbkdf2', 'hash')


def decided(steps):
    """the facts the last step of a path added"""
    old = steps[-2]['facts'] if len(steps) > 1 else {}
    return [c for c in steps[-1]['facts'] if c not in old]


def unanswered(steps):
    """properties asked for on a path of which the path says nothing further: the application did not provide them"""
    asked = {e[2] for d in steps for e in d['events'] if e[0] == 'req' and e[1] == 'satisfy'}
    seen = set()

    def see(t):
        if t[0] == 'prop':
            seen.add(t[1])
        elif t[0] == 'cbdata':
            seen.add('ChannelBindings')
        return False
    for d in steps:
        for e in d['events']:
            if e[0] == 'cbdata':
                seen.add('ChannelBindings')
            elif e[0] != 'req':
                contains(e, see)
    for c in steps[-1]['facts']:
        contains(c, see)
    return asked - seen


def prepared(c):
    out = []
    contains(c, lambda t: out.append(t) if t[0] == 'saslprep' else False)
    return out


def excuse(run, steps):
    """why this step may fail although the peer's message is well-formed, None if there is no such reason"""
    d = steps[-1]
    ev = d['events']
    if d['input'] is None:
        return 'nothing received'
    for e in ev:
        if e[0] in APPLICATION or e[0] == 'action' and e[-1] == 'err':
            return e[0]
    if contains(d['ret'], lambda t: t[0] == 'valerr'):
        return 'validate'
    if any(e[0] == 'req' and e[2] in unanswered(steps) for e in ev):
        return 'unanswered'
    new, facts = decided(steps), d['facts']
    for c in new:
        if c[0] == 'B' and c[1][0] == 'prepok' and facts[c] is False:
            return 'unpreparable'
        if any(d['st'].iv(mklen(t))[1] == 0 for t in prepared(c)):
            return 'prepared to nothing'
        if c[0] == 'B' and contains(c, lambda t: t[0] in SECRET):
            return 'keys'
    return None


def ext_signed(run, steps):
    """are the extensions of both messages part of the AuthMessage? None if there are none"""
    if not any(('f', 'xv') in (run.orc.msgs.get(n) or ()) for n in (1, 2)):
        return None
    found = []

    def see(t):
        if t[0] == 'HMAC':
            found.append(sum(run.orc.seq(p).count(('f', 'xv')) for p in parts(t[3]) if run.orc.seq(p) is not None))
        return False
    for c in decided(steps):
        contains(c, see)
    return any(n >= 2 for n in found)


def explore(f, m, side, V, res):
    scs = scripts(m, side)
    res['absent'] = scs is None
    bodies, unm = set(), {}
    for what, fs, script in scs or ():
        x = Run(f, m, side, fs, script)
        res['absent'] = x.absent
        if x.absent:
            return
        bodies |= {k.split('#')[0] for k in x.e.analysed}
        unm.update(x.e.unmodelled)
        V.count('conversations')
        V.count('exchanges', len(x.paths))
        done, bad = 0, len(V.viol)
        for st, steps in x.paths:
            d = steps[-1]
            V.count('steps', len(steps))
            if d['kind'] == 'err':
                e = excuse(x, steps)
                if e is None:
                    V('refused %s, message %d' % (what, len(steps)), 'a well-formed message of the peer is refused (%s, step %d)' % (what, len(steps)), (steps, st))
                else:
                    V.count('failures for other reasons')
                continue
            if d['kind'] == 'Running':
                V('endless %s' % what, 'the exchange has not ended after the last message of the specification (%s)' % what, (steps, st))
                continue
            done += 1
            if is_scram(m) and side == 'server':
                ps = parts(wire(d['events']))
                if ps and ps[0][0] == 'b' and ps[0][1].startswith(b'e='):
                    done -= 1
                    if not unanswered(steps) and not any(c[0] == 'B' and contains(c, lambda t: t[0] in SECRET) for c in decided(steps)):
                        V('refused %s, message %d' % (what, len(steps)), 'a well-formed message of the peer is answered with an error (%s, %s)' % (what, ps[0][1]), (steps, st))
                elif ext_signed(x, steps) is False:
                    V('unsigned-extension', 'the AuthMessage leaves out the extensions the peer sent and signed, so its proof is never accepted (%s)' % what, (steps, st))
        V.count('completed', done)
        if not done and len(V.viol) == bad:
            V('never completed ' + what, 'no exchange completes with well-formed messages (%s)' % what)
        if x.paths:
            V.sample('%s: %d paths, %d complete' % (what, len(x.paths), done))
    res['bodies'], res['unmodelled'] = sorted(bodies), unm


if __name__ == '__main__':
    import sys, extract
    f = Facts(extract.extract('all'))
    for name in sys.argv[2:]:
        m = [m for m in mech.mechanisms(f) if m.name == name][0]
        for what, fs, script in scripts(m, sys.argv[1]):
            x = Run(f, m, sys.argv[1], fs, script)
            print(name, what, len(x.paths), x.e.unmodelled)
            for st, steps in x.paths:
                d = steps[-1]
                print('   ', len(steps), d['kind'], str(d.get('ret'))[:150] if d['kind'] == 'err' else '', [ev[0] + ':' + str(ev[1:])[:60] for ev in d['events'] if ev[0] not in ('write', 'req')])
