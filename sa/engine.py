"""Interprocedural, path-partitioned dataflow analysis over the MIR exported by the compiler driver.

Nothing is executed and no solver is consulted.  Every program value is tracked as a *provenance
term* (which input, property, constant, random sample or library result it is made of), every branch
on such a term becomes a *fact* that is used only to discard contradictory paths, loops are joined and
widened to a fixpoint, calls are analysed in their caller's context, and the library functions rsasl
calls are described by the transfer functions in `models.py`.  The outcome of analysing a function is
the set of its abstract paths: return value, memory, facts and the ordered list of observable events.

Values (all hashable tuples, first element is the tag)
  ('i',n) integer/bool/char      ('b',bytes) byte string (also str, [u8;N], Vec<u8>)
  ('A',path,variant,fields)      ('T',fields) tuple   ('R',elems) array/vec   ('C',key,upvars) closure
  ('F',id) fn item               ('P',base,proj) pointer to a place
  ('D',ptr,vtable-id)            trait object whose concrete type is known
anything else is an opaque provenance term.  References to opaque data are identified with the data.
"""
import re, sys, json

sys.setrecursionlimit(100000)

CONCRETE = {'i', 'b', 'A', 'T', 'R', 'C', 'F', 'P', 'D'}
UNIT = ('T', ())
TRUE, FALSE = ('i', 1), ('i', 0)
OPT = 'core::option::Option'
RES = 'core::result::Result'
NONE = ('A', OPT, 0, ())
MOVED = ('moved',)
ALLB = (1 << 256) - 1
MAXU = 1 << 63


def some(v): return ('A', OPT, 1, (v,))
def ok(v): return ('A', RES, 0, (v,))
def err(v): return ('A', RES, 1, (v,))
def canon(ts):
    """linear combination up to sign -> (negated?, canonical terms)"""
    if ts and ts[0][1] < 0:
        return True, tuple((t, -k) for t, k in ts)
    return False, tuple(ts)


MAXD = 1 << 80


def isterm(v): return v[0] not in CONCRETE


class Budget(Exception):
    pass


def core_names(J):
    """crate-private building blocks the rules refer to, found by what they are: their name -> the name the rules use"""
    r = {}

    def name(have, want):
        if have != want:
            r[have] = want

    def module(path, want):
        m = path.split('::')[1]
        if m != want and not any(a.startswith('rsasl::%s::' % want) for a in J['adts']):
            r[m + '::'] = want + '::'
    erased = None
    for x in J['fns']:
        p, sig = x['path'], x['sig']
        if x['exported'] and x['reachable']:
            continue
        m = re.match(r"^rsasl::(?:\w+::)*(\w+)::(\w+)$", p)
        if m and sig == "for<'a> fn(&'a Self) -> core::any::TypeId":
            erased = p.rsplit('::', 1)[0]
            name(m.group(1), 'Erased')
            module(p, 'typed')
            name(m.group(2), 'tag_id')
        elif m and re.match(r"^for<'a, 'b> fn\(&'a mut Self, &'b \w+\) -> core::result::Result<\(\), error::SessionError>$", sig):
            name(m.group(1), 'CallbackRequest')
            name(m.group(2), 'satisfy')
        elif m and re.match(r"^for<'\w+> fn\(&'\w+ Self\) -> core::slice::iter::Iter<'\w+, registry::Mechanism>$", sig):
            name(m.group(1), 'ConfigInstance')
            name(m.group(2), 'get_mech_iter')
        elif m and re.match(r"^for<'a, 'b> fn\(&'a \(dyn context::Provider<'b> \+ 'a\)\) -> &'a context::Context<'b>$", sig):
            name(m.group(2), 'build_context')
        m = re.match(r"^rsasl::(?:\w+::)*(\w+)::<'\w+, \w+>::(\w+)$", p)
        if m and re.match(r"^for<'a> fn\(&'a mut [\w:]*\b%s<'\w+, \w+>, impl [\w:]*Write\) -> core::result::Result<usize, " % m.group(1), sig):
            name(m.group(1), 'VectoredWriter')
            module(p, 'vectored_io')
            name(m.group(2), 'write_all_vectored')
    impl = [i for i in J['impls'] if erased and i.get('trait') == erased and i.get('adt')]
    if len(impl) == 1:
        name(impl[0]['adt'].split('::')[-1], 'Tagged')
    taken = {x['path'].split('::')[-1] for x in J['fns']} | {a.split('::')[-1] for a in J['adts']}
    return {a: b for a, b in r.items() if b == 'satisfy' or b not in taken}


class Facts:
    """The exported program."""
    def __init__(self, path):
        with open(path) as f:
            text = f.read()
        J = json.loads(text)
        other = core_names(J)
        if other:
            J = json.loads(re.sub(r'\b(%s)' % '|'.join(re.escape(x) + ('' if x.endswith(':') else r'\b') for x in other), lambda m: other[m.group(1)], text))
        self.bodies, self.types, self.adts = J['bodies'], J['types'], J['adts']
        self.statics = {s['path']: s for s in J['statics']}
        self.impls, self.fns, self.features = J['impls'], J['fns'], J['features']
        self.bypath = {}
        for k, b in self.bodies.items():
            self.bypath.setdefault(b.get('path'), []).append(k)
        self._loops = {}
        self.ptypes = {}

    def ty(self, i): return self.types[i]
    def tys(self, i): return self.types[i]['s']

    def field_name(self, adt, v, i):
        a = self.adts.get(adt)
        try:
            return a['variants'][v]['fields'][i]['name']
        except Exception:
            return str(i)

    def variant_name(self, adt, v):
        try:
            return self.adts[adt]['variants'][v]['name']
        except Exception:
            return str(v)

    def variant_index(self, adt, name):
        for i, v in enumerate(self.adts[adt]['variants']):
            if v['name'] == name:
                return i
        raise KeyError((adt, name))

    def succs(self, t):
        k = t['t']
        if k == 'switch':
            return [x[1] for x in t['targets']] + [t['otherwise']]
        r = []
        if 'target' in t:
            r.append(t['target'])
        return r

    def loops(self, key):
        """header block -> set of blocks of its natural loop (back edges found by DFS)"""
        if key in self._loops:
            return self._loops[key]
        blocks = self.bodies[key]['blocks']
        n = len(blocks)
        succ = [[s for s in self.succs(b['t']) if not blocks[s]['c']] for b in blocks]
        color = [0] * n
        back = []
        st = [(0, iter(succ[0]))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(succ[v])))
                    break
                if color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                st.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                pred[v].append(u)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred[x])
        self._loops[key] = loops
        return loops


# ---- byte-string and integer terms -----------------------------------------------------------------

def cat(*parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            q = p[1]
        elif p[0] == 'R' and all(isbyte_elem(e) for e in p[1]):
            q = tuple(('byte', e) if e[0] != 'i' else ('b', bytes([e[1] & 255])) for e in p[1])
        else:
            q = (p,)
        for x in q:
            if x[0] == 'b':
                if not x[1]:
                    continue
                if out and out[-1][0] == 'b':
                    out[-1] = ('b', out[-1][1] + x[1])
                    continue
            out.append(x)
    if not out:
        return ('b', b'')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def byte_array(v):
    return any(isterm(x) for x in v[1]) and all(isbyte_elem(x) for x in v[1])


def isbyte_elem(e):
    return e[0] == 'i' or (isterm(e) and e[0] in ('at', 'sample', 'anyb', 'xor'))


def lin(v):
    """int value -> (const, {term:coef}) """
    if v[0] == 'i':
        return v[1], ()
    if v[0] == 'lin':
        return v[1], v[2]
    return 0, ((v, 1),)


def mklin(c, ts):
    d = {}
    for t, k in ts:
        d[t] = d.get(t, 0) + k
    ts = tuple(sorted(((t, k) for t, k in d.items() if k), key=repr))
    if not ts:
        return ('i', c)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return ('lin', c, ts)


def add(a, b):
    (c1, t1), (c2, t2) = lin(a), lin(b)
    return mklin(c1 + c2, tuple(t1) + tuple(t2))


def neg(a):
    c, t = lin(a)
    return mklin(-c, tuple((x, -k) for x, k in t))


def sub(a, b): return add(a, neg(b))


def mul(a, b):
    if a[0] == 'i' and b[0] == 'i':
        return ('i', a[1] * b[1])
    if b[0] == 'i':
        a, b = b, a
    if a[0] == 'i':
        c, t = lin(b)
        return mklin(c * a[1], tuple((x, k * a[1]) for x, k in t))
    return ('mul', a, b)


def mklen(x):
    k = x[0]
    if k == 'b':
        return ('i', len(x[1]))
    if k == 'R':
        return ('i', len(x[1]))
    if k == 'byte':
        return ('i', 1)
    if k == 'cat':
        r = ('i', 0)
        for p in x[1]:
            r = add(r, mklen(p))
        return r
    if k == 'slice':
        hi = x[3] if x[3] is not None else mklen(x[1])
        return sub(hi, x[2])
    if k == 'amap' and isinstance(x[1], int):
        return ('i', x[1])
    if k in ('HMAC', 'H', 'pbkdf2') and x[1] in SIZES:
        return ('i', SIZES[x[1]])
    if k == 'XOR':
        for y in x[1:]:
            n = mklen(y)
            if n[0] == 'i':
                return n
        return mklen(x[1])
    if k == 'zeros' and isinstance(x[1], int):
        return ('i', x[1])
    if k == 'fit':
        return ('i', x[2])
    if k in ('lower', 'upper', 'utf8lossy'):
        return mklen(x[1])
    if k == 'collected' and x[1][:2] == ('it', 'split'):
        return sub(('nparts', x[1][2], x[1][3]), x[1][4])
    return ('len', x)


SIZES = {'sha1': 20, 'sha256': 32, 'sha512': 64, 'sha224': 28, 'sha384': 48}


def xorseq(a, b):
    return ('XOR',) + tuple(sorted((a, b), key=repr))


def mkxor(a, b):
    if isterm(b) and (not isterm(a) or repr(b) < repr(a)):
        a, b = b, a
    return ('xor', a, b)


def seqnorm(v, st=None):
    """an array all of whose elements are A[i]^B[i] is XOR(A,B); A[i] for all i is A"""
    if v[0] != 'R' or not v[1]:
        return v
    def whole(es):
        if es[0][0] != 'at':
            return None
        x = es[0][1]
        l = mklen(x)
        if (l == ('i', len(es)) or (st is not None and st.ivlin(l) == (len(es), len(es)))) and all(e == ('at', x, ('i', i)) for i, e in enumerate(es)):
            return x
        return None
    es = v[1]
    if es[0][0] == 'at':
        w = whole(es)
        return w if w is not None else v
    if all(e[0] == 'xor' for e in es):
        bases = {y[1] for y in es[0][1:] if y[0] == 'at'}
        if len(bases) == 2:
            for a in bases:
                l = [next((y for y in e[1:] if y[0] == 'at' and y[1] == a), ('?',)) for e in es]
                r = [next((y for y in e[1:] if not (y[0] == 'at' and y[1] == a)), ('?',)) for e in es]
                x, y = whole(l), whole(r)
                if x is not None and y is not None:
                    return xorseq(x, y)
    return v


def mkslice(x, lo, hi):
    """x[lo..hi]; hi None = to the end"""
    if lo == ('i', 0) and hi is None:
        return x
    if hi is not None and hi == mklen(x) and lo == ('i', 0):
        return x
    if x[0] in ('b', 'R') and lo[0] == 'i' and (hi is None or hi[0] == 'i'):
        h = len(x[1]) if hi is None else hi[1]
        if 0 <= lo[1] <= h <= len(x[1]):
            return (x[0], x[1][lo[1]:h])
    if x[0] == 'fit' and lo == ('i', 0) and hi == mklen(x[1]):
        return x[1]
    if x[0] == 'slice':
        nlo = add(x[2], lo)
        nhi = x[3] if hi is None else add(x[2], hi)
        return mkslice(x[1], nlo, nhi)
    if x[0] == 'cat' and lo[0] == 'i' and lo[1] > 0 and x[1][0][0] == 'b' and hi is None:
        first = x[1][0][1]
        if lo[1] <= len(first):
            return cat(('b', first[lo[1]:]), *x[1][1:])
    if x[0] == 'cat' and lo == ('i', 0) and hi is not None and hi[0] == 'i' and x[1][0][0] == 'b' and hi[1] <= len(x[1][0][1]):
        return ('b', x[1][0][1][:hi[1]])
    # prefix split along part boundaries of a concatenation
    if x[0] == 'cat' and lo == ('i', 0) and hi is not None:
        acc = ('i', 0)
        for n, p in enumerate(x[1]):
            if acc == hi:
                return cat(*x[1][:n])
            acc = add(acc, mklen(p))
    if x[0] == 'cat' and hi is None:
        acc = ('i', 0)
        for n, p in enumerate(x[1]):
            if acc == lo:
                return cat(*x[1][n:])
            acc = add(acc, mklen(p))
    return ('slice', x, lo, hi)


def at(x, i):
    if x[0] in ('b', 'R') and i[0] == 'i' and 0 <= i[1] < len(x[1]):
        return ('i', x[1][i[1]]) if x[0] == 'b' else x[1][i[1]]
    if x[0] == 'slice':
        return at(x[1], add(x[2], i))
    if x[0] == 'cat' and i[0] == 'i' and x[1][0][0] == 'b' and i[1] < len(x[1][0][1]):
        return ('i', x[1][0][1][i[1]])
    if x[0] == 'collected' and x[1][:2] == ('it', 'split'):
        return ('nth', x[1][2], x[1][3], add(x[1][4], i))
    return ('at', x, i)


# ---- bit operations on bytes: ('bf',base,table) is a function of one byte, ('b2',op,x,y) combines two --

BITMASK = [sum(1 << v for v in range(256) if (v >> k) & 1) for k in range(8)]


def bitsy(x):
    return x[0] in ('bf', 'b2')


def mkbf(x, f):
    """f applied to the byte expression x (constant, base byte or unary expression)"""
    if x[0] == 'i':
        return ('i', f(x[1]) & 255)
    if x[0] == 'bf':
        t = bytes(f(v) & 255 for v in x[2])
        base = x[1]
    else:
        t = bytes(f(v) & 255 for v in range(256))
        base = x
    if t == bytes(range(256)):
        return base
    if len(set(t)) == 1:
        return ('i', t[0])
    return ('bf', base, t)


def mkb2(op, x, y):
    f = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q}[op]
    if x[0] == 'i' and y[0] == 'i':
        return ('i', f(x[1], y[1]))
    if y[0] == 'i' and x[0] != 'b2':
        return mkbf(x, lambda v: f(v, y[1]))
    if x[0] == 'i' and y[0] != 'b2':
        return mkbf(y, lambda v: f(x[1], v))
    if x == y:
        return x if op != 'BitXor' else ('i', 0)
    bx, by = (x[1] if x[0] == 'bf' else x), (y[1] if y[0] == 'bf' else y)
    if bx == by and x[0] != 'b2' and y[0] != 'b2':
        tx, ty = (x[2] if x[0] == 'bf' else bytes(range(256))), (y[2] if y[0] == 'bf' else bytes(range(256)))
        return mkbf(bx, lambda v: f(tx[v], ty[v]))
    return ('b2', op, x, y)


def mkand(a, b):
    if a[0] == 'i':
        return b if a[1] else FALSE
    if b[0] == 'i':
        return a if b[1] else FALSE
    return a if a == b else ('and', a, b)


def mkor(a, b):
    return mknot(mkand(mknot(a), mknot(b)))


def bitk(x, k):
    if x[0] == 'i':
        return ('i', (x[1] >> k) & 1)
    if x[0] == 'bf':
        m = sum(1 << v for v in range(256) if (x[2][v] >> k) & 1)
        return TRUE if m == ALLB else FALSE if m == 0 else ('inset', x[1], m)
    if x[0] == 'b2':
        p, q = bitk(x[2], k), bitk(x[3], k)
        if x[1] == 'BitAnd':
            return mkand(p, q)
        if x[1] == 'BitOr':
            return mkor(p, q)
        return mkor(mkand(p, mknot(q)), mkand(mknot(p), q))
    return ('inset', x, BITMASK[k])


def biteq(x, y):
    if y[0] == 'i' and x[0] == 'bf':
        m = sum(1 << v for v in range(256) if x[2][v] == y[1])
        return TRUE if m == ALLB else FALSE if m == 0 else ('inset', x[1], m)
    if x[0] in ('i',) and y[0] == 'bf':
        return biteq(y, x)
    bx = x[1] if x[0] == 'bf' else x
    by = y[1] if y[0] == 'bf' else y
    if bx == by and x[0] != 'b2' and y[0] != 'b2':
        tx, ty = (x[2] if x[0] == 'bf' else bytes(range(256))), (y[2] if y[0] == 'bf' else bytes(range(256)))
        m = sum(1 << v for v in range(256) if tx[v] == ty[v])
        return TRUE if m == ALLB else FALSE if m == 0 else ('inset', bx, m)
    for p, q in ((x, y), (y, x)):
        # a | b is zero exactly when both are
        if q == ('i', 0) and p[0] == 'b2' and p[1] == 'BitOr':
            return mkand(mkeq(p[2], q), mkeq(p[3], q))
    r = TRUE
    for k in range(8):
        p, q = bitk(x, k), bitk(y, k)
        if p[0] == 'i':
            e = q if p[1] else mknot(q)
        elif q[0] == 'i':
            e = p if q[1] else mknot(p)
        else:
            # iff, absorbing x&y == y and x|y == y
            if p[0] == 'and' and q in p[1:]:
                o = p[2] if p[1] == q else p[1]
                e = mkor(mknot(q), o)
            elif q[0] == 'and' and p in q[1:]:
                o = q[2] if q[1] == p else q[1]
                e = mkor(mknot(p), o)
            else:
                e = mkor(mkand(p, q), mkand(mknot(p), mknot(q)))
        r = mkand(r, e)
    return r


def remaining(it):
    """how many elements an iterator still has, if that is known"""
    if it[0] != 'it':
        return None
    if it[1] == 'seq':
        return len(it[2][1]) - it[3][1] if it[2][0] == 'R' and it[3][0] == 'i' else None
    if it[1] == 'range':
        return it[3][1] - it[2][1] if it[3] and it[2][0] == it[3][0] == 'i' else None
    return remaining(it[2]) if it[1] in ('map', 'copied', 'enum') else None


def mkeq(a, b):
    if a == b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y == ('i', 0) and x[0] == 'xor' and all(z[0] in ('at', 'i') for z in x[1:]):
            return mkeq(x[1], x[2])
        if y == ('i', 0) and x[0] == 'alleq':
            return mkeq(x[1], x[2])
    if bitsy(a) or bitsy(b):
        return biteq(a, b)
    if a[0] == 'R' and b[0] != 'R' and (byte_array(a) or not a[1] and isterm(b)):
        a = cat(a) if a[1] else ('b', b'')
    elif b[0] == 'R' and a[0] != 'R' and (byte_array(b) or not b[1] and isterm(a)):
        b = cat(b) if b[1] else ('b', b'')
    if not isterm(a) and not isterm(b) and a[0] in 'ib' and b[0] in 'ib':
        return FALSE if a[0] == b[0] else ('eq', a, b)
    if a[0] == 'R' and b[0] == 'b' and not any(isterm(e) for e in a[1]):
        return TRUE if all(e[0] == 'i' for e in a[1]) and bytes(e[1] for e in a[1]) == b[1] else FALSE
    # integers: move constants to one side
    if a[0] in ('i', 'lin', 'len') or b[0] in ('i', 'lin', 'len'):
        if a[0] != 'b' and b[0] != 'b':
            d = sub(a, b)
            c, t = lin(d)
            if not t:
                return TRUE if c == 0 else FALSE
            if len(t) == 1 and t[0][1] in (1, -1):
                return ('eq', t[0][0], ('i', -c * t[0][1]))
    # common literal prefix of concatenations
    if a[0] in ('cat', 'b') and b[0] in ('cat', 'b'):
        pa, pb = (a[1] if a[0] == 'cat' else (a,)), (b[1] if b[0] == 'cat' else (b,))
        if pa and pb and pa[0][0] == 'b' and pb[0][0] == 'b':
            n = min(len(pa[0][1]), len(pb[0][1]))
            if pa[0][1][:n] != pb[0][1][:n]:
                return FALSE
        if len(pa) == 1 and len(pb) == 1:
            return FALSE
    if not isterm(a) or (isterm(b) and repr(b) < repr(a)):
        a, b = b, a
    return ('eq', a, b)


def mknot(x):
    if x[0] == 'i':
        return ('i', 0 if x[1] else 1)
    if x[0] == 'not':
        return x[1]
    return ('not', x)


def mklt(a, b):
    if a[0] == 'i' and b[0] == 'i':
        return TRUE if a[1] < b[1] else FALSE
    d = sub(a, b)             # a<b <=> d<0
    c, t = lin(d)
    if not t:
        return TRUE if c < 0 else FALSE
    if len(t) == 1 and t[0][1] == 1:
        return ('lt', t[0][0], ('i', -c))
    if len(t) == 1 and t[0][1] == -1:     # c - x < 0  <=> not(x < c+1)
        return mknot(('lt', t[0][0], ('i', c + 1)))
    return ('lt0', d)


def rewrite(v, fn):
    """replace every subterm for which fn gives a value"""
    if not isinstance(v, tuple):
        return v
    if v and isinstance(v[0], str):
        r = fn(v)
        if r is not None:
            return r
    return tuple(rewrite(x, fn) if isinstance(x, tuple) else x for x in v)


def contains(v, pred):
    """does pred hold for v or any subterm"""
    st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, tuple):
            if isinstance(x, frozenset):
                st.extend(x)
            continue
        if x and isinstance(x[0], str) and pred(x):
            return True
        st.extend(y for y in x if isinstance(y, (tuple, frozenset)))
    return False


def subterms(v):
    st, seen = [v], set()
    while st:
        x = st.pop()
        if isinstance(x, frozenset):
            st.extend(x)
            continue
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        if x and isinstance(x[0], str):
            yield x
        st.extend(y for y in x if isinstance(y, (tuple, frozenset)))


# ---- states ----------------------------------------------------------------------------------------

class State:
    __slots__ = ('mem', 'own', 'over', 'facts', 'trace', 'cnt', 'depth')

    def __init__(self):
        self.mem, self.own, self.over, self.facts, self.trace, self.cnt, self.depth = {}, set(), {}, {}, None, 0, 0

    def fork(self):
        s = type(self).__new__(type(self))
        s.mem, s.own = dict(self.mem), set()
        self.own = set()
        s.over, s.facts, s.trace, s.cnt, s.depth = dict(self.over), dict(self.facts), self.trace, self.cnt, self.depth
        return s

    def new(self):
        self.cnt += 1
        return self.cnt

    def ev(self, *e):
        self.trace = (self.trace, e)

    def events(self):
        r, t = [], self.trace
        while t is not None:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r

    def getcell(self, base):
        return self.mem[base[0]].get(base[1])

    def setcell(self, base, v):
        f = base[0]
        if f not in self.own:
            self.mem[f] = dict(self.mem.get(f, {}))
            self.own.add(f)
        self.mem[f][base[1]] = v

    def alloc(self, v, tag='heap'):
        n = self.new()
        f = (tag, n)
        self.mem[f] = {0: v}
        self.own.add(f)
        return ('P', (f, 0), ())

    # -- facts --
    def iv(self, t):
        return self.facts.get(('IV', t), (0, MAXU))

    def ivlin(self, v):
        """interval of an integer value"""
        c, ts = lin(v)
        lo = hi = c
        for t, k in ts:
            a, b = self.iv(t)
            if k > 0:
                lo += a * k
                hi += b * k
            else:
                lo += b * k
                hi += a * k
        return lo, hi

    def mask(self, t):
        return self.facts.get(('U8', t), ALLB)

    def setmask(self, t, m):
        m &= self.mask(t)
        if not m:
            return False
        self.facts[('U8', t)] = m
        return True

    def setiv(self, t, lo, hi):
        a, b = self.iv(t)
        a, b = max(a, lo), min(b, hi)
        ne = self.facts.get(('NE', t), ())
        while a in ne and a <= b:
            a += 1
        while b in ne and a <= b:
            b -= 1
        if a > b:
            return False
        self.facts[('IV', t)] = (a, b)
        return True

    def atleast(self, x, depth):
        """a lower bound of a linear expression from the differences known"""
        cc, ts = lin(x)
        best = self.ivlin(x)[0]
        if depth and len(ts) > 1:
            mine = dict(ts)
            for k, (a, b) in [(k, v) for k, v in self.facts.items() if k[0] == 'DB']:
                for sign, low in ((1, a), (-1, -b)):
                    if low > -MAXD and any(mine.get(t) == sign * co for t, co in k[1]):
                        rest = mklin(0, [(t, co) for t, co in ts] + [(t, -sign * co) for t, co in k[1]])
                        if len(lin(rest)[1]) < len(ts):
                            best = max(best, cc + low + self.atleast(rest, depth - 1))
        return best

    def decide(self, c):
        """truth of a boolean value: True, False or None"""
        if c[0] == 'i':
            return bool(c[1])
        f = self.facts.get(('B', c))
        if f is not None:
            return f
        k = c[0]
        if k == 'not':
            r = self.decide(c[1])
            return None if r is None else not r
        if k == 'eq':
            a, b = c[1], c[2]
            if ('U8', a) in self.facts and b[0] == 'i':
                m = self.mask(a)
                if not (m >> (b[1] & 255)) & 1:
                    return False
                if m == 1 << (b[1] & 255):
                    return True
                return None
            if b[0] == 'i':
                lo, hi = self.ivlin(a)
                if b[1] < lo or b[1] > hi:
                    return False
                if lo == hi:
                    return lo == b[1]
                if b[1] in self.facts.get(('NE', a), ()):
                    return False
                v = self.facts.get(('V', a))
                if v is not None:
                    return v == b[1]
                return None
            if b[0] == 'b':
                lo, hi = self.ivlin(mklen(a))
                n = len(b[1])
                if n < lo or n > hi:
                    return False
                allk = lo == hi
                for i, ch in enumerate(b[1]):
                    e = at(a, ('i', i))
                    if e[0] == 'i':
                        if e[1] != ch:
                            return False
                        continue
                    m = self.mask(e)
                    if not (m >> ch) & 1:
                        return False
                    if m != 1 << ch:
                        allk = False
                return True if allk else None
            # lengths incompatible
            if a[0] not in ('i', 'lin', 'len') and b[0] not in ('i', 'lin', 'len'):
                d = sub(mklen(a), mklen(b))
                lo, hi = self.ivlin(d)
                if d[0] == 'i' and d[1] != 0:
                    return False
                if lo > 0 or hi < 0:
                    return False
            return None
        if k == 'lt':
            lo, hi = self.ivlin(c[1])
            if ('U8', c[1]) in self.facts and 0 <= c[2][1] <= 256:
                m = self.mask(c[1])
                below = m & ((1 << c[2][1]) - 1)
                return True if below == m else False if not below else None
            if hi < c[2][1]:
                return True
            if lo >= c[2][1]:
                return False
            return None
        if k == 'lt0':
            lo, hi = self.ivlin(c[1])
            cc, ts = lin(c[1])
            neg_, key = canon(ts)
            db = self.facts.get(('DB', key))
            if db is not None:
                a, b = (cc - db[1], cc - db[0]) if neg_ else (cc + db[0], cc + db[1])
                lo, hi = max(lo, a), min(hi, b)
            if hi < 0:
                return True
            if lo >= 0:
                return False
            if len(ts) > 1:
                # the difference as a sum of known differences
                if self.atleast(c[1], 2) >= 0:
                    return False
                if self.atleast(sub(('i', 0), c[1]), 2) > 0:
                    return True
            return None
        if k == 'and':
            x, y = self.decide(c[1]), self.decide(c[2])
            if x is False or y is False:
                return False
            return True if x and y else None
        if k == 'inset':           # byte term in mask
            m = self.mask(c[1])
            if m & c[2] == 0:
                return False
            if m & ~c[2] == 0:
                return True
            return None
        if k == 'allin':
            x = c[1]
            if x[0] == 'b':
                return all((c[2] >> ch) & 1 for ch in x[1])
            if c[2] == ALLB:
                return True
            if x[0] == 'cat':
                r = True
                for p in x[1]:
                    d = self.decide(('allin', p, c[2]))
                    if d is False:
                        return False
                    if d is None:
                        r = None
                return r
            m = self.facts.get(('ALL', x))
            if m is not None and m & ~c[2] == 0:
                return True
            if x[0] in ('slice', 'nth'):
                m = self.facts.get(('ALL', x[1]))
                if m is not None and m & ~c[2] == 0:
                    return True
            if x[0] == 'nth' and x[2][0] == 'sepmask' and (len(x[2]) == 2 or x[2][2] == 'n' and x[2][3][0] == 'i' == x[3][0] and x[3][1] < x[2][3][1] - 1) and (~x[2][1] & ALLB) & ~c[2] == 0:
                return True
            if x[0] == 'b64e' and B64 & ~c[2] == 0:
                return True
            if self.facts.get(('B', mkeq(mklen(x), ('i', 0)))):
                return True
            return None
        return None

    def assume(self, c, v):
        """record that boolean value c is v; False if that contradicts what is known"""
        d = self.decide(c)
        if d is not None:
            return d == v
        k = c[0]
        if k == 'not':
            return self.assume(c[1], not v)
        if k == 'and' and v:
            return self.assume(c[1], True) and self.assume(c[2], True)
        self.facts[('B', c)] = v
        if k == 'eq':
            a, b = c[1], c[2]
            if ('U8', a) in self.facts and b[0] == 'i':
                return self.setmask(a, (1 << (b[1] & 255)) if v else ALLB & ~(1 << (b[1] & 255)))
            if b[0] == 'i':
                if v:
                    self.facts[('V', a)] = b[1]
                    if a[0] == 'lin' or isterm(a):
                        return self.setiv(a, b[1], b[1])
                else:
                    self.facts[('NE', a)] = frozenset(self.facts.get(('NE', a), ())) | {b[1]}
                    lo, hi = self.iv(a)
                    return self.setiv(a, lo, hi)
            elif b[0] == 'b':
                if v:
                    if not self.assume(mkeq(mklen(a), ('i', len(b[1]))), True):
                        return False
                    for i, ch in enumerate(b[1]):
                        e = at(a, ('i', i))
                        if e[0] == 'i':
                            if e[1] != ch:
                                return False
                        elif not self.setmask(e, 1 << ch):
                            return False
                elif len(b[1]) == 0:
                    return self.assume(mkeq(mklen(a), ('i', 0)), False)
            return True
        if k == 'lt':
            if ('U8', c[1]) in self.facts and 0 <= c[2][1] <= 256:
                m = (1 << c[2][1]) - 1
                return self.setmask(c[1], m if v else ALLB & ~m)
            return self.setiv(c[1], 0, c[2][1] - 1) if v else self.setiv(c[1], c[2][1], MAXU)
        if k == 'lt0':
            cc, ts = lin(c[1])
            neg_, key = canon(ts)
            # ts + cc < 0  /  ts + cc >= 0
            lo, hi = (-MAXD, -cc - 1) if v else (-cc, MAXD)
            if neg_:
                lo, hi = -hi, -lo
            a, b = self.facts.get(('DB', key), (-MAXD, MAXD))
            a, b = max(a, lo), min(b, hi)
            if a > b:
                return False
            self.facts[('DB', key)] = (a, b)
            return True
        if k == 'inset':
            return self.setmask(c[1], c[2] if v else ALLB & ~c[2])
        if k == 'allin':
            if v:
                self.facts[('ALL', c[1])] = self.facts.get(('ALL', c[1]), ALLB) & c[2]
            else:
                # some byte is outside: the string is not empty
                return self.assume(mkeq(mklen(c[1]), ('i', 0)), False)
            return True
        return True

    def each(self, src, u):
        """u, made by universal(), holds of every element of src"""
        self.facts[('EACH', src)] = tuple(sorted(set(self.facts.get(('EACH', src), ()) + u), key=repr))

    def instance(self, el):
        """what is known of every element of a sequence holds of this one"""
        if el[0] == 'at':
            for t, m in self.facts.get(('EACH', el[1]), ()):
                self.assume(('allin', replace(t, at(el[1], ('anyidx', el[1])), el), m), True)

    def variant_of(self, t):
        return self.facts.get(('V', ('discr', t)))


B64 = sum(1 << c for c in b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=')


def replace(v, a, b):
    """v with b in the place of a"""
    if v == a:
        return b
    return tuple(replace(x, a, b) for x in v) if isinstance(v, tuple) else v


def universal(states, el, src):
    """what the contents of parts of the element el of src are limited to in each of the states, as facts about an
    arbitrary element of src"""
    if not states:
        return ()
    out, any_ = [], at(src, ('anyidx', src))
    for k in states[0].facts:
        if k[0] == 'ALL' and k[1] != el and contains(k[1], lambda x: x == el):
            m = 0
            for s in states:
                m |= s.facts.get(k, ALLB)
            if m != ALLB:
                out.append((replace(k[1], el, any_), m))
    return tuple(sorted(out, key=repr))


def join_facts(a, b):
    r = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        if v == w:
            r[k] = v
        elif k[0] in ('IV', 'DB'):
            r[k] = (min(v[0], w[0]), max(v[1], w[1]))
        elif k[0] in ('U8', 'ALL'):
            r[k] = v | w
        elif k[0] == 'NE':
            r[k] = v & w
    return r


class Call:
    __slots__ = ('path', 'fn', 'name', 'trait', 'argtys', 'dest_ty', 'where', 'key')


def component(st, path):
    """the value in state st of the variable (or part of one) a phi was named after"""
    if path[0] == 'over':
        v, path = st.over.get(path[1], path[1]), path[2:]
    elif path[0] in st.mem and len(path) > 1:
        v, path = st.mem[path[0]].get(path[1]), path[2:]
    else:
        return None
    for i in path:
        if v is None:
            return None
        v = v[3] if v[0] == 'A' else v[1] if v[0] in ('T', 'R') else v[2] if v[0] == 'C' else v
        if not isinstance(i, int) or not isinstance(v, tuple) or i >= len(v):
            return None
        v = v[i]
    return v


def counts(t):
    """a length, position or loop counter, or arithmetic over such"""
    if t[0] in ('i', 'len', 'pos', 'nparts', 'phi', 'rpos', 'idx'):
        return True
    if t[0] == 'lin':
        return all(counts(a) for a, _ in t[2])
    if t[0] in ('add', 'mul', 'div', 'rem', 'min', 'max'):
        return all(counts(a) for a in t[1:])
    return t[0] not in ('parse', 'prop', 'fld', 'at', 'bitop', 'iterations') and not contains(t, lambda q: q[0] in ('parse', 'prop', 'at'))


class Engine:
    log = None        # engines created, for rules about everything a check looked at

    def __init__(self, facts, models, opts=None):
        self.f = facts
        self.models = models
        self.fnlist, self.fnids = [], {}
        self.vts, self.vtids = [], {}
        self.cuts = []
        self.tsubst = {}          # other names for type parameters, while a scripted application runs
        self.reint = []           # values given another type: (where, from, to, value, state)
        self.panics = []          # (function path, kind, detail, state)
        self.loop_events = {}
        self.phisrc = {}
        self.phinit, self.phistep = {}, {}   # value on entry; values at the back edges in the last round
        self.opts = opts or {}
        self.steps = 0
        self.maxsteps = self.opts.get('maxsteps', 6_000_000)
        self.unmodelled = {}
        self.stack = []
        self.analysed = set()
        self.loopn = 0
        if Engine.log is not None:
            Engine.log.append(self)

    # ---- interning -------------------------------------------------------------------------------
    def fnval(self, fn):
        k = fn.get('rkey') or (fn['path'] + str(fn.get('args')))
        if k not in self.fnids:
            self.fnids[k] = len(self.fnlist)
            self.fnlist.append(fn)
        return ('F', self.fnids[k])

    def vt(self, v):
        k = json.dumps([v['ty'], v['trait'], sorted(self.tsubst.items())])
        if k not in self.vtids:
            self.vtids[k] = len(self.vts)
            self.vts.append(dict(v, names=dict(self.tsubst)) if self.tsubst else v)
        return self.vtids[k]

    # ---- places ----------------------------------------------------------------------------------
    def read(self, st, base, proj):
        if base[0] == 'V':
            v = base[1]
            v = st.over.get(v, v)
        elif base[0] == 'E':      # element of a sequence held in a place
            cont = self.read(st, base[1][1], base[1][2])
            v = at(self.datum(st, cont), base[2])
        else:
            v = st.getcell(base)
            if v is None:
                v = ('uninit', str(base))
        for e in proj:
            v = self.project(st, v, e)
        return v

    def project(self, st, v, e):
        k = e[0]
        if k == 'v':
            if v[0] == 'A':
                return v
            return ('as', v, e[1], e[2])
        if k == 'f':
            i = e[1]
            t = v[0]
            if t in ('A',):
                return v[3][i] if i < len(v[3]) else ('bad', v)
            if t in ('T', 'R'):
                return v[1][i] if i < len(v[1]) else ('bad', v)
            if t == 'C':
                return v[2][i]
            if t == 'b':          # field of a transparent wrapper around bytes
                return v
            if t == 'as':
                n = self.f.variant_name(v[2], v[3])
                fn = self.f.field_name(v[2], v[3], i)
                x = ('fld', v[1], n + '.' + fn)
            else:
                x = ('fld', v, self.f.field_name(e[2], 0, i) if e[2] else str(i))
            return st.over.get(x, x)
        if k == 'at':
            return at(self.datum(st, v), e[1])
        if k == 'sub':
            d = self.datum(st, v)
            return mkslice(d, e[1], e[2] if e[3] is None else sub(mklen(d), ('i', e[3])))
        if k == 'atend':
            d = self.datum(st, v)
            return at(d, sub(mklen(d), ('i', e[1])))
        return ('proj', v, str(e))

    def place(self, st, fid, p):
        """MIR place -> (base, proj)"""
        base, proj = (fid, p['l']), []
        for e in p['pr']:
            k = e['p']
            if k == 'deref':
                v = self.read(st, base, proj)
                while v[0] == 'D':
                    v = v[1]
                if v[0] == 'P':
                    base, proj = v[1], list(v[2])
                else:
                    base, proj = ('V', v), []
            elif k == 'field':
                of = self.f.types[e['of']]
                proj.append(('f', e['i'], of.get('path')))
            elif k == 'down':
                of = None
                # the adt the downcast applies to is the type of the place so far
                proj.append(('v', e.get('adt') or '', e['v']))
            elif k == 'index':
                proj.append(('at', st.getcell((fid, e['l'])) or ('uninit', '')))
            elif k == 'cindex':
                proj.append(('at', ('i', e['i'])) if not e['end'] else ('atend', e['i']))
            elif k == 'subslice':
                if e['end']:
                    proj.append(('sub', ('i', e['from']), None, e['to'] or None))
                else:
                    proj.append(('sub', ('i', e['from']), ('i', e['to']), None))
            else:
                proj.append(('other',))
        return base, tuple(proj)

    def write(self, st, base, proj, v):
        if base[0] == 'E':
            pc = base[1]
            cont = self.read(st, pc[1], pc[2])
            new = self.update(st, cont, (('at', base[2]),) + tuple(proj), v)
            self.write(st, pc[1], pc[2], new)
            return
        if base[0] == 'V':
            t = base[1]
            if not proj:
                st.over[t] = v
                st.ev('store', t, v)
                return
            cur = st.over.get(t, t)
            if isterm(cur) and proj[0][0] == 'f':
                x = ('fld', cur, self.f.field_name(proj[0][2], 0, proj[0][1]) if proj[0][2] else str(proj[0][1]))
                if len(proj) == 1:
                    st.over[x] = v
                    st.ev('store', x, v)
                else:
                    self.write(st, ('V', x), proj[1:], v)
                return
            st.over[t] = self.update(st, cur, proj, v)
            return
        if not proj:
            st.setcell(base, v)
            return
        cur = st.getcell(base)
        if cur is None:
            cur = ('uninit', str(base))
        st.setcell(base, self.update(st, cur, proj, v))

    def update(self, st, cur, proj, v):
        if not proj:
            return v
        e = proj[0]
        k = e[0]
        if k == 'v':
            if cur[0] == 'A':
                return self.update(st, cur, proj[1:], v)
            return ('upd', cur, v)
        if k == 'f':
            i = e[1]
            if cur[0] == 'A':
                fs = list(cur[3])
                while len(fs) <= i:
                    fs.append(('uninit', ''))
                fs[i] = self.update(st, fs[i], proj[1:], v)
                return ('A', cur[1], cur[2], tuple(fs))
            if cur[0] in ('T', 'R'):
                fs = list(cur[1])
                fs[i] = self.update(st, fs[i], proj[1:], v)
                return (cur[0], tuple(fs))
            if cur[0] == 'C':
                fs = list(cur[2])
                fs[i] = self.update(st, fs[i], proj[1:], v)
                return ('C', cur[1], tuple(fs))
            a = self.f.adts.get(e[2]) if e[2] else None
            if a and a['kind'] == 'struct' and a['local']:
                n = len(a['variants'][0]['fields'])
                fs = [self.project(st, cur, ('f', j, e[2])) for j in range(n)]
                fs[i] = self.update(st, fs[i], proj[1:], v)
                return ('A', e[2], 0, tuple(fs))
            return ('upd', cur, v)
        if k == 'at':
            i = e[1]
            if cur[0] == 'P':   # box/slice pointer
                self.write(st, cur[1], tuple(cur[2]) + tuple(proj), v)
                return cur
            if isterm(cur) and i[0] == 'i':
                n = mklen(cur)
                if n[0] == 'i' and i[1] < n[1] <= 64:
                    cur = ('R', tuple(at(cur, ('i', j)) for j in range(n[1])))
            if cur[0] == 'b' and i[0] == 'i' and i[1] < len(cur[1]):
                cur = ('R', tuple(('i', x) for x in cur[1]))
            if cur[0] == 'R' and i[0] == 'i' and i[1] < len(cur[1]):
                fs = list(cur[1])
                fs[i[1]] = self.update(st, fs[i[1]], proj[1:], v)
                if all(x[0] == 'i' for x in fs):
                    return ('b', bytes(x[1] & 255 for x in fs)) if all(0 <= x[1] < 256 for x in fs) else ('R', tuple(fs))
                return seqnorm(('R', tuple(fs)), st)
            if cur[0] == 'R' and i[0] != 'i':
                return ('R', tuple(self.weak(x, v) for x in cur[1]))
            if len(proj) == 1:
                return ('ew', cur, i, v)
            return ('ew', cur, i, self.update(st, at(cur, i), proj[1:], v))
        return ('upd', cur, v)

    def weak(self, a, b):
        if a == b:
            return a
        s = set()
        for x in (a, b):
            s |= set(x[1]) if x[0] == 'any' else {x}
        return ('any', frozenset(s))

    # ---- values ----------------------------------------------------------------------------------
    def datum(self, st, v):
        """the data a value denotes, looking through references, boxes, Cow"""
        n = 0
        while n < 72:
            n += 1
            if v[0] == 'P':
                v = self.read(st, v[1], v[2])
            elif v[0] == 'D':
                v = v[1]
            elif v[0] == 'A' and v[1] in ('alloc::borrow::Cow', 'core::mem::manually_drop::ManuallyDrop', 'core::cell::UnsafeCell'):
                v = v[3][0]
            elif isterm(v) and v in st.over:
                v = st.over[v]
            else:
                break
        return v

    def deep(self, st, v, depth=0):
        """datum, recursively (for events and comparison of aggregates)"""
        v = self.datum(st, v)
        if depth > 8:
            return v
        if v[0] == 'A':
            return ('A', v[1], v[2], tuple(self.deep(st, x, depth + 1) for x in v[3]))
        if v[0] in ('T', 'R'):
            return (v[0], tuple(self.deep(st, x, depth + 1) for x in v[1]))
        if v[0] == 'C':
            return ('C', v[1], tuple(self.deep(st, x, depth + 1) for x in v[2]))
        return v

    def const(self, st, c):
        if 'fn' in c:
            return self.fnval(c['fn'])
        if 'param' in c:
            if c['param'] in self.opts.get('cparams', ()):
                return ('i', self.opts['cparams'][c['param']])
            return ('cparam', c['param'])
        if 'v' not in c:
            return ('const', c.get('def', '?'))
        return self.cval(st, c['v'], c['ty'], c.get('def'))

    def cval(self, st, v, tyi, name=None):
        tyi = v.get('ty', tyi)
        ty = self.f.types[tyi]
        if 'int' in v:
            return ('i', v['int'])
        if 'str' in v:
            return ('b', bytes.fromhex(v['str']))
        if 'bytes' in v:
            return ('b', bytes.fromhex(v['bytes']))
        if 'static' in v:
            return self.static_ptr(st, v['static'])
        if 'fnptr' in v:
            return self.fnval(v['fnptr'])
        if 'ref' in v:
            inner = self.cval(st, v['ref'], tyi)
            if inner[0] == 'b' or isterm(inner):
                return inner
            key = ('const', inner)
            if key not in st.mem:
                st.mem[key] = {0: inner}
            return ('P', (key, 0), ())
        if 'fields' in v:
            fs = []
            for i, x in enumerate(v['fields']):
                fs.append(self.cval(st, x, tyi))
            fs = tuple(fs)
            if ty['k'] == 'adt':
                return ('A', ty['path'], v.get('variant', 0), fs)
            if ty['k'] == 'array':
                return ('R', fs)
            return ('T', fs)
        if 'zst' in v:
            if ty['k'] == 'adt':
                return ('A', ty['path'], 0, ())
            if ty['k'] == 'closure':
                return ('C', ty['key'], ())
            if ty['k'] == 'fndef':
                return self.fnval(ty['callee'])
            return UNIT
        return ('const', name or ty['s'])

    def static_ptr(self, st, path):
        key = ('static', path)
        if key not in st.mem:
            s = self.f.statics.get(path)
            val = ('static', path)
            if s and s['key'] in self.f.bodies and not s['mut']:
                st.mem[key] = {0: val}
                outs = self.exec_body(st.fork(), s['key'], [])
                if len(outs) == 1:
                    st2, v = outs[0]
                    for k2, m in st2.mem.items():
                        if k2 not in st.mem:
                            st.mem[k2] = m
                    st.cnt = max(st.cnt, st2.cnt)
                    val = v
            st.mem[key] = {0: val}
        return ('P', (key, 0), ())

    def operand(self, st, fid, o):
        if 'const' in o:
            return self.const(st, o['const'])
        p = o.get('copy') or o.get('move')
        base, proj = self.place(st, fid, p)
        v = self.read(st, base, proj)
        if 'move' in o and not p['pr'] and base[0] == fid:
            st.setcell(base, MOVED)
        return v

    def optype(self, o):
        if 'const' in o:
            return self.f.types[o['const']['ty']]
        p = o.get('copy') or o.get('move')
        return self.f.types[p['ty']]

    def is_u8(self, o):
        t = self.optype(o)
        return t['s'] == 'u8'

    def rvalue(self, st, fid, r, body):
        k = r['r']
        if k == 'use':
            return self.operand(st, fid, r['op'])
        if k in ('ref', 'rawptr'):
            if r.get('fake'):
                return UNIT
            pr = self.unwrapped(r['place']['pr'])
            if pr and pr[-1]['p'] == 'deref':
                # reborrow of a trait object keeps its vtable
                base, proj = self.place(st, fid, {'l': r['place']['l'], 'pr': pr[:-1]})
                v = self.read(st, base, proj)
                if v[0] == 'D':
                    return v
            return self.addr_of(st, *self.place(st, fid, r['place']))
        if k == 'cast':
            v = self.operand(st, fid, r['op'])
            if 'vtable' in r:
                if v[0] == 'D':
                    return v
                return ('D', v, self.vt(r['vtable']))
            to = self.f.types[r['to']]
            if r['ck'].startswith('IntToInt') and v[0] == 'i':
                bits = {'u8': 8, 'u16': 16, 'u32': 32, 'i32': 32}.get(to['s'])
                if bits:
                    return ('i', v[1] & ((1 << bits) - 1))
                return v
            if r['ck'].startswith('IntToInt'):
                fr = self.f.types[r['from']]['s']
                if fr in ('u8', 'bool', 'u32', 'u16', 'char') and to['s'] in ('usize', 'u64', 'u32', 'isize', 'i32', 'char'):
                    if fr == 'u8' and isterm(v) and ('U8', v) not in st.facts:
                        st.facts[('U8', v)] = ALLB
                    return v
                return ('cast', to['s'], v) if isterm(v) else v
            if r['ck'] in ('Transmute', 'PtrToPtr'):
                self.reint.append((self.where(body, {}), self.f.types[r['from']]['s'], to['s'], v, st.fork()))
            if r['ck'].startswith('PointerCoercion(ClosureFnPointer') or r['ck'].startswith('PointerCoercion(ReifyFn'):
                return v
            return v
        if k == 'bin':
            return self.binop(st, r['op'], self.operand(st, fid, r['a']), self.operand(st, fid, r['b']), r, body)
        if k == 'un':
            a = self.operand(st, fid, r['a'])
            if r['op'] == 'Not':
                t = self.optype(r['a'])['s']
                if t == 'bool':
                    return mknot(a)
                if t == 'u8':
                    return mkbf(a, lambda v: ~v)
                return ('bitnot', a)
            if r['op'] == 'Neg':
                return neg(a)
            if r['op'] == 'PtrMetadata':
                return mklen(self.datum(st, a))
            return ('un', r['op'], a)
        if k == 'discr':
            base, proj = self.place(st, fid, r['place'])
            v = self.read(st, base, proj)
            ty = self.f.types[r['place']['ty']]
            return self.discr(st, v, ty.get('path'))
        if k == 'agg':
            vs = tuple(self.operand(st, fid, o) for o in r['ops'])
            kk = r['k']
            if kk == 'tuple':
                return ('T', vs)
            if kk == 'array':
                if vs and all(v[0] == 'i' for v in vs) and self.is_u8(r['ops'][0]):
                    return ('b', bytes(v[1] & 255 for v in vs))
                return ('R', vs)
            if kk == 'adt':
                return ('A', r['path'], r['v'], vs)
            if kk == 'closure':
                return ('C', r['key'], vs)
            return ('agg', kk) + vs
        if k == 'repeat':
            v = self.operand(st, fid, r['op'])
            n = r['n']
            t = self.optype(r['op'])['s']
            if isinstance(n, int):
                if v[0] == 'i' and t == 'u8':
                    return ('b', bytes([v[1] & 255]) * n)
                if n <= 32:
                    return ('R', (v,) * n)
            return ('repeat', n, v)
        return ('rv', k, r.get('dbg', ''))

    def addr_of(self, st, base, proj):
        # reference to opaque data is identified with the data
        if base[0] == 'V':
            v = self.read(st, base, proj)
            if not proj or isterm(v) or v[0] in ('b',):
                if not proj:
                    return base[1]
                # place inside opaque object: keep addressable
                t = base[1]
                for e in proj:
                    if not isterm(t):
                        return ('P', base, tuple(proj))
                    t2 = self.project_raw(t, e)
                    if t2 is None:
                        return v
                    t = t2
                return t
            return ('P', base, tuple(proj))
        # sub-slices are values
        for i, e in enumerate(proj):
            if e[0] in ('sub',):
                return self.read(st, base, proj)
        if proj and proj[-1][0] in ('at', 'atend'):
            v = self.read(st, base, proj)
            cur = self.read(st, base, proj[:-1])
            if cur[0] == 'P':
                return ('P', ('E', cur, proj[-1][1]) if proj[-1][0] == 'at' else ('V', v), ())
            return ('P', base, tuple(proj))
        return ('P', base, tuple(proj))

    def project_raw(self, t, e):
        if e[0] == 'v':
            return ('as', t, e[1], e[2])
        if e[0] == 'f':
            if t[0] == 'as':
                return ('fld', t[1], self.f.variant_name(t[2], t[3]) + '.' + self.f.field_name(t[2], t[3], e[1]))
            return ('fld', t, self.f.field_name(e[2], 0, e[1]) if e[2] else str(e[1]))
        if e[0] == 'at':
            return at(t, e[1])
        return None

    def discr(self, st, v, adt):
        if v[0] in ('P', 'D'):
            v = self.datum(st, v)
        if v[0] == 'A':
            a = self.f.adts.get(v[1])
            if a and a['kind'] == 'enum':
                return ('i', a['variants'][v[2]]['discr'])
            return ('i', v[2])
        if adt:
            self.f.ptypes[v] = adt
        return ('discr', v)

    def binop(self, st, op, a, b, r=None, body=None):
        u8 = r is not None and (self.is_u8(r['a']) or self.is_u8(r['b']))
        if u8:
            for x in (a, b):
                if isterm(x) and ('U8', x) not in st.facts and x[0] not in ('xor', 'bitop'):
                    st.facts[('U8', x)] = ALLB
        if op == 'Eq':
            ty = self.optype(r['a'])['s'] if r else ''
            if ty == 'bool':
                if b[0] == 'i':
                    return a if b[1] else mknot(a)
                if a[0] == 'i':
                    return b if a[1] else mknot(b)
            return mkeq(a, b)
        if op == 'Ne':
            return mknot(self.binop(st, 'Eq', a, b, r, body))
        if u8 and op in ('Lt', 'Le', 'Gt', 'Ge') and (a[0] == 'bf' and b[0] == 'i' or b[0] == 'bf' and a[0] == 'i'):
            cmp_ = {'Lt': lambda p, q: p < q, 'Le': lambda p, q: p <= q, 'Gt': lambda p, q: p > q, 'Ge': lambda p, q: p >= q}[op]
            x = a if a[0] == 'bf' else b
            g = (lambda v: cmp_(v, b[1])) if a[0] == 'bf' else (lambda v: cmp_(a[1], v))
            m = sum(1 << v for v in range(256) if g(x[2][v]))
            return ('inset', x[1], m)
        if op == 'Lt':
            return self.bytecmp(st, a, b) if u8 else mklt(a, b)
        if op == 'Gt':
            return self.binop(st, 'Lt', b, a, None) if not u8 else self.bytecmp(st, b, a)
        if op == 'Le':
            return mknot(self.binop(st, 'Lt', b, a, None)) if not u8 else mknot(self.bytecmp(st, b, a))
        if op == 'Ge':
            return mknot(self.binop(st, 'Lt', a, b, None)) if not u8 else mknot(self.bytecmp(st, a, b))
        if op in ('BitXor', 'BitAnd', 'BitOr'):
            if a[0] == 'i' and b[0] == 'i':
                return ('i', {'BitXor': a[1] ^ b[1], 'BitAnd': a[1] & b[1], 'BitOr': a[1] | b[1]}[op])
            if r is not None and self.optype(r['a'])['s'] == 'bool':
                if op == 'BitAnd':
                    return mkand(a, b)
                if op == 'BitOr':
                    return mkor(a, b)
                if op == 'BitXor':
                    for x, y in ((a, b), (b, a)):
                        if x[0] == 'i':
                            return mknot(y) if x[1] else y
                    return mkor(mkand(a, mknot(b)), mkand(mknot(a), b))
            if op == 'BitXor' and isterm(a) and isterm(b):
                return mkxor(a, b)
            if u8:
                return mkb2(op, a, b)
            return ('bitop', op, a, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            v = {'Add': add, 'Sub': sub, 'Mul': mul}[base](a, b)
            if 'WithOverflow' in op:
                if base == 'Sub':
                    t = self.optype(r['a']) if r else {'k': 'uint'}
                    ovf = FALSE if t['k'] == 'int' else mklt(a, b)
                elif a[0] == 'i' and b[0] == 'i':
                    bits = {'u8': 8, 'u16': 16, 'u32': 32, 'i32': 31, 'isize': 63, 'i64': 63}.get(self.optype(r['a'])['s'] if r else '', 64)
                    ovf = ('i', int(v[1] >= 1 << bits))
                else:
                    tn = self.optype(r['a'])['s'] if r else 'usize'
                    w = {'u8': 8, 'u16': 16, 'u32': 32, 'i8': 7, 'i16': 15, 'i32': 31, 'u64': 64, 'i64': 63}.get(tn)
                    if w is None and counts(a) and counts(b):
                        ovf = ('ovf', base, a, b)        # sums and products of in-memory lengths
                    else:
                        hi = st.ivlin(v)[1] if v[0] in ('lin', 'i', 'len', 'phi', 'parse', 'prop', 'fld', 'at') else None
                        ovf = FALSE if hi is not None and hi < 1 << (w or 64) else ('ovfl', base, a, b)
                return ('T', (v, ovf))
            return v
        if op == 'Div':
            if a[0] == 'i' and b[0] == 'i' and b[1]:
                return ('i', a[1] // b[1])
            return ('div', a, b)
        if op == 'Rem':
            if a[0] == 'i' and b[0] == 'i' and b[1]:
                return ('i', a[1] % b[1])
            return ('rem', a, b)
        if op in ('Shl', 'Shr', 'ShlWithOverflow', 'ShrWithOverflow'):
            if a[0] == 'i' and b[0] == 'i':
                v = ('i', a[1] << b[1] if 'Shl' in op else a[1] >> b[1])
            else:
                v = ('bitop', op[:3], a, b)
            if 'With' in op:
                w = {'u8': 8, 'u16': 16, 'u32': 32, 'i32': 32}.get(self.optype(r['a'])['s'] if r else '', 64)
                return ('T', (v, mknot(mklt(b, ('i', w)))))
            return v
        if op == 'Offset':
            return ('bitop', op, a, b)
        return ('bitop', op, a, b)

    def bytecmp(self, st, a, b):
        """a < b on bytes"""
        if a[0] == 'i' and b[0] == 'i':
            return TRUE if a[1] < b[1] else FALSE
        if b[0] == 'i':
            return ('inset', a, (1 << b[1]) - 1)
        if a[0] == 'i':
            return ('inset', b, ALLB & ~((1 << (a[1] + 1)) - 1))
        return ('ltb', a, b)

    # ---- control ---------------------------------------------------------------------------------
    def panic(self, st, kind, detail, where):
        self.panics.append((tuple(self.stack), kind, detail, where, st))

    def branch(self, st, cond):
        """split on a boolean value -> [(state, bool)]"""
        d = st.decide(cond)
        if d is not None:
            return [(st, d)]
        if cond[0] == 'not':
            return [(s, not b) for s, b in self.branch(st, cond[1])]
        if cond[0] == 'and':
            out = []
            for s, b in self.branch(st, cond[1]):
                out += self.branch(s, cond[2]) if b else [(s, False)]
            return out
        s2 = st.fork()
        out = []
        if st.assume(cond, True):
            out.append((st, True))
        if s2.assume(cond, False):
            out.append((s2, False))
        return out

    def switch_value(self, st, v, values, tyname, adt=None):
        """split on an integer value against constants -> [(state, const or None for otherwise)]"""
        if v[0] == 'i':
            return [(st, v[1] if v[1] in values else None)]
        if tyname == 'bool':
            return [(s, int(b) if int(b) in values else None) for s, b in self.branch(st, v)]
        if tyname == 'u8':
            if ('U8', v) not in st.facts:
                st.facts[('U8', v)] = ALLB
            out = []
            rest = ALLB
            for c in values:
                s2 = st.fork()
                if s2.setmask(v, 1 << c):
                    out.append((s2, c))
                rest &= ~(1 << c)
            if st.setmask(v, rest):
                out.append((st, None))
            return out
        known = st.facts.get(('V', v))
        if known is not None:
            return [(st, known if known in values else None)]
        ne = st.facts.get(('NE', v), frozenset())
        out = []
        for c in values:
            if c in ne:
                continue
            lo, hi = st.iv(v) if v[0] != 'discr' else (0, MAXU)
            if c < lo or c > hi:
                continue
            s2 = st.fork()
            s2.facts[('V', v)] = c
            if v[0] != 'discr':
                if not s2.setiv(v, c, c):
                    continue
            out.append((s2, c))
        nn = ne | set(values)
        dom = None
        if v[0] == 'discr':
            a = self.f.adts.get(self.f.ptypes.get(v[1]))
            if a and a['kind'] == 'enum':
                dom = {x['discr'] for x in a['variants']} - nn
        if dom is not None:
            if dom:
                if len(dom) == 1:
                    st.facts[('V', v)] = next(iter(dom))
                st.facts[('NE', v)] = frozenset(nn)
                out.append((st, None))
        else:
            st.facts[('NE', v)] = frozenset(nn)
            out.append((st, None))
        return out

    def exec_body(self, st, key, args, spread=None):
        """analyse a body in the given state -> [(state, return value)]"""
        body = self.f.bodies[key]
        if 'error' in body:
            return [(st, ('opaque', body['path']) + tuple(self.deep(st, a) for a in args))]
        if len(self.stack) > 120 or self.stack.count(key) > 2:
            st.ev('recursion', body['path'])
            return [(st, ('opaque', body['path']) + tuple(self.deep(st, a) for a in args))]
        fid = ('fr', st.new())
        st.mem[fid] = {}
        st.own.add(fid)
        for i, a in enumerate(args):
            st.mem[fid][i + 1] = a
        self.stack.append(key)
        self.analysed.add(key)
        pre = [k for k in st.mem if k != fid]
        trace0, over0 = st.trace, dict(st.over)
        try:
            rets, _, _ = self.region(st, 0, fid, key, body, None, None)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            v = s.mem[fid].get(0, UNIT)
            out.append((s, v))
        if len(out) > 1:
            out = self.merge(out, trace0, over0, pre)
        return out

    def merge(self, out, trace0, over0, pre):
        """paths that differ in nothing a caller can see are one path; their facts are joined"""
        groups, order = {}, []
        for s, v in out:
            if s.trace is not trace0 or s.over != over0 or contains(v, lambda x: x[0] == 'P'):
                order.append((s, v))
                continue
            for g in groups.setdefault(v, []):
                s0 = order[g][0]
                if all(s0.mem[f] is s.mem[f] or s0.mem[f] == s.mem[f] for f in pre):
                    s0.facts = join_facts(s0.facts, s.facts)
                    s0.cnt = max(s0.cnt, s.cnt)
                    for f, m in s.mem.items():
                        s0.mem.setdefault(f, m)
                    break
            else:
                groups[v].append(len(order))
                order.append((s, v))
        return order

    def region(self, st, bb, fid, key, body, reg, header):
        """explore from block bb.  Inside a loop region: returns (returns, back-edge states, exits)"""
        loops = self.f.loops(key)
        rets, backs, exits = [], [], []
        work = [(st, bb, True)]
        while work:
            s, b, first = work.pop()
            while True:
                if reg is not None and not first:
                    if b == header:
                        backs.append(s)
                        break
                    if b not in reg:
                        exits.append((s, b))
                        break
                if b in loops and not (reg is not None and b == header and first):
                    r2, e2 = self.loop(s, b, fid, key, body, loops[b])
                    rets.extend(r2)
                    for s2, b2 in e2:
                        if reg is not None and b2 == header:
                            backs.append(s2)
                        elif reg is not None and b2 not in reg:
                            exits.append((s2, b2))
                        else:
                            work.append((s2, b2, False))
                    break
                first = False
                nxt = self.block(s, b, fid, key, body)
                if not nxt:
                    break
                if nxt[0][1] == 'ret':
                    rets.append(nxt[0][0])
                    break
                for x in nxt[1:]:
                    work.append((x[0], x[1], False))
                s, b = nxt[0]
        return rets, backs, exits

    def loop(self, st, h, fid, key, body, reg):
        mark = len(self.panics)
        # a loop whose iteration count is decided by known data is unrolled
        cur, ret0, ex0, n = [st.fork()], [], [], 0
        limit = self.opts.get('unroll')
        if limit:
            # bounded unrolling of the entry function's outermost loops, full unrolling of all others
            outer = key == self.stack[0] and not any(h != o and h in r for o, r in self.f.loops(key).items())
            while cur and (n < 200 if not outer else n < limit):
                nb = []
                for s in cur:
                    r, b, e = self.region(s, h, fid, key, body, reg, h)
                    ret0 += r
                    ex0 += e
                    nb += b
                n += 1
                cur = nb
            if cur and not outer:
                raise Budget('loop at %s of %s does not end' % (h, body['path']))
            self.cuts.extend(cur)
            return ret0, ex0
        known = self.opts.get('finite')
        while n < 72 and cur:
            nb, nx, nr = [], [], []
            for s in cur:
                r, b, e = self.region(s, h, fid, key, body, reg, h)
                nr += r
                nb += b
                nx += e
            n += 1
            if nb and (nx or len(nb) > 4) and not (known and len(nb) < known) and not (len(nb) <= 64 and all(self.consumes(st, b, fid, n) for b in nb)):
                break
            ret0 += nr
            ex0 += nx
            cur = nb
        if not cur:
            return ret0, ex0
        del self.panics[mark:]
        self.loopn += 1
        uid = (self.f.bodies[key]['path'], h, self.loopn)
        changed = {}      # cell -> widened value
        over_changed = {}
        outer = set(st.mem)
        base_ev = st.trace
        for it in range(12):
            del self.panics[mark:]
            s0 = st.fork()
            s0.ev('loop', uid)
            for cell, v in changed.items():
                s0.setcell(cell, v)
            for t, v in over_changed.items():
                s0.over[t] = v
            start = s0.fork()
            rets, backs, exits = self.region(s0, h, fid, key, body, reg, h)
            for p in [p for p in self.phinit if p[1][0] == uid]:
                self.phistep[p] = {component(b, p[1][1:]) for b in backs}
            stable = True
            evs = []
            for b in backs:
                t, seq = b.trace, []
                while t is not None and t is not start.trace:
                    seq.append(t[1])
                    t = t[0]
                evs.append((tuple(reversed(seq)), b))
                for f in outer:
                    m0, m1 = start.mem.get(f), b.mem.get(f)
                    if m0 is m1:
                        continue
                    for l, v1 in m1.items():
                        v0 = m0.get(l)
                        if v0 is None or v0 == v1:
                            continue
                        if v0 == MOVED or v1 == MOVED or v0[0] == 'uninit' or v1[0] == 'uninit':
                            w = v1 if v0 == MOVED or v0[0] == 'uninit' else v0
                            if v0 == MOVED or v0[0] == 'uninit':
                                continue
                        w = self.widen(v0, v1, (uid, f, l))
                        if w != v0:
                            changed[(f, l)] = w
                            stable = False
                for t, v1 in b.over.items():
                    v0 = start.over.get(t, t)
                    if v0 == v1:
                        continue
                    w = self.widen(v0, v1, (uid, 'over', t))
                    if w != v0:
                        over_changed[t] = w
                        stable = False
            self.loop_events[uid] = evs      # one (events, state) per abstract iteration
            if stable:
                self.every_element(uid, backs, exits)
                return rets, exits
        raise Budget('loop at %s did not stabilise' % (uid,))

    def consumes(self, st, b, fid, n):
        """after n rounds, b has taken n elements from one short sequence of known length the loop walks"""
        m0, m1 = st.mem.get(fid), b.mem.get(fid)
        return any(v[0] == 'it' and 0 < (remaining(v) or 0) <= 16 and l in m1 and m1[l][0] == 'it' and remaining(m1[l]) == remaining(v) - n
                   for l, v in (m0.items() if m0 else ()) if isinstance(v, tuple))

    def counter(self, phi):
        """the phi counts the rounds of its loop from 0"""
        return phi[0] == 'phi' and self.phinit.get(phi) == ('i', 0) and self.phistep.get(phi) == {add(phi, ('i', 1))}

    def unwrapped(self, pr):
        """projections without trailing fields of transparent wrappers around trait objects"""
        n = len(pr)
        while n and pr[n - 1]['p'] == 'field':
            a = self.f.adts.get(self.f.types[pr[n - 1]['of']].get('path'))
            if not a or not a.get('transparent') or 'dyn ' not in a['variants'][0]['fields'][pr[n - 1]['i']]['s']:
                return pr
            n -= 1
        return pr[:n] if n and n < len(pr) and pr[n - 1]['p'] == 'deref' else pr

    def every_element(self, uid, backs, exits):
        """a counter that runs from 0 by 1 to the length of a sequence has seen every element of it: what holds of the
        element in each iteration that goes round holds of all"""
        for phi in [p for p in self.phisrc if p[1][0] == uid]:
            if not self.counter(phi):
                continue
            srcs = set()
            for b in backs:
                for k in b.facts:
                    if k[0] == 'U8' and k[1][0] == 'at' and contains(k[1][2], lambda x: x == phi):
                        d = sub(k[1][2], phi)     # element phi of a part of the string that starts at d
                        if not contains(d, lambda x: x[0] == 'phi'):
                            srcs.add(k[1][1] if d == ('i', 0) else mkslice(k[1][1], d, None))
            for src in srcs:
                m = 0
                for b in backs:
                    m |= b.mask(at(src, phi))
                if m == ALLB:
                    continue
                for s, _ in exits:
                    if s.decide(mklt(phi, mklen(src))) is False:
                        s.assume(('allin', src, m), True)
            for src in {x[1] for b in backs for k in b.facts if k[0] == 'ALL' for x in subterms(k[1]) if x[0] == 'at' and x[2] == phi}:
                u = universal(backs, at(src, phi), src)
                for s, _ in exits:
                    if u and s.decide(mklt(phi, mklen(src))) is False:
                        s.each(src, u)

    def widen(self, a, b, name):
        if a == b:
            return a
        if a[0] == 'phi' and a[1] == name:
            self.phisrc.setdefault(a, set()).add(b)
            return a
        if a[0] == b[0] and a[0] not in ('i', 'b', 'P', 'F', 'cat', 'phi'):
            if a[0] == 'A' and (a[1], a[2], len(a[3])) == (b[1], b[2], len(b[3])):
                return ('A', a[1], a[2], tuple(self.widen(x, y, name + (i,)) for i, (x, y) in enumerate(zip(a[3], b[3]))))
            if a[0] in ('T', 'R') and len(a[1]) == len(b[1]):
                return (a[0], tuple(self.widen(x, y, name + (i,)) for i, (x, y) in enumerate(zip(a[1], b[1]))))
            if a[0] == 'C' and a[1] == b[1]:
                return ('C', a[1], tuple(self.widen(x, y, name + (i,)) for i, (x, y) in enumerate(zip(a[2], b[2]))))
            if a[0] == 'it' and len(a) == len(b) and a[1] == b[1]:
                return tuple(x if x == y or not isinstance(x, tuple) else self.widen(x, y, name + (i,)) for i, (x, y) in enumerate(zip(a, b)))
        p = ('phi', name)
        s = self.phisrc.setdefault(p, set())
        self.phinit.setdefault(p, a)
        s.add(a)
        s.add(b)
        return p

    def goto(self, st, t):
        return [(st, t['target'])] if 'target' in t else []

    def block(self, st, bb, fid, key, body):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget exhausted in %s' % body['path'])
        blk = body['blocks'][bb]
        for s in blk['s']:
            k = s['s']
            if k == 'assign':
                v = self.rvalue(st, fid, s['rv'], body)
                p = s['p']
                if not p['pr']:
                    st.setcell((fid, p['l']), v)
                else:
                    base, proj = self.place(st, fid, p)
                    self.write(st, base, proj, v)
            elif k == 'setdiscr':
                base, proj = self.place(st, fid, s['p'])
                cur = self.read(st, base, proj)
                if cur[0] == 'A':
                    self.write(st, base, proj, ('A', cur[1], s['v'], cur[3]))
        t = blk['t']
        k = t['t']
        if k == 'goto':
            return [(st, t['target'])]
        if k == 'return':
            return [(st, 'ret')]
        if k == 'switch':
            v = self.operand(st, fid, t['on'])
            ty = self.f.types[t['ty']]
            vals = [x[0] for x in t['targets']]
            tm = dict((x[0], x[1]) for x in t['targets'])
            out = []
            for s, c in self.switch_value(st, v, vals, ty['s']):
                tgt = tm.get(c, t['otherwise']) if c is not None else t['otherwise']
                out.append((s, tgt))
            return out
        if k == 'drop':
            base, proj = self.place(st, fid, t['place'])
            ty = self.f.types[t['place']['ty']]
            if ty['k'] == 'adt' and 'EncoderWriter' in ty['s']:
                v = self.read(st, base, proj)
                if v != MOVED and v[0] != 'uninit':
                    st.ev('drop', ty['path'], self.deep(st, v))
            return [(st, t['target'])]
        if k == 'assert':
            return self.assert_(st, fid, t, body)
        if k == 'call':
            return self.call(st, fid, t, body)
        return []

    def where(self, body, t):
        return body.get('host') or body['path']

    def assert_(self, st, fid, t, body):
        c = self.operand(st, fid, t['cond'])
        if t['msg']['k'] == 'overflow' and t['msg']['op'] in ('Add', 'Mul') and c[0] == 'ovf':
            # sums and products of in-memory lengths; recorded as an assumption, not a branch
            return [(st, t['target'])]
        out = []
        for s, b in self.branch(st, c):
            if b == t['expected']:
                out.append((s, t['target']))
            else:
                self.panic(s, 'assert-' + t['msg']['k'], t['msg'].get('op', ''), self.where(body, t))
        return out

    # ---- calls -----------------------------------------------------------------------------------
    def call(self, st, fid, t, body):
        fo = t['f']
        fn = None
        if 'const' in fo and 'fn' in fo['const']:
            fn = fo['const']['fn']
            fv = None
        else:
            fv = self.operand(st, fid, fo)
        args = [self.operand(st, fid, a) for a in t['args']]
        where = self.where(body, t)
        if fn is not None:
            outs = self.call_fn(st, fn, args, where, t.get('atys'), t['dest']['ty'])
        else:
            outs = self.call_value(st, fv, args, where, dest_ty=t['dest']['ty'])
        res = []
        if 'target' not in t:
            for s, v in outs:
                self.panic(s, 'diverge', fn['path'] if fn else '?', where)
            return []
        for s, v in outs:
            base, proj = self.place(s, fid, t['dest'])
            self.write(s, base, proj, v)
            res.append((s, t['target']))
        return res

    def call_value(self, st, f, args, where='?', dest_ty=None, unpack=False):
        """call a callable value with already separate arguments"""
        ptr = None
        while f[0] in ('P', 'D'):
            if f[0] == 'D':
                f = f[1]
                continue
            ptr = f
            f = self.read(st, f[1], f[2])
        if f[0] == 'F':
            return self.call_fn(st, self.fnlist[f[1]], args, where, None, dest_ty)
        if f[0] == 'C':
            body = self.f.bodies.get(f[1])
            if body is None:
                return self.opaque(st, 'closure', args, where, dest_ty)
            selfty = self.f.types[body['locals'][1]]
            a0 = f
            if selfty['k'] == 'ref':
                a0 = ptr if ptr is not None else st.alloc(f)
            return self.exec_body(st, f[1], [a0] + list(args))
        return self.models.unknown_callable(self, st, f, args, where, dest_ty)

    def call_fn(self, st, fn, args, where='?', atys=None, dest_ty=None):
        c = Call()
        c.fn, c.path, c.name = fn, fn.get('rpath') or fn['path'], fn['name']
        c.trait, c.argtys, c.dest_ty, c.where, c.key = fn.get('trait'), atys, dest_ty, where, fn.get('rkey')
        if fn.get('ctor'):
            return [(st, ('A', fn['ctor_adt'], fn['ctor_variant'], tuple(args)))]
        # virtual call on a trait object whose type is known
        if args and args[0][0] == 'D' and (fn.get('rkind') == 'virtual' or 'rpath' not in fn and fn.get('trait') == self.vts[args[0][2]]['trait']):
            vt = self.vts[args[0][2]]
            for n, m in vt['methods']:
                if n == c.name:
                    if n != 'tag_id':
                        return self.call_fn(st, m, [args[0][1]] + list(args[1:]), where, atys, dest_ty)
                    # the type is the one the object was made with
                    saved, self.tsubst = self.tsubst, vt.get('names', {})
                    try:
                        return self.call_fn(st, m, [args[0][1]] + list(args[1:]), where, atys, dest_ty)
                    finally:
                        self.tsubst = saved
        hook = self.opts.get('hooks', {}).get(c.path) or self.opts.get('hooks', {}).get(fn['path'])
        if hook:
            r = hook(self, st, c, args)
            if r is not NotImplemented:
                return r
        for h in self.models.lookup(c):
            r = h(self, st, c, args)
            if r is not NotImplemented:
                return r
        if c.key and c.key in self.f.bodies:
            body = self.f.bodies[c.key]
            if body.get('kind', '') == 'Closure' and 'rshim' not in fn:
                # direct call of a closure through Fn*::call*: args = (closure, tuple)
                tup = args[1] if len(args) > 1 else UNIT
                a = list(tup[1]) if tup[0] == 'T' else [tup]
                return self.call_value(st, args[0], a, where, dest_ty)
            if fn.get('rshim') == 'closure_once':
                tup = args[1] if len(args) > 1 else UNIT
                a = list(tup[1]) if tup[0] == 'T' else [tup]
                return self.call_value(st, args[0], a, where, dest_ty)
            return self.exec_body(st, c.key, list(args))
        if fn.get('rshim') == 'fnptr':
            tup = args[1] if len(args) > 1 else UNIT
            a = list(tup[1]) if tup[0] == 'T' else [tup]
            return self.call_fn(st, fn['rfn'], a, where, None, dest_ty) if 'rfn' in fn else self.call_value(st, args[0], a, where, dest_ty)
        if fn.get('rshim') == 'clone':
            return [(st, self.datum(st, args[0]))]
        # a generic callee whose receiver turns out to be a known trait object / type
        if fn.get('diverges'):
            self.panic(st, 'diverge', c.path, where)
            return []
        return self.opaque(st, c.path, args, where, dest_ty, atys)

    def opaque(self, st, path, args, where, dest_ty=None, atys=None):
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        da = tuple(self.deep(st, a) for a in args)
        v = ('call', path) + da
        st.ev('call', path, da)
        # whatever an exclusive reference reaches may have been changed
        for n, a in enumerate(args):
            t = self.f.types[atys[n]] if atys and n < len(atys) else None
            if t is not None and not (t['k'] in ('ref', 'ptr') and t['mut']):
                continue
            if a[0] == 'P' and (t is not None):
                self.write(st, a[1], a[2], ('out', path, n, st.new()) + da)
        return [(st, v)]
