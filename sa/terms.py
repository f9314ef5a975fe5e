"""Views on provenance terms shared by the rules: wire layout, message fields, equalities known on a path."""
from engine import *

COMMA = ('sepmask', 1 << 44)
NUL = ('sepmask', 1)
SOH = ('sepmask', 2)


def parts(t):
    """flat parts of a concatenation"""
    if t[0] == 'cat':
        r = []
        for p in t[1]:
            r += parts(p)
        return r
    if t[0] == 'b' and not t[1]:
        return []
    return [t]


def roots(t):
    """numbers of the peer messages a term is built from"""
    return {x[1] for x in subterms(t) if x[0] == 'input'}


def wire(events):
    """everything a step wrote, in order"""
    return cat(*[e[2] for e in events if e[0] == 'write'])


def split_literal(ps):
    """attribute view of a message term: literal text is cut at ',' -> [[part, ...], ...]"""
    out = [[]]
    for p in ps:
        if p[0] == 'b':
            segs = p[1].split(b',')
            for i, s in enumerate(segs):
                if i:
                    out.append([])
                if s:
                    out[-1].append(('b', s))
        else:
            out[-1].append(p)
    return out


def attrs(t):
    """[(letter or None, [parts])] of a SCRAM style message"""
    out = []
    for a in split_literal(parts(t)):
        if a and a[0][0] == 'b' and len(a[0][1]) >= 2 and a[0][1][1:2] == b'=':
            rest = a[0][1][2:]
            out.append((a[0][1][:1].decode('latin1'), ([('b', rest)] if rest else []) + a[1:]))
        else:
            out.append((None, a))
    return out


class Known:
    """what a path knows: the branch conditions it passed, over terms"""
    def __init__(self, st):
        self.st = st
        self.eqs = [k[1] for k, v in st.facts.items() if k[0] == 'B' and v is True and k[1][0] == 'eq']
        self.eqs += self.bytewise()
        self.idx = {}
        for q in self.eqs:
            for a, b in ((q[1], q[2]), (q[2], q[1])):
                if a[0] == 'slice':
                    self.idx.setdefault((a[1], a[2]), []).append((a[3], b))
                elif a[0] in ('nth', 'input'):
                    self.idx.setdefault((a, ('i', 0)), []).append((None, b))

    def bytewise(self):
        """strings all of whose bytes are known to be equal, one by one"""
        runs = {}
        for q in self.eqs:
            a, b = q[1], q[2]
            if a[0] == 'at' and b[0] == 'at' and a[2][0] == 'i' and b[2][0] == 'i':
                runs.setdefault((a[1], b[1], b[2][1] - a[2][1]), set()).add(a[2][1])
        out = []
        for (a, b, d), ix in runs.items():
            lo, n = min(ix), len(ix)
            if n < 2 or max(ix) - lo + 1 != n:
                continue
            def piece(x, l):
                return x if l == 0 and self.st.ivlin(mklen(x)) == (n, n) else mkslice(x, ('i', l), ('i', l + n))
            out.append(('eq', piece(a, lo), piece(b, lo + d)))
        return out

    def yes(self, c): return self.st.decide(c) is True
    def no(self, c): return self.st.decide(c) is False

    def byte(self, x, i):
        """the value byte i of x must have, if determined"""
        e = at(x, i if isinstance(i, tuple) else ('i', i))
        if e[0] == 'i':
            return e[1]
        m = self.st.mask(e)
        return m.bit_length() - 1 if m and m & (m - 1) == 0 else None

    def letter(self, t):
        """attribute letter of a field value: the value is what follows `<letter>=`"""
        if t[0] != 'slice':
            return None
        x, lo = t[1], t[2]
        if self.byte(x, sub(lo, ('i', 1))) != ord('='):
            return None
        b = self.byte(x, sub(lo, ('i', 2)))
        return chr(b) if b is not None else None

    def exact(self, t):
        """the constant a term is known to be, if its length and bytes are determined"""
        lo, hi = self.st.ivlin(mklen(t))
        if lo != hi or lo > 64:
            return None
        bs = [self.byte(t, i) for i in range(lo)]
        return None if None in bs else bytes(bs)

    def prefix(self, t):
        """known leading bytes of a term"""
        lo, hi = self.st.ivlin(mklen(t))
        r = []
        for i in range(min(lo, 64)):
            b = self.byte(t, i)
            if b is None:
                break
            r.append(b)
        return bytes(r)

    def expand(self, t, depth=0):
        """rewrite a term with the equalities of the path: literal prefixes and values equal to earlier data"""
        out = []
        for p in parts(t):
            out += self._expand1(p, depth)
        return parts(cat(*out))

    def _expand1(self, p, depth):
        if p[0] in ('b', 'R') or depth > 12:
            return [p]
        k = self.exact(p) if p[0] in ('slice', 'nth', 'input') else None
        if k is not None:
            return [('b', k)] if k else []
        if p[0] in ('nth', 'input'):
            pre = self.prefix(p)
            if pre:
                return [('b', pre)] + self._expand1(mkslice(p, ('i', len(pre)), None), depth + 1)
            x, lo, hi = p, ('i', 0), None
        elif p[0] == 'slice':
            x, lo, hi = p[1], p[2], p[3]
        else:
            return [p]
        for h, b in self.idx.get((x, lo), ()):
            if b == p or any(s == p for s in subterms(b)):
                continue
            if h == hi:
                return self.expand(b, depth + 1)
            if h is not None:
                return self.expand(b, depth + 1) + self._expand1(mkslice(x, h, hi), depth + 1)
        return [p]

    def same(self, a, b):
        """a and b denote the same bytes, given what the path knows"""
        if a == b or self.yes(mkeq(a, b)):
            return True
        return cat(*self.expand(a)) == cat(*self.expand(b))

    def is_concat(self, t, ps):
        """t equals the concatenation of ps on this path"""
        if self.same(t, cat(*ps)):
            return True
        off = ('i', 0)
        for i, p in enumerate(ps):
            end = add(off, mklen(p)) if i < len(ps) - 1 else None
            seg = mkslice(t, off, end)
            if not self.yes(mkeq(seg, p)):
                break
            off = end
        else:
            return True
        # piecewise, counted from the front or from the back, when the length is known to be the sum
        total = ('i', 0)
        for p in ps:
            total = add(total, mklen(p))
        if not self.yes(mkeq(mklen(t), total)):
            return False
        off, l = ('i', 0), mklen(t)
        for i, p in enumerate(ps):
            end = add(off, mklen(p))
            los = {off, sub(l, sub(total, off))}
            his = {None if i == len(ps) - 1 else end, sub(l, sub(total, end)), end}
            if not any(self.yes(mkeq(mkslice(t, a, b), p)) for a in los for b in his):
                return False
            off = end
        return True


def events(steps, kinds=None):
    for n, d in enumerate(steps):
        for ev in d.get('events', ()):
            if kinds is None or ev[0] in kinds:
                yield n, ev


def describe(steps, st=None):
    """readable account of one abstract exchange"""
    from show_paths import pv
    out = []
    for d in steps:
        r = d.get('ret')
        out.append('step(%s) -> %s %s' % (pv(d['input']) if d.get('input') else 'None', d['kind'], pv(r) if isinstance(r, tuple) else (r or '')))
        for ev in d.get('events', ()):
            out.append('    ' + (ev[0] + ' ' + ' '.join(pv(q) for q in ev[1:]))[:3000])
    if st is not None:
        out.append('known on this path:')
        for k, v in st.facts.items():
            if k[0] == 'B':
                out.append('    %s %s' % ('   ' if v else 'not', pv(k[1])[:600]))
    return '\n'.join(out)
