"""Fields of a peer message in canonical form, independent of how the code cuts them out
(split, splitn, split_once, position + split_at, strip_prefix, slicing)."""
from terms import *

LIN0 = ('i', 0)


def canon(t, k=None):
    """canonical form of a term: field = (base, lo, cut) meaning base[lo .. len(base) - cut], where base is
    ('input', n) | ('nth', field, mask, i) | ('tail', field, mask, i) (everything from part i on)"""
    if t[0] == 'input':
        return (t, 0, 0)
    if t[0] == 'nth':
        x, i = canon(t[1], k), t[3]
        # parts behind a known prefix that ends with the separator
        y = t[1]
        if isfield(x) and k is not None and x[1] and y[0] == 'slice' and y[2][0] == 'i' and i[0] == 'i' and len(t[2]) == 2 and t[2][0] == 'sepmask':
            bs = [k.byte(y[1], j) for j in range(y[2][1])]
            if None not in bs and x[1] >= len(bs) > 0 and t[2][1] >> bs[-1] & 1:
                c = sum(t[2][1] >> b & 1 for b in bs)
                x, i = (x[0], x[1] - len(bs), x[2]), ('i', i[1] + c)
        return nth(x, t[2], i, t, k)
    if t[0] == 'slice':
        return cut(t[1], t[2], t[3], k)
    if t[0] == 'fit':
        return canon(t[1], k)
    if t[0] in ('saslprep', 'b64d', 'parse') and len(t) == 2:
        return (t[0], canon(t[1], k))
    return t


def isfield(c):
    return len(c) == 3 and isinstance(c[1], int) and isinstance(c[2], int)


def nth(x, sep, i, t, k):
    if not isfield(x) or sep[0] != 'sepmask' or i[0] != 'i':
        if isfield(x) and sep[0] == 'sepmask' and len(sep) == 2:
            return (('nth', x, sep[1], i), 0, 0)
        return t
    mk, i = sep[1], i[1]
    if len(sep) > 2:
        lim = sep[3] if sep[2] == 'n' and sep[3][0] == 'i' else None
        if lim is None:
            return t
        if i == lim[1] - 1:
            if k is not None and k.yes(('allin', t, ALLB & ~mk)):
                return norm(('nth', x, mk, i), 0, 0)
            return norm(('tail', x, mk, i), 0, 0)
        if i >= lim[1]:
            return t
    return norm(('nth', x, mk, i), 0, 0)


def norm(base, lo, cutoff):
    if base[0] in ('nth', 'tail') and base[0] and isfield(base[1]):
        x, mk, i = base[1], base[2], base[3]
        b = x[0]
        if b[0] == 'tail' and x[1:] == (0, 0) and b[2] == mk and isinstance(i, int):
            return norm((base[0], b[1], mk, b[3] + i), lo, cutoff)
        if base[0] == 'tail' and i == 0:
            return (x[0], x[1] + lo, x[2] + cutoff)
    return (base, lo, cutoff)


def lincoef(l, t):
    c, ts = lin(l)
    return dict(ts).get(t, 0)


def cut(x, lo, hi, k):
    """x[lo..hi] where lo and hi may contain positions found by searching"""
    here = canon(x, k)
    raw = ('slice', x, lo, hi)
    if not isfield(here):
        return raw
    hi = hi if hi is not None else mklen(x)
    rest = sub(hi, mklen(x))
    for _ in range(12):
        # positions searched in a suffix of `here` behind known separator-free bytes are positions in `here`
        found = None
        for l in (lo, hi):
            for p, co in lin(l)[1]:
                if p[0] != 'pos' or co != 1:
                    continue
                cy = canon(p[1], k)
                if isfield(cy) and cy[0] == here[0] and cy[2] == here[2] and cy[1] >= here[1]:
                    d = cy[1] - here[1]
                    if d == 0 or (k is not None and clean(k, p[1], d, p[2])):
                        found = (l is lo, p, d)
                        break
            if found:
                break
        if found is None:
            break
        inlo, p, d = found
        mk = p[2]
        if not inlo:
            e = sub(hi, p)
            if e[0] != 'i' or lo[0] != 'i':
                return raw
            return norm3(norm(('nth', here, mk, 0), 0, 0), lo[1], d - e[1])
        if lin(sub(lo, p))[0] < d + 1:
            return raw
        at0 = add(p, ('i', d + 1))
        here = norm(('tail', here, mk, 1), 0, 0)
        lo, hi = sub(lo, at0), sub(hi, at0)
    if lo[0] == 'i' and rest[0] == 'i':
        return norm3(here, lo[1], -rest[1])
    return raw


def norm3(f, lo, c):
    return norm(f[0], f[1] + lo, f[2] + c)


def clean(k, y, d, mk):
    """the d bytes in front of y are known and none is a separator"""
    if y[0] != 'slice' or y[2][0] != 'i' or y[2][1] < d:
        return False
    for i in range(y[2][1] - d, y[2][1]):
        b = k.byte(y[1], i)
        if b is None or mk >> b & 1:
            return False
    return True


def inp(n): return (('input', n), 0, 0)
def part(x, mk, i): return (('nth', x, mk, i), 0, 0)
def tail(x, mk, i): return norm(('tail', x, mk, i), 0, 0)
def off(f, lo, cutoff=0): return norm(f[0], f[1] + lo, f[2] + cutoff)


C_NUL, C_SOH, C_COMMA, C_EQ = 1, 2, 1 << 44, 1 << 61


def single(k, t, mk):
    """t, the tail behind a separator, is known to contain no further one"""
    return k.yes(('allin', t, ALLB & ~mk))


def empty(k, t):
    """t is known to be empty"""
    return t in (('b', b''), ('R', ())) or k.st.ivlin(mklen(t))[1] == 0


def iter_value(s, phi):
    """value of a loop variable at the end of one abstract iteration"""
    name = phi[1]
    uid, f, l = name[0], name[1], name[2]
    v = s.mem.get(f, {}).get(l)
    for i in name[3:]:
        if v is None:
            return None
        if v[0] == 'A':
            v = v[3][i]
        elif v[0] in ('T', 'R'):
            v = v[1][i]
        elif v[0] == 'it':
            v = v[i]
        else:
            return None
    return v


def phi_of(t):
    ps = [x for x in subterms(t) if x[0] == 'phi']
    return ps[0] if ps else None
