"""The crate's only loop over partial writes, decided by induction: from every state (number of buffers already gone,
arbitrary remaining buffers) each of the next rounds hands the writer exactly what has not been accepted yet.  (A writer that keeps other state than the
number of buffers gone and the buffers is followed from its constructor for a bounded number of rounds instead.)"""
from engine import *
import models

VW = 'rsasl::vectored_io::VectoredWriter'
SIZES = (1, 2, 3, 4, 5, 6, 7, 8)


def bodies(f):
    ks = sorted(k for k, b in f.bodies.items() if k.startswith(VW) and k.split('#')[0].endswith('::write_all_vectored'))
    # one instance per writer type is the same source; take one of each distinct body
    seen, r = set(), []
    for k in ks:
        sig = len(f.bodies[k].get('blocks', ()))
        if sig not in seen:
            seen.add(sig)
            r.append(k)
    return ks, r


def explore(f, k, n, skip, rounds=2, full=True):
    e = Engine(f, models, {'raw_vectored': 1, 'raw_session': 1, 'unroll': rounds, 'cparams': {'N': n}})
    st = State()
    fields = f.adts[VW]['variants'][0]['fields']
    names = [x['name'] for x in fields]
    data = tuple(('buf', i) for i in range(n))
    if full:
        # any state a previous round may have left
        v = ('A', VW, 0, tuple(('R', data) if f.types[x['ty']]['k'] == 'array' else ('i', skip) for x in fields))
    else:
        ks = sorted(q for q, b in f.bodies.items() if 'blocks' in b and q.startswith(VW) and q.split('#')[0].endswith('::new'))
        if not ks:
            raise Budget('no constructor of VectoredWriter')
        outs = e.exec_body(st, ks[0], [('R', data)])
        if len(outs) != 1:
            raise Budget('VectoredWriter::new has %d outcomes' % len(outs))
        st, v = outs[0]
    cell = st.alloc(v, 'self')
    outs = e.exec_body(st, k, [cell, ('arg', 'writer')])
    return e, cell, names, outs, data


def inductive(f):
    """the state of a writer is the number of buffers gone and the buffers themselves"""
    ks = sorted(f.types[x['ty']]['k'] == 'array' for x in f.adts[VW]['variants'][0]['fields'])
    return ks == [False, True]


def slicelist(e, s, v):
    """the buffers handed to the writer, in order"""
    v = e.deep(s, v)
    if v[0] == 'R':
        return list(v[1])
    if v[0] == 'cat':
        return list(v[1])
    if v == ('b', b''):
        return []
    return [v]


def part(v):
    """(buffer number, bytes cut off its front) of a suffix of one of the original buffers"""
    if v[0] == 'buf':
        return v[1], ('i', 0)
    if v[0] == 'slice' and v[1][0] == 'buf' and v[3] in (None, mklen(v[1])):
        return v[1][1], v[2]
    return None


def total(data, skip):
    t = ('i', 0)
    for d in data[skip:]:
        t = add(t, mklen(d))
    return t


class Found:
    def __init__(self): self.viol, self.counts = [], {}
    def __call__(self, *a): self.viol.append(a)
    def count(self, n): self.counts[n] = self.counts.get(n, 0) + 1


def check_writes(f, V, panics=True, rounds=2):
    ks, r = bodies(f)
    if not r:
        V('no-vectored-writer', 'no function write_all_vectored on VectoredWriter found')
        return
    used = []
    for k in r:
        V.count('writer loops')
        W, es = Found(), []
        if inductive(f):
            check_from(f, k, W, True, SIZES, rounds, es)
        if not W.counts or W.viol:
            # the states assumed may be ones the writer never gets into: follow it from its constructor
            W, es = Found(), []
            V.count('writer loops followed from the constructor')
            check_from(f, k, W, False, SIZES[:4], None, es)
        for n, m in W.counts.items():
            for _ in range(m):
                V.count(n)
        for v in W.viol:
            V(*v)
        used += es
    return used


def check_from(f, k, V, full, sizes, rounds, engines=None):
    for n in sizes:
        for skip in range(n + 1) if full else (0,):
            V.count('writer states')
            e, cell, names, outs, data = explore(f, k, n, skip, (rounds if n <= 4 else 1) if full else n + 2, full)
            if engines is not None:
                engines.append(e)
            for p in e.panics:
                V('writer-panic %s %s' % (p[1], p[3].split('::')[-1]), 'writing %d buffers can panic after a partial write (%s %s in %s)' % (n, p[1], str(p[2])[:60], p[3]))
            for s, v in outs + [(c, None) for c in e.cuts]:
                check_one(e, V, s, v, data, skip, n, cell)


def check_one(e, V, s, v, data, skip, n, cell):
    pos = ('i', 0)
    failed = False
    for ev in s.events():
        if ev[0] == 'writefail':
            failed = True
        if ev[0] not in ('partial-write', 'write', 'writefail'):
            continue
        V.count('writes by the writer loop')
        parts = slicelist(e, s, ev[2])
        if e.deep(s, ev[1]) != ('arg', 'writer'):
            V('foreign-writer', 'the writer loop writes to something else than its writer: %s' % (str(ev[1])[:80],))
        if not parts:
            continue
        ps = [part(x) for x in parts]
        if None in ps:
            V('foreign-data', 'the writer loop hands out bytes that are not its buffers: %s' % (str(parts[ps.index(None)])[:120],))
            return
        j, r = ps[0]
        want = sub(pos, total(data[:j], skip)) if j >= skip else None
        if want is None or (want != r and s.decide(mkeq(want, r)) is not True):
            V('wrong-position', 'after a partial write the writer loop continues at another position than the first byte not accepted (buffer %d of %d)' % (j, n))
            return
        for i, p in enumerate(ps[1:]):
            if p != (j + 1 + i, ('i', 0)):
                V('wrong-order', 'the writer loop hands out its buffers with a gap, twice or out of order')
                return
        if ev[0] == 'partial-write':
            # a gather write may leave the rest for the next round, so a shorter list is fine
            pos = add(pos, ev[3])
        elif ev[0] == 'write':
            for x in parts:
                pos = add(pos, mklen(x))
    if v is None:
        return
    V.count('ends of the writer loop')
    if v[0] == 'A' and v[1] == RES and v[2] == 0:
        if failed:
            V('write-error-swallowed', 'the writer loop succeeds although a write failed')
        if s.decide(mklt(pos, total(data, skip))) is not False:
            V('incomplete', 'the writer loop can succeed before the writer accepted all %d buffers' % n)
