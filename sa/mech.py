"""Exploration harness: for every mechanism of the crate and each side, follow constructor and `step`
over all abstract exchanges.  Mechanisms are discovered from the `Mechanism` statics, never by name."""
import sys, time
from engine import *
import models

MECH = 'rsasl::registry::Mechanism'


class Mech:
    pass


def mechanisms(f):
    """every static of type Mechanism outside the test modules, with its fields"""
    out = []
    for p, s in sorted(f.statics.items()):
        t = s.get('ty')
        if t is None:
            continue
        ty = f.types[t]
        if ty.get('path') != MECH or '::test::' in p:
            continue
        e = Engine(f, models)
        st = State()
        ptr = e.static_ptr(st, p)
        v = e.read(st, ptr[1], ptr[2])
        m = Mech()
        m.path, m.value = p, v
        names = [x['name'] for x in f.adts[MECH]['variants'][0]['fields']]
        m.fields = dict(zip(names, v[3])) if v[0] == 'A' else {}
        m.st = st
        m.eng = e
        m.name = mname(e, st, m.fields.get('mechanism'))
        out.append(m)
    return out


def mname(e, st, v):
    d = e.deep(st, v) if v else ('?',)
    b = [x for x in subterms(d) if x[0] == 'b']
    return b[0][1].decode('latin1') if len(b) == 1 else str(d)


class Path:
    __slots__ = ('steps', 'st', 'status', 'ret', 'e')


class Exchange:
    """all abstract exchanges of one mechanism on one side"""
    def __init__(self, f, mech, side, opts=None, maxrounds=8):
        self.f, self.mech, self.side = f, mech, side
        self.e = Engine(f, models, opts)
        self.paths = []          # complete paths: list of (state, steps) ; steps: list of dict
        self.start_panics = []
        self.maxrounds = maxrounds
        self.models = models
        self.stuck = []          # (state, steps): Running, and no successor succeeds
        self.intermediate = 0
        self.alive = []
        self.run()

    def run(self):
        e, m = self.e, self.mech
        st = State()
        ptr = e.static_ptr(st, m.path)
        v = e.read(st, ptr[1], ptr[2])
        names = [x['name'] for x in self.f.adts[MECH]['variants'][0]['fields']]
        fn = v[3][names.index(self.side)]
        fn = e.datum(st, fn)
        if fn[0] == 'A' and fn[1] == OPT and fn[2] == 0:
            self.absent = True
            return
        self.absent = False
        start = e.datum(st, fn[3][0])
        args = [('sasl',)] if self.side == 'client' else [('sasl',)]
        if self.side == 'client':
            args = [('sasl',), ('offered',)]
            args = args[:self.nargs(start)]
        outs = [(s, r, 'constructor') for s, r in e.call_value(st, start, args, 'start')]
        self.starts = outs
        work = []
        started = set()
        if self.side == 'client':
            outs += self.selected()
        for s, r, origin in outs:
            for s2, var, p in models.cases(e, s, r, RES):
                s2.ev('start', var, None if var == 0 else e.deep(s2, p), origin)
                if origin == 'constructor' and var == 0:
                    started.add(self.snapshot(s2, p)[0])
                elif var == 0 and self.snapshot(s2, p)[0] in started:
                    continue
                if var == 0:
                    work.append((s2, p, []))
                else:
                    self.paths.append((s2, [{'kind': 'start-error', 'ret': r}]))
        rnd = 0
        seen = set()
        while work:
            rnd += 1
            nxt = []
            if rnd > self.maxrounds:
                for s, obj, steps in work:
                    self.paths.append((s, steps + [{'kind': 'unbounded'}]))
                break
            for s, obj, steps in work:
                before = self.snapshot(s, obj)
                oks = 0
                for inp in (None, ('input', rnd)):
                    s2 = s.fork()
                    n0 = s2.trace
                    iv = NONE if inp is None else some(inp)
                    outs = self.step(s2, obj, iv)
                    for s3, r in outs:
                        ev = self.since(s3, n0)
                        for s4, var, p in models.cases(e, s3, r, RES):
                            d = {'input': inp, 'events': ev, 'facts': dict(s4.facts), 'st': s4, 'obj': obj}
                            if var == 1:
                                d['kind'] = 'err'
                                d['ret'] = e.deep(s4, p)
                                self.paths.append((s4, steps + [d]))
                                continue
                            oks += 1
                            for s5, k, mw in self.state_cases(s4, p):
                                d2 = dict(d, kind=k, ret=mw, facts=dict(s5.facts), st=s5)
                                if k == 'Running':
                                    now = self.snapshot(s5, obj)
                                    if now == before:
                                        d2['kind'] = 'Running-same'
                                        self.paths.append((s5, steps + [d2]))
                                        continue
                                    nxt.append((s5, obj, steps + [d2]))
                                else:
                                    self.paths.append((s5, steps + [d2]))
                if steps:
                    self.intermediate += 1
                    (self.alive.append((s, obj)) if oks else self.stuck.append((s, steps)))
            work = nxt

    def selected(self):
        """the same mechanism as started by its selector, when channel binding is enabled"""
        import selection as S
        r = []
        for cb in (True, False):
            x = S.Machine(self.f, self.mech, cb, self.e)
            for offered, sel, s, fin in x.ends:
                if fin is not None and fin[0] == 0:
                    r.append((s, ok(fin[1]), 'selector' + ''.join(' ' + o for o in sorted(offered))))
        return r

    def snapshot(self, st, obj):
        while obj[0] == 'P':
            obj = self.e.read(st, obj[1], obj[2])
        return (self.e.deep(st, obj[1]) if obj[0] == 'D' else obj), frozenset(st.over.items())

    def nargs(self, start):
        if start[0] == 'C':
            b = self.f.bodies[start[1]]
            return b['argc'] - 1
        fn = self.e.fnlist[start[1]]
        k = fn.get('rkey')
        return self.f.bodies[k]['argc'] if k in self.f.bodies else 1

    def state_cases(self, st, p):
        e = self.e
        d = e.datum(st, p)
        if d[0] == 'A':
            n = self.f.variant_name(d[1], d[2])
            mw = e.datum(st, d[3][0]) if d[3] else None
            if mw is None:
                return [(st, n, None)]
            if mw[0] == 'A':
                return [(st, n, self.f.variant_name(mw[1], mw[2]))]
            return [(st, n, mw)]
        return [(st, 'unknown', d)]

    def since(self, st, t0):
        r, t = [], st.trace
        while t is not None and t is not t0:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r

    def step(self, st, obj, iv):
        e = self.e
        while obj[0] == 'P':
            obj = e.read(st, obj[1], obj[2])
        if obj[0] != 'D':
            raise Budget('mechanism object is not a known trait object: %r' % (obj,))
        vt = e.vts[obj[2]]
        meth = dict((n, mm) for n, mm in vt['methods'])['step']
        return e.call_fn(st, meth, [obj[1], ('session',), iv, ('writer',)], 'step')


if __name__ == '__main__':
    f = Facts(sys.argv[1])
    for m in mechanisms(f):
        if len(sys.argv) > 2 and sys.argv[2] != m.name:
            continue
        for side in ('client', 'server'):
            if len(sys.argv) > 3 and sys.argv[3] != side:
                continue
            t = time.time()
            x = Exchange(f, m, side)
            print('==', m.name, side, len(x.paths), 'paths', x.e.steps, 'steps', round(time.time() - t, 1), 's',
                  len(x.e.panics), 'panics', x.e.unmodelled)
            if len(sys.argv) > 3:
                from show_paths import show
                show(x)
