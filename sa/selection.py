"""Client-side mechanism selection: every selector of every registered mechanism as a finite abstract machine."""
from engine import *
import mech, models
from terms import Known

SELECTION = 'rsasl::registry::selector::Selection'


def body_named(f, path):
    r = [k for k, b in f.bodies.items() if b.get('path') == path or k.split('#')[0] == path]
    return r


class Machine:
    """states a `Selection` can reach over every sequence of offered names, together with the names known to have been
    offered; `ends`: (state, offered, excluded, selected static or None, finalized objects)"""
    def __init__(self, f, m, cb, e=None):
        self.f, self.m = f, m
        e = self.e = e or Engine(f, models)
        st = State()
        ptr = e.static_ptr(st, m.path)
        v = e.read(st, ptr[1], ptr[2])
        names = [x['name'] for x in f.adts[mech.MECH]['variants'][0]['fields']]
        fn = e.datum(st, v[3][names.index('select')])
        self.ends, self.absent = [], False
        self.transitions = 0
        outs = e.call_value(st, fn, [TRUE if cb else FALSE], 'select')
        work = []
        for s, r in outs:
            for s2, var, p in models.cases(e, s, r, OPT):
                if var == 1:
                    c = s2.alloc(p, 'selection')[1]
                    work.append((s2, c, frozenset()))
        if not work:
            self.absent = True
            return
        seen = set()
        n = 0
        states = []
        while work:
            s, c, offered = work.pop()
            sig = (e.deep(s, e.read(s, c, ())), offered)
            if sig in seen:
                continue
            seen.add(sig)
            states.append((s, c, offered))
            n += 1
            name = ('offer', n)
            for s2, r in self.call(s.fork(), 'select', [('P', c, ()), name]):
                self.transitions += 1
                # what the offer, or the text it holds, is known to be
                views = {t for k in s2.facts for t in subterms(k) if t == name or t[0] == 'fld' and t[1] == name}
                known = {q[1] for k, val in s2.facts.items() if k[0] == 'B' and val is True and k[1][0] == 'eq' and views & set(k[1][1:]) for q in k[1][1:] if q[0] == 'b'}
                known |= {Known(s2).exact(t) for t in views} - {None}
                work.append((s2, c, offered | {b.decode('latin1') for b in known}))
        for s, c, offered in states:
            for s2, r in self.call(s.fork(), 'done', [('P', c, ())]):
                for s3, var, p in models.cases(e, s2, r, OPT):
                    if var == 0:
                        self.ends.append((offered, None, None, None))
                        continue
                    sel = e.deep(s3, p)
                    for s4, r4 in self.call(s3, 'finalize', [('P', c, ())]):
                        for s5, var5, p5 in models.cases(e, s4, r4, RES):
                            self.ends.append((offered, p, s5, (var5, p5)))

    def call(self, st, name, args):
        k = [k for k in self.f.bodies if k.split('#')[0] == SELECTION + '::' + name]
        if len(k) != 1:
            raise Budget('no unique body for Selection::%s: %s' % (name, k))
        return self.e.exec_body(st, k[0], args)


if __name__ == '__main__':
    import sys
    f = Facts(sys.argv[1])
    for m in mech.mechanisms(f):
        for cb in (0, 1):
            x = Machine(f, m, cb)
            print(m.name, cb, 'absent' if x.absent else '', x.transitions, len(x.ends), x.e.unmodelled, len(x.e.panics))
            for o, sel, s, fin in x.ends:
                print('    ', sorted(o), sel and x.e.deep(s, sel), fin and fin[0], fin and str(x.e.deep(s, fin[1]))[:200])
