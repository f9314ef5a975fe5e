"""No panic and no endless run: what is left over by the abstract runs of every entry point (panics that were not excluded,
recursion that did not end) and, for loops, a reason why they end: a finite iterator that moves in every round, or a
quantity with a bound that the abstract run shows to move in every round."""
from engine import *
from fw import *
import mech, models, re
from rules import live, Only

# library functions that panic on some arguments and for which there is no model: an unproved precondition
PANICKY = {
    'split_at', 'split_at_mut', 'copy_from_slice', 'clone_from_slice', 'copy_within', 'swap', 'swap_with_slice', 'rotate_left', 'rotate_right',
    'chunks', 'chunks_mut', 'chunks_exact', 'rchunks', 'windows', 'step_by', 'remove', 'swap_remove', 'insert', 'insert_str', 'drain', 'split_off', 'replace_range',
    'truncate_front', 'unwrap', 'expect', 'unwrap_err', 'expect_err', 'index', 'index_mut', 'from_slice', 'from_mut_slice', 'clone_from', 'from_exact_iter',
    'to_digit', 'from_digit', 'pow', 'abs', 'ilog2', 'ilog10', 'ilog', 'div', 'rem', 'div_euclid', 'rem_euclid', 'next_power_of_two', 'borrow', 'borrow_mut',
    'panic', 'panic_fmt', 'unreachable', 'assert_failed', 'as_chunks', 'array_chunks', 'select_nth_unstable', 'fill_with', 'fixed_slice',
    'from_utf8_unchecked_mut', 'duration_since', 'copy_nonoverlapping', 'encode_slice', 'split_first_chunk', 'get_unchecked', 'get_unchecked_mut', 'unwrap_unchecked',
    'finalize_into_reset', 'add', 'sub', 'mul', 'neg', 'shl', 'shr', 'sum', 'product',
}
HARMLESS = {'clone_from', 'insert', 'remove', 'add', 'sub', 'mul', 'div', 'rem', 'neg', 'shl', 'shr', 'sum', 'product', 'borrow', 'borrow_mut', 'index'}


def panicky(path):
    last = path.split('::')[-1]
    if last not in PANICKY:
        return False
    if last in ('insert', 'remove', 'drain'):
        return 'vec' in path or 'string' in path.lower()
    if last in ('borrow', 'borrow_mut'):
        return 'RefCell' in path
    if last == 'clone_from':
        return False
    return True


def short_fn(e, where):
    return re.sub(r'<[^<>]*>', '', where.split(' ')[0]).strip() or where


def report(e, V, what, steps=()):
    for stack, kind, detail, where, st in e.panics:
        fn = stack[-1].split('#')[0] if stack else where
        V('panic %s in %s' % (kind, short(fn)[-90:]), '%s can panic: %s (%s) at %s' % (what, kind, str(detail)[:120], where), (list(steps), st))
    for p in sorted(e.unmodelled):
        if panicky(p):
            V('unproved %s' % p, '%s calls %s, which panics on some arguments, and nothing shows that these are not among them' % (what, p), (list(steps), State()))
    count_sites(e, V)


SITES = {}


def count_sites(e, V):
    for k in e.analysed:
        if (id(e.f), k) in SITES:
            continue
        n = 0
        for bl in e.f.bodies[k].get('blocks', ()):
            t = bl['t']
            if t['t'] == 'assert':
                n += 1
            elif t['t'] == 'call' and isinstance(t['f'], dict):
                fn = t['f'].get('const', {}).get('fn')
                if fn and (fn['name'] in PANICKY or 'target' not in t):
                    n += 1
        SITES[(id(e.f), k)] = n
        V.count('functions that could panic' if n else 'functions without panicking operation')
        V.count('panicking operations excluded', n) if n else None


class Silent:
    """runs another check for the sake of what it explores"""
    def __init__(self, V):
        self.V = V

    def __call__(self, *a, **k):
        pass

    def count(self, *a):
        pass

    def sample(self, *a):
        pass


def logged(fn, *args):
    """the engines a check creates"""
    Engine.log = []
    try:
        fn(*args)
        return Engine.log
    finally:
        Engine.log = None


# ---- exchanges ---------------------------------------------------------------------------------------

def check_exchange_panics(x, V):
    import layers
    side = '%s %s' % (x.mech.name, x.side)
    report(x.e, V, 'a step of %s' % side)
    for p in x.start_panics:
        V('panic on start', 'creating %s can panic: %s' % (side, p[1:4]), ([], p[4]))
    n = len(x.e.panics)
    layers.check_ops(x, Silent(V))
    rest = x.e.panics[n:]
    check_late_panics(x, V)
    for stack, kind, detail, where, st in rest:
        fn = stack[-1].split('#')[0] if stack else where
        V('panic %s in %s' % (kind, short(fn)[-90:]), 'encode or decode of %s can panic: %s (%s) at %s' % (side, kind, str(detail)[:120], where), ([], st))
    V.count('exchanges without panic', len(x.paths))


def check_late_panics(x, V):
    """further steps after an exchange ended or failed, until their results repeat"""
    e, by = x.e, {}
    for st, steps in x.paths:
        d = steps[-1]
        if d['kind'] in ('err', 'Finished') and 'obj' in d:
            by.setdefault(x.snapshot(d['st'], d['obj']), []).append((d['st'], d['obj'], steps))

    def late(st, obj, inp, facts):
        s = st.fork()
        if not facts:
            s.facts = type(s.facts)()
        n = len(e.panics)
        outs = x.step(s, obj, NONE if inp is None else some(inp))
        new = e.panics[n:]
        del e.panics[n:]
        return outs, new
    seen = set(by)
    todo = list(by.values())
    while todo:
        reps = todo.pop()
        V.count('states after the end')
        for inp in (None, ('input', 99)):
            st, obj, steps = reps[0]
            outs, bad = late(st, obj, inp, False)
            V.count('steps after the end')
            if bad:         # without what was known before: look again with it
                for st, obj, steps in reps:
                    for stack, kind, detail, where, s in late(st, obj, inp, True)[1]:
                        fn = stack[-1].split('#')[0] if stack else where
                        V('panic %s in %s' % (kind, short(fn)[-90:]), 'a step of %s %s after the exchange %s can panic: %s (%s) at %s' % (
                            x.mech.name, x.side, 'failed' if steps[-1]['kind'] == 'err' else 'finished', kind, str(detail)[:120], where), (steps, s))
            for s2, r in outs:
                for s3, var, pl in models.cases(e, s2, r, RES):
                    sig = x.snapshot(s3, obj)
                    if var and sig not in seen:
                        seen.add(sig)
                        todo.append([(s3, obj, steps)])


def framework(f, V, use):
    """every engine run over the framework parts: sessions, requests, names, starting, writers"""
    import sessions, callbacks, names, starting, vectored
    S = Silent(V)
    ms = mech.mechanisms(f)
    for name, fn, args in [
            ('a session step', sessions.check_step, (f, S)), ('a session query', sessions.check_rest, (f, S)), ('a base64 step', sessions.check_base64, (f, S)),
            ('a validation', sessions.check_results, (f, S)), ('a request', callbacks.check_asks, (f, S, 1)), ('an action', callbacks.check_actions, (f, S, 1)),
            ('parsing a mechanism name', names.check_parse, (f, S)), ('starting a server', starting.check_servers, (f, S)),
            ('selecting a mechanism', starting.check_machines, (f, S)), ('reading the configuration', starting.check_credentials, (f, S))]:
        for e in logged(fn, *args):
            use(e, name)
        V.count('framework parts')
    by = {m.name: m for m in ms}
    for m in ms:
        for offered in ([m.name], [('arg', 'name')], []):
            for client in (True, False):
                use(starting.Client(f, [(m, client)], offered).e, 'starting a client')
    V.count('framework parts')


def check_framework_panics(f, V):
    framework(f, V, lambda e, what: report(e, V, what))


def check_writer_panics(f, V):
    import vectored
    for e in vectored.check_writes(f, Silent(V)) or ():
        report(e, V, 'writing a message')


# ---- termination ---------------------------------------------------------------------------------------

INFINITE = {'Repeat', 'RepeatWith', 'Cycle', 'Successors', 'FromFn', 'RangeFrom', 'DistIter', 'Once_'}
INF_PATHS = ('core::iter::sources::repeat::Repeat', 'core::iter::sources::repeat_with::RepeatWith', 'core::iter::adapters::cycle::Cycle',
             'core::iter::sources::successors::Successors', 'core::iter::sources::from_fn::FromFn', 'core::ops::range::RangeFrom', 'core::range::RangeFrom',
             'rand::distributions::distribution::DistIter', 'core::iter::adapters::peekable::Peekable_')
ADAPTERS = ('core::iter::adapters::',)
CONSUMERS = {'collect', 'for_each', 'fold', 'count', 'last', 'all', 'any', 'find', 'find_map', 'position', 'max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'sum', 'product',
             'try_for_each', 'try_fold', 'extend', 'from_iter', 'unzip', 'partition', 'eq', 'cmp', 'reduce', 'nth', 'skip_while', 'from_exact_iter', 'ne', 'lt', 'le', 'gt', 'ge', 'partial_cmp', 'is_sorted'}


def finite_type(f, t, depth=0):
    """True, False, or None when it depends on the caller, or the name of a crate type with its own `next`"""
    ty = f.types[t]
    if depth > 12:
        return False
    k = ty['k']
    if k == 'ref':
        return finite_type(f, ty.get('inner', ty.get('to', ty.get('ty'))), depth + 1) if isinstance(ty.get('inner', ty.get('to', ty.get('ty'))), int) else None
    if k in ('param', 'alias', 'opaque', 'dyn', 'proj', 'projection'):
        return None
    path = ty.get('path', '')
    args = [a['t'] for a in ty.get('args', []) if isinstance(a, dict) and 't' in a]
    if path in INF_PATHS:
        return False
    if path.startswith('core::iter::adapters::'):
        name = path.split('::')[-1]
        if name in ('Take', 'TakeWhile', 'MapWhile') and name == 'Take':
            return True
        rs = [finite_type(f, a, depth + 1) for a in args[:2 if name in ('Zip', 'Chain') else 1]]
        if name == 'Zip':
            return True if True in rs else rs[0] if len(set(map(str, rs))) == 1 else next((r for r in rs if r not in (False,)), False)
        if False in rs:
            return False
        return next((r for r in rs if r is not True), True)
    if path == 'alloc::boxed::Box' and args:
        return finite_type(f, args[0], depth + 1)
    if ty.get('local') or path.startswith('rsasl::'):
        return path
    return True



def iterator_of(f, k, t):
    """local that holds the iterator a call of `next` moves, and its place projections"""
    a = t['args'][0]
    p = a.get('move') or a.get('copy')
    if p is None:
        return None
    l = p['l']
    seen = set()
    while l not in seen:
        seen.add(l)
        src = None
        for bl in f.bodies[k]['blocks']:
            for s in bl['s']:
                if s['s'] == 'assign' and s['p']['l'] == l and not s['p']['pr']:
                    rv = s['rv']
                    if rv['r'] == 'ref':
                        src = rv['place']['l']
                    elif rv['r'] == 'use':
                        o = rv['op'].get('move') or rv['op'].get('copy')
                        src = o['l'] if o and 'ref' == f.types[o['ty']]['k'] else None
        if src is None:
            break
        l = src
    return l


def defined_in(f, k, l, reg):
    """the local gets a new value within the region"""
    for b in reg:
        bl = f.bodies[k]['blocks'][b]
        for s in bl['s']:
            if s['s'] == 'assign' and s['p']['l'] == l and not s['p']['pr']:
                return True
        if bl['t']['t'] == 'call' and bl['t']['dest']['l'] == l and not bl['t']['dest']['pr']:
            return True
    return False


def by_iterator(f, k, h, reg):
    """every round of the loop moves a finite iterator that the loop does not renew -> (proved, crate iterators relied on, dependent on caller)"""
    blocks_ = f.bodies[k]['blocks']
    moves, own, caller = set(), set(), False
    for b in reg:
        t = blocks_[b]['t']
        if t['t'] != 'call' or not isinstance(t['f'], dict):
            continue
        fn = t['f'].get('const', {}).get('fn')
        if not fn or fn['name'] not in ('next', 'next_back') or 'Iterator' not in str(fn.get('trait')):
            continue
        ts = [a['t'] for a in fn.get('args', []) if isinstance(a, dict) and 't' in a]
        fin = finite_type(f, ts[0]) if ts else False
        l = iterator_of(f, k, t)
        if fin is False or l is None or defined_in(f, k, l, reg):
            continue
        if isinstance(fin, str):
            own.add(fin)
        if fin is None:
            caller = True
        moves.add(b)
    if not moves or h in moves:
        return bool(moves), own, caller
    # can a round avoid all of them?
    seen, work = set(), [h]
    while work:
        b = work.pop()
        if b in seen or b in moves:
            continue
        seen.add(b)
        for s in f.succs(blocks_[b]['t']):
            if s == h:
                return False, own, caller
            if s in reg:
                work.append(s)
    return True, own, caller


def advances(s, phi, nxt, bounded):
    """state s at the end of a round, in which phi became nxt"""
    if nxt[0] == 'slice' and nxt[1] == phi:
        start = nxt[2]
        end = nxt[3] if len(nxt) > 3 else None
        if s.decide(mklt(('i', 0), start)) is True:
            return True
        return end not in (None, mklen(phi)) and s.decide(mklt(end, mklen(phi))) is True
    d = sub(nxt, phi)
    if d[0] == 'i' and d[1] > 0:
        return bounded(s)
    if d[0] == 'i' and d[1] < 0:
        return True          # unsigned: going below zero would panic
    if d[0] != 'i' and s.decide(mklt(phi, nxt)) is True:
        return bounded(s)
    if d[0] != 'i' and s.decide(mklt(nxt, phi)) is True:
        return True
    return False


def by_measure(e, k, h):
    """every abstract run of the loop has a quantity that moves towards a bound in every round"""
    path = e.f.bodies[k]['path']
    uids = [u for u in e.loop_events if u[0] == path and u[1] == h]
    if not uids:
        return None
    for uid in uids:
        backs = [s for _, s in e.loop_events[uid]]
        phis = [p for p in e.phinit if p[1][0] == uid]
        ok = not backs
        for p in phis:
            def bounded(s):
                for key, val in s.facts.items():
                    if key[0] == 'B' and key[1][0] == 'lt' and val is True and key[1][1] == p and not contains(key[1][2], lambda t: t[0] == 'phi' and t[1][0] == uid):
                        return True
                srcs = {q[1] for key in s.facts for q in subterms(key) if q[0] == 'at' and q[2] == p}
                return any(s.decide(mklt(p, mklen(x))) is True for x in srcs if not contains(x, lambda t: t[0] == 'phi' and t[1][0] == uid))
            if backs and all(advances(s, p, component(s, p[1][1:]), bounded) for s in backs):
                ok = True
                break
        if not ok:
            return False
    return True


def check_loops(e, V, what, done, measured=()):
    f = e.f
    for k in sorted(e.analysed):
        b = f.bodies[k]
        if 'blocks' not in b:
            continue
        for h, reg in sorted(f.loops(k).items()):
            key = (k, h)
            if done.get(key):
                continue
            ok, own, caller = by_iterator(f, k, h, reg)
            why = 'finite iterator'
            if not ok and short(k).endswith(tuple(measured)):
                continue
            if not ok:
                ok = by_measure(e, k, h)
                why = 'measure'
            if ok is None:
                # unrolled over known data, or not reached by this run
                done.setdefault(key, None)
                done.setdefault(('who', key), what)
                continue
            if not ok:
                V('no-progress %s' % short(k)[-90:], '%s: nothing shows that every round of the loop at block %d of %s brings it closer to its end' % (what, h, short(k)), ([], State()))
            done[key] = 'yes'
            V.count('loops')
            V.sample('%s block %d: %s' % (short(k)[-80:], h, why))
            for t in own:
                check_own_iterator(f, t, V)
        if k not in done:
            done[k] = True
            check_consumers(f, k, V)


def check_consumers(f, k, V):
    for fn, t in calls(f, k):
        if fn['name'] not in CONSUMERS:
            continue
        tr_ = str(fn.get('trait'))
        if not ('Iterator' in tr_ or 'FromIterator' in tr_ or 'Extend' in tr_ or fn['name'] == 'from_exact_iter'):
            continue
        V.count('iterator consumers')
        ts = [a['t'] for a in fn.get('args', []) if isinstance(a, dict) and 't' in a]
        if fn['name'] in ('extend', 'from_iter', 'from_exact_iter'):
            ts = ts[1:] + [x for x in t.get('atys', [])[-1:]]
        else:
            ts = ts[:1]
        for x in ts:
            fin = finite_type(f, x)
            if fin is False:
                V('endless-iterator %s' % short(k)[-80:], '%s: %s of an iterator without end (%s)' % (short(k), fn['name'], f.types[x]['s'][:120]), ([], State()))
            elif isinstance(fin, str):
                check_own_iterator(f, fin, V)
    # a crate iterator produced by flat_map
    for fn, t in calls(f, k):
        if fn['name'] == 'flat_map':
            for a in fn.get('args', []):
                if isinstance(a, dict) and 't' in a:
                    fin = finite_type(f, a['t'])
                    if isinstance(fin, str):
                        check_own_iterator(f, fin, V)


OWN = set()


def check_own_iterator(f, path, V):
    """`next` of a crate type returns Some only finitely often: no cycle of states that yields"""
    if (id(f), path) in OWN:
        return
    OWN.add((id(f), path))
    ks = [k for k, b in f.bodies.items() if 'blocks' in b and b.get('name') == 'next' and str(b.get('impl_adt')) == path]
    if not ks:
        return
    V.count('crate iterators')
    adt = f.adts[path]
    edges = {}
    for vi, var in enumerate(adt['variants']):
        e = Engine(f, models, {})
        st = State()
        start = ('A', path, vi, tuple(('arg', vi, i) for i in range(len(var['fields']))))
        cell = st.alloc(start, 'self')
        for s, v in e.exec_body(st, ks[0], [cell]):
            for s2, some_, p in models.cases(e, s, v, OPT):
                if some_:
                    nx = e.datum(s2, cell)
                    edges.setdefault(vi, set()).add(nx[2] if nx[0] == 'A' and nx[1] == path else None)
    for a in edges:
        work, seen = list(edges[a]), set()
        while work:
            b = work.pop()
            if b == a or b is None:
                V('endless-own-iterator %s' % path, 'the iterator %s can yield for ever' % path, ([], State()))
                return
            if b in seen:
                continue
            seen.add(b)
            work += list(edges.get(b, ()))


def check_recursion(e, V, what, states):
    for st, steps in states:
        for ev in st.events():
            if ev[0] == 'recursion':
                V('recursion %s' % ev[1], '%s: %s calls itself without the run showing that this ends' % (what, ev[1]), (list(steps), st))


WRITERS = ('VectoredWriter::<\'io, N>::write_all_vectored',)


def check_exchange_ends(x, V):
    done = {}
    side = '%s %s' % (x.mech.name, x.side)
    check_recursion(x.e, V, side, [(st, steps) for st, steps in live(x)])
    V.count('exchanges that end', len(x.paths))
    check_loops(x.e, V, 'a step of %s' % side, done, measured=WRITERS)
    for st, steps in live(x):
        if steps and steps[-1]['kind'] == 'unbounded':
            V('unbounded', '%s can go on for more rounds than were followed' % side, (steps, st))
            break


def check_framework_ends(f, V):
    done = {}

    def use(e, what):
        check_loops(e, V, what, done, measured=WRITERS)
    framework(f, V, use)


def check_writer_ends(f, V):
    """one call of the writer's output function per round, each accepting at least one byte of what is left"""
    import vectored
    r = vectored.bodies(f)[1]
    if not r:
        V('no-vectored-writer', 'no function write_all_vectored on VectoredWriter found')
    for k in r:
        for full in (True, False):
            if full and not vectored.inductive(f):
                continue
            idle = []
            for n in (1, 2, 3, 4):
                for skip in range(n + 1) if full else (0,):
                    for rounds in (1, 2) if full else range(1, n + 2):
                        e, cell, names, outs, data = vectored.explore(f, k, n, skip, rounds, full)
                        V.count('writer states')
                        for s in e.cuts:
                            V.count('rounds of the writer loop')
                            got = [ev for ev in s.events() if ev[0] == 'partial-write']
                            whole = [ev for ev in s.events() if ev[0] == 'write']
                            if len(got) + len(whole) < rounds or any(s.decide(mklt(('i', 0), ev[3])) is not True for ev in got):
                                idle.append((n, skip, s))
            if not idle:
                break
        for n, skip, s in idle:
            V('idle-writer', 'the writer loop can go round without the writer having accepted a byte (%d buffers, %d done)' % (n, skip), ([], s))


if __name__ == '__main__':
    import sys, collections
    f = Facts(sys.argv[1])

    class W:
        def __init__(self): self.c = collections.Counter(); self.seen = set()
        def __call__(self, k, m, p=None):
            if k not in self.seen: self.seen.add(k); print(k, m[:300])
        def count(self, n, k=1): self.c[n] += k
        def sample(self, x): print('   ', x)
    for fn in sys.argv[2:]:
        w = W()
        globals()[fn](f, w)
        print(fn, dict(w.c))
