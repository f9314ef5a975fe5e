"""The callback machinery run against scripted applications: `need_with`, `maybe_need_with` and `action` are analysed with an
abstract application in place of the user's callback, which performs a short sequence of the operations the public API
offers (answering with the right or a wrong property, by value or by closure, passing on or dropping the result, taking an
action, failing); the oracle is the documented outcome of each sequence."""
from engine import *
from fw import *
import itertools

MD = "MechanismData::<'_, '_>::"
CB = 'rsasl::callback::SessionCallback::callback'
SE = 'rsasl::error::SessionError'
CE = 'rsasl::callback::CallbackError'
G = ('arg', 'closure')
PROV = ('arg', 'provider')
SELF = ('arg', 'self')


def params(f, k):
    return [f.types[x['t']] for x in f.bodies[k]['args'] if isinstance(x, dict) and 't' in x]


def generic(f, suffix):
    """the polymorphic body of a generic function"""
    ks = [k for k in bodies(f, suffix) if all(t['k'] == 'param' for t in params(f, k))]
    if not ks:
        raise Budget('no generic body for %s' % suffix)
    return ks[0]


def variant(e, adt, name):
    return e.f.variant_index(adt, name)


class Script:
    """one scripted application: a list of (operation, right property?, value, drop the result?)"""
    def __init__(self, f, ops, final, target):
        self.f, self.ops, self.final, self.target = f, ops, final, target
        self.satisfy = generic(f, "Request::<'a>::satisfy")
        self.satisfy_with = generic(f, "Request::<'a>::satisfy_with")
        self.get_action = generic(f, "Request::<'a>::get_action")
        self.is_ = generic(f, "Request::<'a>::is")
        self.calls = 0

    def __call__(self, e, st, c, args):
        self.calls += 1
        st.ev('asked', e.deep(st, args[0]), e.deep(st, args[2]))
        cur, done = [st], []
        for n, (op, right, val, drop) in enumerate(self.ops):
            nxt = []
            for s in cur:
                for s2, r in self.one(e, s, op, right, val, args[3]):
                    s2.ev('answered', n, r)
                    if op in READS:
                        nxt.append(s2)
                        continue
                    if r[0] == 'A' and r[2] == 0 or drop:
                        nxt.append(s2)
                    else:
                        done.append((s2, r))
            cur = nxt
        return done + [(s, self.final) for s in cur]

    def one(self, e, s, op, right, val, req):
        k = {'satisfy': self.satisfy, 'satisfy_with': self.satisfy_with, 'get_action': self.get_action, 'is': self.is_}[op]
        own = params(self.f, k)[0]['s']
        saved = e.tsubst
        e.tsubst = {own: self.target if right else 'Another'}
        try:
            a = [req] if op in READS else [req, ('arg', val)]
            return [(s2, self.outcome(e, s2, r)) for s2, r in e.exec_body(s, k, a)]
        finally:
            e.tsubst = saved

    def outcome(self, e, s, r):
        return e.deep(s, r) if not (r[0] == 'A' and r[1] == RES and r[2] == 1) else r


READS = ('get_action', 'is')


def err(e, name, inner=()):
    return ('A', CE, variant(e, CE, name), tuple(inner))


def session_err(e, ce):
    return ('A', SE, variant(e, SE, 'CallbackError'), (ce,))


FINALS = {
    'ok': lambda e: ('A', RES, 0, (('T', ()),)),
    'novalue': lambda e: ('A', RES, 1, (session_err(e, err(e, 'NoValue')),)),
    'nocallback': lambda e: ('A', RES, 1, (session_err(e, err(e, 'NoCallback', (('arg', 'name'),))),)),
    'other': lambda e: ('A', RES, 1, (('arg', 'their-error'),)),
}


def other_err(e):
    """an error that is not a callback error"""
    return ('A', SE, variant(e, SE, 'NoSecurityLayer'), ())


def asks(n):
    """sequences of answers of length at most n"""
    one = [(op, right, None, drop) for op in ('satisfy', 'satisfy_with') for right in (True, False) for drop in (True, False)] + \
          [('get_action', True, None, True), ('is', True, None, True), ('is', False, None, True)]
    for k in range(n + 1):
        for seq in itertools.product(one, repeat=k):
            yield tuple((op, r, 'v%d' % i, d) for i, (op, r, _, d) in enumerate(seq))


def failed_calls(s):
    """callables whose result is known to be an error: [(callable, call term)]"""
    return [(k[1][1][2], k[1][1]) for k, v in s.facts.items()
            if k[0] == 'V' and v == 1 and k[1][0] == 'discr' and k[1][1][:2] == ('call', 'dyn')]


def counts_(ops, s):
    """index of the answer that counts on this path, or None: the first of the right property whose value could be had"""
    bad = {c for c, _ in failed_calls(s)}
    for i, (op, right, val, drop) in enumerate(ops):
        if op in READS or not right:
            continue
        if op == 'satisfy_with' and ('arg', val) in bad:
            if not drop:
                return None
            continue
        return i
    return None


def ends_first(ops):
    """the callback certainly returns the result of an answer"""
    for op, right, val, drop in ops:
        if op not in READS and right:
            return not drop
    return False


def internal_error(e, s):
    """a closure of the mechanism or the application that fails with one of the internal callback states"""
    for c, t in failed_calls(s):
        if s.facts.get(('V', ('discr', ('fld', t, 'Err.0')))) == variant(e, SE, 'CallbackError'):
            return True
    return False


def is_err(e, v, name):
    return (v[0] == 'A' and v[1] == RES and v[2] == 1 and v[3][0][0] == 'A' and v[3][0][1] == SE
            and e.f.variant_name(SE, v[3][0][2]) == 'CallbackError' and v[3][0][3][0][0] == 'A'
            and e.f.variant_name(CE, v[3][0][3][0][2]) == name)


def payload(v):
    return v[3][0]


def scenario(f, fn, ops, final):
    k = generic(f, MD + fn)
    target = params(f, k)[0]['s']
    e = Engine(f, models, {'raw_session': 1, 'raw_vectored': 1, 'typeids': 1})
    fin = {'ok': FINALS['ok'], 'novalue': FINALS['novalue'], 'nocallback': FINALS['nocallback'],
           'other': lambda e: ('A', RES, 1, (other_err(e),))}[final](e)
    sc = Script(f, ops, fin, target)
    e.opts['hooks'] = {CB: sc}
    outs = e.exec_body(State(), k, [SELF, PROV, G])
    return e, target, sc, outs


def show(ops, final):
    return '[%s; %s]' % (', '.join('%s%s%s' % (op, '' if right else ' (other property)', '' if op in READS else ' dropped' if drop else '?')
                                   for op, right, _, drop in ops), final)


def check_asks(f, V, depth=2):
    for fn in ('need_with', 'maybe_need_with'):
        for ops in asks(depth):
            for final in ('ok', 'novalue', 'nocallback', 'other'):
                if ends_first(ops) and final != 'ok':
                    continue
                one_ask(f, V, fn, ops, final)


def one_ask(f, V, fn, ops, final):
    what = '%s with %s' % (fn, show(ops, final))
    V.count('applications that answer')
    e, target, sc, outs = scenario(f, fn, ops, final)
    for p in e.panics:
        V('panic %s' % fn, '%s can panic: %s in %s' % (what, p[1], p[3]))
    for s, r in outs:
        if internal_error(e, s):
            continue
        V.count('outcomes of requests')
        r = e.deep(s, r)
        first = counts_(ops, s)
        failures = failed_calls(s)
        evs = list(s.events())
        if sum(1 for x in evs if x[0] == 'asked') != 1:
            V('asked-%s' % fn, '%s: the application is asked %d times' % (what, sum(1 for x in evs if x[0] == 'asked')))
        # evaluation of answers and of the mechanism's closure
        runs = [x for x in evs if x[0] == 'dyncall']
        given = [x for x in runs if x[1] == G]
        # index of evaluated answer closures
        values = [int(x[1][1][1:]) for x in runs if x[1] != G and x[1][0] == 'arg' and str(x[1][1]).startswith('v')]
        for i in values:
            if first is not None and i > first:
                V('evaluated %s' % fn, '%s: the value of answer %d is computed although it does not count' % (what, i + 1))
        if len(values) != len(set(values)):
            V('evaluated-twice %s' % fn, '%s: the value of an answer is computed twice' % what)
        # a value that could not be had and whose error is passed on
        passed = [t for c, t in failures for i, (op, right, val, drop) in enumerate(ops) if c == ('arg', val) and not drop and (first is None or i < first)]
        if passed:
            if not (r[0] == 'A' and r[2] == 1 and payload(r) == ('fld', passed[0], 'Err.0')):
                V('error-lost %s' % fn, '%s: the failure of the answer is not returned but %s' % (what, str(r)[:120]))
            continue
        if first is None:
            if given:
                V('guessed %s' % fn, '%s: the mechanism is given a value nobody supplied' % what)
            no_answer(e, V, fn, what, final, r)
            continue
        if len(given) != 1:
            V('delivered %s' % fn, '%s: the mechanism receives %d answers instead of the first' % (what, len(given)))
            continue
        arg = given[0][2]
        want = ('arg', 'v%d' % first)
        op = ops[first][0]
        got = e.deep(s, arg[0]) if len(arg) == 1 else None
        if not (got == want if op == 'satisfy' else got is not None and got[0] == 'fld' and got[1][:3] == ('call', 'dyn', want) and got[2] == 'Ok.0'):
            V('value %s' % fn, '%s: the mechanism receives %s instead of answer %d' % (what, str(got)[:100], first + 1))
        dropped = ops[first][3]
        clofail = [t for c, t in failures if c == G]
        if clofail:
            if not dropped and not (r[0] == 'A' and r[2] == 1 and payload(r) == ('fld', clofail[0], 'Err.0')):
                V('error-lost %s' % fn, '%s: the failure of the mechanism is not returned but %s' % (what, str(r)[:120]))
            continue
        # answered
        if dropped and final == 'other':
            if not (r[0] == 'A' and r[2] == 1 and payload(r) == other_err(e)):
                V('error-swallowed %s' % fn, '%s: the error of the callback is not passed on' % what)
            continue
        if dropped and final == 'nocallback':
            if not is_err(e, r, 'NoCallback'):
                V('error-swallowed %s' % fn, '%s: the error of the callback is not passed on' % what)
            continue
        got = payload(r) if r[0] == 'A' and r[1] == RES and r[2] == 0 else ('?',)
        if fn == 'maybe_need_with':
            got = got[3][0] if got[0] == 'A' and got[1] == OPT and got[2] == 1 else ('?',)
        if not (got[0] == 'fld' and got[2] == 'Ok.0' and got[1][:3] == ('call', 'dyn', G)):
            V('answer-lost %s' % fn, '%s: the answer does not reach the mechanism\'s result: %s' % (what, str(r)[:160]))
    # results handed to the application
    for s, r in outs:
        for x in s.events():
            if x[0] != 'answered':
                continue
            op, right, val, drop = ops[x[1]]
            V.count('answers given')
            v = x[2]
            first = counts_(ops, s)
            bad = {c for c, _ in failed_calls(s)}
            if internal_error(e, s):
                continue
            failed = ('arg', val) in bad if first is None or x[1] != first else G in bad
            if op == 'is':
                recognised(V, what, right, v)
                continue
            if op == 'get_action':
                if not (v[0] == 'A' and v[1] == OPT and v[2] == 0):
                    V('action-of-request', '%s: get_action yields a value for a request' % what)
                continue
            if not failed and first is None and right and op == 'satisfy_with':
                continue
            if not right or (first is not None and x[1] > first):
                if not (v[0] == 'A' and v[2] == 0):
                    V('touched', '%s: answer %d, which does not count, ends the callback or fails' % (what, x[1] + 1))
                continue
            if v[0] == 'A' and v[2] == 0:
                V('not-ended', '%s: the answer that counts does not end the callback' % what)
            elif not is_err(e, e.deep(s, v), 'EarlyReturn') and not failed:
                V('answer-failed', '%s: the answer that counts fails: %s' % (what, str(v)[:120]))


def no_answer(e, V, fn, what, final, r):
    if final in ('ok', 'novalue'):
        if fn == 'maybe_need_with':
            if not (r[0] == 'A' and r[2] == 0 and payload(r)[0] == 'A' and payload(r)[1] == OPT and payload(r)[2] == 0):
                V('unanswered %s' % fn, '%s: not "no value" but %s' % (what, str(r)[:120]))
        else:
            if not is_err(e, r, 'NoCallback'):
                V('unanswered %s' % fn, '%s: not the NoCallback error but %s' % (what, str(r)[:120]))
            else:
                names_property(e, V, fn, what, r)
        return
    if final == 'nocallback' and not (is_err(e, r, 'NoCallback') and r[3][0][3][0][3][0] == ('arg', 'name')):
        V('error-swallowed %s' % fn, '%s: the error of the callback is not passed on but %s' % (what, str(r)[:120]))
    if final == 'other' and not (r[0] == 'A' and r[2] == 1 and payload(r) == other_err(e)):
        V('error-swallowed %s' % fn, '%s: the error of the callback is not passed on but %s' % (what, str(r)[:120]))


def names_property(e, V, fn, what, r):
    name = r[3][0][3][0][3][0]
    k = generic(e.f, MD + fn)
    want = params(e.f, k)[0]['s']
    if not (name[0] == 'type_name' and name[1] == want):
        V('property-name %s' % fn, '%s: the NoCallback error does not name the requested property but %s' % (what, str(name)[:80]))


def recognised(V, what, right, v):
    V.count('requests recognised')
    if v != ('i', int(right)):
        V('recognised', '%s: Request::is for %s property yields %s' % (what, 'the requested' if right else 'another', str(v)[:80]))


def acts(n):
    one = [(op, right, None, True) for op in ('get_action', 'is') for right in (True, False)] + [(op, right, None, False) for op in ('satisfy', 'satisfy_with') for right in (True, False)]
    for k in range(n + 1):
        for seq in itertools.product(one, repeat=k):
            yield tuple((op, r, 'v%d' % i, d) for i, (op, r, _, d) in enumerate(seq))


def check_actions(f, V, depth=2):
    for ops in acts(depth):
        for final in ('ok', 'novalue', 'nocallback', 'other'):
            what = 'action with %s' % show(ops, final)
            V.count('applications that act')
            e, target, sc, outs = scenario(f, 'action', ops, final)
            for p in e.panics:
                V('panic action', '%s can panic: %s in %s' % (what, p[1], p[3]))
            taken = any(op == 'get_action' and right for op, right, _, _ in ops)
            first = min([i for i, (op, right, _, _) in enumerate(ops) if op == 'get_action' and right] or [None]) if taken else None
            for s, r in outs:
                V.count('outcomes of actions')
                r = e.deep(s, r)
                for x in s.events():
                    if x[0] == 'dyncall':
                        V('evaluated action', '%s: the application\'s closure is run for an action' % what)
                    if x[0] != 'answered':
                        continue
                    op, right, _, _ = ops[x[1]]
                    v = x[2]
                    if op == 'is':
                        recognised(V, what, right, v)
                    elif op == 'get_action':
                        want = ('A', OPT, 1, (G,)) if x[1] == first else ('A', OPT, 0, ())
                        if v != want:
                            V('action-value', '%s: get_action %d yields %s' % (what, x[1] + 1, str(v)[:100]))
                    elif not (v[0] == 'A' and v[2] == 0):
                        V('action-satisfied', '%s: an action is treated as a request for a value' % what)
                if final == 'ok':
                    if taken and not (r[0] == 'A' and r[2] == 0):
                        V('action-refused', '%s: a handled action fails: %s' % (what, str(r)[:100]))
                    if not taken and not is_err(e, r, 'NoCallback'):
                        V('action-unhandled', '%s: an action nobody took is reported as handled: %s' % (what, str(r)[:100]))
                    if not taken and is_err(e, r, 'NoCallback'):
                        names_property(e, V, 'action', what, r)
                elif final == 'novalue':
                    if not is_err(e, r, 'NoValue'):
                        V('error-swallowed action', '%s: the error of the callback is not passed on' % what)
                else:
                    no_answer(e, V, 'action', what, final, r)
