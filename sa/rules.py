"""Rules that apply to the exchanges of every mechanism."""
from terms import *
from fields import canon, part, tail, inp, C_NUL
from scram import is_scram, is_plus, attrs, contains_hmac

FAIL = {'writefail', 'closure-error', 'cb-error', 'missing', 'gssfail'}
PASSWORDLESS = ('ANONYMOUS', 'EXTERNAL')


def live(x):
    """exchanges that got past the constructor"""
    for st, steps in x.paths:
        if steps[-1]['kind'] != 'start-error':
            yield st, steps


def iterations(x, uid, seen=None):
    """events of one abstract iteration of a loop, inner loops included"""
    seen = seen or set()
    if uid in seen:
        return
    seen = seen | {uid}
    for seq, s in x.e.loop_events.get(uid, ()):
        for ev in seq:
            yield ev, s
            if ev[0] == 'loop':
                yield from iterations(x, ev[1], seen)


def flat(x, steps):
    """(step index, event, in a repeated iteration) over one exchange; loop bodies are entered once per abstract iteration"""
    for n, d in enumerate(steps):
        for ev in d.get('events', ()):
            yield n, ev, False
            if ev[0] == 'loop':
                for ev2, s in iterations(x, ev[1]):
                    yield n, ev2, True


def flat_step(x, d):
    for _, ev, rep in flat(x, [d]):
        yield ev, rep


def failure(ev):
    if ev[0] in FAIL:
        return True
    if ev[0] == 'validate' and ev[2] == 'err':
        return True
    if ev[0] == 'action' and ev[4] == 'err':
        return True
    if ev[0] == 'req' and ev[4] == 'err':
        return True
    return False


def progress(d):
    return d['kind'] not in ('err',)


# ---- C06 -------------------------------------------------------------------------------------------

def check_validation(x, V):
    for st, steps in live(x):
        p = (steps, st)
        evs = list(flat(x, steps))
        val = [(n, ev, rep) for n, ev, rep in evs if ev[0] == 'validate']
        if x.side == 'client':
            V.count('client exchanges')
            if val:
                V('client-validates', 'the client side calls the validation callback', p)
            continue
        for n, ev, rep in val:
            if rep:
                V('validated-in-loop', 'validation may run several times in one exchange', p)
            if ev[2] == 'err':
                V.count('failing validations')
                if progress(steps[n]):
                    V('validation-error-ignored', 'the validation callback fails and the step does not', p)
        if len(val) > 1:
            V('validated-twice', 'the validation callback is called %d times in one exchange' % len(val), p)
        if steps[-1]['kind'] != 'Finished':
            continue
        V.count('finished server exchanges')
        if any(ev[2] == 'err' for _, ev, _ in val):
            V('finished-after-failed-validation', 'the exchange finishes although validation failed', p)
        if not val:
            w = wire(steps[-1]['events'])
            if is_scram(x.mech) and not contains_hmac(w) and parts(w) and parts(w)[0][0] == 'b' and parts(w)[0][1].startswith(b'e='):
                V.count('rejections by the mechanism')
                continue
            V('finished-unvalidated', 'the exchange finishes without the validation callback having run', p)


# ---- C13 -------------------------------------------------------------------------------------------

DECODE = {'utf8': 'UTF-8', 'b64ok': 'base64', 'parses': 'number', 'jsonok': 'JSON', 'prepok': 'SASLprep'}


def check_no_swallow(x, V):
    for st, steps in live(x):
        p = (steps, st)
        for n, d in enumerate(steps):
            if d['kind'] == 'unbounded':
                continue
            for ev, rep in flat_step(x, d):
                if not failure(ev):
                    continue
                if ev[0] == 'action' and ev[1] == 'ScramCachedPassword' and x.side == 'client' and is_scram(x.mech):
                    V.count('optional cache offers refused')
                    continue
                V.count('failures followed')
                what = '%s %s' % (ev[0], ev[2] if ev[0] == 'req' else ev[1] if ev[0] in ('missing', 'closure-error', 'action') else '')
                if rep:
                    V('swallowed-in-loop ' + what.strip(), 'a failure (%s) inside a loop does not end it' % what, p)
                elif d['kind'] != 'err':
                    V('swallowed ' + what.strip(), 'a failure (%s) is followed by %s' % (what, d['kind']), p)
            if d['kind'] == 'err':
                continue
            before = steps[n - 1]['facts'] if n else {}
            for k, v in d['facts'].items():
                if k[0] != 'B' or v is not False or before.get(k) is False:
                    continue
                c = k[1]
                if c[0] in DECODE and roots(c):
                    V.count('decode failures followed')
                    if x.mech.name == 'PLAIN' and x.side == 'server' and c[0] == 'utf8' and canon(c[1], Known(st)) in (part(inp(1), C_NUL, 2), tail(inp(1), C_NUL, 2)):
                        continue         # a password that is not text is passed on as bytes
                    V('decode-ignored ' + c[0], 'a peer field that is not valid %s is accepted: %s' % (DECODE[c[0]], c[1]), p)
                if c[0] in DECODE and contains(c, lambda t: t[0] == 'prop'):
                    V.count('decode failures followed')
                    if c[0] == 'prepok' and False:
                        continue
                    V('decode-ignored ' + c[0], 'an application value that is not valid %s is used: %s' % (DECODE[c[0]], c[1]), p)


# ---- C14 -------------------------------------------------------------------------------------------

# which side's message is the last of the exchange, by the mechanisms' specifications
CLIENT_ENDS = ('PLAIN', 'LOGIN', 'EXTERNAL', 'ANONYMOUS')
TOLD_OF = {'OAUTHBEARER': 'OAuthBearerErrored', 'XOAUTH2': 'XOAuth2Error'}


def ends_here(x, d):
    """True/False: the step that finishes has to send a message/has none to send; None: not decided here"""
    name, client = x.mech.name, x.side == 'client'
    if name in CLIENT_ENDS:
        return client
    if name.startswith('SCRAM-'):
        return not client
    if name in TOLD_OF:
        return client and any(ev[:2] == ('action', TOLD_OF[name]) for ev, rep in flat_step(x, d))
    return None


def check_message_sent(x, V):
    for st, steps in live(x):
        p = (steps, st)
        for n, d in enumerate(steps):
            if d['kind'] != 'Finished':
                continue
            V.count('finishing steps')
            wrote = any(ev[0] in ('write', 'partial-write') and ev[2] not in (('b', b''), ('R', ())) for ev, rep in flat_step(x, d))
            mw = d.get('ret')
            if mw == 'No':
                V.count('finished without message')
                if wrote:
                    V('wrote-but-no-message', 'the step wrote output but reports that no message is to be sent', p)
            elif mw == 'Yes':
                V.count('finished with message')
            if mw in ('Yes', 'No') and ends_here(x, d) is not None:
                V.count('last messages, by specification')
                if ends_here(x, d) != (mw == 'Yes'):
                    V('message-dropped' if mw == 'No' else 'surplus-message', 'the step reports that %s, but by the specification of %s %s' % (
                        'no message is to be sent' if mw == 'No' else 'a message is to be sent', x.mech.name, 'this side sends the last message, even if it is empty' if mw == 'No' else 'the exchange has ended with the message of the other side'), p)
            elif mw not in ('Yes', 'No'):
                V('message-unknown', 'whether a message is to be sent is not determined: %s' % (mw,), p)


# ---- C28 -------------------------------------------------------------------------------------------

def first_side(x):
    v = x.e.datum(x.mech.st, x.mech.fields['first'])
    return x.f.variant_name(v[1], v[2]).lower() if v[0] == 'A' else '?'


def uses_input(x, steps, n, st):
    """the step's outcome depends on the content of its input"""
    name = steps[n]['input']
    if name is None:
        return False
    d = steps[n]
    before = steps[n - 1]['facts'] if n else {}
    for k in d['facts']:
        if k not in before and contains(k, lambda t: t == name):
            return True
    for ev in d['events']:
        if contains(ev, lambda t: t == name):
            return True
    return isinstance(d.get('ret'), tuple) and contains(d['ret'], lambda t: t == name)


EMPTY_OK = {('ANONYMOUS', 'server', 0), ('EXTERNAL', 'server', 0), ('XOAUTH2', 'client', 1), ('OAUTHBEARER', 'client', 1)}


def prefixes(x):
    """exchange prefixes: (index of the next step, key of the common past) -> paths that go on from there"""
    g = {}
    for st, steps in live(x):
        for n in range(len(steps)):
            if n == 0:
                o = [ev for ev in st.events() if ev[0] == 'start']
                k = (0, o[0][3] if o else '')
            else:
                k = (n, id(steps[n - 1]['events']), id(steps[n - 1]))
            g.setdefault(k, {}).setdefault(id(steps[n]), (st, steps[:n + 1]))
    return g


def check_input_required(x, V):
    fs = first_side(x)
    for k, ps in prefixes(x).items():
        n = k[0]
        some = [(st, s) for st, s in ps.values() if s[n].get('input') is not None]
        none = [(st, s) for st, s in ps.values() if 'input' in s[n] and s[n]['input'] is None]
        if not any(uses_input(x, s, n, st) for st, s in some):
            V.count('steps that ignore their input')
            continue
        V.count('steps that use their input')
        if (n == 0 and x.side == fs) or (x.mech.name, x.side, n) in EMPTY_OK:
            V.count('steps for which no input is meaningful')
            continue
        V.count('steps that need input')
        if not none:
            V('no-result-without-input', 'step %d has no outcome without input' % n, some[0])
        for st, s in none:
            d = s[n]
            where = 'step%d' % n
            if n and any(ev[0] == 'gss' and ev[1] == 'ClientCtx::step' and NONE in ev[3] for ev in d['events']):
                V('no-token-to-context', 'a step that needs a peer message hands "no token" to a security context in progress', (s, st))
                continue
            acts = [ev for ev in d['events'] if ev[0] in ('req', 'write', 'writefail', 'validate', 'action', 'cbdata')]
            if acts:
                V('acts-without-input %s %s' % (where, acts[0][0]), 'a step that needs a peer message %s before it refuses to run without one' % ACTS[acts[0][0]], (s, st))
            if d['kind'] != 'err':
                V('runs-without-input %s %s' % (where, d['kind']), 'a step that needs a peer message runs without one (%s)' % d['kind'], (s, st))
                continue
            r = d['ret']
            if r[0] == 'A' and x.f.variant_name(r[1], r[2]) == 'InputDataRequired':
                V.count('refusals without input')
            elif any(ev[0] == 'gssfail' for ev in d['events']):
                V.count('library failures before the input is looked at')
            else:
                V('wrong-error-without-input ' + where, "a step without its input fails with something else than 'input required': %s" % (r,), (s, st))


ACTS = {'req': 'asks the application', 'write': 'writes', 'writefail': 'writes', 'validate': 'validates', 'action': 'asks the application', 'cbdata': 'asks for binding data'}


# ---- C24 -------------------------------------------------------------------------------------------

def shape(t):
    """control part of a mechanism's state: variants and constants, values left out"""
    if isinstance(t, tuple) and t and t[0] == 'A':
        return ('A', t[1], t[2], tuple(shape(f) for f in t[3]))
    if isinstance(t, tuple) and t and isinstance(t[0], tuple):
        return tuple(shape(f) for f in t)
    return None


def check_forward_only(x, V):
    strict = is_scram(x.mech) or x.mech.name == 'GSSAPI'
    for st, steps in live(x):
        p = (steps, st)
        k = steps[-1]['kind']
        if k == 'unbounded' and strict:
            V('endless', 'the exchange does not end after %d messages' % x.maxrounds, p)
        if k == 'Running-same' and is_scram(x.mech):
            V('stands-still', 'a successful step leaves the exchange in the same state: a challenge can be answered again', p)
        if is_scram(x.mech) and sum(1 for d in steps if d['kind'] in ('Running', 'Finished') and any(ev[0] in ('write',) for ev in d['events'])) > 2:
            V('too-many-messages', 'a SCRAM side writes more than two messages', p)
    fine = {shape(x.snapshot(st, obj)) for st, obj in x.alive}
    for st, steps in x.stuck:
        if shape(x.snapshot(steps[-1]['st'], steps[-1]['obj'])) in fine:
            continue        # the same protocol state goes on for other values
        V('stuck', 'after a successful step (%s) no message of the peer is accepted any more' % steps[-1]['kind'], (steps, st))
    V.count('intermediate states', x.intermediate)
    if not strict:
        return
    done = set()
    e = x.e
    for st, steps in live(x):
        d = steps[-1]
        if d['kind'] not in ('err', 'Finished') or 'obj' not in d:
            continue
        V.count('ended exchanges')
        sig = x.snapshot(d['st'], d['obj'])
        if (sig, d['kind']) in done:
            continue
        done.add((sig, d['kind']))
        V.count('end states')
        for inp in (None, ('input', 99)):
            s = d['st'].fork()
            s.facts = type(s.facts)()
            n0 = s.trace
            mark = len(e.panics)
            outs = x.step(s, d['obj'], NONE if inp is None else some(inp))
            del e.panics[mark:]
            for s3, r in outs:
                ev = x.since(s3, n0)
                V.count('steps after the end')
                for s4, var, pl in x.models.cases(e, s3, r, RES):
                    p = (steps + [{'input': inp, 'events': ev, 'kind': 'after the end: ' + ('err' if var else 'Ok'), 'ret': None}], s4)
                    if var == 0:
                        V('continues-after-%s' % d['kind'], 'a step succeeds after the exchange %s' % ('failed' if d['kind'] == 'err' else 'finished'), p)
                    acts = [q for q in ev if q[0] in ACTS]
                    if acts:
                        V('acts-after-%s %s' % (d['kind'], acts[0][0]), 'a step %s after the exchange %s' % (ACTS[acts[0][0]], 'failed' if d['kind'] == 'err' else 'finished'), p)


# ---- C25 -------------------------------------------------------------------------------------------

def check_complete(x, V):
    """no successful step leaves a write failed or partly accepted"""
    for st, steps in live(x):
        p = (steps, st)
        for n, d in enumerate(steps):
            if d['kind'] in ('err', 'unbounded'):
                continue
            V.count('successful steps')
            for ev, rep in flat_step(x, d):
                if ev[0] == 'write':
                    V.count('complete writes')
                elif ev[0] == 'writefail':
                    V('write-failure-ignored', 'the step succeeds although the writer failed', p)
                elif ev[0] == 'partial-write':
                    data = cat(*ev[2][1]) if ev[2][0] == 'R' else ev[2]
                    if rep or d['st'].decide(mkeq(ev[3], mklen(data))) is not True:
                        V('partly-written', 'the step succeeds without looking at how much of a buffer the writer accepted', p)


def check_state_predicates(f, V):
    """what State says about itself"""
    from fw import bodies, run
    STATE, SENT = 'rsasl::session::State', 'rsasl::session::MessageSent'
    sent = {v['name']: ('A', SENT, i, ()) for i, v in enumerate(f.adts[SENT]['variants'])}
    vals = {}
    for i, v in enumerate(f.adts[STATE]['variants']):
        if v['fields']:
            vals.update({(v['name'], n): ('A', STATE, i, (t,)) for n, t in sent.items()})
        else:
            vals[v['name'], None] = ('A', STATE, i, ())
    want = {'is_running': lambda s, m: s == 'Running', 'is_finished': lambda s, m: s == 'Finished', 'has_sent_message': lambda s, m: s == 'Running' or m == 'Yes'}
    for name, w in want.items():
        ks = bodies(f, 'State::' + name)
        if not ks:
            V('no ' + name, 'State::%s is gone' % name)
        for k in ks:
            for (n, m), val in sorted(vals.items(), key=str):
                st = State()
                e, outs = run(f, k, [st.alloc(val)], st=st)
                V.count('answers of State')
                if {e.deep(s, r) for s, r in outs} != {('i', int(w(n, m)))} and {e.deep(s, r) for s, r in outs} != {bool_of(w(n, m))}:
                    V('%s %s' % (name, n), '%s of %s%s is wrong' % (name, n, '(%s)' % m if m else ''))


def bool_of(b):
    import models
    return models.bool_(b)


class Only:
    """a collector that keeps the violations of some rules only"""
    def __init__(self, V, keys):
        self.V, self.keys = V, keys

    def __call__(self, key, *a, **k):
        if any(key.startswith(q) for q in self.keys):
            self.V(key, *a, **k)

    def count(self, *a):
        self.V.count(*a)

    def sample(self, *a):
        pass
