"""`Session` itself, decided on its polymorphic bodies: any application callback, any binding provider, any mechanism object
and any validation type, with the mechanism replaced by an abstract one that validates zero or more times and then returns
an unknown result."""
from engine import *
from fw import *
import models, mech, itertools

S = 'rsasl::session::provider::Session::<V, C>::'
VD = "rsasl::validate::Validate::<'a>::"
MD = "rsasl::session::MechanismData::<'_, '_>::"
SD = 'rsasl::session::SessionData::'
SIDE = 'rsasl::session::Side'
STEP = 'rsasl::mechanism::Authentication::step'
ENC = 'rsasl::mechanism::Authentication::'
VALIDATE = 'rsasl::callback::SessionCallback::validate'
CALLBACK = 'rsasl::callback::SessionCallback::callback'
CBDATA = 'rsasl::channel_bindings::ChannelBindingCallback::get_cb_data'
MECHOBJ, CALLBACKOBJ, REGISTRY, CBP, WRITER, INPUT = ('arg', 'mechanism'), ('arg', 'callback'), ('arg', 'registry'), ('arg', 'binding-provider'), ('arg', 'writer'), ('arg', 'input')
CONFIG_NEW = 'rsasl::config::instance::<impl config::SASLConfig>::new'
PROV = ('arg', 'provider')
OKS, FAIL = ('A', RES, 0, (('arg', 'state'),)), ('A', RES, 1, (('arg', 'failure'),))


def params(f, k):
    return [f.types[x['t']] for x in f.bodies[k]['args'] if isinstance(x, dict) and 't' in x]


def generic(f, name):
    ks = [k for k, b in f.bodies.items() if 'blocks' in b and short(k) == name and all(t['k'] == 'param' for t in params(f, k))]
    if not ks:
        raise Budget('no polymorphic body for %s' % name)
    return sorted(ks)[0]


def description(e, first=('arg', 'first')):
    names = [x['name'] for x in e.f.adts[mech.MECH]['variants'][0]['fields']]
    return ('A', mech.MECH, 0, tuple(first if n == 'first' else ('arg', 'desc-' + n) for n in names))


def one(outs, what):
    if len(outs) != 1:
        raise Budget('%s has %d outcomes' % (what, len(outs)))
    return outs[0]


def start(f, side, first=('arg', 'first'), hooks=None):
    """engine, state and pointer of a session fresh from its constructors"""
    e = Engine(f, models, {'raw_session': 1, 'raw_vectored': 1, 'typeids': 1, 'hooks': hooks or {}})
    st = State()
    st, config = one([(s2, p) for s, v in e.exec_body(st, generic(f, CONFIG_NEW), [CALLBACKOBJ, REGISTRY]) for s2, var, p in models.cases(e, s, v, RES) if var == 0], 'SASLConfig::new')
    k = generic(f, 'rsasl::sasl::provider::<impl sasl::SASLServer<V, CB>>::with_cb')
    st, v = one(e.exec_body(st, k, [config, CBP]), 'SASLServer::with_cb')
    st, s = one(e.exec_body(st, generic(f, S + 'new'), [v[3][0], ('A', SIDE, side, ()), MECHOBJ, description(e, first)]), 'Session::new')
    return e, st, st.alloc(s, 'session')


class Mechanism:
    """an abstract mechanism: the n-th step validates with the n-th script of answers, then succeeds or fails"""
    def __init__(self, f, steps, final):
        self.f, self.steps, self.final = f, steps, final
        self.with_, self.finalize = generic(f, VD + 'with'), generic(f, VD + 'finalize')
        self.validate = generic(f, MD + 'validate')
        self.is_ = generic(f, VD + 'is')
        self.own = {'with': params(f, self.with_)[0]['s'], 'finalize': params(f, self.finalize)[0]['s'], 'is': params(f, self.is_)[0]['s']}
        self.step_no = 0

    def hooks(self):
        return {STEP: self.step, VALIDATE: self.answer}

    def step(self, e, st, c, args):
        st.ev('mechstep', e.deep(st, args[0]), e.deep(st, args[2]), e.deep(st, args[3]))
        outs = []
        n = self.step_no
        if self.steps[n] is None:
            return [(st, self.final)]
        for s, v in e.exec_body(st, self.validate, [args[1], PROV]):
            s.ev('validated', n, e.deep(s, v))
            outs.append((s, self.final))
        return outs

    def answer(self, e, st, c, args):
        st.ev('validating', e.deep(st, args[0]), e.deep(st, args[1]), e.deep(st, args[2]))
        n = self.step_no
        cur, done = [st], []
        for i, (op, right, drop) in enumerate(self.steps[n]):
            nxt = []
            for s in cur:
                saved = e.tsubst
                e.tsubst = {self.own[op]: 'V' if right else 'Another'}
                try:
                    k = {'with': self.with_, 'finalize': self.finalize, 'is': self.is_}[op]
                    outs = e.exec_body(s, k, [args[3]] + ([('arg', 'v%d.%d' % (n, i))] if op != 'is' else []))
                finally:
                    e.tsubst = saved
                for s2, r in outs:
                    if op == 'is':
                        s2.ev('recognised', n, i, right, r)
                    if op in ('finalize', 'is'):
                        nxt.append(s2)
                        continue
                    for s3, var, p in models.cases(e, s2, r, RES):
                        s3.ev('answered', n, i, var, p if var else ('same',) if p == args[3] else e.deep(s3, p))
                        if var == 0 or drop:
                            nxt.append(s3)
                        else:
                            done.append((s3, ('A', RES, 1, (p,))))
            cur = nxt
        return done + [(s, ('A', RES, 0, (UNIT,))) for s in cur]


def outcome(s, clo):
    """whether the closure given with an answer was run on this path, and its result: None, 'ok', 'err'"""
    for ev in s.events():
        if ev[0] == 'dyncall' and ev[1] == clo:
            break
    else:
        return None
    for k, v in s.facts.items():
        if k[0] == 'V' and k[1][0] == 'discr' and k[1][1][:3] == ('call', 'dyn', clo):
            return 'err' if v == 1 else 'ok'
    return 'unused'


def scripts(n):
    one = [('with', r, d) for r in (True, False) for d in (True, False)] + [(op, r, True) for op in ('finalize', 'is') for r in (True, False)]
    for k in range(n + 1):
        yield from itertools.product(one, repeat=k)


def check_results(f, V):
    """what the callback gives at validation is what the protocol implementation takes, once, first value first"""
    cases = [(a,) for a in scripts(2)] + [(None,)]
    cases += [(a, b) for a in scripts(1) for b in scripts(1)]
    for side in (0, 1):
        for steps in (cases if side == 1 else cases[:8]):
            for final in (OKS, FAIL):
                one_session(f, V, side, steps, final)


def one_session(f, V, side, steps, final):
    V.count('sessions scripted')
    m = Mechanism(f, steps, final)
    e, st, p = start(f, side, hooks=m.hooks())
    kstep, kval = generic(f, S + 'step'), generic(f, S + 'validation')
    for s, v in e.exec_body(st.fork(), kval, [p]):
        if e.deep(s, v) != NONE:
            V('preset', 'a session starts with a validation result already present: %s' % str(e.deep(s, v))[:80])
    cur = [st]
    for n in range(len(steps)):
        m.step_no = n
        nxt = []
        for s in cur:
            for s2, v in e.exec_body(s, kstep, [p, ('A', OPT, 1, (INPUT,)), WRITER]):
                nxt.append(s2)
        cur = nxt
    for pn in e.panics:
        V('panic', 'validation can panic: %s in %s' % (pn[1], pn[3]))
    for s in cur:
        for s1, v1 in e.exec_body(s, kval, [p]):
            for s2, v2 in e.exec_body(s1, kval, [p]):
                V.count('histories of a validation')
                judge(e, V, steps, s2, e.deep(s1, v1), e.deep(s2, v2), side)


def judge(e, V, steps, s, v1, v2, side):
    what = 'validation scripts %s' % (steps,)
    stored, want = None, NONE
    answers = {(x[1], x[2]): (x[3], x[4]) for x in s.events() if x[0] == 'answered'}
    returned = {x[1]: x[2] for x in s.events() if x[0] == 'validated'}
    for x in s.events():
        if x[0] == 'recognised':
            V.count('types recognised')
            if x[4] != ('i', int(x[3])):
                V('recognised', '%s: Validate::is for %s type yields %s' % (what, 'the own' if x[3] else 'another', str(x[4])[:80]))
    for n, ops in enumerate(steps):
        if ops is None:
            continue
        failed = None
        for i, (op, right, drop) in enumerate(ops):
            if op == 'is':
                continue
            V.count('answers given')
            val = ('arg', 'v%d.%d' % (n, i))
            ran = outcome(s, val)
            counts = right and stored is None
            if op == 'finalize':
                if counts:
                    stored, want = (n, i), ('A', OPT, 1, (val,))
                continue
            if ran and not counts:
                V('evaluated', '%s: a value that does not count is computed (%s type, %s)' % (what, 'own' if right else 'other', 'one already stored' if stored else 'none stored yet'))
            if not ran and counts:
                V('dropped', '%s: the first value of the right type is not taken' % what)
            a = answers.get((n, i))
            if a is None:
                V('no-answer', '%s: an answer never returned' % what)
                continue
            if ran == 'err':
                if a[0] != 1:
                    V('failure-lost', '%s: the failure of the value is not returned to the callback' % what)
                if not drop:
                    failed = a[1]
                    break
            else:
                if a[0] != 0:
                    V('refused', '%s: an answer is turned into an error' % what)
                elif a[1] != ('same',):
                    V('other-request', '%s: an answer yields another request than the one it was given on' % what)
                if counts and ran:
                    stored = (n, i)
                    want = ('A', OPT, 1, (('call', 'dyn', val),))
        r = returned.get(n)
        if r is None:
            V('not-validated', '%s: validation of a step never returned' % what)
        elif failed is None and r != ('A', RES, 0, (UNIT,)):
            V('validation-result', '%s: a successful validation is reported as %s' % (what, str(r)[:80]))
        elif failed is not None and not (r[0] == 'A' and r[2] == 1):
            V('validation-result', '%s: a failed validation is reported as successful' % what)
    if stored is None:
        if v1 != NONE:
            V('invented', '%s: the session holds a result nobody gave under its type: %s' % (what, str(v1)[:80]))
    else:
        val = ('arg', 'v%d.%d' % stored)
        ok = v1[0] == 'A' and v1[1] == OPT and v1[2] == 1 and (v1[3][0] == val or v1[3][0][0] == 'fld' and v1[3][0][1][:3] == ('call', 'dyn', val) and v1[3][0][2] == 'Ok.0')
        if not ok:
            V('wrong-result', '%s: the session yields %s instead of the first value given under its type' % (what, str(v1)[:100]))
    if v2 != NONE:
        V('taken-twice', '%s: the result can be taken a second time' % what)


# ---- forwarding ------------------------------------------------------------------------------------

def inner(v):
    """the object behind trait object pointers and references"""
    while v[0] in ('D', 'ref') and len(v) > 1 and isinstance(v[1], tuple):
        v = v[1]
    return v


class Observer:
    """an abstract mechanism that validates, asks for a value and for binding data, and records whom it reaches"""
    def __init__(self, f, final):
        self.f, self.final = f, final
        self.validate = generic(f, MD + 'validate')
        self.ask = generic(f, MD + 'maybe_need_with')
        self.binding = generic(f, MD + 'maybe_need_cb_data')

    def hooks(self):
        return {STEP: self.step, VALIDATE: self.told('validate'), CALLBACK: self.told('callback'), CBDATA: self.cbdata}

    def step(self, e, st, c, args):
        st.ev('mechstep', inner(e.deep(st, args[0])), e.deep(st, args[2]), inner(e.deep(st, args[3])))
        outs = []
        for s, v in e.exec_body(st, self.validate, [args[1], PROV]):
            for s2, v2 in e.exec_body(s, self.ask, [args[1], PROV, ('arg', 'closure')]):
                for s3, v3 in e.exec_body(s2, self.binding, [args[1], ('arg', 'cbname'), PROV, ('arg', 'closure')]):
                    outs.append((s3, self.final))
        return outs

    def told(self, what):
        def hook(e, st, c, args):
            s, m = one(e.exec_body(st, generic(self.f, SD + 'mechanism'), [args[1]]), 'SessionData::mechanism')
            s, side = one(e.exec_body(s, generic(self.f, SD + 'side'), [args[1]]), 'SessionData::side')
            s.ev('told', what, inner(e.deep(s, args[0])), e.deep(s, m), e.deep(s, side), inner(e.deep(s, args[2])))
            return [(s, ('A', RES, 0, (UNIT,)))]
        return hook

    def cbdata(self, e, st, c, args):
        st.ev('binding', inner(e.deep(st, args[0])), e.deep(st, args[1]))
        s = st.fork()
        return [(st, NONE), (s, ('A', OPT, 1, (('arg', 'binding-data'),)))]


def check_step(f, V):
    k = generic(f, S + 'step')
    for side in (0, 1):
        for inp in (NONE, ('A', OPT, 1, (INPUT,))):
            for final in (OKS, FAIL):
                o = Observer(f, final)
                e, st, p = start(f, side, hooks=o.hooks())
                what = 'a %s step with%s input' % (('client', 'server')[side], '' if inp != NONE else 'out')
                for s, v in e.exec_body(st, k, [p, inp, WRITER]):
                    V.count('steps forwarded')
                    v = e.deep(s, v)
                    if v != final:
                        V('step-result', '%s does not return what the mechanism returned but %s' % (what, str(v)[:80]))
                    steps = [x for x in s.events() if x[0] == 'mechstep']
                    if len(steps) != 1:
                        V('step-count', '%s runs %d mechanism steps' % (what, len(steps)))
                    for x in steps:
                        if x[1] != MECHOBJ:
                            V('step-mechanism', '%s runs another mechanism than its own: %s' % (what, str(x[1])[:80]))
                        if x[2] != inp:
                            V('step-input', '%s hands the mechanism another input: %s' % (what, str(x[2])[:80]))
                        if x[3] != WRITER:
                            V('step-writer', '%s hands the mechanism another writer: %s' % (what, str(x[3])[:80]))
                    desc = description(e)
                    for x in s.events():
                        if x[0] in ('write', 'partial-write', 'writefail'):
                            V('step-writes', '%s itself writes to the writer' % what)
                        if x[0] == 'told':
                            V.count('callbacks observed')
                            if x[2] != CALLBACKOBJ:
                                V('callback-object', '%s: a mechanism\'s %s reaches another callback than the configured one: %s' % (what, x[1], str(x[2])[:80]))
                            if x[3] != desc or x[4] != ('A', SIDE, side, ()):
                                V('session-data', '%s: the %s callback is told another mechanism or side' % (what, x[1]))
                            if x[5] != PROV and x[1] == 'validate':
                                V('context', '%s: the %s callback is given another context than the mechanism\'s' % (what, x[1]))
                        if x[0] == 'binding':
                            V.count('binding data requests observed')
                            if x[1] != CBP or x[2] != ('arg', 'cbname'):
                                V('binding-provider', '%s: binding data is asked of another provider or under another name' % what)
                for pn in e.panics:
                    V('panic', '%s can panic: %s in %s' % (what, pn[1], pn[3]))


def check_rest(f, V):
    """names, sides and security layer operations are those of the mechanism and its description"""
    for side in (0, 1):
        for first in (0, 1):
            e, st, p = start(f, side, ('A', SIDE, first, ()))
            V.count('operations forwarded')
            for s, v in e.exec_body(st, generic(f, S + 'are_we_first'), [p]):
                if v != (TRUE if side == first else FALSE):
                    V('first', 'a %s of a %s-first mechanism is told %s' % (('client', 'server')[side], ('client', 'server')[first], 'it goes first' if v == TRUE else 'it does not go first'))
        e, st, p = start(f, side)
        V.count('operations forwarded', 4)
        names = [x['name'] for x in f.adts[mech.MECH]['variants'][0]['fields']]
        desc = description(e)
        for s, v in e.exec_body(st.fork(), generic(f, S + 'get_mechname'), [p]):
            if e.deep(s, v) != desc[3][names.index('mechanism')]:
                V('mechname', 'get_mechname does not return the name in the mechanism\'s description')
        for op in ('has_security_layer', 'encode', 'decode'):
            args = [p] if op == 'has_security_layer' else [p, INPUT, WRITER]
            for s, v in e.exec_body(st.fork(), generic(f, S + op), args):
                cs = [x for x in s.events() if x[0] == 'call' and x[1].startswith(ENC)]
                if [x[1] for x in cs] != [ENC + op]:
                    V('forward-' + op, 'Session::%s does not call exactly the mechanism\'s %s' % (op, op))
                    continue
                if [inner(a) for a in cs[0][2]] != [MECHOBJ] + args[1:]:
                    V('forward-' + op, 'Session::%s does not pass its mechanism, input and writer through' % op)
                if e.deep(s, v) != ('call', ENC + op) + cs[0][2]:
                    V('forward-' + op, 'Session::%s does not return the mechanism\'s result' % op)
                if [x for x in s.events() if x[0] in ('write', 'partial-write', 'writefail')]:
                    V('forward-' + op, 'Session::%s writes by itself' % op)


def check_base64(f, V):
    """step64 decodes the whole input, gives the mechanism an encoder over the caller's writer, and ends it after the step"""
    k = generic(f, S + 'step64')
    for side in (0, 1):
        for inp in (NONE, ('A', OPT, 1, (INPUT,))):
            for final in (OKS, FAIL):
                o = Observer(f, final)
                e, st, p = start(f, side, hooks={STEP: lambda e, s, c, a: [(s, final)] if s.ev('mechstep', inner(e.deep(s, a[0])), e.deep(s, a[2]), inner(e.deep(s, a[3]))) is None else None})
                what = 'a base64 %s step with%s input' % (('client', 'server')[side], '' if inp != NONE else 'out')
                for s, v in e.exec_body(st, k, [p, inp, WRITER]):
                    V.count('base64 steps')
                    judge64(e, V, s, e.deep(s, v), inp, final, what)
                for pn in e.panics:
                    V('panic64', '%s can panic: %s in %s' % (what, pn[1], pn[3]))


def judge64(e, V, s, v, inp, final, what):
    evs = list(s.events())
    steps = [(i, x) for i, x in enumerate(evs) if x[0] == 'mechstep']
    if any(x[0] in ('write', 'partial-write', 'writefail') and inner(x[1]) == WRITER for x in evs):
        V('writes64', '%s writes to the caller\'s writer by itself' % what)
    undecodable = s.facts.get(('B', ('b64ok', INPUT))) is False
    if undecodable:
        if steps:
            V('undecodable-step', '%s runs the mechanism although the input is not base64' % what)
        if not (v[0] == 'A' and v[2] == 1):
            V('undecodable-ok', '%s succeeds although the input is not base64' % what)
        return
    if len(steps) != 1:
        V('step-count64', '%s runs %d mechanism steps' % (what, len(steps)))
        return
    i, x = steps[0]
    if x[1] != MECHOBJ:
        V('step-mechanism64', '%s runs another mechanism than its own' % what)
    want = NONE if inp == NONE else ('A', OPT, 1, (('b64d', INPUT),))
    if x[2] != want:
        V('step-input64', '%s hands the mechanism something else than the decoded input: %s' % (what, str(x[2])[:100]))
    w = x[3]
    if not (w[0] == 'call' and 'base64::write::encoder::EncoderWriter' in w[1] and w[1].endswith('::new') and inner(w[2]) == WRITER):
        V('encoder', '%s does not hand the mechanism a base64 encoder over the caller\'s writer: %s' % (what, str(w)[:100]))
        return
    if models.base64_standard(e, s, w[3]) is not True:
        V('alphabet', '%s encodes with another alphabet or padding than standard base64' % what)
    if final == FAIL:
        if not (v[0] == 'A' and v[2] == 1):
            V('failure64', '%s succeeds although the mechanism failed' % what)
        elif v != FAIL:
            V('failure64', '%s reports another failure than the mechanism\'s' % what)
        return
    fin = [(j, y) for j, y in enumerate(evs) if y[0] == 'call' and 'EncoderWriter' in y[1] and y[1].endswith('::finish')]
    if len(fin) != 1 or fin[0][0] < i:
        V('unfinished', '%s does not write the last base64 block after the mechanism\'s step' % what)
        return
    d = s.facts.get(('V', ('discr', ('call', fin[0][1][1]) + fin[0][1][2])))
    if d == 0:
        if v != OKS:
            V('step-result64', '%s does not return what the mechanism returned but %s' % (what, str(v)[:80]))
    elif d == 1:
        if not (v[0] == 'A' and v[2] == 1):
            V('finish-ignored', '%s succeeds although the last base64 block could not be written' % what)
    else:
        V('finish-ignored', '%s does not look at whether the last base64 block could be written' % what)


# ---- shared state ----------------------------------------------------------------------------------
import re
MUTABLE = re.compile(r'\b(Cell|RefCell|UnsafeCell|SyncUnsafeCell|Mutex|RwLock|Atomic\w+|OnceCell|OnceLock|LazyCell|LazyLock|Lazy|Once|LocalKey|ReentrantLock|Condvar)\b')


def check_shared(f, V):
    """no static of the crate can change, no thread local exists, and nothing a configuration shares has interior mutability"""
    for path, s in f.statics.items():
        V.count('statics')
        name = path.split('rsasl::')[-1]
        if s['tls']:
            V('thread-local ' + name, 'the thread local %s carries state from one session to the next' % path)
        if s['mut'] and '::LINKME_' not in path:
            V('static-mut ' + name, 'the mutable static %s is shared by all sessions' % path)
        if not s['freeze']:
            V('static-cell ' + name, 'the static %s can be changed through a shared reference' % path)
    for path, a in f.adts.items():
        if not a.get('local') or path.startswith('rsasl::mechanisms::'):
            continue
        V.count('shared types')
        for v in a['variants']:
            for x in v['fields']:
                m = MUTABLE.search(x['s'])
                if m:
                    V('cell %s.%s' % (path.split('rsasl::')[-1], x['name']), 'field %s of %s has interior mutability (%s)' % (x['name'], path, m.group(0)))
    for i in f.impls:
        V.count('impls')
        if i.get('unsafe') and i.get('trait', '').split('::')[-1] in ('Send', 'Sync') and not i.get('negative'):
            V('unsafe-' + i['trait'].split('::')[-1], '%s is declared %s by hand' % (i['self'], i['trait'].split('::')[-1]))
    for k, b in f.bodies.items():
        if not b.get('local', True):
            continue
        for fn, t in calls(f, k):
            if re.search(r'thread::local::LocalKey|sync::.*(Lazy|Once)\w*', fn['path']):
                V('lazy ' + short(k).split('::')[-1], '%s keeps state in a thread local or lazily initialised cell' % short(k))
