"""What a callback's context answers: `Context::get_ref`/`get_mut` run against scripted providers, the provider combinators
of the crate, and the two sources of channel binding data."""
from callbacks import *
import models
from models import cases, CF

PROVIDE, PROVIDE_MUT = 'rsasl::context::Provider::provide', 'rsasl::context::Provider::provide_mut'
CBDATA = 'rsasl::channel_bindings::ChannelBindingCallback::get_cb_data'
NONE = ('A', OPT, 0, ())
CTX = "Context::<'a>::"
DEMAND = "Demand::<'a>::"


def inner(v):
    while v[0] in ('D', 'ref', 'fld') and isinstance(v[1], tuple):
        v = v[1]
    return v


def body(f, text):
    """polymorphic body of a trait method of the context module"""
    ks = [k for k, b in f.bodies.items() if 'blocks' in b and k.startswith('<') and text(k.split('#')[0])
          and all(t['k'] in ('param',) for t in params(f, k))]
    if len(ks) != 1:
        raise Budget('%d bodies where one was expected' % len(ks))
    return ks[0]


def scripts(n):
    one = [(kind, own) for kind in ('ref', 'mut') for own in (True, False)]
    for k in range(n + 1):
        yield from itertools.product(one, repeat=k)


class Providers:
    """abstract providers, each offering a list of values under the property asked for or another one"""
    def __init__(self, f, target, offers):
        self.f, self.target, self.offers = f, target, offers
        self.give = {'ref': generic(f, DEMAND + 'provide_ref'), 'mut': generic(f, DEMAND + 'provide_mut')}
        self.done = [k for k in bodies(f, DEMAND + 'done')][0]

    def hooks(self):
        return {PROVIDE: self.asked('ref'), PROVIDE_MUT: self.asked('mut')}

    def asked(self, how):
        def hook(e, st, c, args):
            who = inner(e.deep(st, args[0]))
            if who not in self.offers:
                return NotImplemented
            st.ev('asked', who, how)
            out, cur = [], [(st, args[1])]
            for i, (kind, own) in enumerate(self.offers[who]):
                nxt = []
                for s, req in cur:
                    for s2, r in self.call(e, s, self.give[kind], [req, value(who, i)], own):
                        for s3, var, p in cases(e, s2, r, CF):
                            # as the providers of the crate do: `provide_ref(..)?.provide_ref(..)?.done()`
                            (out if var == 1 else nxt).append((s3, r if var == 1 else p))
                cur = nxt
            for s, req in cur:
                out += e.exec_body(s, self.done, [req])
            return out
        return hook

    def call(self, e, st, k, args, own):
        saved = e.tsubst
        e.tsubst = {params(self.f, k)[0]['s']: self.target if own else 'Another'}
        try:
            return e.exec_body(st, k, args)
        finally:
            e.tsubst = saved


def value(who, i):
    return ('arg', '%s.%d' % (who[1], i))


def expected(f, how, chain):
    """the first value of the right property given in the right way"""
    for who, offers in chain:
        for i, (kind, own) in enumerate(offers):
            if own and kind == how:
                return ('A', OPT, 1, (value(who, i),))
    return NONE


P = ('arg', 'provider')
L, R = ('arg', 'left'), ('arg', 'right')


def engine(f, hooks):
    return Engine(f, models, {'raw_session': 1, 'raw_context': 1, 'raw_vectored': 1, 'typeids': 1, 'hooks': hooks})


def ask(f, V, how, what, offers, chain, make):
    """one question: a provider is made, wrapped into a context and asked for property P"""
    k = generic(f, CTX + ('get_ref' if how == 'ref' else 'get_mut'))
    target = params(f, k)[0]['s']
    ps = Providers(f, target, offers)
    e = engine(f, ps.hooks())
    V.count('questions asked')
    for s0, p in make(e, State(), ps):
        for s, v in e.exec_body(s0, k, [p]):
            v = e.deep(s, v)
            want = expected(f, how, chain)
            V.count('answers compared')
            if v != want:
                V('answer %s' % how, '%s: asking %s yields %s instead of %s' % (
                    what, 'by reference' if how == 'ref' else 'mutably', say(v), say(want)))
            if not chain:
                continue
            asked = [x[1] for x in s.events() if x[0] == 'asked']
            if asked != [w for w, _ in chain][:len(asked)] or not asked:
                V('asked', '%s: the providers are asked in the order %s' % (what, [x[1] for x in asked]))
    for pn in e.panics:
        V('panic', '%s: can panic: %s in %s' % (what, pn[1], pn[3]))


def say(v):
    return 'nothing' if v == NONE else str(v[3][0] if v[0] == 'A' and v[3] else v)[:80]


def check_contexts(f, V):
    """values come from the first matching offer of a provider, through build_context"""
    build = [k for k in bodies(f, 'rsasl::context::build_context')][0]
    for offers in scripts(3):
        for how in ('ref', 'mut'):
            ask(f, V, how, 'a provider of %s' % (list(offers),), {P: offers}, [(P, offers)],
                lambda e, st, ps: e.exec_body(st, build, [P]))


def provider_body(f, name, method):
    return body(f, lambda k: k.startswith('<context::' + name) and k.endswith('context::Provider<\'a>>::' + method))


def through(k, value):
    """a context over a concrete provider of the crate: its own bodies answer"""
    def make(e, st, _):
        hooks = dict(e.opts['hooks'])
        mine = st.alloc(value, 'provider')

        def route(how, old):
            def hook(e, s, c, args):
                if inner(e.deep(s, args[0])) == ('arg', 'outer'):
                    return e.exec_body(s, k[how], [mine, args[1]])
                return old(e, s, c, args)
            return hook
        e.opts['hooks'] = dict(hooks, **{PROVIDE: route('ref', hooks[PROVIDE]), PROVIDE_MUT: route('mut', hooks[PROVIDE_MUT])})
        return [(st, ('arg', 'outer'))]
    return make


def default_mut(f):
    ks = [k for k in bodies(f, 'rsasl::context::Provider::provide_mut')]
    gen = [k for k in ks if all(t['k'] == 'param' for t in params(f, k))] or ks
    return gen[0] if gen else None


def check_combinators(f, V):
    """`and` asks left before right; ThisProvider offers its value; EmptyProvider and the default provide_mut offer nothing"""
    both = {'ref': provider_body(f, 'And<L, R>', 'provide'), 'mut': provider_body(f, 'And<L, R>', 'provide_mut')}
    glue = [k for k in bodies(f, 'rsasl::context::ProviderExt::and')]
    glue = [k for k in glue if all(t['k'] == 'param' for t in params(f, k))]
    for l in scripts(2):
        for r in scripts(1):
            for how in ('ref', 'mut'):
                def make(e, st, ps):
                    out = []
                    for s, v in e.exec_body(st, glue[0], [L, R]):
                        out += through(both, v)(e, s, ps)
                    return out
                ask(f, V, how, '%s and %s' % (list(l), list(r)), {L: l, R: r}, [(L, l), (R, r)], make)
    for how in ('ref', 'mut'):
        for own in (True, False):
            this(f, V, how, own)
    empty = [k for k in f.bodies if k.startswith('<context::EmptyProvider as context::Provider') and short(k).endswith('::provide')]
    for how in ('ref', 'mut'):
        ask(f, V, how, 'the empty provider', {}, [], through({'ref': empty[0], 'mut': default_mut(f)}, ('A', 'rsasl::context::EmptyProvider', 0, ())))


def this(f, V, how, own):
    """a provider made of one value"""
    k = generic(f, CTX + ('get_ref' if how == 'ref' else 'get_mut'))
    target = params(f, k)[0]['s']
    one = provider_body(f, "ThisProvider<'a, P>", 'provide')
    none = default_mut(f)
    with_ = generic(f, "ThisProvider::<'a, P>::with")

    def answer(e, st, c, args):
        saved = e.tsubst
        e.tsubst = {params(f, one)[0]['s']: target if own else 'Another'}
        try:
            return e.exec_body(st, one, [mine[0], args[1]])
        finally:
            e.tsubst = saved

    def nothing(e, st, c, args):
        return e.exec_body(st, none, [mine[0], args[1]])
    e = engine(f, {PROVIDE: answer, PROVIDE_MUT: nothing})
    st = State()
    mine = [None]
    V.count('questions asked')
    for s, v in e.exec_body(st, with_, [value(P, 0)]):
        mine[0] = s.alloc(v, 'provider')
        for s2, r in e.exec_body(s, k, [('arg', 'outer')]):
            V.count('answers compared')
            want = ('A', OPT, 1, (value(P, 0),)) if own and how == 'ref' else NONE
            if e.deep(s2, r) != want:
                V('this-provider', 'a provider of one value%s asked %s yields %s' % (
                    '' if own else ' of another property', how, say(e.deep(s2, r))))


NAME, DATA, PROVIDER = ('arg', 'cbname'), ('arg', 'their-data'), ('arg', 'facts')
CHANNEL, CHANNELNAME = 'property::properties::ChannelBindings', 'property::properties::ChannelBindingName'


class Application(Script):
    """a scripted application that first looks for the name of the binding and for something the mechanism provides"""
    def __call__(self, e, st, c, args):
        k = generic(self.f, CTX + 'get_ref')
        own = params(self.f, k)[0]['s']
        out = []
        for what in (CHANNELNAME, self.fact):
            nxt = []
            for s in (out or [st]):
                saved = e.tsubst
                e.tsubst = {own: what}
                try:
                    for s2, v in e.exec_body(s, k, [args[2]]):
                        s2.ev('seen', what, e.deep(s2, v))
                        nxt.append(s2)
                finally:
                    e.tsubst = saved
            out = nxt
        return [x for s in out for x in Script.__call__(self, e, s, c, args)]


def binding_asks():
    one = [('satisfy', True), ('satisfy_with', True), ('satisfy', False)]
    for op, right in one:
        yield ((op, right, 'v0', False),)
    yield ()


def check_binding(f, V):
    """channel binding data: the protocol implementation's if it has any, else the application's, else the error or none"""
    for fn in ('maybe_need_cb_data', 'need_cb_data'):
        for ops in binding_asks():
            for final in ('ok', 'novalue', 'nocallback', 'other'):
                binding(f, V, fn, ops, final)


def binding(f, V, fn, ops, final):
    what = '%s with %s' % (fn, show(ops, final))
    k = generic(f, MD + fn)
    target = 'Something'
    ps = Providers(f, target, {PROVIDER: (('ref', True),)})
    e = engine(f, ps.hooks())
    sc = Application(f, ops, FINALS[final](e) if final != 'other' else ('A', RES, 1, (other_err(e),)), CHANNEL)
    sc.fact = target

    def source(e, st, c, args):
        st.ev('source', inner(e.deep(st, args[0])), e.deep(st, args[1]))
        s = st.fork()
        s.ev('has', DATA)
        return [(st, NONE), (s, ('A', OPT, 1, (DATA,)))]
    e.opts['hooks'] = dict(ps.hooks(), **{CB: sc, CBDATA: source})
    V.count('requests for binding data')
    for s, r in e.exec_body(State(), k, [SELF, NAME, PROVIDER, G]):
        if internal_error(e, s):
            continue
        V.count('outcomes of requests for binding data')
        r = e.deep(s, r)
        evs = list(s.events())
        src = [x for x in evs if x[0] == 'source']
        if len(src) != 1 or src[0][2] != NAME:
            V('binding-source', '%s: the provider of binding data is asked %s' % (what, [str(x[2])[:60] for x in src] or 'not at all'))
        has = any(x[0] == 'has' for x in evs)
        asked = sum(1 for x in evs if x[0] == 'asked' and len(x) == 3 and x[1] != PROVIDER)
        given = [x for x in evs if x[0] == 'dyncall' and x[1] == G]
        if has and asked:
            V('binding-asked', '%s: the application is asked although the protocol implementation has the data' % what)
        if not has and asked != 1:
            V('binding-asked', '%s: without data from the protocol implementation the application is asked %d times' % (what, asked))
        for x in evs:
            if x[0] != 'seen':
                continue
            want = ('A', OPT, 1, (NAME if x[1] == CHANNELNAME else value(PROVIDER, 0),))
            if x[2] != want:
                V('binding-context', '%s: asked for %s the context yields %s' % (what, x[1].split('::')[-1], say(x[2])))
        failed = [t for c, t in failed_calls(s) if c == G]
        right = [i for i, o in enumerate(ops) if o[1]]
        broke = [t for c, t in failed_calls(s) if c == ('arg', 'v0')]
        want = DATA if has else None
        if not has and right and not broke:
            want = ('arg', 'v0')
        if want is None:
            if given:
                V('binding-guessed', '%s: the mechanism is given binding data nobody supplied' % what)
            if broke:
                if not (r[0] == 'A' and r[2] == 1 and payload(r) == ('fld', broke[0], 'Err.0')):
                    V('binding-error', '%s: the failure of the answer is not returned' % what)
            elif final in ('ok', 'novalue'):
                good = r[0] == 'A' and r[2] == 0 and payload(r) == NONE if fn == 'maybe_need_cb_data' else (
                    r[0] == 'A' and r[2] == 1 and payload(r)[0] == 'A' and payload(r)[1] == SE
                    and f.variant_name(SE, payload(r)[2]) == 'MissingChannelBindingData' and payload(r)[3] == (NAME,))
                if not good:
                    V('binding-missing', '%s: without binding data the result is %s' % (what, str(r)[:120]))
            elif not (r[0] == 'A' and r[2] == 1) or final == 'other' and payload(r) != other_err(e) or final == 'nocallback' and not is_err(e, r, 'NoCallback'):
                V('binding-error', '%s: the error of the callback is not passed on but %s' % (what, str(r)[:120]))
            continue
        if len(given) != 1:
            V('binding-given', '%s: the mechanism is given binding data %d times' % (what, len(given)))
            continue
        got = e.deep(s, given[0][2][0])
        if got[0] == 'fld' and got[2] == 'Ok.0' and got[1][:2] == ('call', 'dyn'):
            got = got[1][2]
        if got != want:
            V('binding-data', '%s: the mechanism is given %s instead of %s' % (what, str(got)[:80], want[1]))
        if failed:
            if not (r[0] == 'A' and r[2] == 1 and payload(r) == ('fld', failed[0], 'Err.0')):
                V('binding-error', '%s: the failure of the mechanism is not returned but %s' % (what, str(r)[:120]))
            continue
        got = payload(r) if r[0] == 'A' and r[1] == RES and r[2] == 0 else ('?',)
        if fn == 'maybe_need_cb_data':
            got = got[3][0] if got[0] == 'A' and got[1] == OPT and got[2] == 1 else ('?',)
        if not (got[0] == 'fld' and got[2] == 'Ok.0' and got[1][:3] == ('call', 'dyn', G)):
            V('binding-result', '%s: the mechanism\'s result is not returned but %s' % (what, str(r)[:120]))
    for pn in e.panics:
        V('panic', '%s: can panic: %s in %s' % (what, pn[1], pn[3]))


# ---- the crate's own suppliers of binding data ---------------------------------------------------------

def check_suppliers(f, V):
    """NoChannelBindings has none; ThisCb gives its data for exactly its own type"""
    own, data, asked = ('arg', 'own name'), ('arg', 'own data'), ('arg', 'name')
    for suffix, some_ in (('NoChannelBindings as channel_bindings::ChannelBindingCallback>::get_cb_data', False), ('ThisCb as channel_bindings::ChannelBindingCallback>::get_cb_data', True)):
        ks = [k for k in bodies(f, 'ChannelBindingCallback>::get_cb_data') if short(k).endswith(suffix)]
        if not ks:
            V('no ' + suffix.split(' ')[0], '%s does not supply binding data any more' % suffix.split(' ')[0])
        for k in ks:
            what, st = suffix.split(' ')[0], State()
            me = UNIT
            if some_:
                adt = [p for p in f.adts if p.endswith('channel_bindings::ThisCb')][0]
                by = {'name': own, 'value': data}
                fs = [x['name'] for x in f.adts[adt]['variants'][0]['fields']]
                if set(fs) != set(by):
                    raise Budget('fields of ThisCb: %s' % fs)
                me = ('A', adt, 0, tuple(by[n] for n in fs))
            e, outs = run(f, k, [st.alloc(me), asked], st=st)
            for s, r in outs:
                for s2, v, pl in models.cases(e, s, r, OPT):
                    V.count('answers of binding data suppliers')
                    same = s2.decide(mkeq(own, asked))
                    if v and (not some_ or e.deep(s2, pl) != data):
                        V('supplied ' + what, '%s supplies %s as binding data' % (what, str(e.deep(s2, pl))[:80]))
                    elif v and same is not True:
                        V('supplied-other ' + what, '%s supplies its data for a type that may not be its own' % what)
                    elif not v and some_ and same is not False:
                        V('withheld ' + what, '%s has no data for a type that may be its own' % what)
