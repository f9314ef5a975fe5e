"""What the error of a failed step says about the failure: the application's, the writer's and the security library's own errors
are passed on, a missing property is named, and the classes of errors (SessionError, MechanismErrorKind) are used for what
they are documented for."""
from engine import *
from fw import *
from rules import flat_step, live, is_scram
from framing import Known
import models

SE = 'rsasl::error::SessionError'
CE = 'rsasl::callback::CallbackError'
KIND = 'rsasl::error::MechanismErrorKind'


def alternatives(f, adt):
    return [v['name'] for v in f.adts[adt]['variants']]


def name_of(f, r, adt):
    return alternatives(f, adt)[r[2]] if isinstance(r, tuple) and r[0] == 'A' and r[1] == adt else None


def cause(x, d):
    """the event a failing step fails for: the last failure that did not arise from passing one on"""
    last = None
    for ev, rep in flat_step(x, d):
        if rep:
            continue
        if ev[0] == 'req' and ev[4] == 'err':
            last = ('callback', ('cberr', ev[1], ev[2]))
        elif ev[0] == 'action' and ev[4] == 'err':
            if x.side == 'client' and is_scram(x.mech) and ev[1] == 'ScramCachedPassword':
                continue
            last = ('callback', ('cberr', 'action', ev[1]))
        elif ev[0] == 'missing':
            last = ('missing', ev[1])
        elif ev[0] == 'validate' and ev[2] == 'err':
            last = ('validation',)
        elif ev[0] == 'writefail':
            last = ('writer', ev[2])
        elif ev[0] == 'gssfail':
            last = ('security library', ev[1])
    return last


class Kinds:
    """MechanismError::kind of an error value, by running the implementation"""
    def __init__(self, f):
        self.f, self.memo, self.impls = f, {}, {}
        for k in f.bodies:
            if k.split('#')[0].endswith('MechanismError>::kind') and f.bodies[k]['argc'] == 1:
                t = f.types[f.bodies[k]['locals'][1]]
                t = f.types[t['to']] if t['k'] == 'ref' and 'to' in t else t
                self.impls[t.get('path')] = k

    def __call__(self, v):
        """names of the kinds v may have, or None when there is no telling"""
        if v[0] != 'A' or v[1] not in self.impls:
            return None
        if v not in self.memo:
            st = State()
            e, outs = run(self.f, self.impls[v[1]], [st.alloc(v)], st=st)
            self.memo[v] = {name_of(self.f, e.deep(s, r), KIND) for s, r in outs}
        return self.memo[v]


def check_causes(x, V):
    f = x.f
    kinds = Kinds(f)
    for st, steps in live(x):
        for n, d in enumerate(steps):
            if d['kind'] != 'err' or not isinstance(d.get('ret'), tuple):
                continue
            p = (steps, st)
            r = d['ret']
            se = name_of(f, r, SE)
            c = cause(x, d)
            if c is not None:
                V.count('failures passed on')
            if c is None:
                V.count('failures of the mechanism')
                if r[0] == 'cberr' or se in ('CallbackError', 'ValidationError'):
                    V('blamed %s' % (se or 'callback'), 'a step fails with an error of the application, which did not fail', p)
                elif se in ('MechanismDone', 'NoSecurityLayer'):
                    V('blamed %s' % se, 'a step of an exchange that has not ended fails as if %s' % ('it had' if se == 'MechanismDone' else 'it were a call of a security layer'), p)
                elif se == 'Io' and not any(ev[0] in ('write', 'partial-write', 'flush') for ev in d['events']):
                    V('blamed Io', 'a step fails with an error of the writer, which was not written to', p)
            elif c[0] == 'callback':
                if r != c[1]:
                    V('callback-error %s' % c[1][2], 'the error of the callback asked for %s comes out as %s' % (c[1][2], show(f, r)), p)
            elif c[0] == 'missing':
                V.count('missing properties')
                if se != 'CallbackError' or name_of(f, r[3][0], CE) != 'NoCallback' or r[3][0][3] != (('b', c[1].encode()),):
                    V('missing %s' % c[1], 'that the application has no %s comes out as %s' % (c[1], show(f, r)), p)
            elif c[0] == 'validation':
                if se != 'ValidationError' or r[3] != (('valerr',),):
                    V('validation-error', 'the error of the validation comes out as %s' % show(f, r), p)
            elif c[0] == 'writer':
                if c[1][0] == 'json':
                    if not contains(r, lambda t: t[0] in ('jsonerr', 'ioerr')):
                        V('writer-error', 'the error of the writer comes out as %s' % show(f, r), p)
                elif se != 'Io' or r[3][0][0] != 'ioerr':
                    V('writer-error', 'the error of the writer comes out as %s' % show(f, r), p)
            elif c[0] == 'security library':
                if se != 'MechanismError' or not contains(r, lambda t: t == ('gsserr', c[1])):
                    V('library-error %s' % c[1], 'the error of %s comes out as %s' % (c[1], show(f, r)), p)
            mutual(x, V, f, d, steps[n - 1]['facts'] if n else {}, se, p)
            if se == 'MissingChannelBindingData':
                V.count('missing binding data')
                if not any(ev[0] == 'req' and ev[2] == 'ChannelBindings' and ev[4] == 'none' and ev[3][:1] == (('ChannelBindingName', r[3][0]),) for ev in d['events']):
                    V('binding-name', 'binding data of a type is reported missing that was not asked for', p)
            if se == 'MechanismError':
                ks = kinds(r[3][0])
                V.count('classified errors')
                rejected = contains(r, lambda t: t[0] == 'A' and t[1].endswith('ServerErrorValue'))
                if ks is None or None in ks:
                    V('unclassified', 'the kind of %s is not known' % show(f, r), p)
                elif rejected and ks != {'Outcome'}:
                    V('rejection-kind', 'that the server refused the login is classified as %s' % '/'.join(sorted(ks)), p)
                elif not rejected and 'Outcome' in ks:
                    V('kind %s' % show(f, r)[:60], '%s is classified as a refused login' % show(f, r), p)


def check_after_end(x, V):
    """a mechanism that refuses to go on after a successful end says so"""
    e, done = x.e, set()
    for st, steps in live(x):
        d = steps[-1]
        if d['kind'] != 'Finished' or 'obj' not in d:
            continue
        sig = x.snapshot(d['st'], d['obj'])
        if sig in done:
            continue
        done.add(sig)
        outs = []
        for inp in (None, ('input', 99)):
            s = d['st'].fork()
            s.facts = type(s.facts)()
            mark = len(e.panics)
            for s2, r in x.step(s, d['obj'], NONE if inp is None else some(inp)):
                outs += [(s3, var, e.deep(s3, pl)) for s3, var, pl in models.cases(e, s2, r, RES)]
            del e.panics[mark:]
        if any(var == 0 for _, var, _ in outs):
            continue        # a mechanism of one message, which starts anew
        for s3, var, pl in outs:
            V.count('steps after a successful end')
            if name_of(x.f, pl, SE) != 'MechanismDone':
                V('after-end', 'a step after the end of the exchange fails with %s' % show(x.f, pl), (steps, s3))


def mutual(x, V, f, d, before, se, p):
    """MutualAuthenticationFailed: the client found the server's signature wrong"""
    wrong = right = False
    for k, v in d['facts'].items():
        if k[0] == 'B' and k[1][0] == 'eq' and before.get(k) is not v and any(t[0] == 'HMAC' for t in k[1][1:]):
            wrong, right = wrong or v is False, right or v is True
        if k[0] == 'B' and k[1][0] == 'b64ok' and v is True and k[1][1][0] == 'slice' and k[1][1][1] == d.get('input') and k[1][1][2] == ('i', 2):
            wrong = wrong or Known(d['st']).prefix(d['input'])[:2] == b'v='       # whatever it is, it did not do
    said = se == 'MutualAuthenticationFailed'
    if said:
        V.count('failures of the server to prove itself')
        if x.side != 'client' or not is_scram(x.mech):
            V('mutual-server', 'a side that does not authenticate its peer this way reports a server that failed to prove itself', p)
        elif right or not isinstance(d.get('input'), tuple) or Known(d['st']).prefix(d['input'])[:2] != b'v=':
            V('mutual-unfounded', 'the server is said to have failed to prove itself although its signature was not found wrong', p)
    elif wrong and x.side == 'client' and is_scram(x.mech):
        V('mutual-hidden', 'a wrong server signature is reported as %s' % (se or d['ret'][0]), p)


def show(f, r):
    if not isinstance(r, tuple) or not r:
        return str(r)
    if r[0] == 'A' and r[1] in f.adts:
        a = f.adts[r[1]]
        n = r[1].split('::')[-1] + ('::' + a['variants'][r[2]]['name'] if len(a['variants']) > 1 else '')
        return n + ('(%s)' % ', '.join(show(f, q) for q in r[3]) if r[3] else '')
    return str(r)[:60]


# ---- predicates on errors --------------------------------------------------------------------------------

WANT = {
    'SessionError::is_mechanism_error': lambda se, ce: se == 'MechanismError',
    'SessionError::is_missing_prop': lambda se, ce: se == 'CallbackError' and ce == 'NoCallback',
    'CallbackError::is_no_callback': lambda se, ce: ce == 'NoCallback',
}


def check_predicates(f, V):
    def values(adt):
        for i, v in enumerate(f.adts[adt]['variants']):
            if adt == SE and v['name'] == 'CallbackError':
                for ce, a in values(CE):
                    yield (v['name'], ce[1]), ('A', SE, i, (a,))
            else:
                yield (v['name'], None) if adt == SE else (None, v['name']), ('A', adt, i, tuple(('arg', '%s.%s' % (v['name'], q['name'])) for q in v['fields']))
    for suffix, want in WANT.items():
        ks = bodies(f, suffix)
        if not ks:
            V('no ' + suffix, '%s is gone' % suffix)
        for k in ks:
            for (se, ce), val in values(SE if suffix.startswith('Session') else CE):
                st = State()
                e, outs = run(f, k, [st.alloc(val)], st=st)
                got = {e.deep(s, r) for s, r in outs}
                V.count('answers of error predicates')
                if got != {models.bool_(want(se, ce))}:
                    V('%s %s %s' % (suffix, se, ce), '%s of %s(%s) is %s' % (suffix, se, ce or '', sorted(map(str, got))))
