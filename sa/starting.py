"""How a session comes about: the client's choice of a mechanism, the server's answer to a name, and what each registered
mechanism is bound to.  Registries are built through the crate's own constructors from the real mechanism entries (client
side) or from entries about which nothing is known (server side)."""
from engine import *
from fw import *
import mech, models, selection, itertools, re
from sessions import generic, one, CONFIG_NEW, CALLBACKOBJ, CBP, SIDE, params

PREFER = 'rsasl::callback::SessionCallback::prefer'
ENABLE = 'rsasl::callback::SessionCallback::enable_channel_binding'
ORDERING = 'core::cmp::Ordering'
SELECT = 'rsasl::sasl::provider::<impl sasl::SASLClient<CB>>::'
SERVE = 'rsasl::sasl::provider::<impl sasl::SASLServer<V, CB>>::'
SASL_ERROR = 'rsasl::error::SASLError'


def named(f, suffix):
    ks = [k for k, b in f.bodies.items() if 'blocks' in b and short(k).endswith(suffix)]
    if not ks:
        raise Budget('no body for %s' % suffix)
    return sorted(ks)[0]


def field_names(f, adt):
    return [x['name'] for x in f.adts[adt]['variants'][0]['fields']]


def ty_of(e, v):
    """type of the object behind a trait object"""
    return e.f.types[e.vts[v[2]]['ty']]['s'] if v[0] == 'D' else None


def objects(e, v, trait='Authentication'):
    """trait objects held directly in a value"""
    return [x for x in subterms(v) if x[0] == 'D' and str(e.vts[x[2]]['trait']).split('::')[-1].startswith(trait)]


def side_of(v):
    """the Side stored in a value, outside mechanism entries"""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'A' and x[1] == mech.MECH:
                return
            if len(x) == 4 and x[0] == 'A' and x[1] == SIDE:
                out.append(x[2])
                return
            for y in x:
                walk(y)
    walk(v)
    return out


def entries_of(v):
    return [x for x in subterms(v) if len(x) == 4 and x[0] == 'A' and x[1] == mech.MECH]


def without(f, value, field):
    i = field_names(f, mech.MECH).index(field)
    return value[:3] + (value[3][:i] + (NONE,) + value[3][i + 1:],)


def implementation(f, m, which, config=None):
    """type names of what the entry's own start function creates"""
    e = Engine(f, models, {'raw_session': 1})
    st = State()
    ptr = e.static_ptr(st, m.path)
    v = e.read(st, ptr[1], ptr[2])[3][field_names(f, mech.MECH).index(which)]
    if v[0] != 'A' or v[2] != 1:
        return None, e
    outs = set()
    for s, r in e.call_value(st, e.datum(st, v[3][0]), [] if which == 'client' else [config or ('arg', 'config')], which):
        for s2, var, p in models.cases(e, s, r, RES):
            if var == 0:
                outs.add(ty_of(e, p))
    return outs, e


def engine(f, hooks=None):
    return Engine(f, models, {'raw_session': 1, 'raw_vectored': 1, 'typeids': 1, 'finite': 4096, 'hooks': hooks or {}})


def configured(e, st, registry, which):
    f = e.f
    st, config = one([(s2, p) for s, v in e.exec_body(st, generic(f, CONFIG_NEW), [CALLBACKOBJ, registry]) for s2, var, p in models.cases(e, s, v, RES) if var == 0], 'SASLConfig::new')
    return one(e.exec_body(st, generic(f, which + 'with_cb'), [config, CBP]), 'with_cb')


def registry(e, st, values):
    arr = st.alloc(('R', tuple(values)), 'mechs')
    return one(e.exec_body(st, named(e.f, 'Registry>::with_mechanisms'), [arr]), 'with_mechanisms')


# ---- client ------------------------------------------------------------------------------------------

class Client:
    """every way a client can start, for one registry and one list of offered names"""
    def __init__(self, f, entries, offered, default=False):
        self.f, self.entries, self.offered = f, entries, offered
        e = self.e = engine(f, {ENABLE: self.enable, PREFER: self.default_prefer if default else self.prefer})
        st = State()
        self.values = []
        for m, client in entries:
            p = e.static_ptr(st, m.path)
            v = e.read(st, p[1], p[2])
            self.values.append(v if client else without(f, v, 'client'))
        st, reg = registry(e, st, self.values)
        st, cl = configured(e, st, reg, SELECT)
        names = [n if isinstance(n, tuple) else st.alloc(('b', n.encode()), 'name') for n in offered]
        self.outs = []
        k = generic(f, SELECT + 'start_suggested_iter')
        for s, v in e.exec_body(st, k, [cl, ('it', 'seq', ('R', tuple(names)), ('i', 0))]):
            for s2, var, p in models.cases(e, s, v, RES):
                self.outs.append((s2, var, p))

    def ident(self, v):
        return self.e.deep(self.state, v)

    def enable(self, e, st, c, args):
        s = st.fork()
        s.ev('enable', 1)
        st.ev('enable', 0)
        return [(s, TRUE), (st, FALSE)]

    def entry(self, e, st, v):
        """which entry of the registry (or its built-in original) a reference leads to"""
        d = e.datum(st, v)
        name = e.deep(st, d[3][0]) if d[0] == 'A' and d[1] == mech.MECH else None
        return name[1].decode('latin1') if name and name[0] == 'b' else str(e.deep(st, d))[:80]

    def asked(self, e, st, args):
        out = []
        for s, var, p in models.cases(e, st, args[1], OPT):
            out.append((s, self.entry(e, s, p) if var else None, self.entry(e, s, args[2])))
        return out

    def prefer(self, e, st, c, args):
        out = []
        for s, acc, cand in self.asked(e, st, args):
            for o in ('Less', 'Equal', 'Greater'):
                s2 = s.fork()
                s2.ev('prefer', acc, cand, o)
                out.append((s2, ('A', ORDERING, e.f.variant_index(ORDERING, o), ())))
        return out

    def default_prefer(self, e, st, c, args):
        out = []
        k = [k for k, b in e.f.bodies.items() if short(k) == PREFER and 'blocks' in b]
        if not k:
            raise Budget('no body for the default of prefer')
        for s, acc, cand in self.asked(e, st, args):
            for s2, v in e.exec_body(s, sorted(k)[0], args):
                o = {x: n for n in ('Less', 'Equal', 'Greater') for x in (e.f.variant_index(ORDERING, n),)}.get(v[2]) if v[0] == 'A' else None
                if o is None:
                    raise Budget('the default preference is not decided for %s and %s' % (acc, cand))
                s2.ev('prefer', acc, cand, o)
                out.append((s2, v))
        return out


def scenarios(ms):
    """(registry entries, offered names)"""
    by = {m.name: m for m in ms}
    names = sorted(by)
    any_name = ('arg', 'name')
    for n in names:
        yield [(by[n], True)], [n]
        yield [(by[n], False)], [n]
        yield [(by[n], True)], []
        yield [(by[n], True)], ['X-' + n, n + 'X', n[:-1], n.lower()]
        yield [(by[n], True)], [any_name]
        yield [(m, True) for m in ms], [n]
        yield [(m, True) for m in ms if m.name != n], [n]
    yield [], names
    for a, b in itertools.permutations(names, 2):
        yield [(by[a], True), (by[b], True)], [b, a]
        yield [(by[a], True), (by[b], False)], [a, b]
    for a in names:
        if a + '-PLUS' in by:
            for other in ('PLAIN', 'SCRAM-SHA-1', 'SCRAM-SHA-256'):
                if other in by and other != a:
                    for order in itertools.permutations([a, a + '-PLUS', other]):
                        yield [(by[x], True) for x in (a, a + '-PLUS', other)], list(order)
    yield [(m, True) for m in ms][:4], [m.name for m in ms] + [m.name for m in ms]


def eligible_names(entries, offered, cb):
    return [m.name for m, client in entries if client and m.name in offered and (cb or not m.name.endswith('-PLUS'))]


def check_clients(f, V):
    ms = mech.mechanisms(f)
    impl = {m.name: implementation(f, m, 'client')[0] for m in ms}
    for entries, offered in scenarios(ms):
        c = Client(f, entries, offered)
        judge(c, impl, V, False)
        V.count('starts')
    for e in [c.e]:
        pass
    # the default preference, over everything at once
    every = [(m, True) for m in ms]
    for offered in [[m.name for m in ms]] + [[a.name, b.name] for a, b in itertools.combinations(ms, 2)]:
        for order in (every, every[::-1]):
            judge(Client(f, order, offered, default=True), impl, V, True)
            V.count('default starts')


def check_sides(f, V):
    """a session started for a client or for a server, in the crate's own ways, knows which side it is and which mechanism it runs"""
    from rules import Only
    O = Only(V, ('wrong-side', 'wrong-description', 'wrong-implementation'))
    check_servers(f, O, 2)
    ms = mech.mechanisms(f)
    impl = {m.name: implementation(f, m, 'client')[0] for m in ms}
    for m in ms:
        judge(Client(f, [(m, True)], [m.name]), impl, O, False)


def judge(c, impl, V, default):
    e = c.e
    by = {m.name: m for m, client in c.entries}
    what = 'registry [%s], offered [%s]' % (', '.join(m.name + ('' if cl else ' (no client)') for m, cl in c.entries[:6]) + (' ...' if len(c.entries) > 6 else ''),
                                            ', '.join(str(o) if not isinstance(o, tuple) else 'any name' for o in c.offered[:6]))
    path = lambda s: ([], s)
    if e.unmodelled:
        raise Budget('unmodelled calls while starting: %s' % sorted(e.unmodelled)[:3])
    for stack, kind, detail, where, st in e.panics:
        V('panic-%s' % stack[-1], 'starting a client can panic (%s): %s' % (kind, what), path(st))
    if not c.outs:
        V('no-result', 'starting never returns: %s' % what, path(State()))
    for s, var, p in c.outs:
        V.count('outcomes')
        evs = s.events()
        cbs = [x[1] for x in evs if x[0] == 'enable']
        cb = cbs[-1] if cbs else None
        if len(set(cbs)) > 1:
            continue
        offered = list(c.offered)
        if any(isinstance(o, tuple) for o in offered):
            offered = offered_by_facts(s, offered[0])
        need = eligible_names(c.entries, offered, cb)
        if cb is None and any(n.endswith('-PLUS') for n in need):
            need = [n for n in need if not n.endswith('-PLUS')]
        current, asked = None, []
        for x in evs:
            if x[0] == 'prefer':
                _, acc, cand, o = x
                if acc != current:
                    V('wrong-incumbent', 'the application is asked to compare %s with %s while %s is the current choice: %s' % (acc, cand, current, what), path(s))
                asked.append(cand)
                if o != 'Greater':
                    current = cand
        for n in asked:
            if n not in need:
                V('ineligible-%s' % n, '%s is considered although it is not eligible (channel binding %s): %s' % (n, {None: 'not asked', 0: 'off', 1: 'on'}[cb], what), path(s))
        for n in need:
            if asked.count(n) != need.count(n):
                V('not-considered-%s' % n, '%s is eligible but considered %d times (channel binding %s): %s' % (n, asked.count(n), {None: 'not asked', 0: 'off', 1: 'on'}[cb], what), path(s))
        if var == 1:
            if current is not None and not passes_failure_on(e, s, p):
                V('refused', 'starting fails although %s was preferred: %s' % (current, what), path(s))
            if current is None and not (p[0] == 'A' and p[1] == SASL_ERROR and p[2] == e.f.variant_index(SASL_ERROR, 'NoSharedMechanism')):
                V('wrong-error', 'without an eligible mechanism starting fails with something else than NoSharedMechanism: %s' % what, path(s))
            V.count('refusals')
            continue
        sess = e.datum(s, p)
        objs = objects(e, sess)
        descs = [c.entry(e, s, d) for d in entries_of_session(e, s, sess)]
        if current is None:
            V('started-without-choice', 'a session is started although the application kept no mechanism: %s' % what, path(s))
            continue
        if len(objs) != 1 or ty_of(e, objs[0]) not in (impl.get(current) or ()):
            V('wrong-implementation', 'the preferred mechanism is %s but the session runs %s: %s' % (current, [ty_of(e, o) for o in objs], what), path(s))
        if set(descs) != {current}:
            V('wrong-description', 'the preferred mechanism is %s but the session reports %s: %s' % (current, descs, what), path(s))
        if set(side_of(sess)) != {e.f.variant_index(SIDE, 'Client')}:
            V('wrong-side', 'a client session is marked as another side: %s' % what, path(s))
        V.count('sessions')
        if default:
            best = max((priority(e, s, by[n]) for n in need), default=None)
            if priority(e, s, by[current]) != best:
                V('default-preference', 'by default %s is chosen although a mechanism of higher priority is eligible: %s' % (current, what), path(s))
        V.sample('%s -> %s' % (what, current))


def priority(e, st, m):
    v = m.fields['priority']
    if v[0] != 'i':
        raise Budget('priority of %s is not a constant' % m.name)
    return v[1]


def entries_of_session(e, s, sess):
    """mechanism descriptions stored in the session itself (not in its configuration)"""
    out = []

    def walk(x, config):
        if not isinstance(x, tuple):
            return
        if len(x) == 4 and x[0] == 'A' and x[1] == mech.MECH:
            out.append(x)
            return
        if len(x) == 4 and x[0] == 'A' and 'Registry' in x[1]:
            return
        for y in x:
            walk(y, config)
    walk(sess, False)
    return out


def passes_failure_on(e, s, p):
    """the failure is one the mechanism's own constructor reported"""
    return p[0] in ('fld', 'call') or any(x[0] in ('call', 'dyncall') for x in s.events())


def offered_by_facts(s, name):
    out = []
    for k, val in s.facts.items():
        if k[0] == 'B' and val is True and k[1][0] == 'eq' and contains(k[1], lambda t: t == name):
            out += [q[1].decode('latin1') for q in k[1][1:] if q[0] == 'b']
    return out


def check_machines(f, V):
    """every selector against every sequence of offered names"""
    for m in mech.mechanisms(f):
        impl, _ = implementation(f, m, 'client')
        for cb in (0, 1):
            x = selection.Machine(f, m, cb)
            e = x.e
            path = lambda s: ([], s or State())
            V.count('selectors')
            if e.unmodelled:
                raise Budget('unmodelled calls in the selector of %s' % m.name)
            for stack, kind, detail, where, st in e.panics:
                V('selector-panic-%s' % m.name, 'the selector of %s can panic: %s' % (m.name, kind), path(st))
            plus = m.name.endswith('-PLUS')
            if x.absent:
                if not plus or cb:
                    V('never-selected-%s' % m.name, '%s can never be selected (channel binding %s)' % (m.name, 'on' if cb else 'off'), path(None))
                continue
            if plus and not cb:
                V('plus-without-binding-%s' % m.name, '%s can be selected without channel binding' % m.name, path(None))
            for offered, sel, s, fin in x.ends:
                V.count('selector ends')
                if sel is None:
                    if m.name in offered:
                        V('offered-but-not-selected-%s' % m.name, '%s was offered but its selector does not choose it (offered: %s)' % (m.name, sorted(offered)), path(s))
                    continue
                if sel != ('P', (('static', m.path), 0), ()):
                    V('selects-another-%s' % m.name, 'the selector of %s chooses another mechanism: %s' % (m.name, sel), path(s))
                if m.name not in offered:
                    V('selected-but-not-offered-%s' % m.name, '%s is selected although it was not offered (offered: %s)' % (m.name, sorted(offered)), path(s))
                if fin[0] == 0 and ty_of(e, fin[1]) not in (impl or ()):
                    V('selector-implementation-%s' % m.name, 'the selector of %s creates %s' % (m.name, ty_of(e, fin[1])), path(s))


def check_defaults(f, V):
    """channel binding is off unless the application says otherwise"""
    ks = [k for k, b in f.bodies.items() if short(k) == ENABLE and 'blocks' in b]
    for k in ks:
        e, outs = run(f, k, [('arg', 'callback')])
        for s, v in outs:
            V.count('defaults')
            if v != FALSE:
                V('binding-on-by-default', 'channel binding is enabled without the application asking for it', ([], s))


# ---- server ------------------------------------------------------------------------------------------

def abstract_entry(f, i, server):
    vals = []
    for n in field_names(f, mech.MECH):
        if n == 'mechanism':
            vals.append(('arg', 'name', i))
        elif n == 'server':
            vals.append(some(('arg', 'server', i)) if server else NONE)
        else:
            vals.append(('arg', n, i))
    return ('A', mech.MECH, 0, tuple(vals))


def check_servers(f, V, most=3):
    # a name is its only field
    single = {a for a in f.adts if a.split('::')[-1] == 'Mechname' and len(f.adts[a]['variants'][0]['fields']) == 1}

    def whole(t):
        while single and t[0] == 'fld' and t[1][0] in ('arg', 'fld'):
            t = t[1]
        return t
    for n in range(most + 1):
        for present in itertools.product((False, True), repeat=n):
            e = engine(f)
            st = State()
            st, reg = registry(e, st, [abstract_entry(f, i, b) for i, b in enumerate(present)])
            st, sv = configured(e, st, reg, SERVE)
            want = ('arg', 'requested')
            what = 'registry of %d entries, server implementations %s' % (n, [i for i, b in enumerate(present) if b])
            listed(e, st, sv, n, present, what, V)
            outs = [(s2, var, p) for s, v in e.exec_body(st, generic_server(f, 'start_suggested'), [sv, want]) for s2, var, p in models.cases(e, s, v, RES)]
            for stack, kind, detail, where, s in e.panics:
                V('panic-%s' % stack[-1], 'starting a server can panic (%s): %s' % (kind, what), ([], s))
            V.count('server starts')
            for s, var, p in outs:
                V.count('server outcomes')
                eqs = {}
                for k, val in s.facts.items():
                    if k[0] == 'B' and isinstance(k[1], tuple) and k[1][0] == 'eq' and want in map(whole, k[1][1:]):
                        for q in map(whole, k[1][1:]):
                            if q[0] == 'arg' and q[1] == 'name':
                                eqs[q[2]] = val
                calls = [x for x in s.events() if x[0] == 'dyncall']
                ran = [x[1][2] for x in calls if isinstance(x[1], tuple) and x[1][:2] == ('arg', 'server')]
                if var == 0:
                    sess = e.datum(s, p)
                    descs = entries_of_session(e, s, sess)
                    if len(descs) != 1 or len(ran) != 1:
                        V('wrong-session', 'a server session starts with %d descriptions and %d implementations: %s' % (len(descs), len(ran), what), ([], s))
                        continue
                    d = descs[0]
                    i = ran[0]
                    if d != abstract_entry(f, i, True):
                        V('wrong-description', 'the session reports another mechanism than the one it runs: %s' % what, ([], s))
                    if eqs.get(i) is not True:
                        V('wrong-name', 'a server session starts without the requested name being that of its mechanism: %s' % what, ([], s))
                    if not present[i]:
                        V('no-server', 'a server session starts for an entry without server implementation: %s' % what, ([], s))
                    if not any(contains(x, lambda t: t == ('arg', 'server', i)) for x in session_objects(e, s, sess)):
                        V('wrong-implementation', 'the session does not run what the entry\'s server function created: %s' % what, ([], s))
                    if set(side_of(sess)) != {f.variant_index(SIDE, 'Server')}:
                        V('wrong-side', 'a server session is marked as another side: %s' % what, ([], s))
                    V.count('server sessions')
                elif p[0] == 'A' and p[1] == SASL_ERROR:
                    if p[2] != f.variant_index(SASL_ERROR, 'NoSharedMechanism'):
                        V('wrong-error', 'starting fails with another error than NoSharedMechanism: %s' % what, ([], s))
                    for i, b in enumerate(present):
                        if b and eqs.get(i) is not False:
                            V('refused', 'starting fails although entry %d may have the requested name: %s' % (i, what), ([], s))
                elif not ran:
                    V('wrong-error', 'starting fails with an error no server function reported: %s' % what, ([], s))


def generic_server(f, name):
    ks = [k for k, b in f.bodies.items() if 'blocks' in b and short(k) == SERVE + name]
    if not ks:
        raise Budget('no body for SASLServer::%s' % name)
    for k in sorted(ks):
        if 'SASLServer<V, CB>' in str(params(f, k)[0]['s']):
            return k
    return sorted(ks)[0]


def session_objects(e, s, sess):
    return [x for x in subterms(sess) if x[0] in ('fld', 'call', 'D')]


def listed(e, st, sv, n, present, what, V):
    """the announced list"""
    st = st.fork()
    k = generic_server(e.f, 'get_available')
    for s, it in e.exec_body(st, k, [st.alloc(sv, 'server')]):
        it = models.mkiter(e, s, it, 'get_available')
        got, todo = [], [(s, it, ())]
        while todo:
            s1, i, acc = todo.pop()
            if len(acc) > n:
                V('list-too-long', 'more mechanisms are announced than registered: %s' % what, ([], s1))
                continue
            for s2, x, nx in models.it_next(e, s1, i, 'get_available'):
                if x is None:
                    got.append((s2, acc))
                else:
                    todo.append((s2, nx, acc + (e.datum(s2, x),)))
        for s2, acc in got:
            V.count('announced lists')
            if acc != tuple(abstract_entry(e.f, i, True) for i, b in enumerate(present) if b):
                V('wrong-list', 'the announced mechanisms are not those with a server implementation: %s' % what, ([], s2))


# ---- what a mechanism is bound to -----------------------------------------------------------------------

NAME = re.compile(r'[A-Z0-9_-]{1,20}\Z')
HASHES = {'SHA-1': ('Sha1Core', None), 'SHA-256': ('Sha256VarCore', 32), 'SHA-512': ('Sha512VarCore', 64), 'SHA-224': ('Sha256VarCore', 28), 'SHA-384': ('Sha512VarCore', 48)}
SERVER_FIRST = {'LOGIN'}      # everything else begins with a client message (RFC 4616, 5802, 4422, 4505, 4752, 7628)


def output_size(t):
    """the last typenum number in a type name"""
    m = re.findall(r'(?:typenum::uint::UInt<)+typenum::uint::UTerm((?:, typenum::bit::B[01]>)+)', t)
    if not m:
        return None
    n = 0
    for b in re.findall(r'B([01])', m[0]):
        n = 2 * n + int(b)
    return n


def check_bindings(f, V):
    ms = mech.mechanisms(f)
    path = ([], State())
    seen = {}
    for m in ms:
        V.count('entries')
        if not NAME.match(m.name):
            V('name-%s' % m.path, 'the entry %s carries an invalid mechanism name: %r' % (m.path, m.name), path)
        if m.name in seen:
            V('duplicate-%s' % m.name, 'the name %s is used by two entries: %s and %s' % (m.name, seen[m.name], m.path), path)
        seen[m.name] = m.path
        home = m.path.split('::')[2] if m.path.startswith('rsasl::mechanisms::') else None
        norm = re.sub('[^a-z0-9]', '', m.name.lower())
        if home is None or not norm.startswith(home.replace('_', '')):
            V('home-%s' % m.name, 'the entry named %s is defined among the mechanisms of %s' % (m.name, home), path)
        for which in ('client', 'server'):
            impl, e = implementation(f, m, which)
            if impl is None:
                V('missing-%s-%s' % (which, m.name), '%s has no %s implementation' % (m.name, which), path)
                continue
            if len(impl) != 1:
                V('ambiguous-%s-%s' % (which, m.name), '%s has %d %s implementations' % (m.name, len(impl), which), path)
            for t in impl:
                V.count('implementations')
                t = str(t)
                if not t.startswith('mechanisms::%s::' % home):
                    V('foreign-%s-%s' % (which, m.name), 'the %s function of %s creates %s' % (which, m.name, t[:80]), path)
                if ('::%s::' % which) not in t.split('<')[0]:
                    V('side-%s-%s' % (which, m.name), 'the %s function of %s creates %s' % (which, m.name, t[:80]), path)
                if m.name.startswith('SCRAM-'):
                    h = m.name[len('SCRAM-'):].replace('-PLUS', '')
                    core, size = HASHES.get(h, ('?', None))
                    if core not in t or size is not None and output_size(t) != size:
                        V('hash-%s-%s' % (which, m.name), 'the %s function of %s creates %s' % (which, m.name, t[:160]), path)
                V.sample('%s %s: %s' % (m.name, which, t[:90]))
        want = f.variant_index(SIDE, 'Server' if m.name in SERVER_FIRST else 'Client')
        if m.fields['first'] != ('A', SIDE, want, ()):
            V('first-%s' % m.name, '%s names the wrong side to speak first' % m.name, path)
        if m.fields['priority'][0] != 'i':
            V('priority-%s' % m.name, 'the priority of %s is not a constant' % m.name, path)
    pr = {m.name: m.fields['priority'][1] for m in ms if m.fields['priority'][0] == 'i'}

    def above(a, b):
        V.count('rankings')
        if a in pr and b in pr and not pr[a] > pr[b]:
            V('ranking-%s-%s' % (a, b), '%s does not rank above %s (%s, %s)' % (a, b, pr[a], pr[b]), path)
    for a in pr:
        if a.startswith('SCRAM-'):
            above(a, 'PLAIN')
            above(a, 'LOGIN')
            if a.endswith('-PLUS'):
                above(a, a[:-5])
            for b in pr:
                if b.startswith('SCRAM-SHA-1') and not a.startswith('SCRAM-SHA-1') and a.endswith('-PLUS') == b.endswith('-PLUS'):
                    above(a, b)
    above('PLAIN', 'LOGIN')


def check_credentials(f, V):
    """registries and configuration made from plain credentials"""
    e = engine(f)
    for authzid in (0, 1):
        for s, v in e.exec_body(State(), named(f, 'Registry>::credentials'), [TRUE if authzid else FALSE]):
            password_only(e, s, v, authzid, 'Registry::credentials', V)
    for s, v in e.exec_body(State(), named(f, 'SASLConfig>::with_credentials'), [('arg', 'authzid'), ('arg', 'authid'), ('arg', 'password')]):
        for s1, var, p in models.cases(e, s, v, RES):
            if var == 1:
                continue
            for s2, some_, az in models.cases(e, s1, ('arg', 'authzid'), OPT):
                password_only(e, s2, e.datum(s2, p), some_, 'SASLConfig::with_credentials', V)
                cbs = objects(e, e.datum(s2, p), 'SessionCallback')
                if len(cbs) != 1:
                    V('credentials-callback', 'the credentials configuration has %d callbacks' % len(cbs), ([], s2))
                    continue
                answers(e, s2, cbs[0], some_, V)


def password_only(e, s, v, authzid, what, V):
    names = [mech.mname(e, s, x[3][0]) for x in entries_of(e.deep(s, v))]
    V.count('credential registries')
    for n in names:
        if not (n.startswith('SCRAM-') and not n.endswith('-PLUS') or n in ('PLAIN', 'LOGIN')):
            V('no-password-%s' % n, '%s enables %s, which is no password mechanism' % (what, n), ([], s))
        if n == 'LOGIN' and authzid:
            V('login-with-authzid', '%s enables LOGIN although an authorization identity is set' % what, ([], s))
    if not {'PLAIN', 'SCRAM-SHA-1', 'SCRAM-SHA-256'} <= set(names):
        V('missing-mechanism', '%s leaves out one of the usual password mechanisms: %s' % (what, names), ([], s))
    if not authzid and 'LOGIN' not in names:
        V('missing-login', '%s leaves out LOGIN although no authorization identity is set' % what, ([], s))


def answers(e, s, cb, authzid, V):
    """the answers the credentials callback gives"""
    want = {'AuthId': ('arg', 'authid'), 'Password': ('arg', 'password'), 'AuthzId': ('fld', ('arg', 'authzid'), 'Some.0')}
    ks = [m for n, m in e.vts[cb[2]]['methods'] if n == 'callback']
    given = set()
    st = s.fork()
    e2 = Engine(e.f, models, {'raw_session': 1, 'typeids': 1})
    e2.vts, e2.vtids = e.vts, e.vtids
    for s2, v in e2.call_fn(st, ks[0], [cb[1], ('arg', 'session data'), ('arg', 'context'), ('arg', 'request')], 'callback', None, None):
        V.count('credential answers')
        asked = [x[1].split('::')[-1].rstrip('>') for k, val in s2.facts.items() if k[0] == 'B' and val is True and k[1][0] == 'eq'
                 for q in k[1][1:] if q[0] == 'b' and q[1].startswith(b'TypeId') for x in [(0, q[1].decode())]]
        for x in s2.events():
            if x[0] == 'call' and x[1].endswith('CallbackRequest::satisfy'):
                val = e.deep(s2, x[2][-1])
                if len(asked) != 1 or asked[0] not in want or val != want[asked[0]]:
                    V('wrong-answer', 'the credentials callback answers a request for %s with %s' % (asked, show(val)), ([], s2))
                else:
                    given.add(asked[0])
    for n in ('AuthId', 'Password') + (('AuthzId',) if authzid else ()):
        if n not in given:
            V('no-answer-%s' % n, 'the credentials callback does not answer a request for %s' % n, ([], s))
    if not authzid and 'AuthzId' in given:
        V('invented-authzid', 'the credentials callback provides an authorization identity none was configured for', ([], s))


def show(v):
    return str(v)[:120]


if __name__ == '__main__':
    import sys, collections
    sys.setrecursionlimit(20000)
    f = Facts(sys.argv[1])

    class W:
        def __init__(self): self.c = collections.Counter(); self.seen = set()
        def __call__(self, k, m, p):
            if k not in self.seen: self.seen.add(k); print(k, m[:300])
        def count(self, n): self.c[n] += 1
        def sample(self, x): pass
    for fn in sys.argv[2:]:
        w = W()
        globals()[fn](f, w)
        print(fn, dict(w.c))
