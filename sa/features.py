"""C26: every feature selection type-checks, keeps its cross-thread guarantees and registers its mechanisms.

For every selection a small witness crate that depends on the tree with exactly these features is type-checked (nothing
is linked or run).  The witness names what the selection has to make available and demands the auto traits, so a
selection that lacks something, or that loses Send or Sync, is a program rustc rejects.  What the default registry
holds is read from the compiler's facts of the selection."""
import os, subprocess, shutil, itertools, re
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
import extract
from extract import BUILD, REPO, base_env, run as run_cmd, ExtractError
from engine import *
import models, mech

MECHS = {
    'scram-sha-1': ['scram::SCRAM_SHA1', 'scram::SCRAM_SHA1_PLUS'],
    'scram-sha-2': ['scram::SCRAM_SHA256', 'scram::SCRAM_SHA256_PLUS', 'scram::SCRAM_SHA512', 'scram::SCRAM_SHA512_PLUS'],
    'anonymous': ['anonymous::ANONYMOUS'],
    'external': ['external::EXTERNAL'],
    'plain': ['plain::PLAIN'],
    'login': ['login::LOGIN'],
    'xoauth2': ['xoauth2::XOAUTH2'],
    'oauthbearer': ['oauthbearer::OAUTHBEARER'],
    'gssapi': ['gssapi::GSSAPI'],
}
NAMES = {
    'scram-sha-1': {'SCRAM-SHA-1'}, 'scram-sha-2': {'SCRAM-SHA-256', 'SCRAM-SHA-512'}, 'anonymous': {'ANONYMOUS'}, 'external': {'EXTERNAL'},
    'plain': {'PLAIN'}, 'login': {'LOGIN'}, 'xoauth2': {'XOAUTH2'}, 'oauthbearer': {'OAUTHBEARER'}, 'gssapi': {'GSSAPI'},
}
PLUS = {'scram-sha-1': {'SCRAM-SHA-1-PLUS'}, 'scram-sha-2': {'SCRAM-SHA-256-PLUS', 'SCRAM-SHA-512-PLUS'}}
BASES = [('std',), ('provider',), ('provider_base64',), ('config_builder',), ('provider', 'config_builder'),
         ('provider_base64', 'config_builder', 'registry_static', 'unstable_custom_mechanism')]

TOOLCHAINS = ('1.82.0', 'stable', 'nightly')


def witness(features):
    has = set(features)
    if 'provider_base64' in has:
        has.add('provider')
    l = ['#![allow(unused, deprecated)]',
         'use rsasl::callback::{Context, Request, SessionCallback, SessionData};',
         'use rsasl::prelude::*;',
         'const fn threads<T: Send + Sync + ?Sized>() {}',
         'fn callbacks<C: SessionCallback>() { threads::<C>() }',
         'const _: () = { threads::<SASLConfig>(); threads::<std::sync::Arc<SASLConfig>>(); threads::<dyn SessionCallback>();',
         '    threads::<SASLError>(); threads::<SessionError>(); threads::<Registry>(); threads::<Mechanism>(); threads::<Mechname>(); };',
         'pub struct Nothing; impl SessionCallback for Nothing {}']
    if 'provider' in has:
        l += ['const _: () = { threads::<Session>(); threads::<SASLClient>(); threads::<SASLServer<rsasl::validate::NoValidation>>();',
              '    threads::<rsasl::callback::CallbackError>(); threads::<rsasl::validate::ValidationError>(); };',
              'fn moved(mut s: Session) { std::thread::spawn(move || { let mut w = Vec::new(); let _ = s.step(None, &mut w); s }); }',
              'fn client(c: std::sync::Arc<SASLConfig>, offered: &[&Mechname]) -> Result<Session, SASLError> {',
              '    SASLClient::new(c).start_suggested(offered) }',
              "fn server(c: std::sync::Arc<SASLConfig>, m: &Mechname) -> Result<Session, SASLError> {",
              '    SASLServer::<rsasl::validate::NoValidation>::new(c).start_suggested(m) }',
              'fn shared(c: &std::sync::Arc<SASLConfig>) { let c = c.clone(); std::thread::spawn(move || { SASLClient::new(c); }); }']
    if 'provider_base64' in has:
        l += ['fn wrapped(s: &mut Session, i: Option<&[u8]>, w: &mut Vec<u8>) -> Result<State, SessionError> { s.step64(i, w) }']
    if 'config_builder' in has:
        l += ['fn built() -> Result<std::sync::Arc<SASLConfig>, SASLError> { SASLConfig::builder().with_defaults().with_callback(Nothing) }',
              'fn credentials() -> Result<std::sync::Arc<SASLConfig>, SASLError> {',
              '    SASLConfig::with_credentials(None, String::new(), String::new()) }']
        for f, ms in MECHS.items():
            if f in has:
                for m in ms:
                    l += ['fn registry_%s() { static M: &[Mechanism] = &[rsasl::mechanisms::%s]; let _ = Registry::with_mechanisms(M); }'
                          % (m.split('::')[1].lower(), m)]
    for f, ms in MECHS.items():
        if f in has:
            for m in ms:
                l += ['pub fn %s() -> &\'static Mechanism { &rsasl::mechanisms::%s }' % (m.split('::')[1].lower(), m)]
    return '\n'.join(l) + '\n'


class Worker:
    """one target directory and one witness crate, reused for many selections"""
    def __init__(self, n):
        self.td = os.path.join(BUILD, 'features', 'target%d' % n)
        self.crate = os.path.join(BUILD, 'features', 'witness%d' % n)
        os.makedirs(os.path.join(self.crate, 'src'), exist_ok=True)
        self.log = os.path.join(BUILD, 'features', 'log%d' % n)

    def check(self, features, tc):
        with open(os.path.join(self.crate, 'Cargo.toml'), 'w') as o:
            o.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies.rsasl]\npath = "%s"\n'
                    'default-features = false\nfeatures = [%s]\n' % (REPO, ', '.join('"%s"' % f for f in features)))
        with open(os.path.join(self.crate, 'src', 'lib.rs'), 'w') as o:
            o.write(witness(features))
        lock = os.path.join(self.crate, 'Cargo.lock')
        if not os.path.exists(lock):
            shutil.copy(os.path.join(REPO, 'Cargo.lock'), lock)
        env = base_env()
        env.update(CARGO_TARGET_DIR=self.td, RUSTUP_TOOLCHAIN=tc, CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never', CARGO_BUILD_JOBS='2')
        rc = run_cmd(['cargo', 'check', '--offline', '--lib'], env, self.crate, self.log)
        return rc, open(self.log, errors='replace').read()


def locations(out):
    """(message, file:line) of every error rustc reports"""
    r = []
    for m in re.finditer(r'^error(?:\[\w+\])?: (.*)\n\s*--> (\S+?):(\d+)', out, re.M):
        r.append((m.group(1), m.group(2), m.group(3)))
    return r


def toolchain():
    have = subprocess.run(['rustup', 'toolchain', 'list'], env=base_env(), stdout=subprocess.PIPE).stdout.decode()
    for t in TOOLCHAINS:
        if any(l.startswith(t) for l in have.splitlines()):
            return t
    raise ExtractError('no toolchain')


def selections(tier):
    ms = sorted(MECHS)
    out = []
    for b in BASES:
        out.append(b)
        out += [b + (m,) for m in ms]
        out.append(b + tuple(ms))
    rest = [c for n in (range(2, 3) if tier == 'quick' else range(2, len(ms))) for c in itertools.combinations(ms, n)]
    for b in [('provider', 'config_builder')] if tier == 'quick' else BASES[3:]:
        out += [b + c for c in rest]
    out += [('testutils', 'provider'), ('testutils', 'provider_base64', 'plain'), ('unstable_custom_mechanism',), ('registry_static',)]
    return out


def pool(jobs, f, n=6):
    q = Queue()
    for i in range(n):
        q.put(i)
    ws = [Worker(i) for i in range(n)]

    def one(j):
        i = q.get()
        try:
            return f(ws[i], j)
        finally:
            q.put(i)
    with ThreadPoolExecutor(n) as ex:
        return list(zip(jobs, ex.map(one, jobs)))


def check_selections(_, V):
    tier = os.environ.get('VERIF_TIER', 'quick')
    os.makedirs(os.path.join(BUILD, 'features'), exist_ok=True)
    tc = toolchain()
    jobs = selections(tier)
    rc, out = Worker(0).check(jobs[0], tc)
    for feats, (rc, out) in pool(jobs, lambda w, j: w.check(j, tc)):
        V.count('feature selections')
        mechs = [f for f in feats if f in MECHS]
        V.count('mechanisms exposed', sum(len(MECHS[f]) for f in mechs))
        if rc == 0:
            continue
        errs = locations(out)
        if not errs:
            V('selection-unbuildable', 'the selection %s does not build: %s' % (','.join(feats), out[-600:]), None, out[-3000:])
        for msg, fn, line in errs[:6]:
            own = fn.startswith('src/lib.rs') and '/witness' in out and not os.path.isabs(fn)
            where = 'something it must offer or guarantee is missing' if own else '%s:%s' % (fn, line)
            V('selection %s %s' % (re.sub(r'`[^`]*::([^`:]*)`', r'`\1`', msg)[:90], '' if own else fn.split('/repo/')[-1]),
              'with features %s: %s (%s)' % (','.join(feats), msg, where), None, out[-3000:])


def facts_of(w, name, feats):
    """compiler facts of the tree under these features"""
    drv = extract.build_driver()
    out = os.path.join(BUILD, 'features', 'facts-%s.json' % name)
    fp = os.path.join(w.td, 'n', 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('rsasl-'):
                shutil.rmtree(os.path.join(fp, d))
    if os.path.exists(out):
        os.remove(out)
    env = base_env()
    ns = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=env, stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    env.update(LD_LIBRARY_PATH=ns + '/lib', MIRFACTS_CRATE='rsasl', MIRFACTS_OUT=out, RUSTC_WORKSPACE_WRAPPER=drv,
               CARGO_TARGET_DIR=os.path.join(w.td, 'n'), CARGO_BUILD_JOBS='2')
    rc = run_cmd(['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--no-default-features', '--features', ','.join(feats)],
                 env, REPO, w.log)
    if rc or not os.path.exists(out):
        raise ExtractError('facts for %s: %s' % (feats, open(w.log, errors='replace').read()[-1500:]))
    return out


def held(f, body, args):
    """names of the mechanisms in a registry a function makes"""
    e = Engine(f, models)
    got = set()

    def walk(s, x):
        if x[0] == 'A' and x[1] == mech.MECH:
            got.add(mech.mname(e, s, x[3][0]))
        elif x[0] == 'A':
            for y in x[3]:
                walk(s, y)
        elif x[0] in ('T', 'R'):
            for y in x[1]:
                walk(s, y)
    for s, v in e.exec_body(State(), body, args):
        walk(s, e.deep(s, v))
    return got


def check_registries(_, V):
    """what the default registry holds under each mechanism feature alone and under all of them, collected or built in"""
    os.makedirs(os.path.join(BUILD, 'features'), exist_ok=True)
    ms = sorted(MECHS)
    jobs = [(st, c) for st in (False, True) for c in [(m,) for m in ms] + [tuple(ms)]]

    def one(w, j):
        st, c = j
        feats = ('provider', 'config_builder') + (('registry_static',) if st else ()) + c
        return facts_of(w, '%s-%s' % ('s' if st else 'b', '+'.join(c) if len(c) < 3 else 'all'), feats)
    for (st, c), path in pool(jobs, one, 4):
        f = Facts(path)
        what = ('collected' if st else 'built-in', 'feature ' + c[0] if len(c) == 1 else 'all mechanism features')
        want = set().union(*(NAMES[m] for m in c))
        plus = set().union(*(PLUS.get(m, set()) for m in c))
        have = {m.name: m for m in mech.mechanisms(f)}
        V.count('registries')
        V.count('registered mechanisms', len(want))
        for n in sorted((want | plus) - set(have)):
            V('not-compiled %s' % n, '%s does not define the mechanism %s' % (what[1], n))
        if st:
            reg = [s.get('section') for p, s in f.statics.items() if p.endswith('MECHANISMS::LINKME_START')]
            sec = {s.get('section') for p, s in f.statics.items() if p.endswith('registry_static::MECHANISMS::LINKME_PLEASE')}
            got = {n for n, m in have.items() if f.statics[m.path].get('section') in sec and sec != {''}}
        else:
            k = [k for k, b in f.bodies.items() if 'blocks' in b and k.split('#')[0].endswith('Default>::default') and 'Registry' in k or
                 'blocks' in b and k.split('#')[0].endswith('::default') and 'registry::Registry' in k]
            if not k:
                raise Budget('no body for Registry::default')
            got = held(f, k[0], [])
        for n in sorted(want - got):
            V('unregistered %s %s' % (what[0], n), 'with %s the %s default registry does not hold %s' % (what[1], what[0], n))
        for n in sorted(got - want):
            V('registered %s %s' % (what[0], n), 'with %s the %s default registry holds %s' % (what[1], what[0], n))
        ks = [k for k, b in f.bodies.items() if 'blocks' in b and k.split('#')[0].split('::')[-1] == 'credentials' and 'egistry' in k]
        if len(ks) != 1:
            raise Budget('no body for Registry::credentials')
        for authzid in (False, True):
            V.count('credential registries')
            need = {n for n in want if n.startswith('SCRAM-') or n == 'PLAIN' or n == 'LOGIN' and not authzid}
            for n in sorted(need - held(f, ks[0], [TRUE if authzid else FALSE])):
                V('credentials-without %s' % n, 'with %s the registry for credentials does not hold %s' % (what[1], n))
