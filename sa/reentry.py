"""C27: what can run while an application callback is running never issues a callback.

A call graph over the type-checked program.  Roots are the methods an application can reach from inside a callback: the
inherent methods of every type SessionCallback hands out.  Calls through trait objects go to every implementation of the
method (instances by type, so that the closures mechanisms pass to requests are resolved one by one).  A path from a
root to a call that issues a request, action or validation, or steps a mechanism, is the violation."""
from collections import deque
from engine import *
from fw import short

HANDED = ('rsasl::callback::Request', 'rsasl::context::Context', 'rsasl::context::Demand', 'rsasl::validate::Validate', 'rsasl::session::SessionData')
CB = 'rsasl::callback::SessionCallback'
AUTH = 'rsasl::mechanism::Authentication'
SINKS = {(CB, 'callback'), (CB, 'validate'), (AUTH, 'step')}
FN = ('core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn')


def edges(f, k, impls, closures, dropimpl):
    """(target body or None, sink name or None, where) of every call in a body"""
    for bl in f.bodies[k].get('blocks', ()):
        t = bl['t']
        if t['t'] == 'drop':
            for x in dropped(f, t['place'].get('ty'), set()):
                for y in dropimpl.get(x, ()):
                    yield y, None, t.get('sp')
            continue
        if t['t'] != 'call':
            continue
        fn = t['f'].get('const', {}).get('fn') if isinstance(t['f'], dict) else None
        if not fn:
            for c in closures:
                yield c, None, t.get('sp')
            continue
        if (fn.get('trait'), fn.get('name')) in SINKS:
            yield None, '%s::%s' % (fn['trait'].split('::')[-1], fn['name']), t.get('sp')
            continue
        rk = fn.get('rkey')
        if rk in f.bodies and 'blocks' in f.bodies[rk]:
            yield rk, None, t.get('sp')
            continue
        if fn.get('trait') in FN and not fn.get('rlocal'):
            # a function value: of the application (a type parameter of the public interface) or an erased one
            if fn['args'] and 't' in fn['args'][0] and 'dyn ' in str(f.types[fn['args'][0]['t']].get('s', '')):
                for c in closures:
                    yield c, None, t.get('sp')
            continue
        for y in impls.get((fn.get('trait'), fn.get('name')), ()):
            yield y, None, t.get('sp')


def dropped(f, ty, seen):
    """ADTs a value of this type owns"""
    if ty is None or ty in seen:
        return
    seen.add(ty)
    t = f.types[ty]
    if t.get('path'):
        yield t['path']


def check_reentry(f, V):
    impls, closures, dropimpl = {}, [], {}
    for k, b in f.bodies.items():
        if 'blocks' not in b:
            continue
        if b.get('impl_trait'):
            impls.setdefault((b['impl_trait'] if isinstance(b['impl_trait'], str) else b['impl_trait'].get('path'), b.get('name')), []).append(k)
            if 'drop::Drop' in str(b['impl_trait']) and b.get('local'):
                dropimpl.setdefault(str(b.get('impl_self')), []).append(k)
        if '{closure' in k and b.get('local'):
            closures.append(k)
    roots = sorted(k for k, b in f.bodies.items() if 'blocks' in b and b.get('local') and not b.get('impl_trait') and handed(b.get('impl_self')))
    V.count('methods handed out', len(roots))
    seen = {k: None for k in roots}
    work = deque(roots)
    ncalls = 0
    while work:
        k = work.popleft()
        if f.bodies[k].get('local') and '{closure' in k:
            V.count('closures run in callbacks')
        if f.bodies[k].get('local'):
            V.count('functions run in callbacks')
        for y, sink, sp in edges(f, k, impls, closures, dropimpl):
            ncalls += 1
            if sink:
                chain, x = [], k
                while x is not None:
                    chain.append(short(x))
                    x = seen[x]
                V('nested %s in %s' % (sink, short(k).replace('rsasl::', '')), '%s is called at %s while an application callback is running' % (sink, ':'.join(str(x) for x in sp or ())), None,
                  'reached through\n   ' + '\n   '.join(reversed(chain)) + '\n   ' + sink)
            elif y not in seen:
                seen[y] = k
                work.append(y)
    V.count('calls followed', ncalls)
    issuers = sum(1 for k, b in f.bodies.items() if 'blocks' in b and b.get('local') for y, s, sp in edges(f, k, {}, (), {}) if s)
    V.count('issuing calls outside', issuers)


def handed(s):
    if not s:
        return False
    s = s if isinstance(s, str) else str(s)
    s = s if s.startswith('rsasl::') else 'rsasl::' + s
    return any(s == h or s.startswith(h + '<') for h in HANDED)
