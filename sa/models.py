"""Transfer functions for the library calls rsasl makes (core, alloc, digest, hmac, base64, rand, ...)
and for the framework boundary (MechanismData, writers, providers).  Each returns every outcome the
real function can have; an unmodelled function returns an unknown value that carries the provenance of
its arguments and overwrites everything its exclusive references reach."""
import re
from engine import *

CF = 'core::ops::control_flow::ControlFlow'
EXACT, TRAIT, RX = {}, {}, []
LOCAL = {}


def m(*paths):
    def d(f):
        for p in paths:
            EXACT[p] = f
        return f
    return d


def tr(*keys):
    def d(f):
        for k in keys:
            TRAIT[k] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            RX.append((re.compile(p), f))
        return f
    return d


_cache = {}


def lookup(c):
    """candidate models of a callee, most specific first"""
    k = (c.path, c.trait, c.name, c.fn.get('rlocal'))
    if k in _cache:
        return _cache[k]
    hs = []
    if c.path in EXACT:
        hs.append(EXACT[c.path])
    if not c.fn.get('rlocal') and (c.trait, c.name) in TRAIT:
        hs.append(TRAIT[(c.trait, c.name)])
    for r, f in RX:
        if r.search(c.path):
            hs.append(f)
    if not hs and c.fn.get('rlocal') is not True and c.trait and (c.trait.split('::')[-1], c.name) in TRAIT:
        hs.append(TRAIT[(c.trait.split('::')[-1], c.name)])
    _cache[k] = hs
    return hs


def unknown_callable(e, st, f, args, where, dest_ty):
    da = tuple(e.deep(st, a) for a in args)
    st.ev('dyncall', f, da)
    return [(st, ('call', 'dyn', e.deep(st, f)) + da)]


def tyarg(e, c, n=0):
    ts = [a['t'] for a in (c.fn.get('rargs') or c.fn['args']) if isinstance(a, dict) and 't' in a]
    return e.f.types[ts[n]]['s'] if n < len(ts) else '?'


def bool_(b): return TRUE if b else FALSE


# ---- Option / Result -------------------------------------------------------------------------------

def cases(e, st, v, adt=OPT):
    """split a two-variant value -> [(state, variant, payload)]"""
    d = v if v[0] == 'A' else e.datum(st, v)
    if d[0] == 'A':
        return [(st, d[2], d[3][0] if d[3] else None)]
    e.f.ptypes[d] = adt
    out = []
    for s, c in e.switch_value(st, ('discr', d), [0, 1], 'isize'):
        if c is None:
            continue
        n = {OPT: ('None', 'Some'), RES: ('Ok', 'Err')}.get(adt, ('0', '1'))[c]
        out.append((s, c, None if (adt == OPT and c == 0) else ('fld', d, n + '.0')))
    return out


def payload_ref(e, st, a, adt, variant, payload):
    """reference to the payload of the enum the pointer a refers to"""
    if a[0] == 'P':
        return ('P', a[1], tuple(a[2]) + (('v', adt, variant), ('f', 0, adt)))
    return payload


def omethod(*names):
    return m(*['core::option::Option::<T>::' + n for n in names])


def rmethod(*names):
    return m(*['core::result::Result::<T, E>::' + n for n in names])


@omethod('is_some', 'is_none')
def _(e, st, c, a):
    d = e.datum(st, a[0])
    want = 1 if c.name == 'is_some' else 0
    if d[0] == 'A':
        return [(st, bool_(d[2] == want))]
    e.f.ptypes[d] = OPT
    k = st.facts.get(('V', ('discr', d)))
    if k is not None:
        return [(st, bool_(k == want))]
    return [(s, bool_(v == want)) for s, v, _ in cases(e, st, d)]


@rmethod('is_ok', 'is_err')
def _(e, st, c, a):
    want = 0 if c.name == 'is_ok' else 1
    return [(s, bool_(v == want)) for s, v, _ in cases(e, st, e.datum(st, a[0]), RES)]


@omethod('is_some_and', 'is_none_or')
def _(e, st, c, a):
    out = []
    for s, v, p in cases(e, st, a[0]):
        if v:
            out += e.call_value(s, a[1], [p], c.where)
        else:
            out.append((s, bool_(c.name == 'is_none_or')))
    return out


@rmethod('is_ok_and', 'is_err_and')
def _(e, st, c, a):
    out = []
    want = 0 if c.name == 'is_ok_and' else 1
    for s, v, p in cases(e, st, a[0], RES):
        if v == want:
            out += e.call_value(s, a[1], [p], c.where)
        else:
            out.append((s, FALSE))
    return out


@omethod('as_ref', 'as_mut', 'as_deref', 'as_deref_mut')
def _(e, st, c, a):
    mutable = 'mut' in c.name
    out = []
    for s, v, p in cases(e, st, a[0]):
        if not v:
            out.append((s, NONE))
        elif mutable or p[0] not in ('b',) and not isterm(p):
            r = payload_ref(e, s, a[0], OPT, 1, p)
            if 'deref' in c.name:
                q = e.read(s, r[1], r[2]) if r[0] == 'P' else r
                if q[0] in ('P', 'D'):
                    r = q
            out.append((s, some(r)))
        else:
            out.append((s, some(p)))
    return out


@rmethod('as_ref', 'as_mut', 'as_deref')
def _(e, st, c, a):
    out = []
    for s, v, p in cases(e, st, a[0], RES):
        out.append((s, ('A', RES, v, (payload_ref(e, s, a[0], RES, v, p),))))
    return out


@m('core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied', 'core::option::Option::<&mut T>::cloned',
   'core::option::Option::<&mut T>::copied')
def _(e, st, c, a):
    return [(s, some(e.datum(s, p)) if v else NONE) for s, v, p in cases(e, st, a[0])]


@omethod('take')
def _(e, st, c, a):
    v = e.datum(st, a[0])
    if a[0][0] == 'P':
        e.write(st, a[0][1], a[0][2], NONE)
    else:
        st.over[a[0]] = NONE
    return [(st, v)]


@omethod('replace', 'insert', 'get_or_insert', 'get_or_insert_with')
def _(e, st, c, a):
    if a[0][0] != 'P':
        return NotImplemented
    old = e.datum(st, a[0])
    if c.name == 'replace':
        e.write(st, a[0][1], a[0][2], some(a[1]))
        return [(st, old)]
    if c.name == 'insert':
        e.write(st, a[0][1], a[0][2], some(a[1]))
        return [(st, payload_ref(e, st, a[0], OPT, 1, None))]
    out = []
    for s, v, p in cases(e, st, old):
        if v:
            out.append((s, payload_ref(e, s, a[0], OPT, 1, None)))
        else:
            vals = [(s, a[1])] if c.name == 'get_or_insert' else e.call_value(s, a[1], [], c.where)
            for s2, x in vals:
                e.write(s2, a[0][1], a[0][2], some(x))
                out.append((s2, payload_ref(e, s2, a[0], OPT, 1, None)))
    return out


def hof(adt, spec):
    """spec: variant -> one of ('keep',), ('map',k), ('call',), ('arg',i), ('none',), ('panic',), ('wrap', adt,variant)"""
    def h(e, st, c, a):
        out = []
        for s, v, p in cases(e, st, a[0], adt):
            out += spec(e, s, c, a, v, p)
        return out
    return h


def wrapv(adt, var, outs): return [(s, ('A', adt, var, (x,))) for s, x in outs]


def _opt_spec(e, s, c, a, v, p):
    n = c.name
    cv = lambda f, args: e.call_value(s, f, args, c.where)
    if n == 'map':
        return wrapv(OPT, 1, cv(a[1], [p])) if v else [(s, NONE)]
    if n == 'inspect':
        if not v:
            return [(s, NONE)]
        ref = s.alloc(p)
        return [(s2, some(p)) for s2, _ in e.call_value(s, a[1], [ref], c.where)]
    if n == 'and_then':
        return cv(a[1], [p]) if v else [(s, NONE)]
    if n == 'and':
        return [(s, a[1] if v else NONE)]
    if n == 'or':
        return [(s, some(p) if v else a[1])]
    if n == 'xor':
        return NotImplemented
    if n == 'or_else':
        return [(s, some(p))] if v else cv(a[1], [])
    if n == 'ok_or':
        return [(s, ok(p) if v else err(a[1]))]
    if n == 'ok_or_else':
        return [(s, ok(p))] if v else wrapv(RES, 1, cv(a[1], []))
    if n == 'unwrap_or':
        return [(s, p if v else a[1])]
    if n == 'unwrap_or_else':
        return [(s, p)] if v else cv(a[1], [])
    if n == 'unwrap_or_default':
        return [(s, p if v else default_of(e, c.dest_ty))]
    if n == 'map_or':
        return cv(a[2], [p]) if v else [(s, a[1])]
    if n == 'map_or_else':
        return cv(a[2], [p]) if v else cv(a[1], [])
    if n in ('unwrap', 'expect', 'unwrap_unchecked'):
        if v:
            return [(s, p)]
        e.panic(s, n, 'None', c.where)
        return []
    if n == 'filter':
        if not v:
            return [(s, NONE)]
        ref = s.alloc(p)
        out = []
        for s2, b in e.call_value(s, a[1], [ref], c.where):
            for s3, t in e.branch(s2, b):
                out.append((s3, some(p) if t else NONE))
        return out
    if n == 'zip':
        out = []
        if not v:
            return [(s, NONE)]
        for s2, v2, p2 in cases(e, s, a[1]):
            out.append((s2, some(('T', (p, p2))) if v2 else NONE))
        return out
    if n == 'transpose':
        if not v:
            return [(s, ok(NONE))]
        return [(s2, ok(some(p2)) if v2 == 0 else err(p2)) for s2, v2, p2 in cases(e, s, p, RES)]
    if n == 'flatten':
        return [(s, p if v else NONE)]
    raise KeyError(n)


omethod('map', 'and_then', 'and', 'or', 'or_else', 'ok_or', 'ok_or_else', 'unwrap_or', 'unwrap_or_else', 'inspect',
        'unwrap_or_default', 'map_or', 'map_or_else', 'unwrap', 'expect', 'filter', 'zip')(hof(OPT, _opt_spec))
m('core::option::Option::<core::result::Result<T, E>>::transpose',
  'core::option::Option::<core::option::Option<T>>::flatten')(hof(OPT, _opt_spec))


def _res_spec(e, s, c, a, v, p):
    n = c.name
    good = v == 0
    cv = lambda f, args: e.call_value(s, f, args, c.where)
    if n == 'map':
        return wrapv(RES, 0, cv(a[1], [p])) if good else [(s, err(p))]
    if n == 'map_err':
        return [(s, ok(p))] if good else wrapv(RES, 1, cv(a[1], [p]))
    if n == 'and_then':
        return cv(a[1], [p]) if good else [(s, err(p))]
    if n == 'and':
        return [(s, a[1] if good else err(p))]
    if n == 'or_else':
        return [(s, ok(p))] if good else cv(a[1], [p])
    if n == 'or':
        return [(s, ok(p) if good else a[1])]
    if n == 'ok':
        return [(s, some(p) if good else NONE)]
    if n == 'err':
        return [(s, NONE if good else some(p))]
    if n == 'unwrap_or':
        return [(s, p if good else a[1])]
    if n == 'unwrap_or_else':
        return [(s, p)] if good else cv(a[1], [p])
    if n == 'unwrap_or_default':
        return [(s, p if good else default_of(e, c.dest_ty))]
    if n == 'map_or':
        return cv(a[2], [p]) if good else [(s, a[1])]
    if n == 'map_or_else':
        return cv(a[2], [p]) if good else cv(a[1], [p])
    if n in ('unwrap', 'expect'):
        if good:
            return [(s, p)]
        e.panic(s, n, 'Err', c.where)
        return []
    if n in ('unwrap_err', 'expect_err'):
        if not good:
            return [(s, p)]
        e.panic(s, n, 'Ok', c.where)
        return []
    if n == 'transpose':
        if not good:
            return [(s, some(err(p)))]
        return [(s2, some(ok(p2)) if v2 else NONE) for s2, v2, p2 in cases(e, s, p)]
    if n == 'inspect_err':
        return [(s, ok(p))] if good else [(s2, err(p)) for s2, _ in cv(a[1], [s.alloc(p)])]
    if n == 'inspect':
        return [(s, err(p))] if not good else [(s2, ok(p)) for s2, _ in cv(a[1], [s.alloc(p)])]
    raise KeyError(n)


rmethod('map', 'map_err', 'and_then', 'and', 'or_else', 'or', 'ok', 'err', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default',
        'map_or', 'map_or_else', 'unwrap', 'expect', 'unwrap_err', 'expect_err', 'inspect_err', 'inspect')(hof(RES, _res_spec))
m('core::result::Result::<core::option::Option<T>, E>::transpose')(hof(RES, _res_spec))


def default_of(e, tyi):
    t = e.f.types[tyi] if tyi is not None else {'k': '?', 's': '?'}
    if t['k'] in ('uint', 'int', 'bool'):
        return ('i', 0)
    if t['k'] == 'adt' and t['path'] == OPT:
        return NONE
    if 'String' in t['s'] or t['s'].startswith('&') or 'Vec<u8>' in t['s']:
        return ('b', b'')
    if 'GenericArray' in t['s']:
        return ('zeros', typenum(t['s']))
    if t['k'] == 'array' and isinstance(t['len'], int):
        return ('b', bytes(t['len'])) if e.f.types[t['elem']]['s'] == 'u8' else ('repeat', t['len'], ('i', 0))
    if t['k'] == 'tuple' and not t['elems']:
        return UNIT
    return ('default', t['s'])


@tr(('core::default::Default', 'default'))
def _(e, st, c, a):
    return [(st, default_of(e, c.dest_ty))]


@tr(('core::ops::try_trait::Try', 'branch'))
def _(e, st, c, a):
    out = []
    if 'option::Option' in c.path:
        for s, v, p in cases(e, st, a[0], OPT):
            out.append((s, ('A', CF, 0, (p,)) if v else ('A', CF, 1, (NONE,))))
        return out
    if 'result::Result' in c.path:
        for s, v, p in cases(e, st, a[0], RES):
            out.append((s, ('A', CF, 0, (p,)) if v == 0 else ('A', CF, 1, (err(p),))))
        return out
    if 'control_flow::ControlFlow' in c.path:
        d = e.datum(st, a[0])
        if d[0] == 'A':
            return [(st, ('A', CF, d[2], (d[3][0] if d[2] == 0 else ('A', CF, 1, d[3]),)))]
    return NotImplemented


@tr(('core::ops::try_trait::Try', 'from_output'))
def _(e, st, c, a):
    if 'option::Option' in c.path:
        return [(st, some(a[0]))]
    if 'result::Result' in c.path:
        return [(st, ok(a[0]))]
    return NotImplemented


# ---- memory, conversions ---------------------------------------------------------------------------

@m('core::mem::replace')
def _(e, st, c, a):
    if a[0][0] != 'P':
        return NotImplemented
    v = e.read(st, a[0][1], a[0][2])
    e.write(st, a[0][1], a[0][2], a[1])
    return [(st, v)]


@m('core::mem::take')
def _(e, st, c, a):
    if a[0][0] != 'P':
        return NotImplemented
    v = e.read(st, a[0][1], a[0][2])
    d = NONE if v[0] == 'A' and v[1] == OPT else default_of(e, c.dest_ty)
    e.write(st, a[0][1], a[0][2], d)
    return [(st, v)]


@m('core::mem::swap')
def _(e, st, c, a):
    if a[0][0] != 'P' or a[1][0] != 'P':
        return NotImplemented
    v, w = e.read(st, a[0][1], a[0][2]), e.read(st, a[1][1], a[1][2])
    e.write(st, a[0][1], a[0][2], w)
    e.write(st, a[1][1], a[1][2], v)
    return [(st, UNIT)]


@m('core::mem::drop', 'core::mem::forget', 'core::hint::black_box')
def _(e, st, c, a):
    return [(st, UNIT)]


@m('core::hint::must_use')
def _(e, st, c, a):
    return [(st, a[0])]


@m('alloc::boxed::Box::<T>::new', 'alloc::rcs::arc::Arc::<T>::new', 'alloc::sync::Arc::<T>::new', 'alloc::rc::Rc::<T>::new',
   'alloc::boxed::Box::<T>::pin')
def _(e, st, c, a):
    if a[0][0] in ('b',) or isterm(a[0]):
        if e.f.types[c.argtys[0]]['s'] in ('[u8]',) if c.argtys else False:
            return [(st, a[0])]
    return [(st, st.alloc(a[0]))]


def ident(e, st, c, a):
    return [(st, a[0])]


def data(e, st, c, a):
    return [(st, e.datum(st, a[0]))]


@tr(('core::ops::deref::Deref', 'deref'), ('core::ops::deref::DerefMut', 'deref_mut'))
def _(e, st, c, a):
    # &Box<T>/&Arc<T> -> &T: one level of pointer is removed
    v = a[0]
    if v[0] == 'P':
        w = e.read(st, v[1], v[2])
        if w[0] in ('P', 'D'):
            return [(st, w)]
        if w[0] == 'A' and w[1] == 'alloc::borrow::Cow':
            return [(st, e.datum(st, w))]
    return [(st, v)]


@tr(('core::convert::AsRef', 'as_ref'), ('core::borrow::Borrow', 'borrow'), ('core::convert::AsMut', 'as_mut'),
    ('core::borrow::BorrowMut', 'borrow_mut'))
def _(e, st, c, a):
    v = a[0]
    if v[0] == 'P':
        w = e.read(st, v[1], v[2])
        if w[0] in ('P', 'D'):
            return [(st, w)]
        if w[0] == 'A' and w[1] == 'alloc::borrow::Cow':
            return [(st, e.datum(st, w))]
    return [(st, v)]


@tr(('core::clone::Clone', 'clone'), ('alloc::borrow::ToOwned', 'to_owned'))
def _(e, st, c, a):
    v = a[0]
    if v[0] == 'P':
        w = e.read(st, v[1], v[2])
        if w[0] == 'P' and ('Arc<' in c.path or '&T' in c.path or 'Rc<' in c.path):
            return [(st, w)]
        if w[0] == 'P':
            return [(st, st.alloc(e.datum(st, w)))]
        return [(st, w)]
    return [(st, e.datum(st, v))]


# views and owned copies of the same bytes
BYTESID = [
    'alloc::string::String::as_bytes',
    'alloc::string::String::as_str',
    'alloc::string::String::into_bytes',
    'alloc::string::String::into_boxed_str',
    'alloc::vec::Vec::<T, A>::as_slice',
    'alloc::vec::Vec::<T,A>::into_boxed_slice',
    'alloc::vec::Vec::<T, A>::into_boxed_slice',
    'core::str::<impl str>::as_bytes',
    'core::slice::<impl [T]>::to_vec',
    'alloc::slice::<impl [T]>::to_vec',
    'alloc::slice::<impl [T]>::into_vec',
    'generic_array::GenericArray::<T, N>::as_slice',
    'core::array::<impl [T; N]>::as_slice',
    "core::io::io_slice::IoSlice::<'a>::new",
    "std::io::IoSlice::<'a>::new",
    "alloc::borrow::Cow::<'_, B>::into_owned",
    'alloc::str::<impl str>::to_owned',
    'digest::mac::CtOutput::<T>::into_bytes',
    "alloc::borrow::Cow::<'_, B>::to_mut",
    'alloc::str::<impl str>::into_string',
    'core::str::<impl str>::as_str',
    'alloc::string::String::into_string',
    'alloc::boxed::Box::<T>::into_vec',
    "core::io::io_slice::IoSlice::<'a>::as_slice",
    'generic_array::GenericArray::<T, N>::from_slice',
]
for _p in BYTESID:
    EXACT[_p] = data
for _p in ('alloc::string::String::as_mut_str', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'generic_array::GenericArray::<T, N>::as_mut_slice',
           'core::array::<impl [T; N]>::as_mut_slice', 'core::iter::traits::iterator::Iterator::by_ref', 'core::io::write::Write::by_ref'):
    EXACT[_p] = ident


@tr(('alloc::string::ToString', 'to_string'), ('alloc::string::SpecToString', 'spec_to_string'))
def _(e, st, c, a):
    t = tyarg(e, c)
    d = e.deep(st, a[0])
    if 'str' in t or 'String' in t:
        return [(st, d)]
    return [(st, ('tostr', d))]


BYTESY = ('str', 'alloc::string::String', '[u8]', 'alloc::vec::Vec<u8>', 'u8;')


def bytesy(s):
    return any(b in s for b in BYTESY) and not any(x in s for x in ('Error', 'dyn '))


@tr(('core::convert::From', 'from'))
def _(e, st, c, a):
    if c.fn.get('rlocal'):
        return NotImplemented
    src = e.f.types[c.argtys[0]]['s'] if c.argtys else tyarg(e, c, 1)
    dst = e.f.types[c.dest_ty]['s'] if c.dest_ty is not None else tyarg(e, c, 0)
    if c.path == '<T as core::convert::From<T>>::from' or src == dst:
        return [(st, a[0])]
    if 'option::Option' in dst and c.path.startswith('<core::option'):
        return [(st, some(a[0]))]
    if bytesy(src) and bytesy(dst):
        return [(st, e.datum(st, a[0]))]
    if e.f.types[c.dest_ty]['k'] in ('uint', 'int') if c.dest_ty is not None else False:
        return [(st, a[0])]
    if 'alloc::boxed::Box<' in dst and 'dyn' not in dst:
        return [(st, st.alloc(a[0]))]
    return [(st, ('conv', dst, e.deep(st, a[0])))]


@tr(('core::convert::Into', 'into'), ('core::convert::TryInto', '_'))
def _(e, st, c, a):
    if c.key and c.key in e.f.bodies:
        return e.exec_body(st, c.key, list(a))
    src = e.f.types[c.argtys[0]]['s'] if c.argtys else '?'
    dst = e.f.types[c.dest_ty]['s'] if c.dest_ty is not None else '?'
    if src == dst:
        return [(st, a[0])]
    if bytesy(src) and bytesy(dst):
        return [(st, e.datum(st, a[0]))]
    return NotImplemented


@tr(('core::convert::TryFrom', 'try_from'), ('core::convert::TryInto', 'try_into'))
def _(e, st, c, a):
    if c.fn.get('rlocal'):
        return NotImplemented
    if c.name == 'try_into' and c.key and c.key in e.f.bodies:
        return e.exec_body(st, c.key, list(a))
    v = e.datum(st, a[0])
    s2 = st.fork()
    dst = e.f.types[c.dest_ty]['s'] if c.dest_ty is not None else '?'
    mm = re.search(r'\[u8; (\d+)', dst)
    if mm:
        n = ('i', int(mm.group(1)))
        out = []
        for s, b in e.branch(st, mkeq(mklen(v), n)):
            out.append((s, ok(v) if b else err(('tryfrom-err', v))))
        return out
    return [(st, ok(v)), (s2, err(('tryfrom-err', v)))]


# ---- equality / ordering ---------------------------------------------------------------------------

def eqv(e, st, x, y):
    x, y = e.deep(st, x), e.deep(st, y)
    if x == y:
        return TRUE
    if x[0] == 'A' and y[0] == 'A' and x[1] == y[1]:
        if x[2] != y[2]:
            return FALSE
        r = TRUE
        for p, q in zip(x[3], y[3]):
            z = eqv(e, st, p, q)
            if z == FALSE:
                return FALSE
            if r == TRUE:
                r = z
            elif z != TRUE:
                r = ('and', r, z)
        return r
    if x[0] in ('T',) and y[0] == 'T' and len(x[1]) == len(y[1]):
        r = TRUE
        for p, q in zip(x[1], y[1]):
            z = eqv(e, st, p, q)
            if z == FALSE:
                return FALSE
            r = z if r == TRUE else r if z == TRUE else ('and', r, z)
        return r
    for p, q in ((x, y), (y, x)):
        if p[0] == 'A' and isterm(q):
            a = e.f.adts.get(p[1])
            if a and a['kind'] == 'enum':
                e.f.ptypes[q] = p[1]
                d = ('eq', ('discr', q), ('i', a['variants'][p[2]]['discr']))
                k = st.facts.get(('V', ('discr', q)))
                if k is not None and k != d[2][1]:
                    return FALSE
                if not p[3]:
                    return d
                z = eqv(e, st, p[3][0], ('fld', q, a['variants'][p[2]]['name'] + '.0'))
                return FALSE if z == FALSE else d if z == TRUE else ('and', d, z)
    return mkeq(x, y)


@tr(('core::cmp::PartialEq', 'eq'), ('core::cmp::PartialEq', 'ne'), ('subtle::ConstantTimeEq', 'ct_eq'))
def _(e, st, c, a):
    v = eqv(e, st, a[0], a[1])
    return [(st, mknot(v) if c.name == 'ne' else v)]


@m('core::slice::<impl [T]>::eq_ignore_ascii_case', 'core::str::<impl str>::eq_ignore_ascii_case')
def _(e, st, c, a):
    return [(st, ('eqic',) + tuple(sorted((e.deep(st, a[0]), e.deep(st, a[1])), key=repr)))]


@tr(('core::cmp::Ord', 'cmp'), ('core::cmp::PartialOrd', 'partial_cmp'))
def _(e, st, c, a):
    if c.fn.get('rlocal') or 'Option' in c.path:
        return NotImplemented
    x, y = e.deep(st, a[0]), e.deep(st, a[1])
    if x[0] == 'i' and y[0] == 'i':
        v = ('A', 'core::cmp::Ordering', 0 if x[1] < y[1] else 1 if x[1] == y[1] else 2, ())
    else:
        v = ('cmp', x, y)
        e.f.ptypes[v] = 'core::cmp::Ordering'
    return [(st, v if c.name == 'cmp' else some(v))]


@tr(('core::cmp::PartialOrd', 'lt'), ('core::cmp::PartialOrd', 'le'), ('core::cmp::PartialOrd', 'gt'), ('core::cmp::PartialOrd', 'ge'))
def _(e, st, c, a):
    x, y = e.deep(st, a[0]), e.deep(st, a[1])
    v = {'lt': lambda: mklt(x, y), 'gt': lambda: mklt(y, x), 'le': lambda: mknot(mklt(y, x)), 'ge': lambda: mknot(mklt(x, y))}[c.name]()
    return [(st, v)]


@m('core::cmp::min', 'core::cmp::max', 'core::cmp::Ord::min', 'core::cmp::Ord::max')
def _(e, st, c, a):
    x, y = a[0], a[1]
    if x[0] == 'i' and y[0] == 'i':
        return [(st, ('i', min(x[1], y[1]) if c.name == 'min' else max(x[1], y[1])))]
    out = []
    for s, b in e.branch(st, mklt(x, y)):
        out.append((s, (x if b else y) if c.name == 'min' else (y if b else x)))
    return out


# ---- vectors and strings ---------------------------------------------------------------------------

def is_bytes_ty(s): return re.search(r'(^|::)(String$|Vec<u8[,>])', s) is not None


@m('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'alloc::string::String::new', 'alloc::string::String::with_capacity')
def _(e, st, c, a):
    s = e.f.types[c.dest_ty]['s'] if c.dest_ty is not None else tyarg(e, c)
    return [(st, ('b', b'') if is_bytes_ty(s) else ('R', ()))]


def setc(e, st, ptr, v):
    if ptr[0] == 'P':
        e.write(st, ptr[1], ptr[2], v)
    else:
        st.over[ptr] = v
        st.ev('store', ptr, v)


@m('alloc::vec::Vec::<T, A>::push', 'alloc::string::String::push')
def _(e, st, c, a):
    cur = e.datum(st, a[0])
    if cur[0] == 'R':
        v = ('R', cur[1] + (a[1],)) if len(cur[1]) < 64 else ('cat', (cur, a[1]))
    elif c.path.startswith('alloc::string'):
        v = cat(cur, ('b', chr(a[1][1]).encode()) if a[1][0] == 'i' else ('byte', a[1]))
    else:
        v = cat(cur, ('b', bytes([a[1][1] & 255])) if a[1][0] == 'i' else ('byte', a[1]))
    setc(e, st, a[0], v)
    return [(st, UNIT)]


@m('alloc::vec::Vec::<T, A>::extend_from_slice', 'alloc::string::String::push_str', 'alloc::vec::Vec::<T, A>::append')
def _(e, st, c, a):
    cur, x = e.datum(st, a[0]), e.datum(st, a[1])
    if cur[0] == 'R' and x[0] == 'R':
        v = ('R', cur[1] + x[1])
    else:
        v = cat(cur, x)
    setc(e, st, a[0], v)
    if c.name == 'append':
        setc(e, st, a[1], ('b', b''))
    return [(st, UNIT)]


@tr(('core::ops::arith::Add', 'add'), ('core::ops::arith::AddAssign', 'add_assign'))
def _(e, st, c, a):
    # text: the only strings that can be added to are owned ones
    if not c.argtys or not e.f.types[c.argtys[0]]['s'].endswith('string::String'):
        return NotImplemented
    if c.name == 'add':
        return [(st, cat(e.datum(st, a[0]), e.datum(st, a[1])))]
    setc(e, st, a[0], cat(e.datum(st, a[0]), e.datum(st, a[1])))
    return [(st, UNIT)]


@tr(('core::iter::traits::collect::Extend', 'extend'))
def _(e, st, c, a):
    cur, x = e.datum(st, a[0]), e.datum(st, a[1])
    if x[0] == 'it':
        return [(s, UNIT) for s, y in collect(e, st, x, c.where) if setc(e, s, a[0], cat(cur, y)) is None]
    setc(e, st, a[0], cat(cur, x) if cur[0] != 'R' or x[0] != 'R' else ('R', cur[1] + x[1]))
    return [(st, UNIT)]


@m('alloc::vec::Vec::<T, A>::clear', 'alloc::string::String::clear')
def _(e, st, c, a):
    cur = e.datum(st, a[0])
    setc(e, st, a[0], ('R', ()) if cur[0] == 'R' else ('b', b''))
    return [(st, UNIT)]


@m('alloc::vec::Vec::<T, A>::truncate', 'alloc::string::String::truncate')
def _(e, st, c, a):
    cur = e.datum(st, a[0])
    out = []
    for s, b in e.branch(st, mklt(mklen(cur), a[1])):
        if not b:
            setc(e, s, a[0], mkslice(cur, ('i', 0), a[1]))
        out.append((s, UNIT))
    return out


@m('alloc::vec::Vec::<T, A>::resize')
def _(e, st, c, a):
    cur = e.datum(st, a[0])
    setc(e, st, a[0], ('resize', cur, a[1], a[2]))
    return [(st, UNIT)]


@m('alloc::vec::Vec::<T, A>::reserve', 'alloc::string::String::reserve', 'alloc::vec::Vec::<T, A>::shrink_to_fit',
   'alloc::vec::Vec::<T, A>::reserve_exact')
def _(e, st, c, a):
    return [(st, UNIT)]


@m('alloc::vec::Vec::<T, A>::capacity')
def _(e, st, c, a):
    return [(st, ('capacity', e.datum(st, a[0])))]


@m('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len')
def _(e, st, c, a):
    return [(st, mklen(e.datum(st, a[0])))]


@m('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty',
   'alloc::string::String::is_empty')
def _(e, st, c, a):
    return [(st, mkeq(mklen(e.datum(st, a[0])), ('i', 0)))]


RNG = 'core::ops::range::'


def range_of(r, n):
    """range value -> (lo, hi) with hi None for 'to the end'"""
    if r[0] != 'A' or not r[1].startswith(RNG):
        return None
    k = r[1][len(RNG):]
    if k == 'Range':
        return r[3][0], r[3][1]
    if k == 'RangeFrom':
        return r[3][0], None
    if k == 'RangeTo':
        return ('i', 0), r[3][0]
    if k == 'RangeFull':
        return ('i', 0), None
    if k == 'RangeInclusive':
        return r[3][0], add(r[3][1], ('i', 1))
    if k == 'RangeToInclusive':
        return ('i', 0), add(r[3][0], ('i', 1))
    return None


@m('core::ops::range::RangeInclusive::<Idx>::new')
def _(e, st, c, a):
    return [(st, ('A', 'core::ops::range::RangeInclusive', 0, (a[0], a[1])))]


@m('core::ops::range::RangeInclusive::<Idx>::contains', 'core::ops::range::Range::<Idx>::contains')
def _(e, st, c, a):
    r = range_of(e.datum(st, a[0]), None)
    x = e.datum(st, a[1])
    if r is None or r[1] is None:
        return NotImplemented
    u8 = 'u8' in tyarg(e, c)
    lt = (lambda p, q: e.bytecmp(st, p, q)) if u8 else mklt
    lo = mknot(lt(x, r[0]))
    hi = lt(x, r[1])
    return [(s, bool_(b)) for s, b in e.branch(st, ('and', lo, hi))]


def index(e, st, c, a, checked=False):
    x, i = e.datum(st, a[0]), a[1]
    i = e.datum(st, i)
    out = []
    r = range_of(i, x)
    n = mklen(x)
    if r is None:
        if i[0] != 'A':
            for s, b in e.branch(st, mklt(i, n)):
                if b:
                    v = at(x, i)
                    if a[0][0] == 'P' and c.name in ('index_mut', 'get_mut'):
                        v = ('P', ('E', a[0], i), ())
                    out.append((s, some(v) if checked else v))
                elif checked:
                    out.append((s, NONE))
                else:
                    e.panic(s, 'index', '', c.where)
            return out
        return NotImplemented
    lo, hi = r
    conds = []
    if hi is not None:
        conds.append(mklt(n, hi))
        conds.append(mklt(hi, lo))
    else:
        conds.append(mklt(n, lo))
    live = [st]
    for cd in conds:
        nl = []
        for s in live:
            for s2, b in e.branch(s, cd):
                if not b:
                    nl.append(s2)
                elif checked:
                    out.append((s2, NONE))
                else:
                    e.panic(s2, 'slice', '', c.where)
        live = nl
    for s in live:
        if a[0][0] == 'P' and c.name in ('index_mut', 'get_mut'):
            v = a[0] if lo == ('i', 0) and hi is None else ('P', ('V', ('mutslice', mkslice(x, lo, hi), s.new())), ())
        else:
            v = mkslice(x, lo, hi)
        out.append((s, some(v) if checked else v))
    return out


@tr(('core::ops::index::Index', 'index'), ('core::ops::index::IndexMut', 'index_mut'))
def _(e, st, c, a):
    if c.fn.get('rlocal'):
        return NotImplemented
    return index(e, st, c, a)


@m('core::slice::<impl [T]>::get', 'core::str::<impl str>::get', 'core::slice::<impl [T]>::get_mut')
def _(e, st, c, a):
    return index(e, st, c, a, True)


@m('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def _(e, st, c, a):
    x = e.datum(st, a[0])
    n = mklen(x)
    out = []
    for s, b in e.branch(st, mkeq(n, ('i', 0))):
        if b:
            out.append((s, NONE))
        elif c.name == 'first':
            out.append((s, some(at(x, ('i', 0)))))
        elif c.name == 'last':
            out.append((s, some(at(x, sub(n, ('i', 1))))))
        elif c.name == 'split_first':
            out.append((s, some(('T', (at(x, ('i', 0)), mkslice(x, ('i', 1), None))))))
        else:
            out.append((s, some(('T', (at(x, sub(n, ('i', 1))), mkslice(x, ('i', 0), sub(n, ('i', 1))))))))
    return out


@m('core::slice::<impl [T]>::split_at', 'core::str::<impl str>::split_at', 'core::slice::<impl [T]>::split_at_checked',
   'core::str::<impl str>::split_at_checked', 'core::slice::<impl [T]>::split_at_unchecked')
def _(e, st, c, a):
    x, i = e.datum(st, a[0]), a[1]
    out = []
    chk = c.name.endswith('_checked')
    for s, b in e.branch(st, mklt(mklen(x), i)):
        if b:
            if chk:
                out.append((s, NONE))
            else:
                e.panic(s, 'split_at', '', c.where)
        else:
            v = ('T', (mkslice(x, ('i', 0), i), mkslice(x, i, None)))
            out.append((s, some(v) if chk else v))
    return out


def starts(e, st, x, p):
    """-> [(state, bool)]"""
    if p[0] == 'b' or p[0] in ('i',):
        n = len(p[1])
        out = []
        for s, b in e.branch(st, mklt(mklen(x), ('i', n))):
            if b:
                out.append((s, False))
            else:
                out += e.branch(s, mkeq(mkslice(x, ('i', 0), ('i', n)), p))
        return out
    out = []
    n = mklen(p)
    for s, b in e.branch(st, mklt(mklen(x), n)):
        if b:
            out.append((s, False))
        else:
            out += e.branch(s, mkeq(mkslice(x, ('i', 0), n), p))
    return out


def ends(e, st, x, p):
    n, l = mklen(p), mklen(x)
    out = []
    for s, b in e.branch(st, mklt(l, n)):
        if b:
            out.append((s, False))
        else:
            out += e.branch(s, mkeq(mkslice(x, sub(l, n), None), p))
    return out


def pat_bytes(e, st, v):
    v = e.datum(st, v)
    if v[0] == 'i':
        return ('b', chr(v[1]).encode())
    return v


@m('core::slice::<impl [T]>::starts_with', 'core::str::<impl str>::starts_with')
def _(e, st, c, a):
    p = pat_bytes(e, st, a[1])
    if p[0] == 'C':
        return NotImplemented
    return [(s, bool_(b)) for s, b in starts(e, st, e.datum(st, a[0]), p)]


@m('core::slice::<impl [T]>::ends_with', 'core::str::<impl str>::ends_with')
def _(e, st, c, a):
    p = pat_bytes(e, st, a[1])
    if p[0] == 'C':
        return NotImplemented
    return [(s, bool_(b)) for s, b in ends(e, st, e.datum(st, a[0]), p)]


@m('core::slice::<impl [T]>::strip_prefix', 'core::str::<impl str>::strip_prefix')
def _(e, st, c, a):
    x, p = e.datum(st, a[0]), pat_bytes(e, st, a[1])
    return [(s, some(mkslice(x, mklen(p), None)) if b else NONE) for s, b in starts(e, st, x, p)]


@m('core::slice::<impl [T]>::strip_suffix', 'core::str::<impl str>::strip_suffix')
def _(e, st, c, a):
    x, p = e.datum(st, a[0]), pat_bytes(e, st, a[1])
    return [(s, some(mkslice(x, ('i', 0), sub(mklen(x), mklen(p)))) if b else NONE) for s, b in ends(e, st, x, p)]


@m('core::slice::<impl [T]>::contains')
def _(e, st, c, a):
    x, v = e.datum(st, a[0]), e.datum(st, a[1])
    if v[0] == 'i' and 'u8' in tyarg(e, c):
        return [(st, mknot(('allin', x, ALLB & ~(1 << v[1]))))]
    if x[0] == 'R':
        r = FALSE
        for q in x[1]:
            z = eqv(e, st, q, v)
            if z == TRUE:
                return [(st, TRUE)]
            if z != FALSE:
                r = z if r == FALSE else ('or', r, z)
        return [(st, r)]
    return [(st, ('member', e.deep(st, v), e.deep(st, x)))]


@m('core::str::<impl str>::contains')
def _(e, st, c, a):
    x, p = e.datum(st, a[0]), a[1]
    p = e.datum(st, p)
    if p[0] == 'i' and p[1] < 128:
        return [(st, mknot(('allin', x, ALLB & ~(1 << p[1]))))]
    if p[0] == 'b' and len(p[1]) == 1:
        return [(st, mknot(('allin', x, ALLB & ~(1 << p[1][0]))))]
    if p[0] == 'R' and all(q[0] == 'i' and q[1] < 128 for q in p[1]):
        mk = 0
        for q in p[1]:
            mk |= 1 << q[1]
        return [(st, mknot(('allin', x, ALLB & ~mk)))]
    if p[0] == 'C':
        mk = pred_mask(e, st, p, c.where, char=True)
        if mk is not None:
            return [(st, mknot(('allin', x, ALLB & ~mk)))]
    return [(st, ('contains', e.deep(st, p), e.deep(st, x)))]


@m('core::slice::ascii::<impl [u8]>::is_ascii', 'core::str::<impl str>::is_ascii')
def _(e, st, c, a):
    return [(st, ('allin', e.datum(st, a[0]), (1 << 128) - 1))]


ASCII = {
    'is_ascii_alphanumeric': lambda b: chr(b).isalnum() and b < 128, 'is_ascii_alphabetic': lambda b: chr(b).isalpha() and b < 128,
    'is_ascii_digit': lambda b: 48 <= b <= 57, 'is_ascii_uppercase': lambda b: 65 <= b <= 90, 'is_ascii_lowercase': lambda b: 97 <= b <= 122,
    'is_ascii_graphic': lambda b: 33 <= b <= 126, 'is_ascii_control': lambda b: b < 32 or b == 127, 'is_ascii': lambda b: b < 128,
    'is_ascii_whitespace': lambda b: b in (32, 9, 10, 12, 13), 'is_ascii_punctuation': lambda b: 33 <= b <= 126 and not chr(b).isalnum(),
    'is_ascii_hexdigit': lambda b: chr(b) in '0123456789abcdefABCDEF' and b < 128,
}


def amask(n): return sum(1 << b for b in range(256) if ASCII[n](b))


@rx(r'^core::num::<impl u8>::is_ascii')
def _(e, st, c, a):
    v = e.datum(st, a[0])
    if v[0] == 'i':
        return [(st, bool_(ASCII[c.name](v[1])))]
    if ('U8', v) not in st.facts:
        st.facts[('U8', v)] = ALLB
    return [(st, ('inset', v, amask(c.name)))]


@rx(r'^core::char::methods::<impl char>::is_ascii')
def _(e, st, c, a):
    v = e.datum(st, a[0])
    if v[0] == 'i':
        return [(st, bool_(v[1] < 128 and ASCII[c.name](v[1])))]
    if v[0] == 'anyc':
        return [(st, ('inset', v, amask(c.name)))]
    return [(st, ('charpred', c.name, v))]


@m('core::str::<impl str>::to_ascii_lowercase', 'alloc::str::<impl str>::to_ascii_lowercase', 'alloc::str::<impl str>::to_lowercase',
   'core::slice::ascii::<impl [u8]>::to_ascii_lowercase')
def _(e, st, c, a):
    return [(st, ('lower', e.datum(st, a[0])))]


@m('core::str::<impl str>::trim', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end')
def _(e, st, c, a):
    return [(st, (c.name, e.datum(st, a[0])))]


def from_utf8(e, st, a, error):
    x = e.datum(st, a[0])
    if x[0] == 'b':
        try:
            x[1].decode()
            return [(st, ok(x))]
        except UnicodeDecodeError:
            return [(st, err((error, x)))]
    t = ('utf8', x)
    out = []
    for s, b in e.branch(st, t):
        out.append((s, ok(x) if b else err((error, x))))
    return out


@m('core::str::converts::from_utf8', 'core::str::<impl str>::from_utf8')
def _(e, st, c, a):
    return from_utf8(e, st, a, 'utf8err')


# the error of the owned conversion keeps the bytes
@m('alloc::string::String::from_utf8')
def _(e, st, c, a):
    return from_utf8(e, st, a, 'notutf8')


@m('alloc::string::FromUtf8Error::utf8_error')
def _(e, st, c, a):
    v = e.datum(st, a[0])
    return [(st, ('utf8err', v[1] if v[0] == 'notutf8' else v))]


@m('alloc::string::FromUtf8Error::into_bytes', 'alloc::string::FromUtf8Error::as_bytes')
def _(e, st, c, a):
    v = e.datum(st, a[0])
    return [(st, v[1] if v[0] == 'notutf8' else ('bytesof', v))]


@m('core::str::converts::from_utf8_unchecked', 'alloc::string::String::from_utf8_unchecked')
def _(e, st, c, a):
    st.ev('unsafe-utf8', e.datum(st, a[0]))
    e.reint.append((c.where, '[u8]', 'str', a[0], st.fork()))
    return [(st, e.datum(st, a[0]))]


@m('alloc::string::String::from_utf8_lossy')
def _(e, st, c, a):
    return [(st, ('utf8lossy', e.datum(st, a[0])))]


@m('alloc::str::<impl str>::replace')
def _(e, st, c, a):
    x, f, t = e.datum(st, a[0]), pat_bytes(e, st, a[1]), e.datum(st, a[2])
    if f is None or f[0] == 'A' or t[0] != 'b':
        return NotImplemented
    return [(st, ('replaced', x, f, t))]


@m('core::str::<impl str>::parse', 'core::num::<impl core::str::traits::FromStr for u32>::from_str')
def _(e, st, c, a):
    x = e.datum(st, a[0])
    v = ('parse', x)
    s2 = st.fork()
    out = []
    if st.assume(('parses', x), True):
        out.append((st, ok(v)))
    if s2.assume(('parses', x), False):
        out.append((s2, err(('parseerr', x))))
    return out


@m('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _(e, st, c, a):
    d, x = e.datum(st, a[0]), e.datum(st, a[1])
    out = []
    for s, b in e.branch(st, mkeq(mklen(d), mklen(x))):
        if b:
            setc(e, s, a[0], x)
            out.append((s, UNIT))
        else:
            e.panic(s, c.name, 'length', c.where)
    return out


@m('core::slice::<impl [T]>::fill')
def _(e, st, c, a):
    d = e.datum(st, a[0])
    setc(e, st, a[0], ('filled', d, a[1]))
    return [(st, UNIT)]


@m('alloc::slice::<impl [V]>::concat', 'alloc::slice::<impl [T]>::concat')
def _(e, st, c, a):
    d = e.deep(st, a[0])
    if d[0] == 'R':
        return [(st, cat(*d[1]))]
    return [(st, ('concat', d))]


@m('alloc::slice::<impl [T]>::join')
def _(e, st, c, a):
    d, sep = e.deep(st, a[0]), pat_bytes(e, st, a[1])
    if d[0] == 'R':
        ps = []
        for i, x in enumerate(d[1]):
            if i:
                ps.append(sep)
            ps.append(x)
        return [(st, cat(*ps))]
    return [(st, ('join', d, sep))]


@m('core::array::<impl [T; N]>::map')
def _(e, st, c, a):
    x = e.datum(st, a[0])
    if x[0] == 'R' and len(x[1]) <= 16:
        return each(e, st, c, a[1], x[1])
    n = mklen(x)
    return every(e, st, c, a[1], ('elem', x), n[1] if n[0] == 'i' else n, lambda i: at(x, ('i', i)))


@m('core::array::from_fn')
def _(e, st, c, a):
    n = arrlen(e, c.dest_ty)
    if n is None:
        return NotImplemented
    if n <= 16:
        return each(e, st, c, a[0], [('i', i) for i in range(n)])
    return every(e, st, c, a[0], ('fnidx',), n, lambda i: ('i', i))


def each(e, st, c, f, xs):
    outs = [(st, ())]
    for el in xs:
        outs = [(s2, acc + (v,)) for s, acc in outs for s2, v in e.call_value(s, f, [el], c.where)]
    return [(s, ('R', acc)) for s, acc in outs]


def every(e, st, c, f, el, n, nth):
    """an array made by calling f for every element; one call stands for all of them if it leaves nothing changed"""
    s0, mark = st.fork(), len(e.panics)
    before = st.new()        # whatever the closure draws afresh for every element has a later number
    res = []
    for s, v in e.call_value(st, f, [el], c.where):
        if any(s.mem.get(fr, {}).get(l, v0) != v0 for fr, cells in s0.mem.items() for l, v0 in cells.items()) or any(s.over.get(t, v0) != v0 for t, v0 in s0.over.items()):
            if not isinstance(n, int) or n > 64:
                return NotImplemented
            del e.panics[mark:]
            return each(e, s0, c, f, [nth(i) for i in range(n)])
        res.append((s, ('amap', n, v, before)))
    return res


def arrlen(e, ty):
    t = e.f.types[ty] if ty is not None else None
    n = t.get('len') if t and t['k'] == 'array' else None
    return n if isinstance(n, int) else None


@m('core::iter::sources::repeat_with::repeat_with')
def _(e, st, c, a):
    return [(st, ('it', 'repeat_with', a[0]))]


@m('core::slice::<impl [T]>::concat')
def _(e, st, c, a):
    return NotImplemented


# ---- formatting ------------------------------------------------------------------------------------

@m('alloc::fmt::format')
def _(e, st, c, a):
    return [(st, formatted(e.deep(st, a[0])))]


@rx(r"^core::fmt::rt::Argument::<'_>::new_", r"^core::fmt::Arguments::<'a>::")
def _(e, st, c, a):
    text = c.name == 'new_display' and TEXT.match(tyarg(e, c) or '')
    return [(st, ('fmtarg', 'text' if text else c.name) + tuple(e.deep(st, x) for x in a))]


TEXT = re.compile(r"^(&('\w+ )?(mut )?)*(str|(alloc::|std::)?string::String|(alloc::|std::)?borrow::Cow<.*str>)$")


def formatted(t):
    """the text of format arguments: literal pieces and displayed strings are spelled out, other values stay opaque"""
    if t[0] != 'fmtarg':
        return ('fmt', t)
    if t[1] in ('from_str', 'from_str_nonconst', 'new_const') and t[2][0] == 'b':
        return t[2]
    if t[1] != 'new' or len(t) != 4 or t[2][0] != 'b' or t[3][0] != 'R':
        return ('fmt', t)
    code, args, out, n, i = t[2][1], t[3][1], [], 0, 0
    while i < len(code) and code[i]:
        k = code[i]
        if k < 128:
            out.append(('b', code[i + 1:i + 1 + k]))
            i += 1 + k
        elif k == 128:
            m = int.from_bytes(code[i + 1:i + 3], 'little')
            out.append(('b', code[i + 3:i + 3 + m]))
            i += 3 + m
        else:
            i += 1
            if k & 8:
                n = int.from_bytes(code[i:i + 2], 'little')
                i += 2
            if k & ~8 != 0xC0 or n >= len(args):
                return ('fmt', t)       # width, precision or flags
            x = args[n]
            out.append(x[2] if x[:2] == ('fmtarg', 'text') else ('fmt', ('fmtarg', 'new', ('b', b'\xc0\0'), ('R', (x,)))))
            n += 1
    return cat(*out)


@rx(r'^core::any::type_name', r'^core::any::TypeId::of', r'^core::any::type_name_of_val')
def _(e, st, c, a):
    t = tyarg(e, c)
    if e.tsubst:
        t = re.sub(r'\b(%s)\b' % '|'.join(e.tsubst), lambda m: e.tsubst[m.group(1)], t)
    if c.name == 'of' and e.opts.get('typeids'):
        return [(st, ('b', ('TypeId ' + t).encode()))]     # distinct constants
    return [(st, (c.name, t))]


@rx(r'^core::intrinsics::transmute', r'^core::mem::transmute')
def _(e, st, c, a):
    e.reint.append((c.where, tyarg(e, c, 0), tyarg(e, c, 1), a[0], st.fork()))
    return [(st, a[0])]


@rx(r'^core::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) T>::(cast|cast_mut|cast_const)$')
def _(e, st, c, a):
    if c.name == 'cast':
        q = '*const ' if 'const_ptr' in c.path else '*mut '
        e.reint.append((c.where, q + tyarg(e, c, 0), q + tyarg(e, c, 1), a[0], st.fork()))
    return [(st, a[0])]


@tr(('core::ops::bit::BitXor', 'bitxor'), ('core::ops::bit::BitAnd', 'bitand'), ('core::ops::bit::BitOr', 'bitor'))
def _(e, st, c, a):
    t = c.path
    if not re.match(r"^<&?('\w+ )?(u8|bool|u32|usize) as", t):
        return NotImplemented
    x, y = e.datum(st, a[0]), e.datum(st, a[1])
    op = {'bitxor': 'BitXor', 'bitand': 'BitAnd', 'bitor': 'BitOr'}[c.name]
    if op == 'BitXor' and 'u8' in t:
        if x[0] == 'i' and y[0] == 'i':
            return [(st, ('i', x[1] ^ y[1]))]
        return [(st, mkxor(x, y))]
    if 'u8' in t:
        return [(st, mkb2(op, x, y))]
    if 'bool' in t:
        return [(st, {'BitAnd': mkand, 'BitOr': mkor}[op](x, y) if op in ('BitAnd', 'BitOr') else mkor(mkand(x, mknot(y)), mkand(mknot(x), y)))]
    return [(st, ('bitop', op, x, y))]


@tr(('core::ops::bit::BitXorAssign', 'bitxor_assign'))
def _(e, st, c, a):
    x, y = e.datum(st, a[0]), e.datum(st, a[1])
    setc(e, st, a[0], mkxor(x, y))
    return [(st, UNIT)]


@rx(r'^core::intrinsics::discriminant_value')
def _(e, st, c, a):
    return [(st, e.discr(st, e.datum(st, a[0]), None))]


@rx(r'^core::mem::(size_of|align_of)')
def _(e, st, c, a):
    return [(st, (c.name, tyarg(e, c)))]


# ---- iterators -------------------------------------------------------------------------------------

ITER = 'core::iter::traits::iterator::Iterator'


def pred_mask(e, st, f, where, char=False):
    """bytes for which a predicate closure is true, or None"""
    key = (e.deep(st, f), char)
    s = st.fork()
    b = ('anyc' if char else 'anyb',)
    s.facts[('U8', b)] = ALLB
    mark = len(e.panics)
    try:
        mk = 0
        for s2, v in e.call_value(s, f, [b], where):
            for s3, t in e.branch(s2, v):
                if t:
                    mk |= s3.mask(b)
        # check it is exact: the false branches must be disjoint from mk
        s = st.fork()
        s.facts[('U8', b)] = ALLB
        for s2, v in e.call_value(s, f, [b], where):
            for s3, t in e.branch(s2, v):
                if not t and s3.mask(b) & mk:
                    return None
    except Budget:
        return None
    if len(e.panics) > mark:
        return None
    return mk


def mkiter(e, st, v, where):
    v0 = v
    d = e.datum(st, v)
    if d[0] == 'it':
        return d
    if d[0] == 'A' and d[1].startswith(RNG):
        r = range_of(d, None)
        if d[1] == RNG + 'RangeFrom':
            return ('it', 'range', r[0], None)
        return ('it', 'range', r[0], r[1])
    if d[0] == 'A' and d[1] == OPT:
        return ('it', 'seq', ('R', d[3]), ('i', 0))
    return ('it', 'seq', d, ('i', 0))


def fwd_if_nonlocal(f):
    def h(e, st, c, a):
        if c.fn.get('rlocal'):
            return NotImplemented
        return f(e, st, c, a)
    return h


@tr(('core::iter::traits::collect::IntoIterator', 'into_iter'))
@fwd_if_nonlocal
def _(e, st, c, a):
    v = a[0]
    if v[0] == 'P':
        w = e.datum(st, v)
        ty = e.f.types[c.argtys[0]] if c.argtys else None
        if w[0] == 'it':
            return [(st, v)]     # &mut I
        if ty and ty['k'] == 'ref' and ty['mut']:
            return [(st, ('it', 'mut', v, ('i', 0)))]
    return [(st, mkiter(e, st, v, c.where))]


@m('core::slice::<impl [T]>::iter', 'core::str::<impl str>::bytes')
def _(e, st, c, a):
    return [(st, ('it', 'seq', e.datum(st, a[0]), ('i', 0)))]


@m('core::slice::<impl [T]>::iter_mut')
def _(e, st, c, a):
    return [(st, ('it', 'mut', a[0], ('i', 0)))]


@m('core::str::<impl str>::chars')
def _(e, st, c, a):
    return [(st, ('it', 'chars', e.datum(st, a[0]), ('i', 0)))]


@m('core::slice::<impl [T]>::split', 'core::slice::<impl [T]>::splitn', 'core::str::<impl str>::split', 'core::str::<impl str>::splitn',
   'core::slice::<impl [T]>::rsplitn', 'core::slice::<impl [T]>::rsplit')
def _(e, st, c, a):
    x = e.datum(st, a[0])
    lim = None
    pat = a[1]
    if 'splitn' in c.name:
        lim, pat = a[1], a[2]
    p = e.datum(st, pat)
    mk = None
    if p[0] == 'C':
        mk = pred_mask(e, st, pat, c.where, char='str' in c.path)
    elif p[0] == 'i' and p[1] < 128:
        mk = 1 << p[1]
    elif p[0] == 'b' and len(p[1]) == 1:
        mk = 1 << p[1][0]
    elif p[0] == 'R' and all(q[0] == 'i' and q[1] < 128 for q in p[1]):
        mk = sum(1 << q[1] for q in set(p[1]))
    sep = ('sepmask', mk) if mk is not None else ('sep', e.deep(st, p))
    if c.name.startswith('r'):
        sep = ('r',) + sep
    if lim is not None:
        sep = sep + ('n', lim)
    return [(st, ('it', 'split', x, sep, ('i', 0)))]


@m('core::str::<impl str>::split_once', 'core::slice::<impl [T]>::split_once', 'core::str::<impl str>::rsplit_once')
def _(e, st, c, a):
    x, p = e.datum(st, a[0]), e.datum(st, a[1])
    mk = None
    if p[0] == 'C':
        mk = pred_mask(e, st, a[1], c.where, char='str' in c.path)
    elif p[0] == 'i' and p[1] < 128:
        mk = 1 << p[1]
    elif p[0] == 'b' and len(p[1]) == 1:
        mk = 1 << p[1][0]
    if mk is None or c.name == 'rsplit_once':
        s2 = st.fork()
        return [(st, NONE), (s2, some(('T', ((c.name, 'l', x, p), (c.name, 'r', x, p)))))]
    pos = ('pos', x, mk)
    out = []
    for s, b in e.branch(st, ('allin', x, ALLB & ~mk)):
        if b:
            out.append((s, NONE))
        else:
            found(s, x, mk, pos)
            out.append((s, some(('T', (mkslice(x, ('i', 0), pos), mkslice(x, add(pos, ('i', 1)), None))))))
    return out


def found(s, x, mk, pos):
    """facts about the first index of a byte of mask mk in x"""
    s.assume(mklt(pos, mklen(x)), True)
    s.setmask(at(x, pos), mk)
    s.facts[('ALL', mkslice(x, ('i', 0), pos))] = ALLB & ~mk
    s.assume(mklt(mklen(x), add(pos, ('i', 1))), False)


def finite(e, it):
    """the iterator walks a sequence whose elements are known (and the run is one that follows such walks exactly)"""
    if not e.opts.get('finite'):
        return False
    if it[1] == 'seq':
        return it[2][0] == 'R' and it[3][0] == 'i'
    if it[1] == 'split':
        return 'known_parts' in e.opts and e.opts['known_parts'](it[2], it[3]) and it[4][0] == 'i'
    if it[1] in ('map', 'filter', 'filter_map', 'copied', 'enum', 'take_while', 'skip_while') or it[1] == 'take' and it[3][0] == 'i':
        return finite(e, it[2])
    if it[1] == 'chain':
        return finite(e, it[2]) and finite(e, it[3])
    return it[1] == 'once'


def exact_next(e, st, it, where):
    """the next element of a filtering iterator over known elements -> [(state, item or None, new iterator)]"""
    out, work = [], [(st, it[2])]
    while work:
        s, inner = work.pop()
        for s1, x, n in it_next(e, s, inner, where):
            if x is None:
                out.append((s1, None, ('it', it[1], n, it[3])))
            elif it[1] == 'filter_map':
                for s2, r in e.call_value(s1, it[3], [x], where):
                    for s3, v, p in cases(e, s2, r):
                        out.append((s3, p, ('it', it[1], n, it[3]))) if v else work.append((s3, n))
            else:
                for s2, b in e.call_value(s1, it[3], [s1.alloc(x) if not isterm(x) and x[0] != 'P' else x], where):
                    for s3, t in e.branch(s2, b):
                        if it[1] == 'filter':
                            out.append((s3, x, ('it', it[1], n, it[3]))) if t else work.append((s3, n))
                        elif it[1] == 'take_while':
                            out.append((s3, x, ('it', it[1], n, it[3])) if t else (s3, None, ('it', 'seq', ('R', ()), ('i', 0))))
                        else:
                            work.append((s3, n)) if t else out.append((s3, x, n))
    return out


def it_next(e, st, it, where):
    """-> [(state, item or None, new iterator)]"""
    k = it[1]
    if k in ('filter', 'filter_map', 'take_while', 'skip_while') and finite(e, it):
        return exact_next(e, st, it, where)
    if k in ('seq', 'mut', 'chars'):
        src = it[2] if k != 'mut' else e.datum(st, it[2])
        i = it[3]
        out = []
        for s, b in e.branch(st, mklt(i, mklen(src))):
            if b:
                el = at(src, i) if k != 'mut' else ('P', ('E', it[2], i), ())
                if k == 'chars':
                    el = ('char', src, i)
                elif k == 'seq':
                    s.instance(el)
                out.append((s, el, ('it', k, it[2], add(i, ('i', 1)))))
            else:
                out.append((s, None, it))
        return out
    if k == 'range':
        lo, hi = it[2], it[3]
        if hi is None:
            return [(st, lo, ('it', 'range', add(lo, ('i', 1)), None))]
        out = []
        for s, b in e.branch(st, mklt(lo, hi)):
            out.append((s, lo, ('it', 'range', add(lo, ('i', 1)), hi)) if b else (s, None, it))
        return out
    if k == 'split':
        src, sep, i = it[2], it[3], it[4]
        np = ('nparts', src, sep)
        s1 = st
        if i == ('i', 0):
            s1.assume(mklt(np, ('i', 1)), False)
        out = []
        for s, b in e.branch(s1, mklt(i, np)):
            if b:
                out.append((s, ('nth', src, sep, i), ('it', 'split', src, sep, add(i, ('i', 1)))))
            else:
                out.append((s, None, it))
        return out
    if k == 'map':
        out = []
        for s, x, n in it_next(e, st, it[2], where):
            if x is None:
                out.append((s, None, ('it', 'map', n, it[3])))
            else:
                for s2, v in e.call_value(s, it[3], [x], where):
                    out.append((s2, v, ('it', 'map', n, it[3])))
        return out
    if k == 'copied':
        return [(s, None if x is None else e.datum(s, x), ('it', 'copied', n)) for s, x, n in it_next(e, st, it[2], where)]
    if k == 'enum':
        return [(s, None if x is None else ('T', (it[3], x)), ('it', 'enum', n, add(it[3], ('i', 1)))) for s, x, n in it_next(e, st, it[2], where)]
    if k == 'zip':
        out = []
        for s, x, n in it_next(e, st, it[2], where):
            if x is None:
                out.append((s, None, ('it', 'zip', n, it[3])))
                continue
            for s2, y, n2 in it_next(e, s, it[3], where):
                out.append((s2, None if y is None else ('T', (x, y)), ('it', 'zip', n, n2)))
        return out
    if k == 'chain':
        out = []
        for s, x, n in it_next(e, st, it[2], where):
            if x is not None:
                out.append((s, x, ('it', 'chain', n, it[3])))
            else:
                out += it_next(e, s, it[3], where)
        return out
    if k == 'ref':
        ptr = it[2]
        inner = e.datum(st, ptr)
        if inner[0] == 'it':
            out = []
            for s, x, n in it_next(e, st, inner, where):
                setc(e, s, ptr, n)
                out.append((s, x, it))
            return out
    if k == 'once':
        return [(st, it[2], ('it', 'seq', ('R', ()), ('i', 0)))]
    if k == 'samples':
        return [(st, ('sample', it[2], it[3], st.new()), it)]
    if k == 'take' and it[3][0] == 'i':
        if it[3][1] <= 0:
            return [(st, None, it)]
        return [(s, x, ('it', 'take', n, sub(it[3], ('i', 1)))) for s, x, n in it_next(e, st, it[2], where)]
    if k == 'repeat_with':
        return [(s, v, it) for s, v in e.call_value(st, it[2], [], where)]
    if k in ('filter', 'filter_map', 'take_while', 'skip_while', 'flat_map', 'skip', 'take', 'rev', 'dyn', 'opaque'):
        # which element comes next is unknown: some element of the underlying sequence, or the end
        s2 = st.fork()
        n = ('it', 'adv', it, st.new())
        x = ('item', it)
        if k in ('filter', 'filter_map'):
            out = [(s2, None, it)]
            gen = generic_item(e, st, it[2], where)
            for s, y in gen:
                if k == 'filter':
                    for s3, b in e.call_value(s, it[3], [s.alloc(y) if not isterm(y) else y], where):
                        for s4, t in e.branch(s3, b):
                            if t:
                                out.append((s4, y, n))
                else:
                    for s3, r in e.call_value(s, it[3], [y], where):
                        for s4, v, p in cases(e, s3, r):
                            if v:
                                out.append((s4, p, n))
            return out
        return [(st, x, n), (s2, None, it)]
    if k == 'adv':
        return it_next(e, st, it[2], where)
    s2 = st.fork()
    return [(st, ('item', it), it), (s2, None, it)]


def generic_item(e, st, it, where):
    """some (arbitrary) element of an iterator -> [(state, item)]"""
    k = it[1]
    if k == 'seq':
        src = it[2]
        if src[0] == 'R':
            return [(st.fork(), x) for x in src[1]]
        return [(st, at(src, ('anyidx', src)))]
    if k == 'mut':
        return [(st, ('P', ('E', it[2], ('anyidx', e.datum(st, it[2]))), ()))]
    if k == 'chars':
        return [(st, ('char', it[2], ('anyidx', it[2])))]
    if k == 'split':
        return [(st, ('nth', it[2], it[3], ('anyidx', it[2])))]
    if k in ('copied', 'rev', 'skip', 'take', 'adv', 'take_while', 'skip_while'):
        return [(s, e.datum(s, x) if k == 'copied' else x) for s, x in generic_item(e, st, it[2], where)]
    if k == 'enum':
        src = elemsrc(it[2])
        return [(s, ('T', (('anyidx', it[2] if src is None else src), x))) for s, x in generic_item(e, st, it[2], where)]
    if k == 'zip':
        out = []
        for s, x in generic_item(e, st, it[2], where):
            for s2, y in generic_item(e, s, it[3], where):
                out.append((s2, ('T', (x, y))))
        return out
    if k == 'map':
        out = []
        for s, x in generic_item(e, st, it[2], where):
            out += e.call_value(s, it[3], [x], where)
        return out
    if k == 'filter':
        out = []
        for s, x in generic_item(e, st, it[2], where):
            for s2, b in e.call_value(s, it[3], [s.alloc(x) if not isterm(x) else x], where):
                out += [(s3, x) for s3, t in e.branch(s2, b) if t]
        return out
    if k == 'filter_map':
        out = []
        for s, x in generic_item(e, st, it[2], where):
            for s2, r in e.call_value(s, it[3], [x], where):
                out += [(s3, p) for s3, v, p in cases(e, s2, r) if v]
        return out
    if k == 'ref':
        inner = e.datum(st, it[2])
        if inner[0] == 'it':
            return generic_item(e, st, inner, where)
    return [(st, ('item', it))]


def getit(e, st, v):
    """iterator behind a value, and a setter"""
    if v[0] == 'P':
        d = e.datum(st, v)
        if d[0] == 'it':
            return d
        if d[0] == 'P' or d[0] == 'D':
            return getit(e, st, d)
        if isterm(d):
            return ('it', 'opaque', d)
        return None
    if v[0] == 'it':
        return v
    if v[0] == 'D':
        d = e.datum(st, v[1]) if v[1][0] == 'P' else v[1]
        return d if d[0] == 'it' else ('it', 'opaque', e.deep(st, v))
    if isterm(v):
        return ('it', 'opaque', v)
    if v[0] == 'A' and v[1].startswith(RNG):
        return mkiter(e, st, v, '')
    return None


def drained(e, st, v):
    """an iterator that was walked to its end through a reference is empty afterwards"""
    v = innermost(e, st, v)
    if v[0] == 'P' and e.read(st, v[1], v[2])[0] == 'it':
        e.write(st, v[1], v[2], ('it', 'seq', ('R', ()), ('i', 0)))
    return st


def innermost(e, st, v):
    """the last of a chain of pointers"""
    for _ in range(8):
        if v[0] != 'P':
            break
        w = e.read(st, v[1], v[2])
        if w[0] != 'P':
            break
        v = w
    return v


def adapt(e, st, v):
    """iterator an adapter is built on: taken by value or by reference"""
    if v[0] == 'P':
        d = e.datum(st, v)
        if d[0] == 'it':
            return ('it', 'ref', innermost(e, st, v))
    return getit(e, st, v)


def itm(*names):
    return tr(*[(ITER, n) for n in names])


@itm('next')
@fwd_if_nonlocal
def _(e, st, c, a):
    d = e.datum(st, a[0])
    ptr = innermost(e, st, a[0])
    if d[0] == 'A' and d[1].startswith(RNG):
        d = mkiter(e, st, d, '')
    if d[0] != 'it':
        if isterm(d):
            d = ('it', 'opaque', d)
        else:
            return NotImplemented
    out = []
    for s, x, n in it_next(e, st, d, c.where):
        setc(e, s, ptr, n) if ptr[0] == 'P' else None
        out.append((s, NONE if x is None else some(x)))
    return out


@itm('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'flat_map')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = adapt(e, st, a[0])
    if it is None:
        return NotImplemented
    return [(st, ('it', c.name, it, a[1]))]


@itm('zip', 'chain')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = adapt(e, st, a[0])
    if it is None:
        return NotImplemented
    return [(st, ('it', c.name, it, mkiter(e, st, a[1], c.where)))]


@itm('copied', 'cloned')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = adapt(e, st, a[0])
    return NotImplemented if it is None else [(st, ('it', 'copied', it))]


@itm('enumerate')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = adapt(e, st, a[0])
    return NotImplemented if it is None else [(st, ('it', 'enum', it, ('i', 0)))]


@itm('rev', 'skip', 'take', 'peekable', 'fuse', 'step_by')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = adapt(e, st, a[0])
    if it is None:
        return NotImplemented
    if c.name in ('fuse',):
        return [(st, it)]
    if c.name == 'skip' and it[1] in ('seq', 'mut') and a[1][0] == 'i':
        return [(st, ('it', it[1], it[2], add(it[3], a[1])))]
    return [(st, ('it', c.name, it) + tuple(a[1:]))]


def seqsrc(it):
    """(byte source, element transparent) when the iterator runs over all bytes of a string"""
    if it[1] == 'copied':
        return seqsrc(it[2])
    if it[1] == 'seq' and it[3] == ('i', 0):
        return it[2]
    if it[1] == 'seq':
        return mkslice(it[2], it[3], None)
    return None


@itm('all', 'any')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = getit(e, st, a[0])
    if it is None:
        return NotImplemented
    src = seqsrc(it)
    if src is None and it[1] == 'chars':
        src = it[2]
    if src is not None and src[0] != 'R':
        mk = pred_mask(e, st, a[1], c.where, char=it[1] == 'chars')
        if mk is not None:
            return [(st, ('allin', src, mk) if c.name == 'all' else mknot(('allin', src, ALLB & ~mk)))]
    if finite(e, it):
        def step(s, acc, x):
            return [(s3, acc, b == (c.name == 'any')) for s2, v in e.call_value(s, a[1], [x], c.where) for s3, b in e.branch(s2, v)]
        return [(s, bool_(stop == (c.name == 'any'))) for s, acc, stop in loop_over(e, st, it, c.where, step, 0)]
    if it[1] == 'seq' and src is not None and src[0] == 'R':
        outs, done = [(st, None)], []
        live = [st]
        for x in src[1]:
            nl = []
            for s in live:
                for s2, v in e.call_value(s, a[1], [x], c.where):
                    for s3, b in e.branch(s2, v):
                        if b == (c.name == 'any'):
                            done.append((s3, bool_(c.name == 'any')))
                        else:
                            nl.append(s3)
            live = nl
        return done + [(s, bool_(c.name == 'all')) for s in live]
    q = quantify(e, st, it, a[1], c)
    return q


def pairwise(st, v, op='eq'):
    """(A, B) when v says A[i] = B[i] of an arbitrary i, and A and B are known to be equally long"""
    if v[0] != op or not all(x[0] == 'at' and x[2][0] == 'anyidx' for x in v[1:3]):
        return None
    x, y = v[1][1], v[2][1]
    return (x, y) if st.decide(mkeq(mklen(x), mklen(y))) is True else None


def quantify(e, st, it, f, c):
    """all/any over an iterator of unknown length: an opaque truth value naming the predicate"""
    s = st.fork()
    terms, passed = [], []
    fresh_element(s, it)
    for s2, x in generic_item(e, s, it, c.where):
        for s3, v in e.call_value(s2, f, [x], c.where):
            terms.append(v)
            passed += [s4 for s4, b in e.branch(s3.fork(), v) if b == (c.name == 'all')]
    if len(terms) == 1:
        v, w = terms[0], mknot(terms[0])
        p = pairwise(st, v if c.name == 'all' else w)
        if p is not None:
            p = mkeq(*p) if c.name == 'all' else mknot(mkeq(*p))
            return [(s, bool_(b)) for s, b in e.branch(st, p)]
    t = (c.name + 'of', e.deep(st, it), tuple(terms))
    out = []
    for s, b in e.branch(st, t):
        if b == (c.name == 'all'):
            all_passed(s, it, passed)
        out.append((s, bool_(b)))
    return out


def search(e, st, it, f, c):
    """find, position, find_map over known elements"""
    def step(s, n, x):
        out = []
        if c.name == 'find_map':
            return [(s3, some(p) if v else n + 1, bool(v)) for s2, r in e.call_value(s, f, [x], c.where) for s3, v, p in cases(e, s2, r)]
        arg = s.alloc(x) if c.name == 'find' and not isterm(x) and x[0] not in ('P', 'D') else x
        for s2, b in e.call_value(s, f, [s.alloc(arg) if c.name == 'find' else arg], c.where):
            for s3, t in e.branch(s2, b):
                out.append((s3, some(x if c.name == 'find' else ('i', n)) if t else n + 1, t))
        return out
    return [(s, acc if stop else NONE) for s, acc, stop in loop_over(e, st, it, c.where, step, 0)]


@itm('find', 'position', 'rposition')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = getit(e, st, a[0])
    if it is None:
        return NotImplemented
    if finite(e, it) and c.name != 'rposition':
        return search(e, st, it, a[1], c)
    src = seqsrc(it)
    if src is not None and src[0] != 'R' and c.name != 'rposition':
        mk = pred_mask(e, st, a[1], c.where)
        if mk is not None:
            out = []
            for s, b in e.branch(st, ('allin', src, ALLB & ~mk)):
                if b:
                    out.append((s, NONE))
                else:
                    pos = ('pos', src, mk)
                    found(s, src, mk, pos)
                    out.append((s, some(pos if c.name == 'position' else at(src, pos))))
            return out
    s2, passed = st.fork(), []
    out = [(s2, NONE)]
    fresh_element(st, it)
    for s, x in generic_item(e, st, it, c.where):
        arg = x
        if c.name == 'find' and not isterm(x) and x[0] not in ('P', 'D'):
            arg = s.alloc(x)
        for s3, b in e.call_value(s, a[1], [arg], c.where):
            for s4, t in e.branch(s3, b):
                if t:
                    out.append((s4, some(x if c.name == 'find' else ('posidx', e.deep(s4, it)))))
                else:
                    passed.append(s4)
    all_passed(s2, it, passed)
    return out


def fresh_element(st, it):
    src = elemsrc(it)
    if src is not None:
        el = at(src, ('anyidx', src))
        for k in [k for k in st.facts if k == ('U8', el) or k[0] == 'ALL' and contains(k[1], lambda x: x == el)]:
            del st.facts[k]
        st.instance(el)


def all_passed(zero, it, passed):
    """a search that came to its end found nothing: every element is like those it went past"""
    src = elemsrc(it)
    if src is not None:
        m = 0
        for s in passed:
            m |= s.mask(at(src, ('anyidx', src)))
        if m != ALLB:
            zero.assume(('allin', src, m), True)
        u = universal(passed, at(src, ('anyidx', src)), src)
        if u:
            zero.each(src, u)


@itm('find_map')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = getit(e, st, a[0])
    if it is None:
        return NotImplemented
    if finite(e, it):
        return search(e, st, it, a[1], c)
    s2, passed = st.fork(), []
    out = [(s2, NONE)]
    fresh_element(st, it)
    for s, x in generic_item(e, st, it, c.where):
        for s3, r in e.call_value(s, a[1], [x], c.where):
            for s4, v, p in cases(e, s3, r):
                if v:
                    out.append((s4, some(p)))
                else:
                    passed.append(s4)
    all_passed(s2, it, passed)
    return out


def collect(e, st, it, where):
    """-> [(state, collected sequence value)]"""
    k = it[1]
    src = seqsrc(it)
    if src is not None:
        return [(st, src)]
    if finite(e, it):
        return [(s, seqnorm(('R', acc), s)) for s, acc, _ in loop_over(e, st, it, where, lambda s, acc, x: [(s, acc + (x,), False)], ())]
    if k in ('zip', 'map', 'enum', 'copied') or (k == 'take' and it[3][0] == 'i' and it[3][1] <= 64):
        # element-wise image of sequences
        base = it
        outs = []
        s0 = st
        # concrete sequences
        cur, items, okc = [(st.fork(), it, ())], None, True
        n = 0
        done = []
        while cur and n < 72:
            n += 1
            nxt = []
            for s, i, acc in cur:
                r = it_next(e, s, i, where)
                if len(r) > 1:
                    okc = False
                    break
                s2, x, i2 = r[0]
                if x is None:
                    done.append((s2, acc))
                else:
                    nxt.append((s2, i2, acc + (x,)))
            if not okc:
                break
            cur = nxt
        if okc and not cur:
            return [(s, ('b', bytes(v[1] & 255 for v in acc)) if acc and all(v[0] == 'i' for v in acc) else seqnorm(('R', acc), s)) for s, acc in done]
        for s, v in generic_item(e, st, it, where):
            outs.append((s, image(v)))
        return outs
    if it[1] == 'split' and it[4] == ('i', 0):
        st.assume(mklt(('nparts', it[2], it[3]), ('i', 1)), False)
    return [(st, ('collected', e.deep(st, it)))]


def image(v):
    """element expression over 'anyidx' -> sequence term"""
    if v[0] == 'xor' and all(x[0] == 'at' and x[2][0] == 'anyidx' for x in v[1:]):
        return xorseq(v[1][1], v[2][1])
    return ('image', v)




@itm('collect')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = getit(e, st, a[0])
    if it is None:
        return NotImplemented
    dst = e.f.types[c.dest_ty] if c.dest_ty is not None else None
    if dst and dst.get('path') in (RES, OPT):
        return NotImplemented
    return [(drained(e, s, a[0]), v) for s, v in collect(e, st, it, c.where)]


@m('generic_array::GenericArray::<T, N>::from_exact_iter')
def _(e, st, c, a):
    it = mkiter(e, st, a[0], c.where)
    return [(s, some(v)) for s, v in collect(e, st, it, c.where)]


@tr(('core::iter::traits::collect::FromIterator', 'from_iter'))
@fwd_if_nonlocal
def _(e, st, c, a):
    it = mkiter(e, st, a[0], c.where)
    return collect(e, st, it, c.where)


def elemsrc(it):
    """the byte sequence a plain iterator walks from its first to its last element, or None"""
    if it[1] in ('copied', 'enum'):
        return elemsrc(it[2])
    return it[2] if it[1] == 'seq' and it[3] == ('i', 0) and it[2][0] != 'R' else None


def loop_over(e, st, it, where, stepf, init):
    """fold an iterator of unknown length: zero or more applications of stepf to arbitrary elements.
    stepf(state, acc, item) -> [(state, acc, stop)].  Returns [(state, acc, stopped)]"""
    if finite(e, it):
        cur, done = [(st, it, init)], []
        while cur:
            s, i, acc = cur.pop()
            for s1, x, n in it_next(e, s, i, where):
                if x is None:
                    done.append((s1, acc, False))
                    continue
                for s2, acc2, stop in stepf(s1, acc, x):
                    done.append((s2, acc2, True)) if stop else cur.append((s2, n, acc2))
        return done
    xs = it[2] if it[1] == 'seq' else e.datum(st, it[2]) if it[1] == 'mut' else UNIT
    if xs[0] == 'R' and it[3][0] == 'i' and len(xs[1]) <= 32:
        cur, done = [(st, init)], []
        for j, x in enumerate(xs[1]):
            if j < it[3][1]:
                continue
            if it[1] == 'mut':
                x = ('P', ('E', it[2], ('i', j)), ())
            nxt = []
            for s, acc in cur:
                for s2, acc2, stop in stepf(s, acc, x):
                    (done.append((s2, acc2, True)) if stop else nxt.append((s2, acc2)))
            cur = nxt
        return done + [(s, acc, False) for s, acc in cur]
    e.loopn += 1
    uid = (where, 'iter', e.loopn)
    acc0 = init
    changed, evs = {}, []
    mark = len(e.panics)
    for _ in range(10):
        del e.panics[mark:]
        s0 = st.fork()
        s0.ev('loop', uid)
        for cell, v in changed.items():
            s0.setcell(cell, v)
        start = s0.fork()
        zero = s0.fork()
        outs, evs = [], []
        src = elemsrc(it)
        fresh_element(s0, it)
        for s, x in generic_item(e, s0, it, where):
            outs += stepf(s, acc0, x)
        stable = True
        for s, acc, stop in outs:
            if stop:
                continue
            t, seq = s.trace, []
            while t is not None and t is not start.trace:
                seq.append(t[1])
                t = t[0]
            evs.append((tuple(reversed(seq)), s))
            if acc != acc0:
                w = e.widen(acc0, acc, (uid, 'acc'))
                if w != acc0:
                    acc0, stable = w, False
            for f in st.mem:
                m0, m1 = start.mem.get(f), s.mem.get(f)
                if m0 is m1 or m0 == m1:
                    continue
                for l, v1 in m1.items():
                    v0 = m0.get(l)
                    if v0 is None or v0 == v1 or v0 == MOVED:
                        continue
                    w = e.widen(v0, v1, (uid, f, l))
                    if w != v0:
                        changed[(f, l)] = w
                        stable = False
        e.loop_events[uid] = evs
        if stable:
            if src is not None:
                all_passed(zero, it, [s for s, acc, stop in outs if not stop])
            return [(zero, acc0, False)] + [(s, acc, True) for s, acc, stop in outs if stop]
    raise Budget('iterator loop in %s' % where)


@itm('fold')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = getit(e, st, a[0])
    if it is None:
        return NotImplemented
    if a[1] == ('i', 0):
        # the comparison that does not stop early: the differences of all pairs, or'ed together
        acc, mark = ('accumulated', 0), len(e.panics)
        rs = [(s2, v) for s1, x in generic_item(e, st.fork(), it, c.where) for s2, v in e.call_value(s1, a[2], [acc, x], c.where)]
        quiet = len(e.panics) == mark
        del e.panics[mark:]
        if quiet and len(rs) == 1 and rs[0][1][0] in ('b2', 'bitop') and rs[0][1][1] == 'BitOr' and acc in rs[0][1][2:]:
            v = rs[0][1]
            p = pairwise(st, v[3] if v[2] == acc else v[2], 'xor')
            if p is not None:
                return [(st, ('alleq',) + p)]
    r = loop_over(e, st, it, c.where, lambda s, acc, x: [(s2, v, False) for s2, v in e.call_value(s, a[2], [acc, x], c.where)], a[1])
    return [(s, acc) for s, acc, _ in r]


@itm('for_each')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = getit(e, st, a[0])
    if it is None:
        return NotImplemented
    r = loop_over(e, st, it, c.where, lambda s, acc, x: [(s2, UNIT, False) for s2, v in e.call_value(s, a[1], [x], c.where)], UNIT)
    return [(drained(e, s, a[0]), UNIT) for s, acc, _ in r]


@itm('try_for_each')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = getit(e, st, a[0])
    if it is None:
        return NotImplemented
    dst = e.f.types[c.dest_ty]['path'] if c.dest_ty is not None else RES

    def step(s, acc, x):
        out = []
        for s2, v in e.call_value(s, a[1], [x], c.where):
            if dst == CF:
                d = e.datum(s2, v)
                if d[0] == 'A':
                    out.append((s2, d, d[2] == 1))
                else:
                    out.append((s2, d, False))
                    out.append((s2.fork(), d, True))
                continue
            for s3, var, p in cases(e, s2, v, dst):
                bad = (var == 1) if dst == RES else (var == 0)
                out.append((s3, v if bad else acc, bad))
        return out
    init = {RES: ok(UNIT), OPT: some(UNIT), CF: ('A', CF, 0, (UNIT,))}.get(dst, UNIT)
    return [(s, acc if stopped else init) for s, acc, stopped in loop_over(e, st, it, c.where, step, init)]


@itm('count', 'sum', 'last', 'max', 'min', 'nth', 'max_by', 'min_by', 'max_by_key', 'reduce')
@fwd_if_nonlocal
def _(e, st, c, a):
    it = getit(e, st, a[0])
    if it is None:
        return NotImplemented
    if c.name == 'nth' and it[1] == 'split' and a[1][0] == 'i' and it[4][0] == 'i':
        it2 = ('it', 'split', it[2], it[3], add(it[4], a[1]))
        out = []
        for s, x, n in it_next(e, st, it2, c.where):
            if a[0][0] == 'P':
                setc(e, s, a[0], n)
            out.append((s, NONE if x is None else some(x)))
        return out
    if c.name == 'nth' and it[1] in ('seq',) and a[1][0] == 'i':
        it2 = ('it', 'seq', it[2], add(it[3], a[1]))
        out = []
        for s, x, n in it_next(e, st, it2, c.where):
            if a[0][0] == 'P':
                setc(e, s, a[0], n)
            out.append((s, NONE if x is None else some(x)))
        return out
    if c.name == 'count' and elemsrc(it) is not None:
        return [(st, mklen(elemsrc(it)))]
    if c.name == 'count' and it[1] == 'take_while' and elemsrc(it[2]) is not None:
        src = elemsrc(it[2])
        mk = pred_mask(e, st, it[3], c.where)
        if mk is not None:
            out = []
            for s, b in e.branch(st, ('allin', src, mk)):
                if b:
                    out.append((s, mklen(src)))
                else:
                    pos = ('pos', src, ALLB & ~mk)
                    found(s, src, ALLB & ~mk, pos)
                    out.append((s, pos))
            return out
    if c.name in ('count', 'last') and finite(e, it):
        f = (lambda s, n, x: [(s, n + 1, False)]) if c.name == 'count' else (lambda s, n, x: [(s, some(x), False)])
        return [(s, ('i', n) if c.name == 'count' else n) for s, n, _ in loop_over(e, st, it, c.where, f, 0 if c.name == 'count' else NONE)]
    if c.name in ('count', 'sum'):
        return [(st, (c.name, e.deep(st, it)))]
    s2 = st.fork()
    out = [(s2, NONE)]
    for s, x in generic_item(e, st, it, c.where):
        out.append((s, some(x)))
    return out


@m('core::iter::sources::once::once', 'core::iter::once')
def _(e, st, c, a):
    return [(st, ('it', 'seq', ('R', (a[0],)), ('i', 0)))]


# ---- calls of callables ----------------------------------------------------------------------------

@tr(('core::ops::function::FnOnce', 'call_once'), ('core::ops::function::FnMut', 'call_mut'), ('core::ops::function::Fn', 'call'))
def _(e, st, c, a):
    tup = a[1] if len(a) > 1 else UNIT
    args = list(tup[1]) if tup[0] == 'T' else [tup]
    f = a[0]
    return e.call_value(st, f, args, c.where, c.dest_ty)


# ---- cryptography ----------------------------------------------------------------------------------

def typenum(s):
    i = s.find('UInt<')
    bits = re.findall(r'bit::B([01])', s[i:]) if i >= 0 else []
    return int(''.join(bits), 2) if bits else '?'




def digest_of(s):
    if 'Sha1Core' in s:
        return 'sha1'
    for v, n in (('256', 32), ('512', 64)):
        if 'Sha%sVarCore' % v in s:
            mm = re.search(r'Oid(Sha\d+)', s)
            if mm:
                return mm.group(1).lower()
            t = s[s.find('Sha%sVarCore' % v):]
            z = typenum(t)
            for nm, sz in SIZES.items():
                if sz == z and nm != 'sha1':
                    return nm
            return 'sha' + v
    if 'md5' in s.lower():
        return 'md5'
    return s


def alltys(e, c):
    return ' '.join(e.f.types[x['t']]['s'] for x in (c.fn.get('rargs') or c.fn['args']) if isinstance(x, dict) and 't' in x)


@rx(r'digest::Digest::output_size|Digest>::output_size|OutputSizeUser::output_size')
def _(e, st, c, a):
    d = digest_of(alltys(e, c))
    return [(st, ('i', SIZES[d]) if d in SIZES else ('digestsize', d))]


@rx(r'digest::Digest::digest$|as digest::digest::Digest>::digest$')
def _(e, st, c, a):
    return [(st, ('H', digest_of(alltys(e, c)), e.datum(st, a[0])))]


@rx(r'digest::Digest::new$|as digest::digest::Digest>::new$')
def _(e, st, c, a):
    return [(st, ('hasher', digest_of(alltys(e, c)), ('b', b'')))]


@rx(r'digest::Digest::new_with_prefix$|as digest::digest::Digest>::new_with_prefix$')
def _(e, st, c, a):
    return [(st, ('hasher', digest_of(alltys(e, c)), e.datum(st, a[0])))]


@rx(r'Mac::new_from_slice$|Mac>::new_from_slice$|KeyInit>::new_from_slice$|KeyInit::new_from_slice$')
def _(e, st, c, a):
    return [(st, ok(('hmac', digest_of(alltys(e, c)), e.datum(st, a[0]), ('b', b''))))]


@rx(r'Mac::new$|Mac>::new$|KeyInit>::new$')
def _(e, st, c, a):
    return [(st, ('hmac', digest_of(alltys(e, c)), e.datum(st, a[0]), ('b', b'')))]


def absorb(e, st, h, x):
    if h[0] == 'hmac':
        return ('hmac', h[1], h[2], cat(h[3], x))
    if h[0] == 'hasher':
        return ('hasher', h[1], cat(h[2], x))
    return ('absorb', h, x)


@rx(r'digest::Update::chain$|::chain_update$')
def _(e, st, c, a):
    return [(st, absorb(e, st, e.datum(st, a[0]), e.datum(st, a[1])))]


@rx(r'Mac::update$|Mac>::update$|digest::Update::update$|Update>::update$|digest::Digest::update$|Digest>::update$')
def _(e, st, c, a):
    setc(e, st, a[0], absorb(e, st, e.datum(st, a[0]), e.datum(st, a[1])))
    return [(st, UNIT)]


def fin(h):
    if h[0] == 'hmac':
        return ('HMAC', h[1], h[2], h[3])
    if h[0] == 'hasher':
        return ('H', h[1], h[2])
    return ('fin', h)


@rx(r'finalize_into$')
def _(e, st, c, a):
    setc(e, st, a[1], fin(e.datum(st, a[0])))
    return [(st, UNIT)]


@rx(r'(Mac|Digest|FixedOutput)(>)?::(finalize|finalize_fixed)$')
def _(e, st, c, a):
    return [(st, fin(e.datum(st, a[0])))]


@rx(r'(Mac|Digest|FixedOutputReset)(>)?::(finalize_reset|finalize_fixed_reset)$')
def _(e, st, c, a):
    h = e.datum(st, a[0])
    setc(e, st, a[0], h[:-1] + (('b', b''),) if h[0] in ('hmac', 'hasher') else h)
    return [(st, fin(h))]


@m('pbkdf2::pbkdf2', 'pbkdf2::pbkdf2_hmac')
def _(e, st, c, a):
    # the return value is Err only for zero-length output
    pw, salt, it = (e.datum(st, x) for x in a[:3])
    setc(e, st, a[3], ('pbkdf2', digest_of(alltys(e, c)), pw, salt, it))
    st.ev('pbkdf2', pw, salt, it)
    return [(st, ok(UNIT) if c.name == 'pbkdf2' else UNIT)]


@m('generic_array::GenericArray::<T, N>::clone_from_slice')
def _(e, st, c, a):
    x = e.datum(st, a[0])
    n = typenum(alltys(e, c))
    out = []
    for s, b in e.branch(st, mkeq(mklen(x), ('i', n))):
        if b:
            out.append((s, x))
        else:
            e.panic(s, 'GenericArray::clone_from_slice', 'length', c.where)
    return out


@rx(r'^<?generic_array::.*IntoIterator for .*::into_iter$')
def _(e, st, c, a):
    return [(st, ('it', 'seq', e.datum(st, a[0]), ('i', 0)))]


STDTABLE = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
GP = 'base64::engine::general_purpose::GeneralPurpose'


def base64_standard(e, st, v):
    """whether a base64 engine is the padded standard one: True, False, or None if it is not known"""
    v = e.deep(st, v)
    if v[0] != 'A' or not v[1].startswith('base64::engine::general_purpose'):
        return None

    def named(v, path, n):
        names = [x['name'] for x in e.f.adts[path]['variants'][0]['fields']]
        return v[3][names.index(n)] if n in names else None
    try:
        enc, dec, cfg = (named(v, GP, n) for n in ('encode_table', 'decode_table', 'config'))
        pad, trail, mode = (named(cfg, GP + 'Config', n) for n in ('encode_padding', 'decode_allow_trailing_bits', 'decode_padding_mode'))
    except (KeyError, TypeError, IndexError):
        return None
    if None in (enc, dec, cfg, pad, trail, mode) or enc[0] != 'b' or dec[0] != 'b':
        return None
    inv = bytearray(b'\xff' * 256)
    for i, x in enumerate(STDTABLE):
        inv[x] = i
    canonical = ('A', 'base64::engine::DecodePaddingMode', e.f.variant_index('base64::engine::DecodePaddingMode', 'RequireCanonical'), ())
    return enc[1] == STDTABLE and dec[1] == bytes(inv) and pad == TRUE and trail == FALSE and mode == canonical


@rx(r'base64::engine::Engine::(encode|encode_string)$|Engine>::encode$')
def _(e, st, c, a):
    if base64_standard(e, st, a[0]) is False:
        return [(st, ('call', 'another-base64-encoding', e.datum(st, a[1])))]
    return [(st, ('b64e', e.datum(st, a[1])))]


@rx(r'base64::engine::Engine::decode$|Engine>::decode$')
def _(e, st, c, a):
    x = e.datum(st, a[1])
    if base64_standard(e, st, a[0]) is False:
        x = ('call', 'another-base64-decoding', x)
    if x[0] == 'b64e':
        return [(st, ok(x[1]))]
    out = []
    for s, b in e.branch(st, ('b64ok', x)):
        out.append((s, ok(('b64d', x)) if b else err(('b64err', x))))
    return out


@rx(r'base64::engine::Engine::(decode_slice|decode_slice_unchecked)$')
def _(e, st, c, a):
    x = e.datum(st, a[1])
    if base64_standard(e, st, a[0]) is False:
        x = ('call', 'another-base64-decoding', x)
    old = e.datum(st, a[2])
    out = []
    for s, b in e.branch(st, ('b64ok', x)):
        if b:
            n = mklen(old)
            setc(e, s, a[2], ('fit', ('b64d', x), n[1]) if n[0] == 'i' else ('b64d', x))
            out.append((s, ok(mklen(('b64d', x)))))
        else:
            setc(e, s, a[2], ('b64part', x, old))
            out.append((s, err(('b64err', x))))
    return out


@m('stringprep::saslprep', 'stringprep::nameprep', 'stringprep::resourceprep')
def _(e, st, c, a):
    x = e.datum(st, a[0])
    out = []
    for s, b in e.branch(st, ('prepok', c.name, x)):
        out.append((s, ok((c.name, x)) if b else err(('preperr', x))))
    return out


@rx(r'^rand::rngs::thread::thread_rng$')
def _(e, st, c, a):
    return [(st, ('rng', 'thread_rng'))]


@rx(r'^rand::distributions::slice::Slice::<.*>::new$')
def _(e, st, c, a):
    x = e.datum(st, a[0])
    out = []
    for s, b in e.branch(st, mkeq(mklen(x), ('i', 0))):
        out.append((s, err(('emptyslice',)) if b else ok(('slicedist', x))))
    return out


@rx(r'Distribution<.*>>::sample$|Rng::sample$|Distribution::sample$')
def _(e, st, c, a):
    d, r = e.deep(st, a[0]), e.deep(st, a[1])
    if c.path.endswith('Rng::sample'):
        d, r = r, d
    return [(st, ('sample', d, r, st.new()))]


@rx(r'Rng::sample_iter$|Distribution<.*>>::sample_iter$|Distribution::sample_iter$')
def _(e, st, c, a):
    d, r = e.deep(st, a[0]), e.deep(st, a[1])
    if c.path.endswith('Rng::sample_iter'):
        d, r = r, d
    return [(st, ('it', 'samples', d, r))]


@rx(r'SeedableRng::(from_entropy|from_os_rng)$|SeedableRng>::(from_entropy|from_os_rng)$|::from_entropy$')
def _(e, st, c, a):
    return [(st, ('rng', 'from_entropy'))]


@rx(r'SeedableRng::(from_seed|seed_from_u64|from_rng)$|SeedableRng>::(from_seed|seed_from_u64|from_rng)$')
def _(e, st, c, a):
    return [(st, ('seeded', c.name, tuple(e.deep(st, x) for x in a)))]


@rx(r'SliceRandom>::choose$|SliceRandom::choose$|IndexedRandom>::choose$|IndexedRandom::choose$')
def _(e, st, c, a):
    x = e.datum(st, a[0])
    out = []
    for s, b in e.branch(st, mkeq(mklen(x), ('i', 0))):
        out.append((s, NONE if b else some(('sample', ('slicedist', x), e.deep(s, a[1]), s.new()))))
    return out


@rx(r'Rng::(gen_range|random_range)$')
def _(e, st, c, a):
    v = ('random', c.name, tuple(e.deep(st, x) for x in a), st.new())
    r = v[2][1] if len(v[2]) > 1 else None
    if r is not None and r[0] == 'A' and len(r[3]) >= 2 and r[3][0][0] == 'i' and r[3][1][0] == 'i' and r[1].split('::')[-1] in ('Range', 'RangeInclusive'):
        lo, hi = r[3][0][1], r[3][1][1] - (r[1].split('::')[-1] == 'Range')
        if lo > hi:
            e.panic(st, 'gen_range of an empty range', (), c.where)
            return []
        st = st.fork()
        st.setiv(v, lo, hi)
    return [(st, v)]


@rx(r'Rng::(gen|gen_bool|random)$')
def _(e, st, c, a):
    return [(st, ('random', c.name, tuple(e.deep(st, x) for x in a), st.new()))]


@rx(r'RngCore>::(fill_bytes)$|RngCore::fill_bytes$|Rng::fill$')
def _(e, st, c, a):
    d = e.datum(st, a[1])
    v = ('randbytes', e.deep(st, a[0]), mklen(d), st.new())
    setc(e, st, a[1], v)
    return [(st, UNIT)]


@rx(r'RngCore>::next_u(32|64)$|RngCore::next_u')
def _(e, st, c, a):
    return [(st, ('random', c.name, (e.deep(st, a[0]),), st.new()))]


# ---- io --------------------------------------------------------------------------------------------

def write_event(e, st, w, d, where):
    s2 = st.fork()
    st.ev('write', e.deep(st, w), d)
    s2.ev('writefail', e.deep(s2, w), d)
    return st, s2


@rx(r'Write::write_all$|Write>::write_all$|core::io::.*Write for &mut .*>::write_all$')
def _(e, st, c, a):
    if c.fn.get('rlocal'):
        return NotImplemented
    d = e.deep(st, a[1])
    a_, b_ = write_event(e, st, a[0], d, c.where)
    return [(a_, ok(UNIT)), (b_, err(('ioerr', b_.new())))]


@rx(r'Write::(write|write_vectored)$|Write>::(write|write_vectored)$|Write for &mut .*>::(write|write_vectored)$')
def _(e, st, c, a):
    if c.fn.get('rlocal'):
        return NotImplemented
    d = e.deep(st, a[1])
    s2 = st.fork()
    n = ('wrote', d, st.new())
    le = mklt(mklen(cat(*d[1]) if d[0] == 'R' and not byte_array(d) else d), n)
    st.ev('partial-write', e.deep(st, a[0]), d, n)
    if st.decide(le) is None:
        st.assume(le, False)      # contract of Write: at most the buffer's length
    s2.ev('writefail', e.deep(s2, a[0]), d)
    return [(st, ok(n)), (s2, err(('ioerr', s2.new())))]


@rx(r'Write::flush$|Write>::flush$')
def _(e, st, c, a):
    s2 = st.fork()
    return [(st, ok(UNIT)), (s2, err(('ioerr', s2.new())))]


@rx(r'Write::write_fmt$')
def _(e, st, c, a):
    w = e.datum(st, a[0])
    x = formatted(e.deep(st, a[1]))
    if bytes_like(w):
        setc(e, st, a[0], cat(w, x))
        return [(st, ok(UNIT))]
    a_, b_ = write_event(e, st, a[0], x, c.where)
    return [(a_, ok(UNIT)), (b_, err(('ioerr', b_.new())))]


def bytes_like(w):
    return w[0] in ('b', 'cat')


@rx(r'^serde_json::ser::to_writer$')
def _(e, st, c, a):
    a_, b_ = write_event(e, st, a[0], ('json', e.deep(st, a[1])), c.where)
    return [(a_, ok(UNIT)), (b_, err(('jsonerr', b_.new())))]


@rx(r'^serde_json::ser::to_(vec|string)$')
def _(e, st, c, a):
    s2 = st.fork()
    return [(st, ok(('json', e.deep(st, a[0])))), (s2, err(('jsonerr', s2.new())))]


@rx(r'^serde_json::de::from_(slice|str)$')
def _(e, st, c, a):
    x = e.deep(st, a[0])
    out = []
    for s, b in e.branch(st, ('jsonok', x)):
        out.append((s, ok(('json-de', x, tyarg(e, c))) if b else err(('jsonerr', x))))
    return out


@m('bitflags::traits::Flag::<B>::value')
def _(e, st, c, a):
    if a[0][0] == 'P':
        return [(st, ('P', a[0][1], tuple(a[0][2]) + (('f', 1, 'bitflags::traits::Flag'),)))]
    return NotImplemented


@rx(r'^<libgssapi::util::Buf as core::ops::deref::Deref')
def _(e, st, c, a):
    return [(st, e.datum(st, a[0]))]


def ctxbits(v):
    """bits of a CtxFlags value: constant or term"""
    while v[0] == 'A' and v[3]:
        v = v[3][0]
    return v


def hasbit(b, k):
    if b[0] == 'i':
        return ('i', (b[1] >> k) & 1)
    if b == ('ctxall',):
        return TRUE
    if b[0] == 'cbop':
        x, y = hasbit(b[2], k), hasbit(b[3], k)
        return mkand(x, y) if b[1] == 'bitand' else mkor(x, y) if b[1] == 'bitor' else mkand(x, mknot(y))
    return ('ctxbit', b, k)


@rx(r'CtxFlags(>|::).*::(bitor|bitand|union|intersection|difference|sub|insert|remove|contains|intersects|all|empty|is_empty|bits)$')
def _(e, st, c, a):
    x = [ctxbits(e.deep(st, v)) for v in a]
    n = {'union': 'bitor', 'insert': 'bitor', 'intersection': 'bitand', 'sub': 'difference', 'remove': 'difference'}.get(c.name, c.name)
    if n == 'all':
        return [(st, ('ctxall',))]
    if n == 'empty':
        return [(st, ('i', 0))]
    if n == 'bits':
        return [(st, x[0])]
    if n in ('bitor', 'bitand', 'difference'):
        if x[0][0] == 'i' and x[1][0] == 'i':
            p, q = x[0][1], x[1][1]
            v = ('i', p | q if n == 'bitor' else p & q if n == 'bitand' else p & ~q)
        else:
            v = ('cbop', n, x[0], x[1])
        if c.name in ('insert', 'remove'):
            setc(e, st, a[0], v)
            return [(st, UNIT)]
        return [(st, v)]
    r = TRUE if n == 'contains' else FALSE
    for k in range(20):
        if n == 'contains':
            r = mkand(r, mkor(mknot(hasbit(x[1], k)), hasbit(x[0], k)))
        elif n == 'intersects':
            r = mkor(r, mkand(hasbit(x[1], k), hasbit(x[0], k)))
        else:
            r = mkor(r, hasbit(x[0], k))
    if n == 'is_empty':
        r = mknot(r)
    return [(st, r)]


@rx(r'^libgssapi::|^<libgssapi::')
def _(e, st, c, a):
    """GSSAPI library: every call may fail; contexts are named objects, results are named after the call"""
    da = tuple(e.deep(st, x) for x in a)
    nm = '::'.join(re.sub(r'<.*? as (.*)>', r'\1', c.path).split('::')[-2:])
    if c.name == 'is_complete':
        return [(st, ('gsscomplete', da[0], st.new()))]
    st.ev('gss', nm, da[0] if da else UNIT, da[1:])
    dst = e.f.types[c.dest_ty] if c.dest_ty is not None else {}
    if nm.endswith('Ctx::new'):
        v = ('gssctx', nm.split('::')[0])
    elif c.name == 'flags':
        v = ('gssflags', da[0])
    elif c.name in ('wrap', 'unwrap') or nm.endswith('Ctx::step'):
        v = ('gss' + c.name,) + da
    else:
        v = ('gss', nm) + tuple(x for x in da)
    if dst.get('path') != RES:
        return [(st, v)]
    s2 = st.fork()
    s2.ev('gssfail', nm)
    er = err(('gsserr', nm))
    if nm.endswith('Ctx::step'):
        s3 = st.fork()
        st.ev('gsstoken', nm, True)
        s3.ev('gsstoken', nm, False)
        return [(st, ok(some(v))), (s3, ok(NONE)), (s2, er)]
    return [(st, ok(v)), (s2, er)]


# ---- framework boundary ----------------------------------------------------------------------------

SE = 'rsasl::error::SessionError'
CE = 'rsasl::callback::CallbackError'


def short(p): return p.split('<')[0].split('::')[-1]


def provided(e, st, prov):
    """values a provider would hand to the callback: [(state, {property: value})]"""
    s = st.fork()
    v = prov
    mark = s.trace
    fn = None
    ptr = v
    # concrete type behind the reference
    while ptr[0] == 'P':
        w = e.read(s, ptr[1], ptr[2])
        if w[0] in ('P', 'D'):
            ptr = w
            continue
        break
    if ptr[0] == 'D':
        vt = e.vts[ptr[2]]
        for n, mth in vt['methods']:
            if n == 'provide':
                fn = mth
        ptr = ptr[1]
    d = e.datum(s, ptr)
    if fn is None and d[0] == 'A':
        for im in e.f.impls:
            if im.get('trait', '').endswith('context::Provider') and im.get('adt') == d[1]:
                for n, k in im['items']:
                    if n == 'provide':
                        fn = {'path': k, 'name': 'provide', 'args': [], 'rkey': k, 'rlocal': True, 'local': True}
    if fn is None:
        return [(st, (('?', e.deep(st, prov)),))]
    out = []
    seen = []
    n0 = len(e.panics)
    for s2, _ in e.call_fn(s, fn, [ptr, ('demand',)], 'provide'):
        evs = []
        t = s2.trace
        while t is not None and t is not mark:
            if t[1][0] == 'provide':
                evs.append((t[1][1], t[1][2]))
            t = t[0]
        evs.reverse()
        pm = tuple(evs)
        new = {k: x for k, x in s2.facts.items() if st.facts.get(k) != x}
        out.append((pm, new))
    res = []
    uniq = {}
    for pm, new in out:
        uniq.setdefault(pm, []).append(new)
    items = list(uniq.items())
    for i, (pm, news) in enumerate(items):
        s3 = st if i == len(items) - 1 else st.fork()
        if len(news) == 1:
            s3.facts.update(news[0])
        res.append((s3, pm))
    return res or [(st, ())]


@m("rsasl::context::Demand::<'a>::provide_ref", "rsasl::context::Demand::<'a>::provide_mut")
def _(e, st, c, a):
    if a[0] != ('demand',) and e.datum(st, a[0]) != ('demand',):
        return NotImplemented
    st.ev('provide', short(tyarg(e, c)), e.deep(st, a[1]))
    return [(st, ('A', CF, 0, (a[0],)))]


@m("rsasl::context::Demand::<'a>::done")
def _(e, st, c, a):
    if e.opts.get('raw_context'):
        return NotImplemented
    return [(st, ('A', CF, 0, (UNIT,)))]


@rx(r'^rsasl::context::ProviderExt::and$')
def _(e, st, c, a):
    if e.opts.get('raw_context'):
        return NotImplemented
    return [(st, ('A', 'rsasl::context::And', 0, (a[0], a[1])))]


@rx(r'^rsasl::context::Provider::provide$')
def _(e, st, c, a):
    """calls on providers whose type is only known from the value"""
    ptr = a[0]
    d = e.datum(st, ptr)
    if ptr[0] == 'D':
        return NotImplemented
    if d[0] == 'A':
        for im in e.f.impls:
            if im.get('trait', '').endswith('context::Provider') and im.get('adt') == d[1]:
                for n, k in im['items']:
                    if n == 'provide' and k in e.f.bodies:
                        return e.exec_body(st, k, list(a))
    return NotImplemented


MD = r"^rsasl::session::MechanismData::<'_, '_>::"
NOVALUE = None


def is_novalue(v):
    """error value is SessionError::CallbackError(CallbackError::NoValue)"""
    return v[0] == 'A' and v[1] == SE and v[3] and v[3][0][0] == 'A' and v[3][0][1] == CE and v[3][0][2] == 0


def cberr(st, kind, P):
    st.ev('cb-error', kind, P)
    return err(('cberr', kind, P))


def request(e, st, kind, P, pm, closure, where):
    """outcomes of maybe_need_with -> [(state, Result<Option<G>>)]"""
    n = st.new()
    out = []
    s_none, s_err = st.fork(), st.fork()
    s_none.ev('req', kind, P, pm, 'none')
    out.append((s_none, ok(NONE)))
    s_err.ev('req', kind, P, pm, 'err')
    out.append((s_err, cberr(s_err, kind, P)))
    st.ev('req', kind, P, pm, 'value')
    for s, r in e.call_value(st, closure, [('prop', P)], where):
        for s2, v, p in cases(e, s, r, RES):
            if v == 0:
                out.append((s2, ok(some(p))))
            else:
                if e.opts.get('swallow'):
                    s3 = s2.fork()
                    s3.ev('closure-error-swallowed', P)
                    out.append((s3, ok(NONE)))
                if is_novalue(e.deep(s2, p)):
                    s2.ev('closure-novalue', P)
                    out.append((s2, ok(NONE)))
                else:
                    s2.ev('closure-error', P)
                    out.append((s2, err(p)))
    return out


@rx(MD + r'maybe_need_with$', MD + r'need_with$')
def _(e, st, c, a):
    if e.opts.get('raw_session'):
        return NotImplemented
    P = short(tyarg(e, c, 0))
    out = []
    for s, pm in provided(e, st, a[1]):
        for s2, r in request(e, s, 'satisfy', P, pm, a[2], c.where):
            if c.name == 'need_with' and r[2] == 0:
                o = r[3][0]
                if o[2] == 0:
                    s2.ev('missing', P)
                    r = err(('A', SE, e.f.variant_index(SE, 'CallbackError'), (('A', CE, 1, (('b', P.encode()),)),)))
                else:
                    r = ok(o[3][0])
            out.append((s2, r))
    return out


@rx(MD + r'maybe_need_cb_data$', MD + r'need_cb_data$')
def _(e, st, c, a):
    if e.opts.get('raw_session'):
        return NotImplemented
    name = e.datum(st, a[1])
    out = []
    for s, pm in provided(e, st, a[2]):
        pm = (('ChannelBindingName', name),) + pm
        # connection channel bindings supplied by the protocol implementation
        s1 = s.fork()
        s1.ev('cbdata', name)
        for s2, r in e.call_value(s1, a[3], [('cbdata', name)], c.where):
            for s3, v, p in cases(e, s2, r, RES):
                out.append((s3, ok(some(p)) if v == 0 else err(p)))
        for s2, r in request(e, s, 'satisfy', 'ChannelBindings', pm, a[3], c.where):
            out.append((s2, r))
    if c.name == 'maybe_need_cb_data':
        return out
    res = []
    for s, r in out:
        if r[2] == 0:
            o = r[3][0]
            if o[2] == 0:
                r = err(('A', SE, e.f.variant_index(SE, 'MissingChannelBindingData'), (name,)))
            else:
                r = ok(o[3][0])
        res.append((s, r))
    return res


@rx(MD + r'validate$')
def _(e, st, c, a):
    if e.opts.get('raw_session'):
        return NotImplemented
    out = []
    for s, pm in provided(e, st, a[1]):
        s2 = s.fork()
        s.ev('validate', pm, 'ok')
        out.append((s, ok(UNIT)))
        s2.ev('validate', pm, 'err')
        out.append((s2, err(('valerr',))))
    return out


@rx(MD + r'action$')
def _(e, st, c, a):
    if e.opts.get('raw_session'):
        return NotImplemented
    P = short(tyarg(e, c, 0))
    out = []
    for s, pm in provided(e, st, a[1]):
        s2 = s.fork()
        s.ev('action', P, pm, e.deep(s, a[2]), 'ok')
        out.append((s, ok(UNIT)))
        s2.ev('action', P, pm, e.deep(s2, a[2]), 'err')
        out.append((s2, err(('cberr', 'action', P))))
    return out


@rx(r"^rsasl::vectored_io::VectoredWriter::<'io, N>::write_all_vectored$")
def _(e, st, c, a):
    if e.opts.get('raw_vectored'):
        return NotImplemented
    w = e.deep(st, a[0])
    bufs = None
    if w[0] == 'A':
        for x in w[3]:
            if x[0] == 'R':
                bufs = x[1]
            elif x[0] == 'b':
                bufs = (x,)
    if bufs is None:
        return NotImplemented
    d = cat(*bufs)
    a_, b_ = write_event(e, st, a[1], d, c.where)
    return [(a_, ok(mklen(d))), (b_, err(('ioerr', b_.new())))]
