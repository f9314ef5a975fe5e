"""Framework functions (everything that is not a mechanism exchange): finding them and running the engine on one."""
from engine import *
import models


def short(k):
    return k.split('#')[0]


def bodies(f, *suffixes, closures=False, local=True):
    """monomorphic or polymorphic instances whose path ends with one of the suffixes"""
    return sorted(k for k, b in f.bodies.items() if 'blocks' in b and (not local or b.get('local', True))
                  and any(short(k).endswith(s) for s in suffixes) and (closures or '{closure' not in short(k)))


def blocks(f, k):
    return f.bodies[k].get('blocks', ())


def calls(f, k):
    """(function constant, terminator) of every direct call in a body"""
    for bl in blocks(f, k):
        t = bl['t']
        if t['t'] == 'call':
            fn = t['f'].get('const', {}).get('fn') if isinstance(t['f'], dict) else None
            if fn:
                yield fn, t


def run(f, k, args=None, opts=None, st=None):
    e = Engine(f, models, dict({'raw_session': 1, 'raw_vectored': 1}, **(opts or {})))
    st = st or State()
    if args is None:
        args = [('arg', i) for i in range(f.bodies[k]['argc'])]
    return e, e.exec_body(st, k, args)


def result(e, s, v):
    """Ok/Err or Some/None payload split: [(state, variant, payload)]"""
    return models.cases(e, s, v, RES)
