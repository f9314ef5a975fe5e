
from engine import *
def pv(v):
    if not isinstance(v, tuple): return repr(v)
    k=v[0] if v else ''
    if k=='b': return repr(v[1])[1:]
    if k=='i': return str(v[1])
    if k=='cat': return '('+' ++ '.join(pv(x) for x in v[1])+')'
    if k=='A': return v[1].split('::')[-1]+'#'+str(v[2])+'('+', '.join(pv(x) for x in v[3])+')'
    if k in('T','R'): return k+'('+', '.join(pv(x) for x in v[1])+')'
    if k=='P': return '&'+str(v[1])+str(v[2])
    if k=='slice': return pv(v[1])+'['+pv(v[2])+'..'+(pv(v[3]) if v[3] else '')+']'
    if k=='lin': return '+'.join([str(v[1])]+[f"{c}*{pv(t)}" for t,c in v[2]])
    if k=='fld': return pv(v[1])+'.'+str(v[2])
    return str(k)+'('+', '.join(pv(x) for x in v[1:])+')'
def show(x, maxn=60):
    for n,(st,steps) in enumerate(x.paths[:maxn]):
        print('--path',n)
        for d in steps:
            print('   step', pv(d.get('input') or ('none',)), '->', d['kind'], pv(d['ret']) if isinstance(d.get('ret'),tuple) else d.get('ret'))
            for ev in d.get('events',()):
                print('       ', ev[0], ' '.join(pv(q) for q in ev[1:]))
    for p in x.e.panics[:40]:
        print('PANIC', p[1:4], [s.split('#')[0] for s in p[0]][-3:])
