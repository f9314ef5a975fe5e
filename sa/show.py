"""Developer aid: pretty-print exported MIR.  python3 sa/show.py FACTS.json SUBSTR"""
import json, sys
F = json.load(open(sys.argv[1])); T = F['types']
def ts(i): return T[i]['s'] if isinstance(i, int) else str(i)
def pl(p):
    s = '_%d' % p['l']
    for e in p['pr']:
        k = e['p']
        if k == 'deref': s = '(*%s)' % s
        elif k == 'field': s += '.%d' % e['i']
        elif k == 'down': s += ' as %s' % (e['n'] or e['v'])
        elif k == 'index': s += '[_%d]' % e['l']
        else: s += '<%s>' % e
    return s
def const(c):
    if 'fn' in c: f = c['fn']; return 'FN(%s%s)' % (f.get('rpath') or f['path'], '' if f.get('body') else ' !' + str(f.get('rkind', '')))
    v = c.get('v')
    if v is None: return 'CONST(%s)' % {k: x for k, x in c.items()}
    for k in ('str', 'bytes'):
        if k in v: return repr(v[k])
    return 'c%s:%s' % (v, ts(c['ty']))
def op(o):
    if 'const' in o: return const(o['const'])
    return ('mv ' if 'move' in o else '') + pl(o.get('copy') or o.get('move'))
def rv(r):
    k = r['r']
    if k == 'use': return op(r['op'])
    if k == 'ref': return '&' + ('mut ' if r['mut'] else 'fake ' if r['fake'] else '') + pl(r['place'])
    if k == 'cast': return 'cast[%s] %s -> %s' % (r['ck'], op(r['op']), ts(r['to']))
    if k == 'bin': return '%s(%s, %s)' % (r['op'], op(r['a']), op(r['b']))
    if k == 'un': return '%s(%s)' % (r['op'], op(r['a']))
    if k == 'discr': return 'discr(%s)' % pl(r['place'])
    if k == 'agg': return 'agg %s %s v%s (%s)' % (r['k'], r.get('path', ''), r.get('v', ''), ', '.join(map(op, r['ops'])))
    return str(r)
if __name__ == '__main__':
    for key, b in F['bodies'].items():
        if sys.argv[2] not in key or 'error' in b: continue
        print('=====', key, b['kind'], b['span'], 'argc', b['argc'])
        nm = {}
        for n, p in b['vars']: nm.setdefault(pl(p), n)
        for i, t in enumerate(b['locals']): print('   _%d: %s %s' % (i, ts(t), nm.get('_%d' % i, '')))
        for i, bl in enumerate(b['blocks']):
            if bl['c']: continue
            print(' bb%d:' % i)
            for s in bl['s']:
                if s['s'] in ('live', 'dead'): continue
                print('    ', pl(s['p']) + ' = ' + rv(s['rv']) if s['s'] == 'assign' else s)
            t = bl['t']; k = t['t']
            if k == 'call': print('     %s = CALL %s (%s) -> %s  L%s' % (pl(t['dest']), op(t['f']), ', '.join(map(op, t['args'])), t.get('target'), t['sp'][1]))
            elif k == 'switch': print('     switch %s %s else %s' % (op(t['on']), t['targets'], t['otherwise']))
            elif k == 'drop': print('     drop %s -> %s' % (pl(t['place']), t['target']))
            else: print('    ', {a: x for a, x in t.items() if a != 'sp'})
