#!/usr/bin/env python3
"""all.py [ID...]: the rules of several checks over one exploration of each mechanism (for campaigns; the registered checks are
check.py).  Prints the alarms and the property they belong to."""
import sys, os, importlib, time, traceback, json
V_ = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V_, 'sa'))
import runner, mech, extract
from runner import *


def group(t):
    (name, side, oj, rounds), pids = t
    out = []
    try:
        f = FACTS['all']
        m = [m for m in mech.mechanisms(f) if m.name == name][0]
        x = mech.Exchange(f, m, side, json.loads(oj), rounds)
        if x.absent:
            return out
    except Exception:
        return [(p, {'%s/%s explore' % (name, side): {'msg': traceback.format_exc()[-800:], 'n': 1}}, {}) for p in pids]
    for p in pids:
        v = V('%s/%s' % (name, side))
        try:
            RULES[p].exchange(x, v)
        except Exception:
            v('analysis-error', traceback.format_exc()[-800:])
        out.append((p, v.viol, v.counts))
    return out


def one(t):
    return group(t[1]) if t[0] == 'g' else [(t[1][0], (r := run_task((t[0], t[1])))['viol'], r['counts'])]


def main():
    ids = sys.argv[1:] or [p[:-3] for p in sorted(os.listdir(V_ + '/sa/props')) if p[0] == 'C' and p != 'C26.py' and p.endswith('.py')]
    t0 = time.time()
    for p in ids:
        RULES[p] = importlib.import_module('props.' + p)
    try:
        FACTS['all'] = Facts(extract.extract('all'))
    except Exception as e:
        print('EXTRACT', str(e)[-300:])
        return
    groups, work = {}, []
    ms = mech.mechanisms(FACTS['all'])
    for p in ids:
        r = RULES[p]
        want = getattr(r, 'selects', lambda m, side: True)
        if hasattr(r, 'explore') or hasattr(r, 'exchange'):
            for m in ms:
                for side in ('client', 'server'):
                    if want(m, side):
                        for o in getattr(r, 'variants', lambda t: [{}])('quick'):
                            if hasattr(r, 'explore'):
                                work.append(('x', (p, 'all', m.name, side, o, getattr(r, 'rounds', 8))))
                            else:
                                groups.setdefault((m.name, side, json.dumps(o, sort_keys=True), getattr(r, 'rounds', 8)), []).append(p)
        for fn in getattr(r, 'statics', []):
            work.append(('s', (p, 'all' if getattr(r, 'needs_facts', True) else None, fn)))
    FACTS[None] = None
    only = os.environ.get('MECHS')          # e.g. SCRAM-SHA-256,PLAIN: leave the others out (no floors then)
    if only:
        groups = {k: g for k, g in groups.items() if k[0] in only.split(',')}
        work = [t for t in work if t[0] == 's' or t[1][2] in only.split(',')]
    work = [('g', g) for g in groups.items()] + work
    work.sort(key=lambda t: (not (t[0] == 'g' and 'PLUS' in t[1][0][0] and t[1][0][1] == 'client'), t[0] != 's'))
    viol, counts = {}, {}
    with mp.get_context('fork').Pool(8) as pool:
        for rs in pool.imap_unordered(one, work, 1):
            for p, vs, cs in rs:
                for k, v in vs.items():
                    viol.setdefault((p, k), v)
                for k, n in cs.items():
                    counts[p, k] = counts.get((p, k), 0) + n
    for p in ids if not only else ():
        for k, n in getattr(RULES[p], 'floors', {}).items():
            if counts.get((p, k), 0) < n:
                viol[p, 'floor ' + k] = {'msg': '%d of %d' % (counts.get((p, k), 0), n), 'n': 1}
    known = known_findings()
    bad = [k for k in sorted(viol) if k not in known]
    for p, k in bad[:int(os.environ.get('MAXOUT', '12'))]:
        print('ALARM %s [%s] %s' % (p, k, viol[p, k]['msg'][:260].replace('\n', ' ')))
    print('%d alarms in %s, %.0f s' % (len(bad), ' '.join(sorted({p for p, k in bad})) or '-', time.time() - t0))


main()
