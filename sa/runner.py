"""Check driver: extract facts from /repo's current tree, run the rules of one property, report."""
import os, sys, json, time, re, traceback, hashlib
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine import *
import mech, extract
from terms import describe

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class V:
    """collector of one worker: violations by stable key, and counters of what was looked at"""
    def __init__(self, where):
        self.where = where
        self.viol = {}
        self.counts = {}
        self.samples = []
        self.notes = []

    def __call__(self, key, msg, path=None, extra=None):
        k = '%s %s' % (self.where, key)
        if k in self.viol:
            self.viol[k]['n'] += 1
            return
        d = ''
        if path is not None:
            steps, st = (path.steps, path.st) if hasattr(path, 'steps') else path
            d = describe(steps, st)
        self.viol[k] = {'msg': msg if isinstance(msg, str) else str(msg), 'path': d + (extra or ''), 'n': 1}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)


FACTS = {}
RULES = {}


def explore_task(args):
    """one (config, mechanism, side, opts) exchange exploration with the rules applied inside the worker"""
    pid, cfg, name, side, opts, rounds = args
    t0 = time.time()
    f = FACTS[cfg]
    v = V('%s/%s' % (name, side))
    res = {'task': '%s:%s/%s%s' % (cfg, name, side, '' if not opts else ':' + '+'.join(sorted(opts)))}
    try:
        m = [m for m in mech.mechanisms(f) if m.name == name][0]
        if hasattr(RULES[pid], 'explore'):
            RULES[pid].explore(f, m, side, v, res)
            res.update(viol=v.viol, counts=v.counts, samples=v.samples, notes=v.notes, wall=time.time() - t0)
            return res
        x = mech.Exchange(f, m, side, opts, rounds)
        res['absent'] = x.absent
        if not x.absent:
            RULES[pid].exchange(x, v)
            v.count('exchanges', len(x.paths))
            v.count('steps', sum(len(s) for _, s in x.paths))
            res['bodies'] = sorted({k.split('#')[0] for k in x.e.analysed})
            res['unmodelled'] = x.e.unmodelled
            for path in x.e.unmodelled:
                if path not in OKCALLS:
                    v.notes.append('unmodelled call ' + path)
            fin = [s for s in x.paths if s[1][-1]['kind'] in ('Finished', 'err')]
            if fin:
                v.sample(describe(fin[len(fin) // 2][1])[:1500])
    except Budget as e:
        v('analysis-incomplete', 'the exploration did not complete: %s' % e)
    except Exception:
        v('analysis-error', 'the analysis failed: ' + traceback.format_exc()[-1500:])
    res.update(viol=v.viol, counts=v.counts, samples=v.samples, notes=v.notes, wall=time.time() - t0)
    return res


def static_task(args):
    pid, cfg, fname = args
    t0 = time.time()
    v = V(cfg if cfg != 'all' else '')
    v.where = fname
    res = {'task': '%s:%s' % (cfg, fname)}
    try:
        getattr(RULES[pid], fname)(FACTS[cfg] if cfg else None, v)
    except Budget as e:
        v('analysis-incomplete', 'the exploration did not complete: %s' % e)
    except Exception:
        v('analysis-error', 'the analysis failed: ' + traceback.format_exc()[-1500:])
    res.update(viol=v.viol, counts=v.counts, samples=v.samples, notes=v.notes, wall=time.time() - t0, absent=False)
    return res


OKCALLS = {'rsasl::config::ConfigInstance::get_mech_iter'}


def run_task(t):
    return explore_task(t[1]) if t[0] == 'x' else static_task(t[1])


def known_findings():
    """(property, key) listed as known; `fixed:` lines suppress nothing"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)$', l.strip())
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r


def main(pid, rules):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    RULES[pid] = rules
    viol, counts, samples, tasks, bodies, unm, notes = {}, {}, [], [], set(), {}, set()
    cfgs = ['all'] if tier == 'quick' else ['all', 'dist']
    err = None
    try:
        for c in cfgs:
            if getattr(rules, 'needs_facts', True):
                FACTS[c] = Facts(extract.extract(c))
    except Exception as e:
        err = '%s' % e
        viol['extract analysis-error'] = {'msg': 'facts could not be extracted from the current tree: %s' % err[-1500:], 'path': '', 'n': 1}
    results = []
    if err is None:
        work = []
        for c in cfgs:
            if hasattr(rules, 'exchange') or hasattr(rules, 'explore'):
                ms = mech.mechanisms(FACTS[c])
                want = getattr(rules, 'selects', lambda m, side: True)
                for m in ms:
                    for side in ('client', 'server'):
                        if want(m, side):
                            for o in getattr(rules, 'variants', lambda t: [{}])(tier):
                                work.append(('x', (pid, c, m.name, side, o, getattr(rules, 'rounds', 8))))
            for fn in getattr(rules, 'statics', []):
                if c == 'all' or fn not in getattr(rules, 'once', ()):
                    work.append(('s', (pid, c if getattr(rules, 'needs_facts', True) else None, fn)))
        # longest first
        work.sort(key=lambda t: (not (t[0] == 'x' and 'PLUS' in t[1][2] and t[1][3] == 'client'), t[0] != 's'))
        with mp.get_context('fork').Pool(min(8, max(1, len(work)))) as pool:
            for r in pool.imap_unordered(run_task, work, 1):
                results.append(r)
    done = 0
    for r in sorted(results, key=lambda r: r['task']):
        if r.get('absent'):
            continue
        done += 1
        tasks.append({'task': r['task'], 'wall_s': round(r['wall'], 2), **{k: v for k, v in r['counts'].items()}})
        for k, v in r['viol'].items():
            if k in viol:
                viol[k]['n'] += v['n']
            else:
                viol[k] = dict(v, task=r['task'])
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        samples += r['samples'][:1]
        bodies |= set(r.get('bodies', ()))
        for k, n in r.get('unmodelled', {}).items():
            unm[k] = unm.get(k, 0) + n
        notes |= set(r['notes'])
    # floors: a rule that matches nothing proves nothing
    if err is None:
        for k, n in getattr(rules, 'floors', {}).items():
            if counts.get(k, 0) < n:
                viol['floor ' + k] = {'msg': 'only %d %s found, at least %d expected: the rule lost its anchor' % (counts.get(k, 0), k, n), 'path': '', 'n': 1}
    known = known_findings()
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    bad = 0
    for k in sorted(viol):
        v = viol[k]
        if (pid, k) in known:
            print('KNOWN-FINDING: property=%s [%s] %s' % (pid, k, known[(pid, k)]))
            continue
        bad += 1
        p = os.path.join(rdir, '%s-%d.txt' % (pid, bad))
        with open(p, 'w') as o:
            o.write('property %s\nkey      %s\nrule     %s\ntask     %s\npaths    %d\n\n%s\n' % (pid, k, v['msg'], v.get('task', ''), v['n'], v['path']))
        if bad <= 12:
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('   [%s] %s' % (k, v['msg'][:700]))
    if bad > 12:
        print('... %d more violations under %s' % (bad - 12, rdir))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': rules.level,
        'coverage': {
            'explanation': rules.explanation,
            'rule': rules.rule,
            'analysed': counts,
            'units': tasks,
            'functions_analysed': len(bodies),
            'local_functions': sorted(b for b in bodies if 'rsasl' in b or 'mechanisms' in b or b.startswith('<mech'))[:400],
            'obligations': sum(counts.values()),
            'unmodelled_calls': unm,
            'samples': samples[:4] or ['none'],
            'known_findings_seen': sorted(k for k in viol if (pid, k) in known),
        },
        'assumptions': rules.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': bad,
    }
    EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    print('%s %s: %d units, %s, %d violation(s), %.1f s' % (pid, tier, done, ', '.join('%d %s' % (v, k) for k, v in sorted(counts.items())), bad, time.time() - t0))
    for n in sorted(notes):
        print('   note:', n)
    return 1 if bad else 0
