#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the property modules under sa/props and tools/na.json."""
import json, os, sys, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
na = json.load(open(os.path.join(V, 'tools', 'na.json')))
checks, nas = [], []
for p in props:
    if os.path.exists(os.path.join(V, 'sa', 'props', p + '.py')):
        m = importlib.import_module('props.' + p)
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': getattr(m, 'technique', 'path-partitioned abstract interpretation of MIR (provenance dataflow)'),
                       'level': m.level, 'level_note': getattr(m, 'level_note', m.explanation + ' Decided statically; trusts the models of std and the crypto/GSS/JSON dependencies.')})
    else:
        nas.append({'property': p, 'reason': na.get(p, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 sa/extract.py all dist', 'checks': checks, 'not_applicable': nas,
           'notes': 'No hooks in /repo: the checks read the MIR rustc builds from /repo. Nothing of rsasl is executed. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(nas), 'not applicable')
