#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 /verif/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({
            'property': p, 'quick_cmd': 'python3 /verif/check.py %s' % p, 'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % p,
            'evidence_file': '/verif/evidence/%s.json' % p,
            'technique': 'symbolic execution of the compiler IR of the real code with SMT-decided path conditions and assertions; counterexamples replayed on a native sanitizer build',
            'level': 'model_checking', 'level_note': 'exhaustive within bounds: ' + c['bounds']})
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
