#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and units.py.
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from units import PROPS, NA
props = [json.loads(l) for l in open(H + '/properties.jsonl') if l.strip()]
ids = [p['id'] for p in props]
assert len(ids) == len(set(ids))
for i in PROPS: assert i in ids, i
checks = []
for p in props:
    i = p['id']
    assert len(p['title']) <= 80, i
    if i not in PROPS: assert i in NA, 'no check and no reason for ' + i; continue
    P = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': 'bounded symbolic execution of the LLVM IR of the real code, decided by Z3', 'level': 'model_checking',
        'level_note': 'Every value within the bounds, decided by the solver; nothing beyond them. ' + P.get('note', '') + (' Assumes: ' + '; '.join(P['assume']) + '.' if P.get('assume') else '')})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA],
    'notes': 'check.py lowers the harnesses with the current /repo sources to LLVM IR, runs build/abcsym (engine/), replays counterexamples and a sample of paths natively, and writes evidence/. No hooks in /repo are needed.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(NA), 'n/a')
