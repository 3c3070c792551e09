#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open('techniques.json'))
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'mc/src/bin/{i.lower()}.rs') and i in T:
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json', 'technique': T[i][0], 'level': 'model_checking', 'level_note': T[i][1]})
    else:
        na.append({'property': i, 'reason': 'the exploration for this property is not finished yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo are needed: the checks use its public API. Fixes of genuine defects are listed in KNOWN_FINDINGS.txt.'},
  open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
