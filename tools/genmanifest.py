#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checker/required.txt."""
import json
root = '/verif'
props = [json.loads(l) for l in open(f'{root}/properties.jsonl')]
claimed = set()
for l in open(f'{root}/checker/required.txt'):
    f = l.split()
    if len(f) == 3:
        claimed.add(f[0])
TECH = 'static analysis: path-sensitive typestate and value-flow dataflow over go/ssa, loops widened to a fixpoint'
notes = json.load(open(f'{root}/tools/notes.json'))
NA = notes['not_applicable']
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed and i not in NA:
        c = {'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
             'evidence_file': f'evidence/{i}.json', 'technique': notes['technique'].get(i, TECH), 'level': 'other',
             'level_note': notes['note'].get(i, '') + (' ' if i in notes['note'] else '') + notes['common']}
        checks.append(c)
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check decides it yet.')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed: the analysis reads the source. known_findings.txt records repaired defects.'}
json.dump(m, open(f'{root}/MANIFEST.json', 'w'), indent=1)
open(f'{root}/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable', [x['property'] for x in na])
