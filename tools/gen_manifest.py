#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per property that has a check; the notes come from tools/levels.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
notes = json.load(open(os.path.join(here, 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        n = notes[i]
        checks.append(dict(property=i, quick_cmd=f'./run.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',
                           evidence_file=f'evidence/{i}.json', technique=n['technique'], level='model_checking', level_note=n['note']))
    else:
        na.append(dict(property=i, reason='not claimed yet: the check is being built'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
     notes='No hooks: every check drives the public C and Python interfaces of the working tree in /repo. Checks work in a scratch directory that they remove. Known findings and repaired defects: known_findings.txt.'),
     open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
