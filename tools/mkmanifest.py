#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, re
from pathlib import Path
V = Path(__file__).resolve().parent.parent
NOTES = json.loads((V / 'tools' / 'notes.json').read_text())
checks, na = [], []
for l in (V / 'properties.jsonl').read_text().splitlines():
    p = json.loads(l)['id']
    if (V / 'checks' / f'{p.lower()}.py').exists():
        n = NOTES[p]
        checks.append(dict(property=p, quick_cmd=f'./check {p}', thorough_cmd=f'./check {p} --tier thorough',
                           evidence_file=f'evidence/{p}.json', technique=n['technique'], level='model_checking',
                           level_note=n['note']))
    else:
        na.append(dict(property=p, reason=NOTES.get(p, {}).get('na', 'check under construction')))
m = dict(version=1, setup_cmd='./tools/setup.sh', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC; bound to the code by replaying exported behaviours and '
               'by validating recorded traces. No hooks in /repo.')
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
