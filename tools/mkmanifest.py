#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/table.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from table import NOT_APPLICABLE, TABLE  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in TABLE:
        c = TABLE[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'python3 check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'TLA+ specification checked with TLC; TLC behaviours replayed into the code and '
                         'recorded executions judged by TLC (trace validation)',
            'level': 'model_checking',
            'level_note': c['note'],
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'not built yet: its check is being written')})
m = {'version': 1, 'setup_cmd': 'python3 setup_verif.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the public API exposes all the state the specification needs. '
              'See DESIGN.md; known_findings.jsonl records the defects found and repaired.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
