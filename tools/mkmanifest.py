#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks the checker implements."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = subprocess.run([V + '/bin/checker', '-list'], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {}
exec(open(V + '/tools/techniques.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in ids:
        t, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': './run.sh ' + i, 'evidence_file': f'evidence/{i}.json',
                       'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: no code of /repo is executed. No hooks are needed in /repo. DESIGN.md says how each property is decided.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks,', len(na), 'not claimed')
