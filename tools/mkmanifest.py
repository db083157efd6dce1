#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOTES  # noqa: E402
props = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p not in CHECKS:
        na.append({'property': p, 'reason': 'its check is not built yet'})
        continue
    c = CHECKS[p]
    models = [m if isinstance(m, str) else m[1] for m in c.get('models', [])]
    how = []
    if models:
        how.append('TLC model checking of ' + ', '.join(models))
    if 'behaviours' in c:
        how.append('replay on the code of behaviours TLC generates from ' + c['behaviours'][0])
    how.append(f"TLC trace validation against {c['conf']}")
    checks.append({
        'property': p, 'quick_cmd': f'python3 run.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 run.py {p}',
        'technique': 'TLA+: ' + '; '.join(how), 'level': c['level'],
        'level_note': NOTES.get(p, '') + ' Trusts TLC, the recording of values to 16 decimals in harness/rec.py, numpy/h5py, '
        'and that the driven inputs and histories represent the rest; no bound is claimed beyond what evidence/ lists.'})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ specification in spec/, drivers that exercise the code in /repo/src in harness/, run.py ties them together. No hooks in /repo.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
