#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and contracts/properties.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(H + '/contracts/properties.json'))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    m = meta.get(p['id'])
    if not m or m.get('na'):
        na.append({'property': p['id'], 'reason': (m or {}).get('na', 'not claimed yet')}); continue
    checks.append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} --tier quick',
                   'thorough_cmd': f'python3 check.py {p["id"]} --tier thorough',
                   'technique': m.get('technique', 'contract-based deductive verification (Verus) of the extracted code'),
                   'level': m.get('level', 'proof'), 'level_note': m['note']})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh',
  'hooks': {'guard': 'cfg(conch_verif)', 'enable': 'RUSTFLAGS="--cfg conch_verif" (only for the harness, which reads the private token streams)',
            'source_commits': ['09613f5']},
  'checks': checks, 'not_applicable': na,
  'notes': 'check.py extracts /repo/src with vx, discharges the obligations of the property with Verus, and searches for failing inputs on the real code; see DESIGN.md.'},
  open(H + '/MANIFEST.json', 'w'), indent=1)
