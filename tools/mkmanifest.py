#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (and checks it against properties.jsonl)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(f'{here}/properties.jsonl')]
sys.path.insert(0, f'{here}/tools')
from checks import CHECKS, NOT_APPLICABLE
checks = []
for pid in props:
    if pid not in CHECKS:
        continue
    technique, note = CHECKS[pid]
    checks.append({
        'property': pid,
        'quick_cmd': f'bash check.sh {pid}',
        'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {pid}',
        'evidence_file': f'evidence/{pid}.json',
        'technique': technique,
        'level': 'exploration',
        'level_note': note,
    })
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check built yet')} for p in props if p not in CHECKS]
json.dump({
    'version': 1,
    'setup_cmd': 'bash tools/setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Replay a failure with: bash check.sh ID --replay evidence/replay/FILE.json. Harness crates live in h/, the engine in h/core.',
}, open(f'{here}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
