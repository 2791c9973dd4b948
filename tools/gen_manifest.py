"""Regenerate MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    try:
        m = importlib.import_module(f'checks.{pid.lower()}')
    except ModuleNotFoundError:
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': f'./check {pid}',
        'thorough_cmd': f'./check {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': getattr(m, 'TECHNIQUE', 'bounded exhaustive exploration of the real code '
                             'against an independent reference model of the wire format'),
        'level': m.LEVEL,
        'level_note': getattr(m, 'NOTE', '') or (m.RULE + '. Assumes: ' + ('; '.join(m.ASSUMPTIONS) or 'nothing beyond the bounds') + '.'),
    })
json.dump({
    'version': 1,
    'setup_cmd': './check C01 --only uint8/default',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Pure Python: every check imports the code from /repo\'s working tree at run time; '
             'no build products and no hooks in /repo are needed. Exploration uses 8 processes.',
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [n['property'] for n in na])
