#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

lines, checks, na = [], [], []
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, (p['id'], 'at most three sentences')
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['forall']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': p['mechanism']}}))
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    if not os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')):
        na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './run %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./run %s' % p['id'],
        'technique': 'runtime monitoring: ' + p['technique'],
        'level': 'exploration',
        'level_note': p['note']})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    f.write('\n'.join(lines) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
               'notes': 'No build step: the checks import /repo directly with /opt/venv (PyPy 3.9). '
                        'No hooks were added to /repo, monitors wrap the public API from outside.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
