#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.runner import read_spec  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if not os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
        na.append(dict(property=p['id'], reason='check under construction'))
        continue
    s = read_spec(p['id'])
    checks.append(dict(
        property=p['id'],
        quick_cmd=f'python3 run.py {p["id"]}',
        thorough_cmd=f'python3 run.py {p["id"]} --thorough',
        technique=s['TECHNIQUE'],
        level=s['LEVEL'],
        level_note=s.get('NOTE') or (
            'Held on the executions run: ' + s['RULE'] + '. Trusts the scheduler in '
            'lib/vsched.py (preemption at source lines and lock operations of the real code, '
            'virtual time) and the reference model of the check'
            + ('; assumes ' + '; '.join(s['ASSUMPTIONS']) if s['ASSUMPTIONS'] else '') + '.'),
    ))
m = dict(version=1, setup_cmd='python3 -c "import sys; assert sys.version_info >= (3, 8)"',
         checks=checks, not_applicable=na,
         notes='Runtime monitoring of the real code in /repo; no hooks in /repo are needed. '
               'Every check is run.py <id>; see DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
