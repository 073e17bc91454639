#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the jobs."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from jobs import PROPERTIES  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
HOOK_COMMITS = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], capture_output=True, text=True).stdout.split()
m = {
    'version': 1,
    'setup_cmd': 'python3 setup.py',
    'hooks': {
        'guard': 'PENGUINV_VERIF_HOOKS',
        'enable': 'build.py compiles /repo/src with -DPENGUINV_VERIF_HOOKS; the project\'s own builds never define it',
        'source_commits': HOOK_COMMITS,
    },
    'checks': [],
    'not_applicable': [],
    'notes': 'Runtime monitoring: every check rebuilds the library from /repo/src with the monitors of harness/ and judges real executions. See DESIGN.md.',
}
for p in props:
    i = p['id']
    if i in PROPERTIES:
        s = PROPERTIES[i]
        m['checks'].append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': s['technique'],
            'level': 'exploration',
            'level_note': s['note'],
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': 'no check yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
