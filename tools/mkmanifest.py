#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and rsa/registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rsa import registry  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.RULES:
        e = registry.RULES[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                       'thorough_cmd': 'python3 check.py %s --tier=thorough' % i,
                       'technique': e['technique'], 'level': e['level'], 'level_note': e['note']})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'no static rule built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast"', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks parse /repo/resync/*.py and the three scripts on every run; nothing of /repo is imported or executed.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
