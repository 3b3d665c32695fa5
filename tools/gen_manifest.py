#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    s = props.PROPS.get(i)
    if not s:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'the check for this property is not built yet')))
        continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
                       thorough_cmd='python3 check.py %s --tier thorough' % i,
                       technique=s['technique'], level=s['level'], level_note=s['note']))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Every check rebuilds the C library (and, where used, the Ruby extension) from /repo\'s working tree; '
               'no hooks in /repo are needed: all observation is at the public API, at the system-call boundary '
               '(linker --wrap) and by compiler sanitizers.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
