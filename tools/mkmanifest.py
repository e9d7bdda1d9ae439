#!/usr/bin/env python3
"""Writes MANIFEST.json from analyzer/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analyzer'))
from registry import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        d = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i,
                           thorough_cmd='python3 check.py %s --thorough' % i, technique=d['technique'],
                           level=d['level'], level_note=d['explain'] + ' Assumes: ' + ' '.join(
                               d['assume'] or ['nothing further.']) + ' Trusts rustc\'s MIR, the analyser and its models of std.'))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'Not built yet.')))
m = dict(version=1, setup_cmd='python3 analyzer/dump.py', checks=checks, not_applicable=na,
         notes='Every check reads /repo\'s current source through the compiler; nothing of xprs is executed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
