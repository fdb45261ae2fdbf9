#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and table.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from props import P
from table import CHECKS, NOT_APPLICABLE, NOTES
V = os.path.dirname(H)
with open(V + '/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[], notes=NOTES)
for x in P:
    i = x['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            technique='symbolic execution of the LLVM IR of the real sources, assertions decided by Z3 over all values within bounds, counterexamples replayed against a native build',
            level=c['level'], level_note=(c.get('bounds', '') + ' Outside: ' + c.get('outside', ''))[:1500]))
    else: m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check has been built yet')))
with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(P), 'properties', len(m['checks']), 'checks')
