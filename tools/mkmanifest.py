#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/checks.py and the property list."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'engine'))
import checks
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
ck, na = [], []
for p in props:
    i = p['id']
    if i in checks.C and not checks.C[i].get('off'):
        s = checks.C[i]
        ck.append(dict(property=i, quick_cmd='python3-vt engine/check.py %s quick' % i, thorough_cmd='python3-vt engine/check.py %s thorough' % i,
                       technique=s.get('technique', checks.TECH), level=s.get('level', checks.LEVEL), level_note=s.get('note', checks.NOTE) + (' Bounds: ' + s['bounds'] if s.get('bounds') else '')))
    else:
        na.append(dict(property=i, reason=checks.NA.get(i, 'no harness built yet')))
m = dict(version=1, setup_cmd='python3-vt engine/setup.py', checks=ck, not_applicable=na,
         notes='Every check recompiles the harness together with the sources of /repo it depends on, and regenerates the symbolic encoding from that IR.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
print(len(ck), 'checks,', len(na), 'not applicable')
