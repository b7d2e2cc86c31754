#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/table.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from table import TABLE, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in TABLE:
        continue
    t = TABLE[p]
    checks.append(dict(
        property=p, quick_cmd='python3 check.py %s' % p,
        thorough_cmd='python3 check.py %s --thorough' % p,
        technique=t['technique'], level='model_checking',
        level_note='Exhaustive within the bounds: %s. Oracle: %s.%s' % (
            t['bounds'], t['oracle'], (' Assumes: ' + '; '.join(
                t['assumptions']) + '.') if t.get('assumptions') else '')))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet'))
      for p in props if p not in TABLE]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
               not_applicable=na,
               notes='No hooks in /repo: the library is compiled as it is and '
               'its libc calls are redirected with objcopy.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
