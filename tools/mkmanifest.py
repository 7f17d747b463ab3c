#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import table
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']; t = table.TABLE.get(i)
    if t: checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, technique=t['tech'], level=t['level'], level_note=t['note']))
    else: na.append(dict(property=i, reason=table.NA.get(i, 'no check built yet') if hasattr(table, 'NA') else 'no check built yet'))
m = dict(version=1, setup_cmd='g++ --version && python3 -m py_compile check tools/table.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
