#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
CHECKS = json.load(open(V + '/scripts/checks.json'))
NA = json.load(open(V + '/scripts/na.json'))
checks = []
for c in CHECKS:
    p = c['property']
    checks.append(dict(property=p, quick_cmd=c['cmd'], thorough_cmd=c.get('thorough', c['cmd']), evidence_file='evidence/%s.json' % p,
                       technique=c['technique'], level=c.get('level', 'other'), level_note=c['note']))
done = {c['property'] for c in CHECKS}
na = [dict(property=p, reason=NA.get(p, 'not built yet')) for p in props if p not in done]
json.dump(dict(version=1, setup_cmd='python3 scripts/setup.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
