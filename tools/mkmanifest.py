#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from texts import TEXT, NA
import check
props = [json.loads(l)['id'] for l in open(os.path.join(check.HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in check.P:
        t, n = TEXT[p]
        checks.append(dict(property=p, quick_cmd=f'python3 check.py {p} quick', thorough_cmd=f'python3 check.py {p} thorough', technique=t, level=check.P[p]['level'], level_note=n))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(check.HERE, 'MANIFEST.json'), 'w'), indent=1)
