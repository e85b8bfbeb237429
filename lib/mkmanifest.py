#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
meta = json.load(open(V + '/lib/props.json'))
na = json.load(open(V + '/lib/not_applicable.json')) if os.path.exists(V + '/lib/not_applicable.json') else {}
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in meta:
        x = meta[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s --quick' % p,
            'thorough_cmd': 'python3 check.py %s --thorough' % p,
            'technique': x['technique'], 'level': x['level'], 'level_note': x['note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': na.get(p, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
