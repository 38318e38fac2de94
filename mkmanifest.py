#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, sys
sys.path.insert(0, '/verif')
from plan import PLAN, TECH, NOTE, NA
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl') if l.strip()]
m = {'version': 1, 'setup_cmd': 'python3 /verif/run.py setup',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the harnesses compile the unmodified sources and interpose libc and pthread symbols at link time', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in props:
    if p in PLAN:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 /verif/run.py check %s quick' % p,
                            'thorough_cmd': 'python3 /verif/run.py check %s thorough' % p,
                            'evidence_file': '/verif/evidence/%s.json' % p,
                            'technique': TECH[PLAN[p].get('group', 'cluster')], 'level': PLAN[p].get('level', 'model_checking'),
                            'level_note': NOTE.get(p, NOTE[PLAN[p].get('group', 'cluster')])})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'not claimed')})
m['notes'] = 'see DESIGN.md'
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
