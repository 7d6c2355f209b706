#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import props
NA = props.NOT_APPLICABLE
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    i = json.loads(l)['id']
    if i in props.CHECKS:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': props.TECH.get(i, props.TECH['']), 'level': 'model_checking', 'level_note': props.NOTE.get(i, props.NOTE[''])})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na, 'notes': 'see DESIGN.md'}
if props.HOOKS:
    m['hooks'] = props.HOOKS
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
