#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py, and checks them against the schemas when present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools'); sys.path.insert(0, V + '/checks')
from props import PROPS, NOT_APPLICABLE
from registry import CHECKS
props = []; checks = []; na = []
for p in PROPS:
    # mech: 'name | where' strings; state: 'name | meaning | where'
    a = {'files': p['files'], 'mechanism': [dict(zip(('name', 'where'), map(str.strip, (m + '|' + p['files'][0]).split('|')))) for m in p['mech']]}
    if p.get('state'): a['state'] = [dict(zip(('name', 'meaning', 'where'), map(str.strip, m.split('|')))) for m in p['state']]
    if p.get('observe'): a['observe_at'] = p['observe']
    props.append({'id': p['id'], 'title': p['title'], 'statement': p['st'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'], 'anchors': a})
    if p['id'] in CHECKS:
        checks.append({'property': p['id'], 'quick_cmd': f"python3 run_check.py {p['id']}", 'thorough_cmd': f"python3 run_check.py {p['id']} thorough",
                       'evidence_file': f"evidence/{p['id']}.json", 'technique': p['tech'], 'level': 'model_checking', 'level_note': p['note']})
    else: na.append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'no check yet')})
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in props))
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'hooks': {'guard': 'none', 'enable': 'no hook is needed: the checks compile the unmodified sources', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json')); [jsonschema.validate(p, s) for p in props]
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: print('no jsonschema'); 
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
