"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__)))
from table import P, NA, HOOKS
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
with open(root + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        q = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(q['title']) <= 80, q
        q['quantifier'] = {'over': p['over'], 'text': p['text']}
        q['why_tests_cant'] = p['why']
        q['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in P:
    cmd = 'cd /verif && /opt/venv/bin/python -m props.%s ' % p['id']
    m['checks'].append({'property': p['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                        'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
for p in NA:
    m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
