"""writes MANIFEST.json from properties.jsonl and levels.json"""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
levels = json.load(open(os.path.join(H, 'levels.json')))
checks = []
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)['id']
    lv = levels.get(p, {})
    c = {'property': p, 'quick_cmd': 'python3-vt run_check.py %s' % p,
         'thorough_cmd': 'python3-vt run_check.py %s --tier thorough' % p,
         'technique': lv['technique'], 'level': lv['level'], 'level_note': lv['note']}
    if lv.get('theorems'):
        c['theorems'] = lv['theorems']
    checks.append(c)
json.dump({'version': 1, 'setup_cmd': 'python3-vt setup_check.py', 'checks': checks,
           'not_applicable': [],
           'notes': 'No hooks: /repo is read as it is. See DESIGN.md.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
