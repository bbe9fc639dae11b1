"""DESIGN.md = DESIGN.head.md + generated per property section + DESIGN.tail.md"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from table import table     # noqa: E402
t = table()
levels = json.load(open(os.path.join(H, 'levels.json')))
notes = json.load(open(os.path.join(H, 'tools', 'design_notes.json')))
out = [open(os.path.join(H, 'tools', 'DESIGN.head.md')).read().rstrip() + '\n\n## Per property\n']
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    fns = t.get(p['id'], [])
    out.append('\n### %s %s\n' % (p['id'], p['title']))
    out.append('* Level: `%s`. %s' % (levels[p['id']]['level'], levels[p['id']]['note']))
    by = {}
    for f in fns:
        if f.startswith('lemma '):
            by.setdefault('lemmas', []).append(f[6:])
        else:
            parts = f.split('.')
            k = next(i for i, x in enumerate(parts) if x[0].isupper() or i == len(parts) - 1
                     or (x[0] == '_' and i > 0))
            by.setdefault('.'.join(parts[:k]), []).append('.'.join(parts[k:]))
    for m, fs in by.items():
        out.append('* `%s`: %s' % (m, ', '.join('`%s`' % x for x in fs)))
    out.append('* %s' % notes[p['id']])
out.append('\n' + open(os.path.join(H, 'tools', 'DESIGN.tail.md')).read().rstrip() + '\n')
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
