"""functions under contract per property, from the contracts"""
import ast
import glob
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table():
    out = {}
    for f in sorted(glob.glob(os.path.join(H, 'contracts', '*.py'))):
        for n in ast.parse(open(f).read()).body:
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                if not isinstance(d, ast.Call) or getattr(d.func, 'id', '') not in ('contract', 'lemma'):
                    continue
                a = [x.value for x in d.args]
                kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                if d.func.id == 'contract':
                    name, props = a[0] + '.' + a[1], a[2]
                    if kw.get('assumed'):
                        name += ' (assumed)'
                else:
                    name, props = 'lemma ' + n.name, a[0]
                for p in props.split():
                    out.setdefault(p, []).append(name)
    return out


if __name__ == '__main__':
    t = table()
    for line in open(os.path.join(H, 'properties.jsonl')):
        p = json.loads(line)
        print(p['id'], len(t.get(p['id'], [])))
        print('   ', '; '.join(m['name'] + ': ' + m['where'] for m in p['anchors']['mechanism']))
        print('   ', ', '.join(t.get(p['id'], [])))
