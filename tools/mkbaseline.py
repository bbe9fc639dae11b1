"""records the constants of the current source (used only to steer the generators towards
constants that a change introduces); run with /opt/venv/bin/python"""
import ast, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'rt'))
import common
out = {}
for d, _, fs in os.walk(os.path.join(common.REPO, common.PKG)):
    for f in fs:
        if f.endswith('.py'):
            p = os.path.join(d, f)
            i, s = common._constants(ast.parse(open(p, encoding='utf-8').read()))
            out[os.path.relpath(p, common.REPO)] = {'ints': sorted(i), 'strs': sorted(s)}
json.dump(out, open(os.path.join(common.HERE, 'baseline_constants.json'), 'w'), indent=0, sort_keys=True)
