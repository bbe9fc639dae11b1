"""usage: main.py PROPERTY --tier quick|thorough --seed N --out FILE [--limit S]
          main.py PROPERTY --replay FILE"""
import argparse
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--limit', type=float, default=30)
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--hints', help='JSON, constants of a counterexample')
    a = ap.parse_args()
    try:
        mod = importlib.import_module(a.property.lower())
    except ModuleNotFoundError as e:
        if e.name != a.property.lower():
            raise
        json.dump({'subs': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [],
                   'failures': []}, open(a.out, 'w'))
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        import difft
        for s in mod.subs() + difft.subs(a.property, {}):
            if s.name == r.get('sub'):
                try:
                    msg = common.guarded(s.check, r['input'])
                except Exception:  # pylint: disable=broad-except
                    msg = traceback.format_exc()
                print('FAILS: %s' % msg if msg is not None else 'holds')
                return 1 if msg is not None else 0
        print('no such sub check')
        return 2
    hints = json.loads(a.hints) if a.hints else {}
    out = common.run_property(mod, a.seed, a.tier, a.limit, extra_ints=hints.get('ints', []),
                              extra_strs=hints.get('strs', []),
                              only=a.only.split(',') if a.only else None)
    text = json.dumps(out, default=repr)
    if a.out:
        open(a.out, 'w').write(text)
    else:
        for s in out['subs']:
            print(s)
        for f in out['failures']:
            print('FAIL', f['sub'], json.dumps(f['input'], default=repr)[:1500])
            print('   ', f['message'][:1500])
    return 0


if __name__ == '__main__':
    sys.exit(main())
