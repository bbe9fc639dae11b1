"""tools/selftest.sh: tests of the verifier itself (not a check of a property)

1. contracts/lxml_model.py against lxml: random operations on both, same trees
2. engine/prelude.py against the functions of Python it stands for, on random lists
3. wrong changes of the code, in a scratch copy of the package: at least one obligation must fail
"""
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, 'engine'))

PKG = 'sciencebeam_trainer_grobid_tools'

MUTANTS = [
    # (file, old, new, property, function)
    ('annotation/matching_utils.py', 'if item_end > start:', 'if item_end >= start:', 'C09', 'index_range_between'),
    ('annotation/matching_utils.py', 'elif tagged_count == len(self.tokens):', 'elif tagged_count >= 2:', 'C20',
     'untagged_sub'),
    ('structured_document/grobid_training_tei.py', 'self.set_tag_only(parent, tag, scope=scope, level=level)',
     'self.set_tag_only(parent, tag, level=level)', 'C04', None),
    ('annotation/reference_annotator.py', 'continue', 'pass', 'C08', None),
    ('core/annotation/fuzzy_match.py', 'result = []', 'result = [result]', 'C10', None),
]


def dump(e):
    return (e.tag, e.text, e.tail, dict(e.attrib), [dump(c) for c in (e.children if hasattr(e, 'children') else e)])


def lxml_model(n=3000):
    from lxml import etree
    from contracts import lxml_model as m
    for seed in range(n):
        r = random.Random(seed)
        real, model = [etree.Element('e0')], [m.Element('e0')]
        for k in range(1, 7):
            tag = 'e%d' % k
            x, y = etree.Element(tag), m.new_element(tag)
            if r.random() < 0.7:
                x.tail = y.tail = r.choice(['t', ' ', None])
            if r.random() < 0.5:
                x.text = y.text = r.choice(['x', '', None]) or None
            if r.random() < 0.3:
                x.attrib['a'] = y.attrib['a'] = str(k)
            i = r.randrange(len(real))
            op = r.choice(['append', 'insert', 'addprevious', 'replace', 'remove', 'extend'])
            if op == 'append':
                real[i].append(x)
                model[i].append(y)
            elif op == 'insert':
                j = r.randint(0, len(real[i]))
                real[i].insert(j, x)
                model[i].insert(j, y)
            elif op == 'addprevious' and real[i].getparent() is not None:
                real[i].addprevious(x)
                model[i].addprevious(y)
            elif op == 'replace' and len(real[i]):
                j = r.randrange(len(real[i]))
                real[i].replace(real[i][j], x)
                model[i].replace(model[i].children[j], y)
            elif op == 'remove' and len(real[i]):
                j = r.randrange(len(real[i]))
                real[i].remove(real[i][j])
                model[i].remove(model[i].children[j])
                continue
            elif op == 'extend' and len(real) > 1:
                j = r.randrange(1, len(real))
                if real[j] in list(real[i].iterancestors()) + [real[i]]:
                    continue
                real[i].extend([real[j], x])
                model[i].extend([model[j], y])
            else:
                continue
            real.append(x)
            model.append(y)
        for x, y in zip(real, model):
            assert dump(x) == dump(y), (seed, dump(x), dump(y))
            p, q = x.getparent(), y.getparent()
            assert (None if p is None else p.tag) == (None if q is None else q.tag), seed
            p, q = x.getprevious(), y.getprevious()
            assert (None if p is None else p.tag) == (None if q is None else q.tag), seed
    print('lxml model: %d histories agree' % n)


def prelude(n=2000):
    import prelude as p
    for seed in range(n):
        r = random.Random(seed)
        xs = [r.choice([0, 1, 2, 3]) for _ in range(r.randrange(5))]
        assert p.py_any(xs) == any(xs) and p.py_all(xs) == all(xs) and p.py_sum(xs) == sum(xs)
        assert p.py_count(xs, 1) == xs.count(1)
        assert p.py_next_default(iter(xs), 7) == next(iter(xs), 7)
    print('prelude: %d lists agree' % n)


def mutants():
    missed = 0
    for path, old, new, pid, only in MUTANTS:
        d = tempfile.mkdtemp(prefix='selftest')
        try:
            shutil.copytree(os.path.join('/repo', PKG), os.path.join(d, PKG))
            f = os.path.join(d, PKG, path)
            s = open(f).read()
            assert old in s, (path, old)
            open(f, 'w').write(s.replace(old, new, 1))
            cmd = ['python3-vt', 'engine/prove.py', pid, '--procs', '8'] + (['--only', only] if only else [])
            out = subprocess.run(cmd, cwd=VERIF, env=dict(os.environ, VERIF_REPO=d), capture_output=True,
                                 text=True).stdout
            failed = [x.strip() for x in out.splitlines() if 'FAILED' in x]
            print('%s %s %s: %s' % ('ok' if failed else 'MISSED', pid, path, failed[0][:150] if failed else ''))
            missed += not failed
        finally:
            shutil.rmtree(d)
    assert not missed


if __name__ == '__main__':
    if sys.argv[1] == 'models':
        lxml_model()
        prelude()
    else:
        mutants()
