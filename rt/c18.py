"""C18: line numbers"""
import argparse
from common import R, Sub, call
import teigen as T
from pipeline_util import scratch, options, factory

ID = 'C18'
M = 'annotation.line_number_annotator'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/line_number_annotator.py',
         'sciencebeam_trainer_grobid_tools/auto_annotate_utils.py']


def gen(g):
    lines, n = [], g.int(0, 5)
    step = g.choice([1, 1, 1, 5, 2])
    for _ in range(g.size(16, 40)):
        k = g.r.random()
        if k < .6:
            n += step if g.p(.85) else g.int(0, 14)
            if g.p(.05):
                n = g.int(0, 6)
            first = str(n)
        elif k < .7:
            first = g.choice(['x', '0', '007', '1a', 'ix', '\u0663', '12', '3', '10000', '00'])
        elif k < .75:
            lines.append([])
            continue
        else:
            first = g.choice(['foo', 'bar', 'The'])
        line = [[first, None]] + [[g.choice(['a', 'foo', '3', '4']), None] for _ in range(g.size(3))]
        for w in line:
            if g.p(.1):
                w[1] = g.choice(['b-t', 'i-t', 't', 'line_no'])
        lines.append(line)
    return {'lines': lines, 'min': g.choice([1, 2, 3, 5, 10, g.size(14)]), 'gap': g.choice([0, 1, 4, 10, g.size(12)]),
            'ratio': g.choice([0, .1, .3, .5, .8, 1.0, 1 / 3]), 'default': g.p(.1), 'tag': g.choice(['line_no', 'n'])}


def positive(s):
    try:
        return int(s) > 0
    except ValueError:
        return False


def model(x, first):
    """first: [(line, text)] -> lines whose first word is marked"""
    cands = sorted((int(t), k, i) for k, (i, t) in enumerate(first) if positive(t))
    seqs = []
    for num, pos, i in cands:
        if not seqs:
            seqs.append([(num, pos, i)])
            continue
        pn, pp, _ = seqs[-1][-1]
        if pos < pp or num == pn:
            continue
        if num <= pn + 1 + x['gap']:
            seqs[-1].append((num, pos, i))
        else:
            seqs.append([(num, pos, i)])
    marked = [i for s in seqs if len(s) >= x['min'] for _, _, i in s]
    if len(marked) < x['min'] or not marked or len(marked) / len(first) < x['ratio']:
        return set()
    return set(marked)


def check(x):
    if x['default']:
        x = dict(x, min=10, gap=10, ratio=.1, tag='line_no')
    spec = [[w[0] for w in line] for line in x['lines']]
    doc, words = T.doc_from_lines([[[w[0]] for w in line] for line in x['lines']])
    got = [[doc.get_text(t) for t in r] for r in words]
    while len(spec) > len(got) and not spec[-1]:
        spec.pop()
    if got != spec:
        return None
    for r, line in zip(words, x['lines']):
        for t, w in zip(r, line):
            if w[1]:
                doc.set_tag(t, w[1])
    cls = R(M, 'TextLineNumberAnnotator')
    if x['default']:
        a = call(cls)
    else:
        a = call(cls, call(R(M, 'TextLineNumberAnnotatorConfig'), tag=x['tag'], min_line_number=x['min'],
                           max_line_number_gap=x['gap'], line_number_ratio_threshold=x['ratio']))
    a.annotate(doc)
    marked = model(x, [(i, r[0]) for i, r in enumerate(spec) if r])
    for i, (r, line) in enumerate(zip(words, x['lines'])):
        exp = [w[1] for w in line]
        if i in marked:
            exp[0] = x['tag']
        tags = [doc.get_tag(t) or None for t in r]
        if tags != exp:
            return 'line %d %r: tags %r, expected %r' % (i, spec[i], tags, exp)
        if [doc.get_text(t) for t in r] != spec[i]:
            return 'words changed'
    return None


def gen_opt(g):
    return {'min': g.choice([None, g.int(1, 30)]), 'gap': g.choice([None, g.int(0, 30)]),
            'ratio': g.choice([None, .25, .5, 1, 0.05]), 'use': g.p(.5), 'lines': gen(g)['lines'],
            'module': g.choice(MODULES)}


MODULES = ['auto_annotate_header', 'auto_annotate_segmentation', 'auto_annotate_reference_segmenter']


def check_opt(x):
    args = []
    for k, name in (('min', '--min-line-numbers-per-page'), ('gap', '--max-line-number-gap'), ('ratio', '--min-line-number-ratio')):
        if x[k] is not None:
            args += [name, str(x[k])]
    if x['use']:
        args += ['--use-line-number-annotator']
    with scratch('vfc18') as d:
        opt = options(d, args=args)
        f = factory(opt, lambda u: None)
    cfg = f.get_annotator_config()
    annotators = call(R('auto_annotate_utils', 'get_default_annotators'), None, {}, annotator_config=cfg)
    if bool(annotators) != x['use']:
        return 'annotators %r' % annotators
    if not x['use']:
        return None
    y = {'lines': x['lines'], 'min': 10 if x['min'] is None else x['min'], 'gap': 10 if x['gap'] is None else x['gap'],
         'ratio': .1 if x['ratio'] is None else x['ratio'], 'tag': 'line_no'}
    doc, words = T.doc_from_lines([[[w[0]] for w in line] for line in x['lines']])
    spec = [[w[0] for w in line] for line in x['lines']]
    got = [[doc.get_text(t) for t in r] for r in words]
    while len(spec) > len(got) and not spec[-1]:
        spec.pop()
    if got != spec:
        return None
    for a in annotators:
        a.annotate(doc)
    marked = model(y, [(i, r[0]) for i, r in enumerate(spec) if r])
    for i, r in enumerate(words):
        tags = [doc.get_tag(t) or None for t in r]
        exp = [None] * len(r)
        if i in marked:
            exp[0] = 'line_no'
        if tags != exp:
            return 'options %r: line %d %r: tags %r, expected %r' % (args, i, spec[i], tags, exp)
    return None


def subs():
    return [Sub('annotate', gen, check, 3000, 50000, weight=3, bound='documents of up to 40 lines',
                nontrivial=lambda x: len(x['lines']) > 1),
            Sub('options', gen_opt, check_opt, 400, 5000, bound='options up to 30, documents of up to 40 lines')]
