"""C21: automatic matching only tags untagged words, only with the fields asked for"""
from common import R, Sub, call
import teigen as T
import tagspec as S

ID = 'C21'
SM = 'annotation.simple_matching_annotator'
TA = 'core.annotation.target_annotation'
MU = 'annotation.matching_utils'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/matching_utils.py',
         'sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py']
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'Smith', 'John', 'the', 'a', 'of', '.', ',', '2001', '12',
         'Results', 'x', '(', ')', '-', '\u2013', "'", 'University', 'title', 'some', 'ab', '\u00e9t\u00e9']
NAMES = ['title', 'author', 'abstract', 'reference', 't']
SUBS = ['year', 'name', 'label']
CFG = {'use_begin_prefix': [True, True, False], 'extend_to_line_enabled': [True, False],
       'use_sub_annotations': [True, False], 'preserve_sub_annotations': [False, False, True],
       'lookahead_sequence_count': [200, 200, 2], 'threshold': [.8, .8, 1.0, .5],
       'exact_word_match_threshold': [5, 5, 20], 'min_token_length': [2, 2, 1]}


def gen_lines(g, n, p_tag):
    lines = []
    for _ in range(g.r.randrange(1, n)):
        lines.append([[g.choice(WORDS),
                       S.gen_tag(g, NAMES, 0) if g.p(p_tag) else None,
                       S.gen_tag(g, SUBS, 0) if g.p(p_tag / 2) else None]
                      for _ in range(g.r.randrange(1, 9))])
    return lines


def phrase(g, lines):
    flat = [w[0] for line in lines for w in line]
    if g.p(.8) and flat:
        i = g.r.randrange(len(flat))
        return ' '.join(flat[i:i + g.r.randrange(1, 8)])
    return ' '.join(g.choice(WORDS) for _ in range(g.r.randrange(1, 6)))


def gen(g):
    lines = gen_lines(g, 6, g.choice([0, 0, .1, .4]))
    targets = []
    for _ in range(g.r.randrange(1, 5)):
        v = phrase(g, lines) if g.p(.8) else [phrase(g, lines) for _ in range(g.r.randrange(1, 4))]
        subs = None
        if g.p(.5):
            subs = [[phrase(g, lines) if g.p(.4) or isinstance(v, list) else
                     g.choice(v.split(' ')), g.choice(SUBS)] for _ in range(g.r.randrange(0, 4))]
        targets.append([v, g.choice(NAMES), subs])
    if g.p(.4):
        targets.sort(key=lambda t: t[1])
    tc = {n: {'merge_enabled': g.p(.7), 'extend_to_line_enabled': g.p(.7),
              'max_chunks': g.choice([1, 1, 2, 3]),
              'block_name': g.choice([None, None, 'b1']),
              'match_prefix_regex': g.choice([None, None, None, r'\w+ $', r'{year} $'])}
          for n in NAMES if g.p(.3)}
    return {'lines': lines, 'targets': targets, 'config': {k: g.choice(v) for k, v in CFG.items()},
            'tag_config': tc, 'simple': g.p(.2)}


def make(x):
    lines = x['lines']
    if x.get('simple'):
        m = R('core.structured_document')
        words = [[call(m.SimpleToken, w[0]) for w in line] for line in lines]
        doc = call(m.SimpleStructuredDocument, lines=[call(m.SimpleLine, ws) for ws in words])
    else:
        doc, words = T.doc_from_lines(lines)
    flat = [t for w in words for t in w]
    spec = [w for line in lines for w in line]
    if [doc.get_text(t) for t in flat] != [w[0] for w in spec]:
        return None, None, None
    for t, w in zip(flat, spec):
        if w[1]:
            doc.set_tag(t, w[1])
        if w[2]:
            doc.set_sub_tag(t, w[2])
    return doc, words, flat


def targets_of(x):
    TAn = R(TA, 'TargetAnnotation')
    return [call(TAn, v, n, sub_annotations=None if subs is None else [
        call(TAn, sv, sn) for sv, sn in subs]) for v, n, subs in x['targets']]


def annotator(x, cls=None, **over):
    STC, SMC = R(SM, 'SimpleTagConfig'), R(SM, 'SimpleSimpleMatchingConfig')
    config = call(SMC, **{**x['config'], **over}, tag_config_map={
        k: call(STC, **v) for k, v in x['tag_config'].items()})
    return call(cls or R(SM, 'SimpleMatchingAnnotator'), targets_of(x), config=config)


def valid(x):
    return (x['targets'] and x['lines'] and all(x['lines'])
            and all(t[0] and t[1] in NAMES and all(t[0]) and all(s[0] and s[1] in SUBS for s in t[2] or [])
                    for t in x['targets'])
            and all(w[0] in WORDS for line in x['lines'] for w in line))


def check(x):
    if not valid(x):
        return None
    doc, words, flat = make(x)
    if doc is None:
        return None
    before = [doc.get_tag(t) for t in flat]
    sub_before = [doc.get_sub_tag(t) for t in flat]
    ann = annotator(x)
    r = ann.annotate(doc)
    if r is not doc:
        return 'another document returned'
    lines_after = [doc.get_tokens_of_line(line) for line in T.lines(doc)]
    if [id(t) for w in lines_after for t in w] != [id(t) for t in flat]:
        return 'words of the document changed'
    if [doc.get_text(t) for t in flat] != [w[0] for line in x['lines'] for w in line]:
        return 'text of words changed'
    after = [doc.get_tag(t) for t in flat]
    sub_after = [doc.get_sub_tag(t) for t in flat]
    names = {t[1] for t in x['targets']}
    ext = x['config']['extend_to_line_enabled']
    use_subs = x['config']['use_sub_annotations']
    existing = {S.value(t) for t in before if t}
    for k, (b, a) in enumerate(zip(before, after)):
        if b and S.value(b) != S.value(a):
            return 'tag %r of word %d became %r' % (b, k, a)
        if b and b != a and not ext:
            return 'tag %r of word %d became %r without line extension' % (b, k, a)
        if not b and a:
            if S.value(a) not in names and not (ext and S.value(a) in existing):
                return 'tag %r added, which is not asked for' % a
            if not ext and (S.prefix(a) is not None) != x['config']['use_begin_prefix']:
                return 'prefix of %r, use_begin_prefix=%r' % (a, x['config']['use_begin_prefix'])
    snames = {s[1] for t in x['targets'] for s in t[2] or []}
    for k, (b, a) in enumerate(zip(sub_before, sub_after)):
        if b and a != b:
            return 'sub tag %r of word %d became %r' % (b, k, a)
        if not b and a and (not use_subs or S.value(a) not in snames):
            return 'sub tag %r added' % a
    return None


# ------------------------------------------------------------------- single steps

def check_update(x):
    if not valid(x):
        return None
    doc, words, flat = make(x)
    if doc is None:
        return None
    ann = annotator(x)
    SW, ST = R(MU, 'SequenceWrapper'), R(MU, 'SequencesText')
    text = call(ST, [call(SW, doc, w) for w in words if w])
    s = str(text)
    lo, hi = sorted((x['range'][0] % (len(s) + 1), x['range'][1] % (len(s) + 1)))
    inside = {id(t) for t in text.iter_tokens_between((lo, hi))}
    before = [doc.get_tag(t) for t in flat]
    subs = [doc.get_sub_tag(t) for t in flat]
    name = x['targets'][0][1]
    call(ann.update_annotation_for_index_range, doc, text, (lo, hi), name)
    exp, first = [], True
    for t, b in zip(flat, before):
        if id(t) in inside and not b:
            exp.append((('b-' if first else 'i-') if x['config']['use_begin_prefix'] else '') + name)
            first = False
        else:
            exp.append(b)
    after = [doc.get_tag(t) for t in flat]
    if after != exp:
        return 'tags %r in range %r became %r, expected %r' % (before, (lo, hi), after, exp)
    if [doc.get_sub_tag(t) for t in flat] != subs:
        return 'sub tags changed'
    return None


def gen_update(g):
    x = gen(g)
    x['range'] = [g.r.randrange(200), g.r.randrange(200)]
    return x


def check_subs(x):
    """sub annotations: each one tags at most one range, only where no word has a sub tag"""
    if not valid(x):
        return None
    doc, words, flat = make(x)
    if doc is None:
        return None
    ann = annotator(x)
    SW, ST = R(MU, 'SequenceWrapper'), R(MU, 'SequencesText')
    text = call(ST, [call(SW, doc, w) for w in words if w])
    s = str(text)
    lo, hi = sorted((x['range'][0] % (len(s) + 1), x['range'][1] % (len(s) + 1)))
    inside = {id(t) for t in text.iter_tokens_between((lo, hi))}
    main = [doc.get_tag(t) for t in flat]
    for ta in targets_of(x):
        for sa in ta.sub_annotations or []:
            before = [doc.get_sub_tag(t) for t in flat]
            call(ann.process_sub_annotations, doc, text, (lo, hi), [sa])
            after = [doc.get_sub_tag(t) for t in flat]
            new = [k for k in range(len(flat)) if after[k] != before[k]]
            if any(before[k] for k in new):
                return 'existing sub tag changed: %r -> %r' % (before, after)
            if any(id(flat[k]) not in inside for k in new):
                return 'sub tag outside of the matched range'
            for n, k in enumerate(new):
                e = (('b-' if n == 0 else 'i-') if x['config']['use_begin_prefix'] else '') + sa.name
                if after[k] != e:
                    return 'sub tag %r, expected %r' % (after[k], e)
            seq = [k for k in range(len(flat)) if id(flat[k]) in inside]
            if new and [k for k in seq if new[0] <= k <= new[-1]] != new:
                return 'sub tags not on consecutive words: %r' % new
    if [doc.get_tag(t) for t in flat] != main:
        return 'main tags changed'
    return None


def check_extend(x):
    """line extension applies the line rule to the tags of each line's words, nothing else"""
    if not valid(x):
        return None
    doc, words, flat = make(x)
    if doc is None:
        return None
    ann = annotator(x)
    f = R(SM, 'get_extended_line_token_tags')
    exp = []
    tc = x['tag_config']
    for w in words:
        tags = [doc.get_tag(t) for t in w]
        new = call(f, list(tags), extend_to_line_enabled_map={
            k: v['extend_to_line_enabled'] for k, v in tc.items()}, merge_enabled_map={
                k: v['merge_enabled'] for k, v in tc.items()})
        exp.extend(n or t for n, t in zip(new, tags))
    subs = [doc.get_sub_tag(t) for t in flat]
    call(ann.extend_annotations_to_whole_line, doc)
    got = [doc.get_tag(t) for t in flat]
    if got != exp:
        return 'extended tags %r, expected %r' % (got, exp)
    if [doc.get_sub_tag(t) for t in flat] != subs:
        return 'sub tags changed'
    return None


# ------------------------------------------------------------------- literal occurrence

UNIQUE = ['quokka', 'zebrafish', 'mitochondria', 'phylogeny', 'wavelength', 'Borealis', 'kinase',
          'antimony', 'juniper', 'lattice', 'Myelin', 'oxbow', 'parsec', 'quartz', 'rhubarb', 'tundra',
          'velvet', 'walrus', 'xylophone', 'yearling', 'ochre', 'fjord', 'gneiss', 'hydrogen', 'iodine']


def gen_literal(g):
    ws = list(UNIQUE)
    g.r.shuffle(ws)
    lines, k = [], 0
    for _ in range(g.r.randrange(1, 6)):
        n = g.r.randrange(1, 7)
        lines.append([[w, None, None] for w in ws[k:k + n]])
        k += n
    lines = [line for line in lines if line]
    targets, used = [], set()
    for _ in range(g.r.randrange(1, 4)):
        i = g.r.randrange(len(lines))
        if i in used:
            continue
        used.add(i)
        a = g.r.randrange(len(lines[i]))
        b = g.r.randrange(a + 1, len(lines[i]) + 1)
        v = ' '.join(w[0] for w in lines[i][a:b])
        targets.append([v.upper() if g.p(.2) else v, NAMES[len(targets)], None, i, a, b])
    if g.p(.3):
        for i in range(len(lines)):
            if i not in used:
                lines[i][0][1] = 'b-t'
    return {'lines': lines, 'targets': targets,
            'config': {'use_begin_prefix': True, 'extend_to_line_enabled': False,
                       'use_sub_annotations': False, 'preserve_sub_annotations': False,
                       'lookahead_sequence_count': g.choice([200, 1, 3]), 'threshold': .8,
                       'exact_word_match_threshold': 5, 'min_token_length': 2},
            'tag_config': {}, 'simple': g.p(.2)}


def check_literal(x):
    flat_spec = [w[0] for line in x['lines'] for w in line]
    if not x['targets'] or not all(x['lines']) or len(set(flat_spec)) != len(flat_spec):
        return None
    for v, n, _, i, a, b in x['targets']:
        if i >= len(x['lines']) or [w[0].lower() for w in x['lines'][i][a:b]] != v.lower().split(' '):
            return None
    if len({t[3] for t in x['targets']}) != len(x['targets']):
        return None
    doc, words, flat = make(x)
    if doc is None:
        return None
    ann = annotator({**x, 'targets': [t[:3] for t in x['targets']]})
    ann.annotate(doc)
    for v, n, _, i, a, b in x['targets']:
        got = [doc.get_tag(t) for t in words[i][a:b]]
        if got != ['b-' + n] + ['i-' + n] * (b - a - 1):
            return 'target value %r of %r occurs literally but its words are tagged %r' % (v, n, got)
    return None


def subs():
    return [
        Sub('annotate', gen, check, 700, 12000, weight=4,
            bound='documents of up to 5 lines of 8 words, up to 4 target values'),
        Sub('update_range', gen_update, check_update, 1000, 15000, weight=2, bound='as annotate, any range'),
        Sub('sub_annotations', gen_update, check_subs, 700, 10000, weight=2, bound='as annotate, any range',
            nontrivial=lambda x: any(t[2] for t in x['targets'])),
        Sub('extend', gen, check_extend, 800, 10000, weight=1, bound='as annotate'),
        Sub('literal', gen_literal, check_literal, 700, 10000, weight=2,
            bound='documents of up to 5 lines of distinct words'),
    ]
