"""C06: quality checks and routing of documents"""
import os
import shutil
import tempfile
from lxml import etree
from common import R, Sub, call
import teigen as T
import tagspec as S

ID = 'C06'
ANN = 'annotation.annotator'
CH = 'annotation.checks'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/checks.py']
FIELDS = ['t', 'u', 'v']
WORDS = ['alpha', 'be', 'c', 'Delta', 'x', '1', '.', 'eps']


def ratio(a, b):
    # trusted dependency (sciencebeam_alignment)
    from sciencebeam_alignment.levenshtein import get_levenshtein_ratio
    return get_levenshtein_ratio(a, b)


def gen_lines(g):
    vals = g.r.sample(FIELDS, g.r.randrange(1, 4))
    lines = []
    cur = None
    for _ in range(g.r.randrange(1, 5)):
        line = []
        for _ in range(g.size(8, 20)):
            if g.p(.4):
                cur = g.choice([None] + vals)
                tag = cur and g.choice(['b-', 'b-', 'i-', '']) + cur
            else:
                tag = cur and g.choice(['i-', 'i-', 'i-', 'b-', '']) + cur
            line.append([g.choice(WORDS), tag])
        lines.append(line)
    return lines


def entities(lines, doc, words):
    """[(value, text)] maximal runs, a begin prefix starting a new one; text with the white space
    between its words"""
    out = []
    flat = [t for w in words for t in w]
    tags = [w[1] for line in lines for w in line]
    for t, tag in zip(flat, tags):
        p, v = S.split(tag)
        if out and out[-1][0] == v and p != 'b-' and out[-1][2]:
            out[-1][1].append(t)
        else:
            out.append([v, [t], True])
    res = []
    for v, toks, _ in out:
        if v:
            s = ''
            for k, t in enumerate(toks):
                s += t.text + ((doc.get_whitespace(t) or '') if k + 1 < len(toks) else '')
            res.append((v, s))
    return res


def gen(g):
    lines = gen_lines(g)
    return {'lines': lines, 'match': g.choice([None, [], g.r.sample(FIELDS + ['z'], 2), ['t']]),
            'required': g.choice([None, None, [], g.r.sample(FIELDS + ['z'], 1), ['t', 'u']]),
            'targets': gen_targets(g), 'mutate': g.r.randrange(1 << 30),
            'threshold': g.choice([.8, .8, .5, 1.0, None]), 'exact': g.r.randrange(4)}


def gen_targets(g):
    out = []
    names = FIELDS + ['z', 'other']
    for n in names:
        k = g.choice([0, 1, 1, 1, 1, 1, 1, 2]) if g.p(.5) else g.choice([0, 1])
        for _ in range(k):
            out.append([n, g.choice(['same', 'same', 'near', 'far', 'cut', 'list'])
                        if g.p(.9) else 'list'])
    g.r.shuffle(out)
    return out


def build(x):
    doc, words = T.doc_from_lines(x['lines'])
    if [[t.text for t in w] for w in words] != [
            [w[0] for w in line] for line in x['lines'] if line] and \
            [t.text for w in words for t in w] != [w[0] for line in x['lines'] for w in line]:
        return None, None
    flat = [t for w in words for t in w]
    for t, w in zip(flat, [w for line in x['lines'] for w in line]):
        doc.set_tag(t, w[1])
    return doc, words


def target_value(kind, name, ents, rnd):
    joined = ' '.join(s for v, s in ents if v == name)
    if kind == 'same':
        return joined or 'none'
    if kind == 'near':
        # change about a fifth of the characters
        s = list(joined or 'none')
        for k in range(len(s)):
            if (rnd >> (k % 29)) % 5 == 0:
                s[k] = '#'
        return ''.join(s)
    if kind == 'cut':
        return joined[:max(1, len(joined) * (1 + rnd % 9) // 10)] or 'none'
    if kind == 'far':
        return 'completely different'
    if kind == 'empty':
        return ''
    return ['a', 'b']


def spec(x, targets, ents, threshold):
    """True / False / 'error'"""
    required = set(x['required'] or [])
    names = set(x['match'] or []) | required
    if not names:
        return True
    if not targets:
        return 'error'
    vals = {}
    for n in names:
        vs = [v for k, v in targets if k == n]
        if len(vs) > 1:
            return 'error'
        if vs:
            if not isinstance(vs[0], str):
                return 'error'
            vals[n] = vs[0]
    if required - set(vals):
        return False
    for n, v in vals.items():
        es = [s for k, s in ents if k == n]
        if not es:
            return False
        if ratio(v, ' '.join(es)) < threshold:
            return False
    return True


def check(x):
    doc, words = build(x)
    if doc is None:
        return None
    ents = entities(x['lines'], doc, words)
    it = R(CH, 'iter_structured_document_entities')
    r = [tuple(p) for p in call(it, doc)]
    if r != ents:
        return 'entities %r, expected %r' % (r, ents)
    TA = R('core.annotation.target_annotation', 'TargetAnnotation')
    targets = [(n, target_value(k, n, ents, x['mutate'])) for n, k in x['targets']]
    tas = [call(TA, v, n) for n, v in targets]
    f = R(CH, 'is_structured_document_passing_checks')
    thresholds = [x['threshold']]
    # thresholds at and around the exact ratio of a field
    for n, v in targets:
        es = [s for k, s in ents if k == n]
        if isinstance(v, str) and es and x['exact']:
            q = ratio(v, ' '.join(es))
            thresholds += [q, q + 1e-9, q - 1e-9]
    for th in thresholds:
        kw = {} if th is None else {'threshold': th}
        e = spec(x, targets, ents, .8 if th is None else th)
        try:
            r = call(f, doc, require_matching_fields=None if x['match'] is None else set(x['match']),
                     required_fields=None if x['required'] is None else set(x['required']),
                     target_annotations=tas, **kw)
        except RuntimeError as ex:
            r = 'error'
            if e != 'error':
                return 'unexpected %r' % ex
        if r != e:
            return 'passing checks is %r, expected %r (threshold %r, entities %r, targets %r)' % (
                r, e, th, ents, targets)
    return None


def gen_route(g):
    return {'lines': gen_lines(g), 'passing': g.p(.5), 'failed': g.choice([None, None, '', 'f', 'f']),
            'exists': g.p(.2)}


def check_route(x):
    doc, words = build(x)
    if doc is None:
        return None
    d = tempfile.mkdtemp(prefix='vp_c06_')
    try:
        src = os.path.join(d, 'in.xml')
        with open(src, 'wb') as f:
            f.write(etree.tostring(doc.root))
        out, fail = os.path.join(d, 'o', 'out.xml'), os.path.join(d, 'fo', 'out.xml')
        m = R(ANN)
        saved = []
        orig = m.save_grobid_training_tei_structured_document
        if not callable(orig):
            return None
        docs = []

        def save(path, sdoc):
            saved.append((path, sdoc))
            return orig(path, sdoc)

        def passing(sdoc):
            docs.append(sdoc)
            if not any(a == sdoc for a in annotated):
                raise AssertionError('checked before annotation')
            return x['passing']
        annotated = []

        class A:
            def annotate(self, sdoc):
                annotated.append(sdoc)
                for t in T.tokens(sdoc):
                    if t.text.strip():
                        sdoc.set_tag(t, 'b-title')
                        break
                return sdoc
        m.save_grobid_training_tei_structured_document = save
        try:
            call(R(ANN, 'annotate_structured_document'), src, out, annotator=A(), preserve_tags=True,
                 fields={'title'}, is_structured_document_passing_checks=passing,
                 failed_target_structured_document_path=(
                     None if x['failed'] is None else '' if not x['failed'] else fail))
        finally:
            m.save_grobid_training_tei_structured_document = orig
        files = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
        e = ['in.xml']
        if x['passing']:
            e.append('o/out.xml')
        elif x['failed']:
            e.append('fo/out.xml')
        if files != sorted(e):
            return 'files written: %r, expected %r' % (files, sorted(e))
        if len(saved) not in (0, len(e) - 1):
            return 'saved %d times' % len(saved)
        if len(annotated) != 1:
            return 'annotated %d times' % len(annotated)
        for f in e[1:]:
            r = etree.parse(os.path.join(d, f)).getroot()
            if T.text_of(r) != T.text_of(doc.root):
                return 'text of %s differs' % f
            if etree.tostring(r) != etree.tostring(annotated[0].root):
                return '%s is not the annotated document' % f
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


def gen_factory(g):
    x = gen(g)
    x['failed'] = g.p(.5)
    return x


def check_factory(x):
    """the same through the pipeline factory: its options are the ones used"""
    doc, words = build(x)
    if doc is None:
        return None
    import pipeline_util as P
    if any(w[1] and S.value(w[1]) not in FIELDS for line in x['lines'] for w in line):
        return None
    ents = entities(x['lines'], doc, words)
    TA = R('core.annotation.target_annotation', 'TargetAnnotation')
    targets = [(n, target_value(k, n, ents, x['mutate'])) for n, k in x['targets']]
    tas = [call(TA, v, n) for n, v in targets]
    e = spec(x, targets, ents, .8)
    lines = x['lines']
    with P.scratch('vp_c06_') as d:
        src = os.path.join(d, 'src', 'a.tei.xml')
        os.makedirs(os.path.dirname(src))
        with open(src, 'wb') as f:
            f.write(etree.tostring(T.root_from_lines(lines)))

        class A:
            target_annotations = tas

            def annotate(self, sdoc):
                flat = [t for line in T.lines(sdoc) for t in sdoc.get_tokens_of_line(line)]
                for t, w in zip(flat, [w for line in lines for w in line]):
                    sdoc.set_tag(t, w[1])
                return sdoc
        opt = P.options(d, failed=x['failed'])
        f = P.factory(opt, lambda url: A(), tag_to_tei_path_mapping={'t': 'p', 'u': 'head', 'v': 'q'},
                      require_matching_fields=x['match'], required_fields=x['required'])
        try:
            f.auto_annotate(src)
            r = None
        except RuntimeError:
            r = 'error'
        files = P.files(os.path.join(d, 'out')) + [
            'failed/' + p for p in P.files(os.path.join(d, 'failed'))]
        if (r == 'error') != (e == 'error'):
            return 'error %r, expected %r' % (r, e)
        exp = [] if e == 'error' else ['a.tei.xml'] if e else ['failed/a.tei.xml'] if x['failed'] else []
        if files != exp:
            return 'written: %r, expected %r (entities %r targets %r)' % (files, exp, ents, targets)
    return None


def subs():
    return [
        Sub('checks', gen, check, 2500, 40000, weight=4, bound='documents of ~25 words'),
        Sub('route', gen_route, check_route, 400, 4000, weight=2, bound='documents of ~25 words'),
        Sub('factory', gen_factory, check_factory, 300, 4000, weight=2, bound='documents of ~25 words'),
    ]
