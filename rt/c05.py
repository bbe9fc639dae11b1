"""C05: existing tags survive annotation exactly as the preservation options say"""
import os
import shutil
import tempfile
from lxml import etree
from common import R, Sub, call
import teigen as T
import tagspec as S

ID = 'C05'
ANN = 'annotation.annotator'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/annotator.py',
         'sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py',
         'sciencebeam_trainer_grobid_tools/core/structured_document/__init__.py']
DEFAULT = {'': 'note[@type="other"]', 'title': 'docTitle/titlePart',
           'abstract': 'div[@type="abstract"]'}
FIELDS = ['t', 'u', 'v', 'w', 'title', 'abstract', 'p', 'p/q', 'note[@type="other"]', 'docTitle',
          'head', 'note', 'q', 'p/head', 'div', 'docTitle/titlePart', 'zz']


def loaded_tags(container, token_texts, mapping):
    """[(main, sub)] per token as defined by the element structure"""
    rev = {v: k for k, v in mapping.items()}
    st = {'main': None, 'sub': None}
    out = []
    it = iter(token_texts)

    def blank(s):
        return not s or not s.strip()

    def expr(e):
        r = e.tag
        for k, v in e.attrib.items():
            r += '[@%s="%s"]' % (k, v)
        return r

    def mapped(t):
        if not t:
            return None
        p, path = S.split(t)
        v = rev.get(path, path)
        return p + v if v else None

    def emit(text):
        n = 0
        while text and n < len(text):
            tok = next(it)
            assert text[n:n + len(tok)] == tok, (text, n, tok)
            n += len(tok)
            out.append((mapped(st['main']), mapped(st['sub'])))
            for k in st:
                if st[k]:
                    st[k] = 'i-' + S.value(st[k])

    def go(e, path):
        prev = st['main']
        cur = '/'.join(path) if path else None
        if not blank(e.text) or any(not blank(c.tail) for c in e) or cur in mapping.values():
            st['main' if not prev else 'sub'] = 'b-' + cur if cur else None
        emit(e.text)
        for c in e:
            if isinstance(c.tag, str):
                go(c, path + [expr(c)])
            else:
                emit(c.tail)
        st['main' if not prev else 'sub'] = None
        emit(e.tail)
    go(container, [])
    return out


def subset(g, p=.3):
    return [f for f in FIELDS if g.p(p)]


def gen(g):
    return {'container': T.gen_container(g), 'mapping': g.choice(T.MAPPINGS),
            'preserve_tags': g.p(.6), 'fields': g.choice([None, subset(g), subset(g)]),
            'always': g.choice([None, None, subset(g), subset(g, .1)]),
            'preserve_sub_tags': g.p(.5), 'no_preserve_sub': g.choice([None, subset(g)])}


def survives(x, value):
    if x['always']:
        return value in x['always']
    if not x['preserve_tags']:
        return False
    return value not in (x['fields'] or [])


def sub_survives(x, value):
    return x['preserve_sub_tags'] and value not in (x['no_preserve_sub'] or [])


def expected(x, tags):
    return [(m if m and survives(x, S.value(m)) else None,
             s if s and sub_survives(x, S.value(s)) else None) for m, s in tags]


def effective(doc):
    return [(doc.get_tag_or_preserved_tag(t) or None,
             doc.get_tag_or_preserved_tag(t, level=2) or None) for t in T.tokens(doc)]


class Rec:
    def __init__(self):
        self.calls = []

    def annotate(self, doc):
        self.calls.append(effective(doc))
        return doc


def opt_set(a, kind):
    return None if a is None else kind(a)


def check(x):
    if x['container'] is None:
        return None
    root = T.build_root([x['container']])
    d = tempfile.mkdtemp(prefix='vp_c05_')
    try:
        src, dst = os.path.join(d, 'in.xml'), os.path.join(d, 'out.xml')
        with open(src, 'wb') as f:
            f.write(etree.tostring(root))
        rec = Rec()
        docs = []
        call(R(ANN, 'annotate_structured_document'), src, dst, annotator=rec,
             preserve_tags=x['preserve_tags'], fields=opt_set(x['fields'], set),
             is_structured_document_passing_checks=lambda doc: docs.append(doc) or True,
             always_preserve_fields=opt_set(x['always'], list),
             preserve_sub_tags=x['preserve_sub_tags'],
             no_preserve_sub_fields=opt_set(x['no_preserve_sub'], set),
             tag_to_tei_path_mapping=x['mapping'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if len(rec.calls) != 1 or len(docs) != 1:
        return 'annotator called %d times' % len(rec.calls)
    mapping = DEFAULT if x['mapping'] is None else x['mapping']
    tags = loaded_tags(root.find('text/front'), [t.text for t in T.tokens(docs[0])], mapping)
    e = expected(x, tags)
    for k, (r, ex) in enumerate(zip(rec.calls[0], e)):
        if r != ex:
            return 'token %d: loaded %r, is %r, expected %r' % (k, tags[k], r, ex)
    return None


def gen_inplace(g):
    x = gen(g)
    x['tags'] = T.gen_tags(g, values=FIELDS)
    x['load_preserved'] = g.p(.7)
    return x


def check_inplace(x):
    """documents which already have tags, with or without preserved ones"""
    if x['container'] is None:
        return None
    doc = T.make_doc(T.build_root([x['container']]), x['mapping'], x['load_preserved'])
    T.apply_tags(doc, x['tags'])
    before = effective(doc)
    rec = Rec()
    call(R(ANN, 'annotate_structured_document_inplace'), doc, annotator=rec,
         preserve_tags=x['preserve_tags'], fields=opt_set(x['fields'], set),
         preserve_fields=opt_set(x['always'], set), preserve_sub_tags=x['preserve_sub_tags'],
         no_preserve_sub_fields=opt_set(x['no_preserve_sub'], set))
    e = expected(x, before)
    if len(rec.calls) != 1:
        return 'annotator called %d times' % len(rec.calls)
    for k, (r, ex) in enumerate(zip(rec.calls[0], e)):
        if r != ex:
            return 'token %d: before %r, is %r, expected %r' % (k, before[k], r, ex)
    return None


def check_load(x):
    """loading: preserved tags are those of the element structure"""
    if x['container'] is None:
        return None
    root = T.build_root([x['container']])
    doc = T.make_doc(root, x['mapping'], True)
    mapping = DEFAULT if x['mapping'] is None else x['mapping']
    tags = loaded_tags(root.find('text/front'), [t.text for t in T.tokens(doc)], mapping)
    for k, (t, e) in enumerate(zip(T.tokens(doc), tags)):
        r = (doc.get_preserved_tag(t) or None, doc.get_preserved_tag(t, level=2) or None)
        if r != e:
            return 'token %d %r: preserved tags %r, expected %r' % (k, t.text, r, e)
        if doc.get_tag(t) or doc.get_sub_tag(t):
            return 'token %d has a tag after loading' % k
    doc2 = T.make_doc(root, x['mapping'], False)
    if any(a or b for a, b in effective(doc2)):
        return 'tags preserved although disabled'
    return None


def subs():
    return [
        Sub('annotate', gen, check, 800, 12000, weight=3, bound='documents of ~40 words'),
        Sub('inplace', gen_inplace, check_inplace, 1200, 20000, weight=3,
            bound='documents of ~40 words'),
        Sub('load', gen, check_load, 800, 12000, weight=2, bound='documents of ~40 words'),
    ]
