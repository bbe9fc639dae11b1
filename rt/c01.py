"""C01: annotating a training document never changes its text"""
import os
import shutil
import tempfile
from lxml import etree
from common import R, Sub, call
import teigen as T

ID = 'C01'
FILES = ['sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py',
         'sciencebeam_trainer_grobid_tools/core/structured_document/__init__.py']


def gen(g):
    cs = [T.gen_container(g)]
    if g.p(.12):
        for _ in range(g.r.randrange(1, 3)):
            cs.append(T.gen_container(g))
    if g.p(.3):
        cs[-1][4] = T.gen_text(g)
    for c in cs[:-1]:
        c[4] = T.gen_text(g) if g.p(.5) else None
    before = T.gen_el(g, 2) if g.p(.25) else None
    after = T.gen_el(g, 2) if g.p(.25) else None
    return {'containers': cs, 'before': before, 'after': after,
            'mapping': g.choice(T.MAPPINGS), 'preserve': g.p(.7), 'tags': T.gen_tags(g),
            'ns': g.p(.1)}


def without_containers(root, path):
    root = etree.fromstring(etree.tostring(root))
    for c in root.findall(path):
        p = c.getparent()
        p.remove(c)
    for e in root.iter():
        if e.text is not None and not e.text:
            e.text = None
    return etree.tostring(root, method='c14n')


def attrs_ok(tree):
    return tree is None or (
        (tree[0] != 'lb' or (not tree[2] and not tree[3])) and all(attrs_ok(c) for c in tree[3]))


def check(x):
    if not x['containers'] or not all(attrs_ok(c) for c in x['containers']):
        return None
    root = T.build_root(x['containers'], x['before'], x['after'])
    if x['ns']:
        # words of a namespaced document (as written for segmentation)
        root = etree.fromstring(etree.tostring(root).replace(
            b'<tei>', b'<tei xmlns:t="%s">' % T.NS.encode()).replace(b'<note', b'<t:note').replace(
                b'</note', b'</t:note'))
    path = 'text/front'
    orig_text, orig_out = T.text_of(root), without_containers(root, path)
    containers = root.findall(path)
    single = len(containers) == 1 and not containers[0].tail
    orig_lines = T.line_texts(containers[0]) if single else None
    doc = T.make_doc(root, x['mapping'], x['preserve'])
    words = [t.text for t in T.tokens(doc)]
    if ''.join(words) != ''.join(T.text_of(c) + (c.tail or '') for c in containers):
        return 'tokens are not the text: %r' % words
    T.apply_tags(doc, x['tags'])
    out = doc.root
    if T.text_of(out) != orig_text:
        return 'text changed: %r -> %r' % (orig_text, T.text_of(out))
    if without_containers(out, path) != orig_out:
        return 'content outside the container changed: %r -> %r' % (
            orig_out, without_containers(out, path))
    if single:
        new_lines = T.line_texts(out.find(path))
        if new_lines != orig_lines:
            return 'lines changed: %r -> %r' % (orig_lines, new_lines)
    out2 = doc.root
    if etree.tostring(out2) != etree.tostring(out):
        return 'writing twice gives different documents'
    if T.text_of(root) != orig_text:
        return 'source document changed'
    return None


def check_file(x):
    save = R(T.TEI_MODULE, 'save_grobid_training_tei_structured_document')
    load = R(T.TEI_MODULE, 'load_grobid_training_tei_structured_document')
    if not x['containers'] or not all(attrs_ok(c) for c in x['containers']):
        return None
    root = T.build_root(x['containers'], x['before'], x['after'])
    d = tempfile.mkdtemp(prefix='vp_c01_')
    try:
        src, dst = os.path.join(d, 'in.xml'), os.path.join(d, 'sub', 'out.xml')
        with open(src, 'wb') as f:
            f.write(etree.tostring(root, encoding='utf-8', xml_declaration=True))
        doc = call(load, src, tag_to_tei_path_mapping=x['mapping'], preserve_tags=x['preserve'])
        T.apply_tags(doc, x['tags'])
        call(save, dst, doc)
        out = etree.parse(dst).getroot()
        if T.text_of(out) != T.text_of(root):
            return 'text of saved file differs: %r -> %r' % (T.text_of(root), T.text_of(out))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


def gen_str(g):
    return ''.join(g.str(T.WORDS) for _ in range(g.size(6, 40)))


def check_tokenize(s):
    tok = R(T.TEI_MODULE, '_tokenize_text')
    r = list(call(tok, s))
    if ''.join(r) != s:
        return 'tokens %r do not concatenate to %r' % (r, s)
    if any(not t for t in r):
        return 'empty token in %r' % (r,)
    if any(t.strip() and len(t) > 1 and any(c.isspace() for c in t) for t in r):
        return 'white space inside a word: %r' % (r,)
    return None


def subs():
    return [
        Sub('document', gen, check, 3500, 60000, weight=6,
            bound='random documents: <= 5 nesting levels, ~40 words, any tag assignment',
            nontrivial=lambda x: len(x['tags']) > 0 and len(x['containers'][0][3]) > 0),
        Sub('file', gen, check_file, 150, 1500, weight=1, bound='random documents through files'),
        Sub('tokenize', gen_str, check_tokenize, 3000, 30000, weight=1, bound='random strings'),
    ]
