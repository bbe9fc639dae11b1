"""C03: tag prefix operations"""
import itertools
from common import R, Sub, call
import tagspec as S

ID = 'C03'
CORE = 'core.structured_document'
SM = 'annotation.simple_matching_annotator'
REF = 'annotation.reference_annotator'
FILES = ['sciencebeam_trainer_grobid_tools/core/structured_document/__init__.py',
         'sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/reference_annotator.py']


def gen_all(g):
    yield None
    for n in range(0, 7):
        for t in itertools.product('bi-x', repeat=n):
            yield ''.join(t)
    for t in ['B-x', 'I-x', ' b-x', 'b -x', 'b-b-x', 'b-i-x', 'i-b-x', 'e-x', 'o', 's-x', 'b_x',
              'b\u2010x', 'title', 'b-title', 'i-\u00e9', 'b-\n', 'b- ', 'i- x', 'l-x', 'u-x'] + g.new_strs:
        for p in ('', 'b-', 'i-'):
            yield p + t


def check_single(tag):
    sp = R(CORE, 'split_tag_prefix')
    st = R(CORE, 'strip_tag_prefix')
    add = R(CORE, 'add_tag_prefix')
    r = tuple(call(sp, tag))
    if r != S.split(tag):
        return 'split_tag_prefix(%r) = %r' % (tag, r)
    if call(st, tag) != S.value(tag):
        return 'strip_tag_prefix(%r) = %r' % (tag, call(st, tag))
    p, v = r
    back = call(add, v, p)
    if tag not in ('b-', 'i-') and back != tag:
        return 'add_tag_prefix(*split(%r)) = %r' % (tag, back)
    for p2 in (None, 'b-', 'i-'):
        a = call(add, tag, p2)
        e = (p2 + tag) if p2 and tag else tag
        if a != e:
            return 'add_tag_prefix(%r, %r) = %r' % (tag, p2, a)
    return None


def check_convert(tag):
    b, i = R(SM, 'to_begin_tag'), R(SM, 'to_inside_tag')
    if call(b, tag) != S.begin(tag):
        return 'to_begin_tag(%r) = %r' % (tag, call(b, tag))
    if call(i, tag) != S.inside(tag):
        return 'to_inside_tag(%r) = %r' % (tag, call(i, tag))
    return None


def gen_expand(g):
    for t in (None, '', 't', 'b-t', 'i-t', 'x', 'b-b-t', 'i-i-t', 'tt', 'b-x y'):
        for n in list(range(0, 14)) + [50] + [abs(k) + d for k in g.new_ints for d in (0, 1)]:
            yield [t, n]


def check_expand(x):
    f = R(SM, 'to_begin_inside_tags')
    tag, n = x
    r = list(call(f, tag, n))
    p, v = S.split(tag)
    e = [tag] * n if not p else (['b-' + v] + ['i-' + v] * (n - 1))[:n]
    return None if r == e else 'to_begin_inside_tags(%r, %r) = %r' % (tag, n, r)


def gen_merged(g):
    v = g.str(S.VALUES)
    return [g.choice(['', 'b-', 'i-']) + v for _ in range(g.size(6, 20))]


def check_merged(tags):
    f = R(SM, 'get_merged_begin_inside_tags_of_same_tag_value')
    arg = list(tags)
    r = list(call(f, arg))
    if not tags or S.prefix(tags[0]) is None:
        e = tags
    else:
        e = tags[:1] + ['i-' + S.value(tags[0])] * (len(tags) - 1)
    return None if r == e else 'merged(%r) = %r' % (tags, r)


def gen_map(g):
    keys = g.r.sample(S.VALUES, 4)
    tags = [S.gen_tag(g, S.VALUES) for _ in range(g.size(6, 20))]
    return [tags, {k: g.str(S.VALUES) for k in keys}]


def check_map(x):
    tags, m = x
    f = R(REF, '_map_tags')
    m0 = dict(m)
    r = list(call(f, list(tags), m))
    e = []
    for t in tags:
        p, v = S.split(t)
        e.append((p or '') + m.get(v, v) if v else t)
    if m != m0:
        return 'map modified'
    return None if r == e else '_map_tags(%r, %r) = %r' % (tags, m, r)


def gen_doc(g):
    return [S.gen_tag(g, S.VALUES), g.choice([None, 'b-', 'i-']), g.choice([None, 's'])]


def check_doc(x):
    """the tag accessors of documents use the same conversion"""
    tag, prefix, scope = x
    m = R(CORE)
    tok = call(m.SimpleToken, 'x')
    doc = call(m.SimpleStructuredDocument, lines=[call(m.SimpleLine, [tok])])
    doc.set_tag_with_prefix(tok, tag, scope=scope, prefix=prefix)
    e = (prefix or '') + tag if tag else tag
    if doc.get_tag(tok, scope=scope) != e:
        return 'set_tag_with_prefix(%r, %r) -> %r' % (tag, prefix, doc.get_tag(tok, scope=scope))
    if doc.get_tag_value(tok, scope=scope) != S.value(e):
        return 'get_tag_value %r' % doc.get_tag_value(tok, scope=scope)
    if tuple(doc.get_tag_prefix_and_value(tok, scope=scope)) != S.split(e):
        return 'get_tag_prefix_and_value'
    doc.set_sub_tag_with_prefix(tok, tag, prefix=prefix)
    if doc.get_sub_tag(tok) != e:
        return 'set_sub_tag_with_prefix -> %r' % doc.get_sub_tag(tok)
    return None


def subs():
    return [
        Sub('split_add', gen_all, check_single, 0, exhaustive=True,
            bound='all strings over b,i,-,x up to length 6 and special tags'),
        Sub('convert', gen_all, check_convert, 0, exhaustive=True,
            bound='all strings over b,i,-,x up to length 6 and special tags'),
        Sub('expand', gen_expand, check_expand, 0, exhaustive=True, bound='lengths 0-13 and 50'),
        Sub('merged', gen_merged, check_merged, 500),
        Sub('map', gen_map, check_map, 1500),
        Sub('document', gen_doc, check_doc, 500),
    ]
