"""C08: reference sub tag rules"""
import re
from common import R, Sub, call
import teigen as T
import tagspec as S
import c07

ID = 'C08'
REF = 'annotation.reference_annotator'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/reference_annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/matching_utils.py']
REGEXES = [r'\b[a-zA-Z]{2,}(\s?:)?$', r'\bdoi(\s?:)?$', r'(?:PMID|pm)\s*:?\s*$', r'[a-z]+$', r'x*$',
           r'\.$', r'In\s*:?$']
VALS = ['a', 'b', 'etal', 'title', 'idno', 'u']
WORDS = ['doi', ':', 'PMID', '.', 'et', 'al', 'x', 'xx', 'In', 'Foo', '12', ',', 'ab', '..', '.x', 'pm']


def spec_etal(tags, etal, enabled):
    out, last = [], None
    for r in S.runs(tags):
        v = S.value(r[0])
        if v == etal and last:
            out += [last] + [S.inside(last)] * (len(r) - 1)
            continue
        out += r
        if v in enabled:
            last = r[0]
        elif r[0]:
            last = None
    return out


def joined(texts, ws):
    """text and ranges of the words"""
    s, ranges = '', []
    for k, t in enumerate(texts):
        ranges.append((len(s), len(s) + len(t)))
        s += t
        if k + 1 < len(texts):
            s += ' ' if ws[k] is None else ws[k]
    return s, ranges


def spec_suffix(tags, texts, ws, enabled):
    out, i, prev = [], 0, None
    for r in S.runs(tags):
        n = len(r)
        if not r[0] and prev and S.value(prev[0]) in enabled and texts[i].startswith('.'):
            out += [S.inside(prev[0])] + [None] * (n - 1)
        else:
            out += r
        prev = r
        i += n
    return out


def spec_prefix(tags, texts, ws, enabled, regexes):
    rs = [list(r) for r in S.runs(tags)]
    out, i = [], 0
    for k, r in enumerate(rs):
        n = len(r)
        nxt = rs[k + 1] if k + 1 < len(rs) else None
        done = False
        if not r[0] and nxt and S.value(nxt[0]) in enabled:
            s, ranges = joined(texts[i:i + n], ws[i:i + n])
            m = re.search(regexes[S.value(nxt[0])], s)
            if m:
                cnt = sum(1 for a, b in ranges if b > m.start())
                if cnt:
                    out += [None] * (n - cnt) + [nxt[0]] + [S.inside(nxt[0])] * (cnt - 1)
                    nxt[0] = S.inside(nxt[0])
                    done = True
        if not done:
            out += r
        i += n
    return out


def gen_tags(g, n):
    tags = []
    vals = g.r.sample(VALS, g.r.randrange(2, 6))
    while len(tags) < n:
        k = g.r.randrange(1, 4)
        if g.p(.45):
            tags += [None] * k
        else:
            v = g.str(vals, .05)
            tags += [(g.choice(['b-', 'i-']) if g.p(.8) else '') + v] + [
                (g.choice(['i-', 'i-', 'b-']) if g.p(.9) else '') + v for _ in range(k - 1)]
    return tags[:n]


def gen(g):
    n = g.size(10, 30)
    x = {'tags': gen_tags(g, n),
         'texts': [g.str(WORDS) for _ in range(n)],
         'ws': [g.choice(['', ' ', ' ', None, '\n', '  ']) for _ in range(n)],
         'use_ws': g.p(.7),
         'enabled': [v for v in VALS if g.p(.5)], 'default_enabled': g.p(.2),
         'regexes': {v: g.choice(REGEXES) for v in VALS}}
    return x


def check_fns(x):
    tags, texts = x['tags'], x['texts']
    if not (len(tags) == len(texts) == len(x['ws'])) or not all(texts) or not c07.valid(tags):
        return None
    enabled = [v for v in x['enabled'] if v in x['regexes']]
    f = R(REF, 'get_etal_mapped_tags')
    r = list(call(f, list(tags), etal_sub_tag='etal', etal_merge_enabled_sub_tags=set(enabled)))
    e = spec_etal(tags, 'etal', enabled)
    if r != e:
        return 'get_etal_mapped_tags(%r, enabled=%r) = %r, expected %r' % (tags, enabled, r, e)
    ws = x['ws'] if x['use_ws'] else [' '] * len(tags)
    kw = {'token_whitespaces': list(ws)} if x['use_ws'] else {}
    f = R(REF, 'get_suffix_extended_token_tags')
    r = list(call(f, list(tags), list(texts), enabled_tags=set(enabled), **kw))
    e = spec_suffix(tags, texts, ws, enabled)
    if r != e:
        return 'get_suffix_extended_token_tags(%r, %r, enabled=%r, ws=%r) = %r, expected %r' % (
            tags, texts, enabled, ws, r, e)
    f = R(REF, 'get_prefix_extended_token_tags')
    if x['default_enabled']:
        regexes = {v: x['regexes'][v] for v in enabled}
        r = list(call(f, list(tags), list(texts), prefix_regex_by_tag_map=regexes, **kw))
    else:
        regexes = x['regexes']
        r = list(call(f, list(tags), list(texts), prefix_regex_by_tag_map=regexes,
                      enabled_tags=set(enabled), **kw))
    e = spec_prefix(tags, texts, ws, enabled, regexes)
    if r != e:
        return 'get_prefix_extended_token_tags(%r, %r, enabled=%r, ws=%r, regexes=%r) = %r, expected %r' % (
            tags, texts, enabled, ws, regexes, r, e)
    return None


def gen_doc(g):
    lines, cur = [], None
    for _ in range(g.r.randrange(1, 4)):
        n = g.size(10, 20)
        subs = gen_tags(g, n)
        line = []
        for k in range(n):
            if g.p(.2):
                cur = g.choice([None, 'ref', 'ref', 'other'])
                m = cur and g.choice(['b-', 'i-', '']) + cur
            else:
                m = cur and g.choice(['i-', 'i-', 'i-', 'b-']) + cur
            line.append([g.choice(['doi', ':', '.', '.', 'et', 'al', 'x', 'In', 'Foo', '12', ',', 'ab']),
                         m, subs[k]])
        lines.append(line)
    sub_map = {v: g.choice(VALS) for v in VALS if g.p(.15)}
    return {'lines': lines, 'sub_map': sub_map,
            'merge': [v for v in VALS if g.p(.4)], 'prefix': [v for v in VALS if g.p(.4)],
            'suffix': [v for v in VALS if g.p(.4)], 'etal_merge': [v for v in VALS if g.p(.5)],
            'regexes': {v: g.choice(REGEXES) for v in VALS}}


def check_doc(x):
    m = R(REF)
    cfg = call(m.ReferenceAnnotatorConfig, sub_tag_map=dict(x['sub_map']),
               merge_enabled_sub_tags=set(x['merge']),
               include_prefix_enabled_sub_tags=set(v for v in x['prefix'] if v in x['regexes']),
               include_suffix_enabled_sub_tags=set(x['suffix']),
               prefix_regex_by_sub_tag_map=dict(x['regexes']),
               etal_sub_tag='etal', etal_merge_enabled_sub_tags=set(x['etal_merge']))
    doc, words = T.doc_from_lines(x['lines'])
    flat = [t for w in words for t in w]
    spec = [w for line in x['lines'] for w in line]
    if [t.text for t in flat] != [w[0] for w in spec]:
        return None
    if not c07.valid([w[1] for w in spec]) or not c07.valid([w[2] for w in spec]):
        return None
    for t, w in zip(flat, spec):
        doc.set_tag(t, w[1])
        doc.set_tag(t, w[2], level=2)
    # expected
    groups = []
    for k, w in enumerate(spec):
        p, v = S.split(w[1])
        if groups and S.value(spec[groups[-1][-1]][1]) == v and p != 'b-':
            groups[-1].append(k)
        else:
            groups.append([k])
    exp = [w[2] for w in spec]
    ws = [doc.get_whitespace(t) for t in flat]

    def mp(tags):
        return [(S.prefix(t) or '') + x['sub_map'].get(S.value(t), S.value(t)) if t else t
                for t in tags]
    pre = [v for v in x['prefix'] if v in x['regexes']]
    for gr in groups:
        texts, w = [spec[k][0] for k in gr], [ws[k] for k in gr]
        steps = [
            lambda t: spec_etal(t, 'etal', x['etal_merge']),
            lambda t: spec_suffix(t, texts, w, x['suffix']),
            lambda t: spec_prefix(t, texts, w, pre, x['regexes']),
            lambda t: c07.spec(t, {}, {v: True for v in x['merge']}, False, False)]
        for step in steps:
            new = step(mp([exp[k] for k in gr]))
            for k, t in zip(gr, new):
                if t:
                    exp[k] = t
    all_before = [t.text for t in T.tokens(doc)]
    res = call(m.ReferencePostProcessingAnnotator, cfg).annotate(doc)
    if res is not doc:
        return 'annotate did not return the document'
    r = [doc.get_sub_tag(t) for t in flat]
    for k in range(len(flat)):
        if r[k] != exp[k]:
            return 'word %d %r: sub tag %r, expected %r (all %r)' % (k, spec[k], r[k], exp[k], r)
        if doc.get_tag(flat[k]) != spec[k][1]:
            return 'main tag of word %d changed' % k
    if [t.text for t in T.tokens(doc)] != all_before:
        return 'text changed'
    for t in T.tokens(doc):
        if not t.text.strip() and (doc.get_tag(t) or doc.get_sub_tag(t)):
            return 'white space tagged'
    return None


def subs():
    return [
        Sub('functions', gen, check_fns, 8000, 150000, weight=4, bound='up to 30 tokens, 6 tag values',
            nontrivial=lambda x: any(x['tags']) and None in x['tags']),
        Sub('document', gen_doc, check_doc, 1500, 25000, weight=4, bound='up to 3 lines of 20 words'),
    ]
