"""C04: the tag store (model based, random histories of tag operations)"""
from common import R, Sub, call, Skip
import teigen as T
import tagspec as S

ID = 'C04'
CORE = 'core.structured_document'
FILES = ['sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py',
         'sciencebeam_trainer_grobid_tools/core/structured_document/__init__.py']
LEVELS = [None, None, 2, 2, 3, 'x', '2']
SCOPES = [None, None, None, 's', 'scope2', 'tag']
OPS = ['set_tag', 'set_tag', 'set_tag', 'set_tag_only', 'set_sub_tag', 'set_sub_tag_only',
       'clear_preserved_tag_only', 'clear_preserved_sub_tag', 'set_tag_with_prefix',
       'set_sub_tag_with_prefix']


def gen(g):
    vals = g.r.sample(['t', 'u', 'v', 'zz', 'p', 'p/q', 'note', 'title', 'w'], 3)
    c = T.gen_container(g)
    ops = []
    for _ in range(g.size(14, 40)):
        ops.append([g.choice(OPS), g.r.randrange(60), gen_tag(g, vals), g.choice(SCOPES),
                    g.choice(LEVELS)])
    return {'container': c, 'mapping': g.choice(T.MAPPINGS), 'preserve': g.p(.85), 'ops': ops,
            'use_preserved': g.p(.4)}


def gen_tag(g, vals):
    if g.p(.15):
        return None
    return g.choice(['', 'b-', 'i-']) + g.str(vals)


def lev(level):
    return str(level) if level else None


class Model:
    def __init__(self, doc, toks, lines_of):
        self.tags = [{} for _ in toks]
        self.preserved = [{} for _ in toks]
        self.space = [not t.text.strip() for t in toks]
        self.line = lines_of
        for k, t in enumerate(toks):
            for level in (None, 2):
                v = doc.get_preserved_tag(t, level=level)
                if v is not None:
                    self.preserved[k][lev(level)] = v

    def set_only(self, k, tag, scope, level):
        key = (scope, lev(level))
        if tag is None:
            self.tags[k].pop(key, None)
        else:
            self.tags[k][key] = tag

    def clear_same(self, k, level):
        own = S.value(self.preserved[k].get(level))
        if not own:
            return
        for j in range(len(self.tags)):
            if self.line[j] == self.line[k] and S.value(self.preserved[j].get(level)) == own:
                self.preserved[j].pop(level, None)

    def set(self, k, tag, scope, level):
        level = lev(level)
        prev = self.tags[k].get((None, level)) or self.preserved[k].get(level)
        self.set_only(k, tag, scope, level)
        if self.space[k]:
            return
        if S.value(tag) != S.value(prev):
            self.clear_same(k, level)
            if level is None:
                self.clear_same(k, '2')


def check(x):
    if x['container'] is None:
        return None
    root = T.build_root([x['container']])
    doc = T.make_doc(root, x['mapping'], x['preserve'])
    toks, lines_of = [], []
    for n, line in enumerate(T.lines(doc)):
        for t in doc.get_all_tokens_of_line(line):
            toks.append(t)
            lines_of.append(n)
    if not toks:
        return None
    for t in toks:
        if doc.get_tag(t) is not None or doc.get_sub_tag(t) is not None:
            return 'tags set after loading'
    m = Model(doc, toks, lines_of)
    texts = [t.text for t in toks]
    for n, (op, k, tag, scope, level) in enumerate(x['ops']):
        k %= len(toks)
        t = toks[k]
        if not hasattr(doc, op):
            continue
        if x['use_preserved'] and n % 3 == 0 and m.preserved[k].get(lev(level)):
            # a tag with the same value as the preserved one
            tag = S.value(m.preserved[k][lev(level)])
            tag = tag if n % 2 else 'i-' + tag
        if op == 'set_tag':
            doc.set_tag(t, tag, scope=scope, level=level)
            m.set(k, tag, scope, level)
        elif op == 'set_tag_only':
            doc.set_tag_only(t, tag, scope=scope, level=level)
            m.set_only(k, tag, scope, level)
        elif op == 'set_sub_tag':
            doc.set_sub_tag(t, tag, scope=scope)
            m.set(k, tag, scope, 2)
        elif op == 'set_sub_tag_only':
            doc.set_sub_tag_only(t, tag)
            m.set_only(k, tag, None, 2)
        elif op == 'set_tag_with_prefix':
            p = ['b-', 'i-', None][n % 3]
            doc.set_tag_with_prefix(t, tag, scope=scope, prefix=p)
            m.set(k, (p or '') + tag if tag else tag, scope, None)
        elif op == 'set_sub_tag_with_prefix':
            p = ['b-', 'i-', None][n % 3]
            doc.set_sub_tag_with_prefix(t, tag, scope=scope, prefix=p)
            m.set(k, (p or '') + tag if tag else tag, scope, 2)
        elif op == 'clear_preserved_tag_only':
            doc.clear_preserved_tag_only(t, level=level)
            m.preserved[k].pop(lev(level), None)
        elif op == 'clear_preserved_sub_tag':
            doc.clear_preserved_sub_tag(t)
            m.preserved[k].pop('2', None)
        msg = compare(doc, toks, m, n, op)
        if msg:
            return msg
    if [t.text for t in toks] != texts:
        return 'text of tokens changed'
    return None


def compare(doc, toks, m, n, op):
    for j, t in enumerate(toks):
        for scope in (None, 's', 'scope2', 'tag'):
            for level in (None, 2, 3, 'x'):
                e = m.tags[j].get((scope, lev(level)))
                r = doc.get_tag(t, scope=scope, level=level)
                if r != e:
                    return 'after op %d (%s): tag of token %d scope %r level %r is %r, expected %r' % (
                        n, op, j, scope, level, r, e)
        for level in (None, 2, 3, 'x'):
            e = m.preserved[j].get(lev(level))
            r = doc.get_preserved_tag(t, level=level)
            if r != e:
                return 'after op %d (%s): preserved tag of token %d level %r is %r, expected %r' % (
                    n, op, j, level, r, e)
            tp = m.tags[j].get((None, lev(level))) or e
            if doc.get_tag_or_preserved_tag(t, level=level) != tp:
                return 'tag or preserved tag of token %d level %r' % (j, level)
            if doc.get_tag_or_preserved_tag_value(t, level=level) != S.value(tp):
                return 'tag or preserved tag value of token %d level %r' % (j, level)
        bs = {s: v for s, v in doc.get_tag_by_scope(t).items() if v is not None}
        e = {s: v for (s, lv), v in m.tags[j].items() if lv is None}
        if bs != e:
            return 'tags by scope of token %d: %r, expected %r' % (j, bs, e)
    return None


def gen_simple(g):
    ops = []
    for _ in range(g.size(12, 40)):
        ops.append([g.r.randrange(5), gen_tag(g, ['t', 'u', 'v']), g.choice(SCOPES),
                    g.choice(LEVELS), g.choice([None, None, 'b-', 'i-'])])
    return {'n': g.r.randrange(1, 5), 'ops': ops, 'pages': g.r.randrange(3)}


def check_simple(x):
    m = R(CORE)
    toks = [call(m.SimpleToken, 'w%d' % i) for i in range(max(1, x['n']))]
    lines = [call(m.SimpleLine, toks[:2]), call(m.SimpleLine, toks[2:])]
    if x['pages'] == 0:
        doc = call(m.SimpleStructuredDocument, lines=lines)
    elif x['pages'] == 1:
        doc = call(m.SimpleStructuredDocument, call(m.SimplePage, lines))
    else:
        doc = call(m.SimpleStructuredDocument,
                   [call(m.SimplePage, lines[:1]), call(m.SimplePage, lines[1:])])
    if list(doc.iter_all_tokens()) != toks:
        return 'iter_all_tokens'
    model = [{} for _ in toks]
    for k, tag, scope, level, prefix in x['ops']:
        k %= len(toks)
        if prefix:
            toks[k].set_tag(tag, scope=scope, level=level, prefix=prefix)
            tag = prefix + tag if tag else tag
        else:
            doc.set_tag(toks[k], tag, scope=scope, level=level)
        model[k][(scope, lev(level))] = tag
        for j, t in enumerate(toks):
            for sc in (None, 's', 'scope2', 'tag'):
                for lv in (None, 2, 3, 'x'):
                    if doc.get_tag(t, scope=sc, level=lv) != model[j].get((sc, lev(lv))):
                        return 'tag of token %d %r %r is %r' % (
                            j, sc, lv, doc.get_tag(t, scope=sc, level=lv))
            bs = {s: v for s, v in doc.get_tag_by_scope(t).items() if v is not None}
            e = {s: v for (s, lv), v in model[j].items() if lv is None and v is not None}
            if bs != e:
                return 'tags by scope of token %d: %r, expected %r' % (j, bs, e)
    return None


def gen_merge(g):
    n = g.size(6, 12)
    return {'a': [[S.gen_tag(g), S.gen_tag(g)] for _ in range(n)],
            'b': [[S.gen_tag(g), S.gen_tag(g)] for _ in range(n)],
            'src': g.choice([None, 's']), 'dst': g.choice([None, 's', 'd'])}


def check_merge(x):
    m = R(CORE)
    if len(x['a']) != len(x['b']):
        return None

    def mk(spec):
        toks = [call(m.SimpleToken, 'w%d' % (i // 2)) for i in range(len(spec))]
        doc = call(m.SimpleStructuredDocument, lines=[
            call(m.SimpleLine, toks[:3]), call(m.SimpleLine, toks[3:])])
        for t, (a, b) in zip(toks, spec):
            doc.set_tag(t, a)
            doc.set_tag(t, b, scope='s')
        return doc, toks
    doc, ta = mk(x['a'])
    other, tb = mk(x['b'])
    fn = R(CORE, 'merge_token_tag')
    orig = doc.clone()
    doc.merge_with(other, lambda a, b, c, d: call(
        fn, a, b, c, d, source_scope=x['src'], target_scope=x['dst']))
    for i, t in enumerate(ta):
        for k, sc in enumerate([None, 's', 'd']):
            e = x['a'][i][k] if k < 2 else None
            src = x['b'][i][0 if x['src'] is None else 1]
            if sc == x['dst'] and src:
                e = src
            if doc.get_tag(t, scope=sc) != e:
                return 'merged tag %d scope %r: %r, expected %r' % (i, sc, doc.get_tag(t, scope=sc), e)
    for i, t in enumerate(tb):
        if other.get_tag(t) != x['b'][i][0] or other.get_tag(t, scope='s') != x['b'][i][1]:
            return 'other document changed'
    for i, t in enumerate(orig.iter_all_tokens()):
        if orig.get_tag(t) != x['a'][i][0]:
            return 'clone changed'
    return None


def subs():
    return [
        Sub('tei_history', gen, check, 700, 15000, weight=6, bound='histories of <= 40 operations',
            nontrivial=lambda x: len(x['ops']) > 2),
        Sub('simple_history', gen_simple, check_simple, 700, 8000, weight=2,
            bound='histories of <= 40 operations'),
        Sub('merge', gen_merge, check_merge, 500, 5000, bound='<= 12 tokens'),
    ]
