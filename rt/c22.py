"""C22: post-processing steps change exactly the words they are meant to change"""
from common import R, Skip, Sub, call
import teigen as T
import tagspec as S
import c21

ID = 'C22'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/remove_untagged_annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/expand_to_untagged_lines_annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/replace_tags_annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py',
         'sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py',
         'sciencebeam_trainer_grobid_tools/structured_document/utils.py']
WORDS = ['a', 'b', 'Ccc', '.', '12', 'fooBar', 'x', 'Title']
VALS = ['t', 'u', 'v']
SVALS = ['s', 'r', 'q']


def gen_doc(g, pres=True):
    lines = []
    p = g.choice([0, .2, .5, .8])
    for _ in range(g.r.randrange(1, 5)):
        line = []
        for _ in range(g.size(6, 12)):
            def tag(vals, q):
                return S.gen_tag(g, vals, 0) if g.p(q) else None
            line.append([g.choice(WORDS), tag(VALS, p), tag(SVALS, p / 2),
                         tag(VALS, p / 2) if pres else None, tag(SVALS, p / 3) if pres else None])
        lines.append(line)
    return lines


class Doc:
    """the document and a plain copy of the tags of its words"""
    def __init__(self, lines):
        self.doc, self.words = T.doc_from_lines([[w for w in line] for line in lines])
        self.flat = [t for w in self.words for t in w]
        names = R(T.TEI_MODULE, 'PRESERVED_TAG_ATTRIB_NAME'), R(T.TEI_MODULE, 'PRESERVED_SUB_TAG_ATTRIB_NAME')
        spec, k = [w for line in lines for w in line], 0
        self.ok = True
        for w in spec:
            text = ''
            while k < len(self.flat) and len(text) < len(w[0]):
                t = self.flat[k]
                text += t.text
                self.doc.set_tag_only(t, w[1])
                self.doc.set_tag_only(t, w[2], level=2)
                for name, tag, level in ((names[0], w[3], None), (names[1], w[4], 2)):
                    if tag is not None:
                        t.attrib[name] = tag
                    if self.doc.get_preserved_tag(t, level=level) != tag:
                        raise Skip('preserved tags are stored differently')
                k += 1
            if text != w[0]:
                self.ok = False

    def state(self):
        d = self.doc
        return [(d.get_tag(t), d.get_tag(t, level=2)) for t in self.flat]

    def effective(self, level=None):
        d = self.doc
        return [d.get_tag_or_preserved_tag(t, level=level) for t in self.flat]

    def preserved(self):
        return [(self.doc.get_preserved_tag(t), self.doc.get_preserved_tag(t, level=2)) for t in self.flat]

    def text(self):
        return [t.text for t in T.tokens(self.doc)]


def run(x, ann, expect, set_only=True):
    d = Doc(x['lines'])
    if not d.ok:
        return None
    before, text, pres = d.state(), d.text(), d.preserved()
    eff, eff2 = d.effective(), d.effective(2)
    want = expect(d, before, eff, eff2)
    r = ann.annotate(d.doc)
    if r is not d.doc:
        return 'another document returned'
    if d.text() != text:
        return 'text changed'
    got = d.state()
    if got != want:
        k = [i for i in range(len(got)) if got[i] != want[i]][0]
        return 'word %d: tags %r became %r, expected %r (all before: %r)' % (
            k, before[k], got[k], want[k], list(zip(before, eff, eff2)))
    if set_only and d.preserved() != pres:
        return 'preserved tags changed'
    return None


EX = 'annotation.expand_to_untagged_lines_annotator'


def gen_expand(g):
    return {'lines': gen_doc(g), 'enabled': [v for v in VALS if g.p(.6)]}


def check_prev(x):
    cfg = call(R(EX, 'ExpandToUntaggedLinesAnnotatorConfig'), enabled_tags=set(x['enabled']))
    ann = call(R(EX, 'ExpandToPreviousUntaggedLinesPostProcessingAnnotator'), cfg)

    def expect(d, before, eff, eff2):
        want = list(before)
        for k, e in enumerate(eff):
            v = S.value(e)
            if not v or v not in x['enabled'] or k == 0 or S.value(eff[k - 1]):
                continue
            i = k
            while i > 0 and not S.value(eff[i - 1]):
                i -= 1
            for j in range(i, k + 1):
                want[j] = (('b-' if j == i else 'i-') + v, before[j][1])
        return want
    return run(x, ann, expect)


def check_following(x):
    cfg = call(R(EX, 'ExpandToUntaggedLinesAnnotatorConfig'), enabled_tags=set(x['enabled']))
    ann = call(R(EX, 'ExpandToFollowingUntaggedLinesPostProcessingAnnotator'), cfg)

    def expect(d, before, eff, eff2):
        want = list(before)
        for k, e in enumerate(eff):
            if S.value(e):
                continue
            i = k
            while i >= 0 and not S.value(eff[i]):
                i -= 1
            if i >= 0 and S.value(eff[i]) in x['enabled']:
                want[k] = ('i-' + S.value(eff[i]), before[k][1])
        return want
    return run(x, ann, expect)


MG = 'annotation.merge_group_tags_annotator'


def gen_merge(g):
    return {'lines': gen_doc(g), 'level': g.choice([None, 2]),
            'groups': {v: 'g' + v for v in VALS + SVALS if g.p(.6)}}


def check_merge(x):
    cfg = call(R(MG, 'MergeGroupTagsAnnotatorConfig'), get_group_tag_for_tag_fn=x['groups'].get,
               tag_level=x['level'])
    ann = call(R(MG, 'MergeGroupTagsPostProcessingAnnotator'), cfg)

    def expect(d, before, eff, eff2):
        want = list(before)
        sub = x['level'] == 2
        ks = [k for k in range(len(eff)) if not sub or eff[k]]
        tags = eff2 if sub else eff
        for n, k in enumerate(ks):
            if S.value(tags[k]):
                continue
            m = n
            while m >= 0 and not S.value(tags[ks[m]]):
                m -= 1
            grp = x['groups'].get(S.value(tags[ks[m]])) if m >= 0 else None
            if grp:
                new = 'i-' + grp
                want[k] = (before[k][0], new) if sub else (new, before[k][1])
        return want
    return run(x, ann, expect)


def gen_replace(g):
    return {'lines': gen_doc(g), 'map': {v: g.choice(['new', 't', 'u', None, 'v']) for v in VALS if g.p(.5)}}


def check_replace(x):
    m = R('annotation.replace_tags_annotator')
    ann = call(m.ReplaceTagsPostProcessingAnnotator, call(
        m.ReplaceTagsAnnotatorConfig, replaced_tag_by_tag=dict(x['map'])))

    def expect(d, before, eff, eff2):
        # a changed tag drops the preserved tags of its old value on the line (see C04)
        want = []
        old = [list(p) for p in d.preserved()]
        line_of = {}
        n = 0
        for i, w in enumerate(d.words):
            for _ in w:
                line_of[n] = i
                n += 1
        for k, b in enumerate(before):
            cur = b[0] if b[0] else old[k][0]
            p, v = S.split(cur)
            if v and v in x['map']:
                nv = x['map'][v]
                new = (p or '') + nv if nv else None
                want.append((new, b[1]))
                if nv != v:
                    for lvl in (0, 1):
                        pv = S.value(old[k][lvl])
                        if pv:
                            for j in line_of:
                                if line_of[j] == line_of[k] and S.value(old[j][lvl]) == pv:
                                    old[j][lvl] = None
            else:
                want.append(b)
        return want
    return run(x, ann, expect, set_only=False)


def gen_remove(g):
    x = {'lines': gen_doc(g, pres=g.p(.3)), 'spaces': g.p(.2)}
    return x


def check_remove(x):
    d = Doc(x['lines'])
    if not d.ok:
        return None
    exp = []
    keep = True
    for line in T.lines(d.doc):
        cur = []
        for t in d.doc.get_all_tokens_of_line(line):
            if t.text.isspace():
                if keep:
                    cur.append(id(t))
            else:
                keep = bool(d.doc.get_tag(t))
                if keep:
                    cur.append(id(t))
        if cur:
            exp.append(cur)
    before = {id(t): (t.text, dict(t.attrib)) for t in T.tokens(d.doc)}
    ann = call(R('annotation.remove_untagged_annotator', 'RemoveUntaggedPostProcessingAnnotator'))
    r = ann.annotate(d.doc)
    if r is not d.doc:
        return 'another document returned'
    got = [[id(t) for t in d.doc.get_all_tokens_of_line(line)] for line in T.lines(d.doc)]
    if got != exp:
        show = [[before[i][0] for i in line if i in before] for line in got]
        return 'kept %r, expected %r' % (show, [[before[i][0] for i in line] for line in exp])
    if any(before[id(t)] != (t.text, dict(t.attrib)) for t in T.tokens(d.doc)):
        return 'tags or text of a kept word changed'
    return None


def gen_sub(g):
    x = c21.gen(g)
    x['simple'] = False
    x['config']['use_sub_annotations'] = True
    for line in x['lines']:
        for w in line:
            w.append(S.gen_tag(g, VALS, 0) if g.p(.2) else None)
            w.append(S.gen_tag(g, SVALS, 0) if g.p(.2) else None)
    return x


def check_sub(x):
    if not c21.valid(x):
        return None
    d = Doc(x['lines'])
    if not d.ok:
        return None
    eff, before, text = d.effective(), d.state(), d.text()
    ann = c21.annotator(x, cls=R('annotation.sub_tag_annotator', 'SubTagOnlyAnnotator'))
    r = ann.annotate(d.doc)
    if r is not d.doc:
        return 'another document returned'
    if d.text() != text:
        return 'text changed'
    got = d.effective()
    if got != eff:
        return 'main tags %r became %r' % (eff, got)
    snames = {s[1] for t in x['targets'] for s in t[2] or []}
    for b, a in zip(before, d.state()):
        if b[1] and a[1] != b[1]:
            return 'sub tag %r became %r' % (b[1], a[1])
        if not b[1] and a[1] and S.value(a[1]) not in snames:
            return 'sub tag %r added' % a[1]
    return None


def subs():
    return [
        Sub('expand_previous', gen_expand, check_prev, 1000, 15000, bound='up to 4 lines of 12 words'),
        Sub('expand_following', gen_expand, check_following, 1000, 15000, bound='up to 4 lines of 12 words'),
        Sub('merge_group', gen_merge, check_merge, 1000, 15000, bound='up to 4 lines of 12 words'),
        Sub('replace', gen_replace, check_replace, 1000, 15000, bound='up to 4 lines of 12 words'),
        Sub('remove_untagged', gen_remove, check_remove, 1000, 15000, bound='up to 4 lines of 12 words'),
        Sub('sub_tags_only', gen_sub, check_sub, 500, 8000, weight=2,
            bound='documents of up to 5 lines of 8 words, up to 4 target values'),
    ]
