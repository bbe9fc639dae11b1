"""C17: segmentation"""
import re
from collections import Counter
from lxml import etree
from common import R, Sub, call
import teigen as T
import tagspec as S

ID = 'C17'
M = 'annotation.segmentation_annotator'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/matching_utils.py']
VALUES = ['title', 'abstract', 'reference', 'appendix', 'section_title', 'page', 'front', 'body', 'annex', 'other',
          'headnote', 'author']
MAPPINGS = [
    {'front': ['title', 'abstract'], 'reference': ['reference'], 'annex': ['appendix'], 'body': ['section_title']},
    {'front': ['title'], 'body': ['abstract', 'reference'], 'page': ['page']},
    {'annex': ['appendix', 'annex'], 'reference': ['reference'], 'front': ['front', 'title']},
    {'headnote': ['other'], 'front': ['title', 'author'], 'annex': ['appendix'], 'reference': ['reference', 'abstract']},
    {}]
HEADS = [['running', 'head'], ['short', 'title', 'x'], ['1', '2'], ['head'], ['3', '.', '4'], ['bio', 'rxiv'], ['3', 'of', '9']]


def gen(g):
    mapping = g.choice(MAPPINGS)
    vals = [v for vs in mapping.values() for v in vs] or VALUES
    lines, page = [], g.r.randrange(0, 4)
    blk, left = None, 0
    heads = g.r.sample(HEADS, 2)
    dense = g.p(.5)
    for _ in range(g.size(14, 60) if g.p(.8) else g.size(70, 70)):
        k = g.r.random()
        if k < .25:
            texts = [str(page)] if g.p(.7) else [str(g.int(0, 12))]
            page += 1 if g.p(.7) else g.int(0, 3)
            if g.p(.1):
                texts = [g.choice(['p', '1a', '007', '-3', 'iv'])]
            t = 'page' if g.p(.4) else None
            lines.append([[w, g.choice(['', 'b-']) + t if t else None, g.choice(['page', None, None])] for w in texts])
            continue
        if k < .45:
            pt = g.choice([None, None, None, 'page', 'note'])
            lines.append([[w, None, pt] for w in g.choice(heads)])
            continue
        if left <= 0:
            blk, left = (g.str(vals, .02) if g.p(.6) else g.choice(VALUES + [None] * 4)), g.size(4)
        left -= 1
        line = []
        for j in range(g.size(4, 9)):
            v = blk if g.p(.8 if not dense else .5) else g.choice(vals + [None, None])
            line.append([g.choice(['a', 'b', 'foo', '1', 'c']), g.choice(['', 'b-', 'i-']) + v if v else None,
                         g.choice(['page', 'note', None, None, None, None])])
        lines.append(line)
    # every line but an empty one ends in a line break
    return {'mapping': mapping, 'lines': lines, 'front_max': g.choice([0, 0, 1, 3, 8, g.size(20)]),
            'header_max': g.choice([50, 0, 3, 10, g.size(60)]), 'no_merge': g.p(.3), 'preserve': g.p(.5)}


def document(x):
    root = etree.Element('tei')
    text = etree.SubElement(root, 'text')
    last = [text, 'text']

    def put(s):
        setattr(last[0], last[1], (getattr(last[0], last[1]) or '') + s)
    for i, line in enumerate(x['lines']):
        j = 0
        while j < len(line):
            p = line[j][2]
            k = j
            while k < len(line) and line[k][2] == p:
                k += 1
            s = ' '.join(w[0] for w in line[j:k])
            if p:
                e = etree.SubElement(text, p)
                e.text = s
                last[:] = [e, 'tail']
            else:
                put(s)
            put(' ' if k < len(line) else '')
            j = k
        e = etree.SubElement(text, 'lb')
        last[:] = [e, 'tail']
    doc = T.make_doc(etree.fromstring(etree.tostring(root)), {'page': 'page', 'note': 'note'}, True,
                     container_node_path='text')
    return doc


class Model:
    def __init__(self, x, words, tags, pres):
        self.x, self.words, self.tags, self.pres = x, words, tags, pres
        self.label = [None] * len(words)
        self.text = [' '.join(w) for w in words]

    def set(self, i, j, tag):
        prev = self.tags[i][j] or self.pres[i][j]
        self.tags[i][j] = tag
        if S.value(tag) != S.value(prev) and self.pres[i][j]:
            v = S.value(self.pres[i][j])
            self.pres[i] = [None if S.value(p) == v else p for p in self.pres[i]]

    def set_line(self, i, tag):
        self.label[i] = tag
        for j in range(len(self.words[i])):
            self.set(i, j, tag)

    def effective(self, i):
        return [S.value(t or p) for t, p in zip(self.tags[i], self.pres[i])]

    def run(self):
        x, n = self.x, len(self.words)
        by_tag = {v: k for k, vs in x['mapping'].items() for v in vs}
        for i in range(n):
            vals = [S.value(t) for t in self.tags[i]]
            if not vals:
                continue
            major = max(vals, key=vals.count)
            seg = by_tag.get(major)
            if seg and (seg != major or not x['no_merge']):
                self.set_line(i, seg)
            elif not seg and major is None:
                for j in range(len(vals)):
                    if self.tags[i][j]:
                        self.set(i, j, None)
            self.label[i] = seg or major
        if x['front_max']:
            labels = list(self.label)
            for i in range(n):
                if labels[i] == 'front':
                    start = i
                    while start and labels[start - 1] == 'front':
                        start -= 1
                    if start > x['front_max']:
                        self.label[i] = None
                        for j in range(len(self.words[i])):
                            if self.tags[i][j]:
                                self.set(i, j, None)
        if x['preserve']:
            for i in range(n):
                if not self.label[i] and 'page' in self.effective(i):
                    self.set_line(i, 'page')
        self.page_numbers()
        self.headers()
        self.merge()
        if not x['preserve']:
            for i in range(n):
                if not self.label[i]:
                    self.set_line(i, 'body')

    def page_numbers(self):
        def num(s):
            try:
                return int(s)
            except ValueError:
                return -1
        existing = [i for i, s in enumerate(self.label) if s == 'page']
        cands = [i for i, s in enumerate(self.label) if not s and re.match(r'^\d+$', self.text[i])]
        lo_line, lo_page = 0, 1
        for e in existing:
            hi = num(self.text[e]) - 1
            for c in cands:
                if lo_line <= c <= e and lo_page <= num(self.text[c]) <= hi:
                    self.set_line(c, 'page')
                    lo_page += 1
            lo_line, lo_page = e, hi + 1

    def headers(self):
        counts = Counter(self.text[i] for i, s in enumerate(self.label) if not s)
        least = None
        for t, c in counts.most_common():
            if c < (2 if least is None else least) or re.match(r'^(\d|\s|\.)+$', t) or len(re.split(r'\s', t)) < 2:
                continue
            if self.text.index(t) >= self.x['header_max']:
                continue
            if least is None:
                least = max(2, c - 1)
            for i, s in enumerate(self.text):
                if s == t:
                    self.set_line(i, 'headnote')

    def merge(self):
        enabled = {'front', 'annex'} | (set() if self.x['no_merge'] else {'reference'})
        lines = [i for i in range(len(self.words)) if self.label[i] not in ('headnote', 'page')]
        prev, cand = 'front', []
        for i in lines:
            s = self.label[i]
            if s:
                if s == prev and s in enabled:
                    for k in cand:
                        self.set_line(k, s)
                prev, cand = s, []
            elif not (self.x['preserve'] and 'page' in self.effective(i)) and prev in enabled:
                cand.append(i)
        if prev == 'annex':
            for k in cand:
                self.set_line(k, 'annex')


def check(x):
    doc = document(x)
    ls = T.lines(doc)
    words = [[doc.get_text(t) for t in doc.get_tokens_of_line(line)] for line in ls]
    spec = [line for line in x['lines']]
    while len(spec) > len(ls) and not spec[-1]:
        spec.pop()
    if words != [[w[0] for w in line] for line in spec]:
        return None
    for line, sl in zip(ls, spec):
        for t, w in zip(doc.get_tokens_of_line(line), sl):
            if w[1]:
                doc.set_tag(t, w[1])
    toks = [doc.get_tokens_of_line(line) for line in ls]
    m = Model(x, words, [[doc.get_tag(t) or None for t in r] for r in toks],
              [[doc.get_preserved_tag(t) or None for t in r] for r in toks])
    before = [list(r) for r in m.tags]
    m.run()
    cfg = call(R(M, 'SegmentationConfig'), {k: set(v) for k, v in x['mapping'].items()}, front_max_start_line_index=x['front_max'],
               page_header_max_first_line_index=x['header_max'], no_merge_references=x['no_merge'])
    call(R(M, 'SegmentationAnnotator'), cfg, preserve_tags=x['preserve']).annotate(doc)
    toks = [doc.get_tokens_of_line(line) for line in T.lines(doc)]
    if [[doc.get_text(t) for t in r] for r in toks] != words:
        return 'words changed'
    for i, r in enumerate(toks):
        got = [doc.get_tag(t) or None for t in r]
        if got != m.tags[i]:
            return 'line %d %r (tags %r): %r, expected %r' % (i, words[i], before[i], got, m.tags[i])
        got = [S.value(doc.get_tag_or_preserved_tag(t) or None) for t in r]
        if got != m.effective(i):
            return 'line %d %r: effective tags %r, expected %r' % (i, words[i], got, m.effective(i))
    return None


def subs():
    return [Sub('annotate', gen, check, 2500, 40000, bound='documents of up to 70 lines of up to 9 words',
                nontrivial=lambda x: len(x['lines']) > 1)]
