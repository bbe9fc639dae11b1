"""C20: grouping into entities and pending sequences"""
from common import R, Sub, call
import teigen as T
import tagspec as S

ID = 'C20'
REF = 'annotation.reference_annotator'
MU = 'annotation.matching_utils'
CH = 'annotation.checks'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/reference_annotator.py',
         'sciencebeam_trainer_grobid_tools/annotation/matching_utils.py',
         'sciencebeam_trainer_grobid_tools/annotation/checks.py']
WORDS = ['a', 'b', 'Ccc', '.', '12', 'x']


def gen_lines(g, n=4):
    vals = g.r.sample(S.VALUES, 2)
    lines, cur = [], None
    for _ in range(g.r.randrange(0, n)):
        line = []
        for _ in range(g.size(8, 20)):
            if g.p(.45):
                cur = g.choice([None] + vals)
            tag = cur and (g.choice(['b-', 'i-', '']) if g.p(.3) else 'i-') + cur
            line.append([g.choice(WORDS), tag])
        lines.append(line)
    return lines


def make(lines, simple):
    if simple:
        m = R('core.structured_document')
        words = [[call(m.SimpleToken, w[0]) for w in line] for line in lines]
        doc = call(m.SimpleStructuredDocument, lines=[call(m.SimpleLine, ws) for ws in words])
    else:
        doc, words = T.doc_from_lines(lines)
    flat = [t for w in words for t in w]
    spec = [w for line in lines for w in line]
    if [doc.get_text(t) for t in flat] != [w[0] for w in spec]:
        return None, None
    for t, w in zip(flat, spec):
        doc.set_tag(t, w[1])
    return doc, words


def gen(g):
    return {'lines': gen_lines(g), 'simple': g.p(.3), 'iterator': g.p(.5)}


def check_group(x):
    doc, words = make(x['lines'], x['simple'])
    if doc is None:
        return None
    flat = [t for w in words for t in w]
    tags = [w[1] for line in x['lines'] for w in line]
    exp = []
    for k, t in enumerate(tags):
        p, v = S.split(t)
        if exp and exp[-1][0] == v and p != 'b-':
            exp[-1][1].append(k)
        else:
            exp.append((v, [k]))
    f = R(REF, '_iter_group_tokens_by_tag_entity')
    r = [(v, list(ts)) for v, ts in list(call(f, doc, iter(flat) if x['iterator'] else flat))]
    ids = {id(t): k for k, t in enumerate(flat)}
    rr = [(v, [ids.get(id(t)) for t in ts]) for v, ts in r]
    if rr != exp:
        return 'groups %r, expected %r (tags %r)' % (rr, exp, tags)
    if [doc.get_tag(t) for t in flat] != tags:
        return 'tags changed'
    if not x['simple']:
        ents = [v for v, _ in call(R(CH, 'iter_structured_document_entities'), doc)]
        if ents != [v for v, _ in exp if v]:
            return 'entities %r, expected %r' % (ents, exp)
    return None


def gen_pending(g):
    return {'lines': gen_lines(g, 5), 'simple': g.p(.3),
            'later': [[g.r.randrange(40), S.gen_tag(g)] for _ in range(g.size(8))],
            'limit': g.choice([None, None, 1, 2, 3])}


def check_pending(x):
    doc, words = make(x['lines'], x['simple'])
    if doc is None:
        return None
    words = [w for w in words]
    flat = [t for w in words for t in w]
    ids = {id(t): k for k, t in enumerate(flat)}
    P = R(MU, 'PendingSequences')
    pend = call(P.from_structured_document, doc, normalize_fn=lambda s: s.upper())
    created = [[t for t in w if not doc.get_tag(t)] for w in words]
    created = [w for w in created if w]

    def expected():
        out = []
        for pos, w in enumerate(created):
            run = []
            for t in w:
                if doc.get_tag(t):
                    if run:
                        out.append((pos, run))
                    run = []
                else:
                    run.append(t)
            if run:
                out.append((pos, run))
        return out

    def compare(when):
        e = expected()
        for limit in (None, x['limit']):
            seqs = pend.get_pending_sequences(limit=limit) if limit else pend.get_pending_sequences()
            ex = e[:limit] if limit else e
            got = [(s.position, [ids[id(t)] for t in s.tokens]) for s in seqs]
            want = [(p, [ids[id(t)] for t in ts]) for p, ts in ex]
            if got != want:
                return 'pending sequences %s %r, expected %r' % (when, got, want)
            for s, (_, ts) in zip(seqs, ex):
                txt = ''
                for k, t in enumerate(ts):
                    w = getattr(t, 'whitespace', None)
                    txt += doc.get_text(t).upper() + (
                        '' if k + 1 == len(ts) else ' ' if w is None else w)
                if str(s) != txt:
                    return 'text %r, expected %r' % (str(s), txt)
            if list(pend.iter_pending_sequences()) and [ids[id(t)] for s in pend.iter_pending_sequences() for t in s.tokens] != [
                    ids[id(t)] for _, ts in e for t in ts]:
                return 'iter_pending_sequences differs'
        return None
    msg = compare('initially')
    if msg:
        return msg
    for k, tag in x['later']:
        if flat:
            doc.set_tag(flat[k % len(flat)], tag)
            msg = compare('after tagging')
            if msg:
                return msg
    f = R(MU, 'get_untagged_line_tokens')
    for line, w in zip(T.lines(doc), words):
        r = list(call(f, doc, line))
        if [id(t) for t in r] != [id(t) for t in w if not doc.get_tag(t)]:
            return 'get_untagged_line_tokens'
    return None


def subs():
    return [
        Sub('group', gen, check_group, 3000, 50000, weight=3, bound='up to 3 lines of 20 words',
            nontrivial=lambda x: len(x['lines']) > 0),
        Sub('pending', gen_pending, check_pending, 1200, 20000, weight=3,
            bound='up to 4 lines, up to 8 later tag changes', nontrivial=lambda x: len(x['later']) > 0),
    ]
