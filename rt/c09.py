"""C09: positions in matched text map back to the tokens at those positions"""
import itertools
from common import R, Sub, call
import teigen as T

ID = 'C09'
MU = 'annotation.matching_utils'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/matching_utils.py']
ITEMS = ['', 'a', 'bc', 'def', 'x y', '\u00e9\u00e9', ' ', 'longer item', '1', 'A']


def overlapping(ranges, start, end):
    return [k for k, (a, b) in enumerate(ranges) if a < end and b > start]


def gen(g):
    n = g.size(5, 25)
    items = [g.str(ITEMS) for _ in range(n)]
    ws = None
    if g.p(.5):
        ws = [g.choice(['', ' ', '\n', '  ', None, '\u2009']) for _ in range(n)]
    return {'items': items, 'sep': g.choice(['', ' ', '\n', ', ', '--']),
            'pad': g.choice(['', '', ' ', '##']), 'ws': ws}


def check(x):
    items, sep, pad, ws = x['items'], x['sep'], x['pad'], x['ws']
    if ws is not None and len(ws) != len(items):
        return None
    f = R(MU, 'join_with_index_ranges')
    ws_arg = None if ws is None else list(ws)
    text, ranges = call(f, list(items), sep=sep, pad=pad, whitespace_list=ws_arg)
    parts, exp_ranges, s = [], [], ''
    for k, it in enumerate(items):
        s += pad
        exp_ranges.append((len(s), len(s) + len(it)))
        s += it + pad
        if k + 1 < len(items):
            s += sep if ws is None or ws[k] is None else ws[k]
    if text != s:
        return 'text %r, expected %r' % (text, s)
    ranges = [tuple(r) for r in ranges]
    if ranges != exp_ranges:
        return 'ranges %r, expected %r' % (ranges, exp_ranges)
    if ws_arg != ws:
        return 'white space list modified'
    jt = call(R(MU, 'JoinedText'), list(items), sep=sep, pad=pad, whitespace_list=ws)
    if str(jt) != s or jt.get_text() != s:
        return 'JoinedText text %r' % str(jt)
    if jt.end_index != (exp_ranges[-1][1] if items else 0):
        return 'end index %r' % jt.end_index
    n = len(s)
    pts = list(range(-1, n + 2)) if n <= 14 else sorted(
        {-1, 0, n, n + 1} | {p + d for r in exp_ranges for p in r for d in (-1, 0, 1)})[:24]
    for a, b in itertools.combinations_with_replacement(pts, 2):
        e = overlapping(exp_ranges, a, b)
        r = [i for i, rg in jt.iter_item_indices_and_index_range_between((a, b))]
        if r != e:
            return 'items between %r: %r, expected %r' % ((a, b), r, e)
        r = [(it, tuple(rg)) for it, rg in jt.iter_items_and_index_range_between((a, b))]
        if r != [(items[k], exp_ranges[k]) for k in e]:
            return 'items between %r: %r' % ((a, b), r)
    return None


def gen_seqs(g):
    lines = []
    for _ in range(g.r.randrange(0, 5)):
        lines.append([[g.str(['a', 'Bb', '.', 'the', 'x1', '(', ')', 'Results', ','])]
                      for _ in range(g.r.randrange(1, 7))])
    return {'lines': lines, 'sep': g.choice(['\n', ' ', '\n\n', '', '##']),
            'pad': g.choice(['', ' ', '##']), 'simple': g.p(.3), 'glue': g.p(.4),
            'filter': g.choice([None, 'lower', 'cut'])}


def check_seqs(x):
    filt = {None: None, 'lower': lambda s: s.lower(), 'cut': lambda s: s[:1]}[x['filter']]
    if not all(w[0] for line in x['lines'] for w in line):
        return None
    if x['simple']:
        m = R('core.structured_document')
        words = [[call(m.SimpleToken, w[0]) for w in line] for line in x['lines']]
        doc = call(m.SimpleStructuredDocument, lines=[call(m.SimpleLine, ws) for ws in words])
        space = lambda t: ' '  # noqa
    else:
        doc, words = T.doc_from_lines(x['lines'])
        if x['glue']:
            for line in words:
                for k, t in enumerate(line):
                    t.whitespace = ['', ' ', None, '\n'][k % 4]
        space = lambda t: ' ' if t.whitespace is None else t.whitespace  # noqa
    SW = R(MU, 'SequenceWrapper')
    seqs, exp_seq_ranges, exp_tokens, s = [], [], [], ''
    words = [w for w in words if w]
    for n, line in enumerate(words):
        sw = call(SW, doc, list(line), str_filter_f=filt)
        t, rs = '', []
        for k, tok in enumerate(line):
            w = filt(doc.get_text(tok)) if filt else doc.get_text(tok)
            rs.append((len(t), len(t) + len(w)))
            t += w
            if k + 1 < len(line):
                t += space(tok)
        if str(sw) != t:
            return 'text of sequence %r, expected %r' % (str(sw), t)
        for a in range(-1, len(t) + 1, 2):
            for b in range(a, len(t) + 2, 3):
                r = list(sw.tokens_between((a, b)))
                e = [line[k] for k in overlapping(rs, a, b)]
                if r != e:
                    return 'tokens between %r of %r: %r' % ((a, b), t, r)
        s += x['pad']
        base = len(s)
        exp_seq_ranges.append((base, base + len(t)))
        exp_tokens += [(tok, (base + p, base + q)) for tok, (p, q) in zip(line, rs)]
        s += t + x['pad']
        if n + 1 < len(words):
            s += x['sep']
        seqs.append(sw)
    st = call(R(MU, 'SequencesText'), seqs, sep=x['sep'], pad=x['pad'])
    if str(st) != s or st.get_text() != s:
        return 'text %r, expected %r' % (str(st), s)
    if st.end_index != (exp_seq_ranges[-1][1] if seqs else 0):
        return 'end index'
    n = len(s)
    step = max(1, n // 12)
    for a in range(-1, n + 1, step):
        for b in list(range(a, n + 2, step)) + [n]:
            if b < a:
                continue
            r = list(st.iter_tokens_between((a, b)))
            e = [tok for tok, (p, q) in exp_tokens if p < b and q > a]
            if len(r) != len(e) or any(p is not q for p, q in zip(r, e)):
                return 'tokens between %r of %r: %r, expected %r' % ((a, b), s, r, e)
            r = list(st.iter_sequences_between((a, b)))
            e = [seqs[k] for k in overlapping(exp_seq_ranges, a, b)]
            if len(r) != len(e) or any(p is not q for p, q in zip(r, e)):
                return 'sequences between %r of %r: %r' % ((a, b), s, r)
            et = ' '.join(tok.text for tok, (p, q) in exp_tokens if p < b and q > a)
            if st.get_text_between((a, b)) != et:
                return 'text between %r: %r' % ((a, b), st.get_text_between((a, b)))
            rt = st.get_index_ranges_with_text([(a, b)])
            if [(tuple(p), q) for p, q in rt] != [((a, b), et)]:
                return 'index ranges with text %r' % (rt,)
    return None


def subs():
    return [
        Sub('join', gen, check, 2500, 40000, weight=3, bound='up to 25 items, all ranges',
            nontrivial=lambda x: len(x['items']) > 1),
        Sub('sequences', gen_seqs, check_seqs, 1200, 20000, weight=4, bound='up to 4 lines of 6 words',
            nontrivial=lambda x: len(x['lines']) > 1),
    ]
