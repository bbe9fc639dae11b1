"""C12: selection among match ranges"""
import itertools
from common import R, Sub, call

ID = 'C12'
SM = 'annotation.simple_matching_annotator'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py']


def clusters(ranges):
    """neighbouring clusters are joined while the gap is at most the longer one's length plus 10"""
    cs = [[r] for r in sorted(ranges)]
    while True:
        out, merged = [cs[0]], False
        for c in cs[1:]:
            p = out[-1]
            ps, pe, s, e = p[0][0], p[-1][1], c[0][0], c[-1][1]
            gap = s - pe if s >= pe else ps - e
            if gap <= max(pe - ps, e - s) + 10:
                out[-1] = sorted(p + c)
                merged = True
            else:
                out.append(c)
        if not merged:
            return out
        cs = out


def length(c):
    return c[-1][1] - c[0][0]


def check(x):
    ranges = [tuple(r) for r in x]
    if any(a > b for a, b in ranges):
        return None
    f = R(SM, 'select_index_ranges')
    arg = list(ranges)
    sel, unsel = call(f, arg)
    sel, unsel = [tuple(r) for r in sel], [tuple(r) for r in unsel]
    if arg != ranges:
        return 'argument modified'
    if sorted(sel + unsel) != sorted(ranges):
        return 'select_index_ranges(%r) = %r, %r is not a partition' % (ranges, sel, unsel)
    if sel != sorted(sel) or unsel != sorted(unsel):
        return 'not ascending: %r, %r' % (sel, unsel)
    if ranges and not sel:
        return 'nothing selected of %r' % ranges
    if len(ranges) > 1:
        cs = clusters(ranges)
        best = max(length(c) for c in cs)
        if sel not in [c for c in cs if length(c) == best]:
            return 'select_index_ranges(%r): selected %r is not a longest cluster of %r' % (ranges, sel, cs)
        if sel != [c for c in cs if length(c) == best][0]:
            return 'selected %r is not the first longest cluster of %r' % (sel, cs)
    return None


def check_merge(x):
    ranges = [tuple(r) for r in x]
    if not ranges:
        return None
    r = tuple(call(R(SM, 'merge_index_ranges'), ranges))
    e = (min(a for a, _ in ranges), max(b for _, b in ranges))
    return None if r == e else 'merge_index_ranges(%r) = %r' % (ranges, r)


def gen(g):
    span = g.choice([20, 60, 200, 1000])
    out = []
    for _ in range(g.size(6, 20)):
        a = g.int(0, span)
        out.append([a, a + g.int(0, g.choice([3, 12, 60]))])
        if g.p(.15):
            out.append(list(out[-1]))
    if g.p(.3):
        out.sort()
    return out


def gen_small(g):
    pts = [0, 1, 5, 11, 12, 16, 30, 31]
    rs = [(p, q) for p in pts for q in pts if p <= q and q - p <= 11]
    for n in (0, 1, 2):
        for c in itertools.product(rs, repeat=n):
            yield [list(r) for r in c]
    for c in itertools.combinations(rs, 3):
        yield [list(r) for r in c]


def subs():
    return [
        Sub('small', gen_small, check, 0, exhaustive=True, weight=3,
            bound='all lists of <= 2 and sets of 3 ranges over 8 positions'),
        Sub('select', gen, check, 6000, 100000, weight=3, bound='up to 40 ranges',
            nontrivial=lambda x: len(x) > 2),
        Sub('merge', gen, check_merge, 2000, 20000, bound='up to 40 ranges'),
    ]
