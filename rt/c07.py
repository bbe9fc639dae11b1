"""C07: line extension"""
import itertools
from common import R, Sub, call
import tagspec as S

ID = 'C07'
SM = 'annotation.simple_matching_annotator'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py',
         'sciencebeam_trainer_grobid_tools/utils/misc.py']


def spec(tags, ext, merge, d_ext, d_merge):
    rs = [list(r) for r in S.runs(tags)]
    for r in rs:
        v = S.value(r[0])
        if r[0] and merge.get(v, d_merge) and S.prefix(r[0]):
            r[1:] = ['i-' + v] * (len(r) - 1)
    out = []
    for k, r in enumerate(rs):
        prev = rs[k - 1] if k else None
        nxt = rs[k + 1] if k + 1 < len(rs) else None
        fill = None
        if not r[0]:
            if prev and nxt:
                v = S.value(prev[0])
                if v == S.value(nxt[0]) and merge.get(v, d_merge):
                    fill = [S.inside(prev[-1])] * len(r)
                    nxt[0] = S.inside(nxt[0])
            elif prev:
                if ext.get(S.value(prev[0]), d_ext) and len(prev) > len(r):
                    fill = [S.inside(prev[-1])] * len(r)
            elif nxt:
                if ext.get(S.value(nxt[0]), d_ext) and len(nxt) > len(r):
                    if S.prefix(nxt[0]):
                        fill = ['b-' + S.value(nxt[0])] + ['i-' + S.value(nxt[0])] * (len(r) - 1)
                    else:
                        fill = [nxt[0]] * len(r)
                    nxt[0] = S.inside(nxt[0])
        out.extend(fill if fill is not None else r)
    return out


def valid(tags):
    return all(t is None or (t and S.value(t)) for t in tags)


def run(x):
    tags, ext, merge, d_ext, d_merge = x
    if not valid(tags):
        return None
    f = R(SM, 'get_extended_line_token_tags')
    arg, ext0, merge0 = list(tags), dict(ext), dict(merge)
    r = list(call(f, arg, extend_to_line_enabled_map=ext, merge_enabled_map=merge,
                  default_extend_to_line_enabled=d_ext, default_merge_enabled=d_merge))
    e = spec(tags, ext, merge, d_ext, d_merge)
    if r != e:
        return 'get_extended_line_token_tags(%r, ext=%r/%r, merge=%r/%r) = %r, expected %r' % (
            tags, ext, d_ext, merge, d_merge, r, e)
    if len(r) != len(tags):
        return 'length'
    for a, b in zip(tags, r):
        if a and S.value(a) != S.value(b):
            return 'value changed'
    if arg != list(tags) or ext != ext0 or merge != merge0:
        return 'arguments modified'
    return None


def gen_small(g):
    alpha = [None, 'b-t', 'i-t', 'b-u', 't']
    for n in range(0, 6):
        for tags in itertools.product(alpha, repeat=n):
            yield [list(tags), {}, {}, True, True]
    alpha = [None, 'b-t', 'i-u']
    for n in range(1, 5):
        for tags in itertools.product(alpha, repeat=n):
            for e in ({}, {'t': False}, {'t': True}):
                for m in ({}, {'t': False}, {'t': True}):
                    for de in (True, False):
                        for dm in (True, False):
                            yield [list(tags), e, m, de, dm]


def gen(g):
    vals = g.r.sample(S.VALUES, g.r.randrange(1, 4))
    tags = []
    for _ in range(g.size(5, 12)):
        n = g.r.randrange(1, 4) if g.p(.8) else g.size(8, 30)
        if g.p(.4):
            tags += [None] * n
        else:
            v = g.str(vals)
            tags += [g.choice(['i-', 'i-', 'b-', '']) + v if g.p(.5) else 'i-' + v for _ in range(n)]
    mk = lambda: {v: g.p(.5) for v in vals if g.p(.5)}  # noqa
    return [tags, mk(), mk(), g.p(.5), g.p(.6)]


def check_defaults(x):
    """without options everything is enabled"""
    tags = x[0]
    if not valid(tags):
        return None
    f = R(SM, 'get_extended_line_token_tags')
    r = list(call(f, list(tags)))
    de = R(SM, 'DEFAULT_EXTEND_TO_LINE_ENABLED')
    dm = R(SM, 'DEFAULT_MERGE_ENABLED')
    e = spec(tags, {}, {}, de, dm)
    return None if r == e else 'defaults: %r -> %r, expected %r' % (tags, r, e)


def subs():
    return [
        Sub('small', gen_small, run, 0, exhaustive=True, weight=2,
            bound='all lines of <= 5 tokens over 5 tags; all of <= 4 over 3 tags and all options'),
        Sub('random', gen, run, 6000, 200000, weight=3, bound='lines of up to ~12 runs',
            nontrivial=lambda x: any(x[0]) and None in x[0]),
        Sub('defaults', gen, check_defaults, 1000, 10000),
    ]
