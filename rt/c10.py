"""C10: fuzzy match results"""
import itertools
from common import R, Sub, call

ID = 'C10'
FM = 'core.annotation.fuzzy_match'
FILES = ['sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py']


def pairs(blocks):
    return [(a + k, b + k) for a, b, n in blocks for k in range(n)]


def gen(g):
    """two texts with increasing blocks of equal characters, some blocks empty"""
    alpha = 'ab. ,*xAB'
    a = b = ''
    blocks = []
    for _ in range(g.size(5, 10)):
        a += ''.join(g.choice(alpha) for _ in range(g.r.randrange(3)))
        b += ''.join(g.choice(alpha) for _ in range(g.r.randrange(3)))
        n = g.choice([0, 1, 2, 3, 5]) if g.p(.9) else g.size(9)
        t = ''.join(g.choice(alpha) for _ in range(n))
        blocks.append([len(a), len(b), n])
        a += t
        b += t
    a += ''.join(g.choice(alpha) for _ in range(g.r.randrange(3)))
    b += ''.join(g.choice(alpha) for _ in range(g.r.randrange(3)))
    if g.p(.5):
        blocks.append([len(a), len(b), 0])
    return {'a': a, 'b': b, 'blocks': blocks, 'junk': g.choice([None, None, 'dot', 'none', 'all'])}


JUNK = {None: None, 'dot': lambda s, i: s[i] == '.', 'none': lambda s, i: False,
        'all': lambda s, i: True}


def default_junk(s, i):
    return (i > 0 and s[i - 1] == '.' and s[i] in ' ,') or (
        i > 0 and s[i - 1].isalpha() and s[i] == '.') or (
            i > 0 and s[i - 1] == s[i]) or s[i] == '*'


def valid(x):
    pa = pb = 0
    for a, b, n in x['blocks']:
        if a < pa or b < pb or n < 0 or a + n > len(x['a']) or b + n > len(x['b']):
            return False
        if x['a'][a:a + n] != x['b'][b:b + n]:
            return False
        pa, pb = a + n, b + n
    return True


def check(x):
    if not valid(x):
        return None
    cls = R(FM, 'FuzzyMatchResult')
    a, b = x['a'], x['b']
    blocks = [tuple(t) for t in x['blocks']]
    jf = JUNK[x['junk']]
    fm = call(cls, a, b, list(blocks), jf) if jf else call(cls, a, b, list(blocks))
    jf = jf or default_junk
    ps = pairs(blocks)
    cnt = len(ps)
    A, B = {p for p, _ in ps}, {q for _, q in ps}
    if bool(fm.has_match()) != bool(ps) or fm.match_count() != cnt:
        return 'has_match %r match_count %r, expected %d' % (fm.has_match(), fm.match_count(), cnt)
    if fm.match_count() != cnt:
        return 'second match_count differs'
    ar = (min(A), max(A) + 1) if A else (0, 0)
    br = (min(B), max(B) + 1) if B else (0, 0)
    for _ in range(2):
        if tuple(fm.a_index_range()) != ar or tuple(fm.b_index_range()) != br:
            return 'index ranges %r %r, expected %r %r' % (fm.a_index_range(), fm.b_index_range(), ar, br)
    if A and (fm.a_start_index(), fm.a_end_index(), fm.b_start_index(), fm.b_end_index()) != ar + br:
        return 'start / end index'
    for got, side in ((fm.a_matching_blocks(), A), (fm.b_matching_blocks(), B)):
        got = [tuple(t) for t in got]
        if sorted(k for p, q in got for k in range(p, q)) != sorted(side):
            return 'matching blocks %r' % got

    def junk(s, rng, excl=()):
        return sum(1 for i in range(*rng) if i not in excl and jf(s, i))
    vals = {
        'a_junk_match_count': junk(a, ar), 'b_junk_match_count': junk(b, br),
        'a_junk_count': junk(a, (0, len(a))), 'b_junk_count': junk(b, (0, len(b))),
        'a_non_matching_junk_count': junk(a, (0, len(a)), A),
        'b_non_matching_junk_count': junk(b, (0, len(b)), B)}
    for k, v in vals.items():
        if hasattr(fm, k) and getattr(fm, k)() != v:
            return '%s() = %r, expected %r' % (k, getattr(fm, k)(), v)

    def q(size):
        return cnt / size if size else 0.0
    la, lb = ar[1] - ar[0], br[1] - br[0]
    rat = q(la - junk(a, ar, A)) if la >= lb else q(lb - junk(b, br, B))
    ratios = {
        'ratio': rat, 'a_ratio': q(len(a) - junk(a, (0, len(a)), A)),
        'b_ratio': q(len(b) - junk(b, (0, len(b)), B)),
        'b_gap_ratio': q(len(b) + (la - cnt) - junk(a, ar, A) - junk(b, (0, len(b)), B))}
    for k, v in ratios.items():
        if not hasattr(fm, k):
            continue
        r = getattr(fm, k)()
        if abs(r - v) > 1e-9:
            return '%s() = %r, expected %r' % (k, r, v)
        if not -1e-9 <= r <= 1 + 1e-9:
            return '%s() = %r out of bounds' % (k, r)
    # splitting
    for side, n in (('a', len(a)), ('b', len(b))):
        if not hasattr(fm, side + '_split_at'):
            continue
        for i in range(n + 1):
            f = getattr(fm, side + '_split_at')
            pre, post = call(f, i)
            pp, qq = pairs(pre.matching_blocks), pairs(post.matching_blocks)
            off = (i, 0) if side == 'a' else (0, i)
            back = pp + [(p + off[0], r + off[1]) for p, r in qq]
            if back != ps:
                return '%s_split_at(%d): blocks %r + %r do not give %r' % (
                    side, i, pre.matching_blocks, post.matching_blocks, blocks)
            k = 0 if side == 'a' else 1
            if any(t[k] >= i for t in pp) or any(t[k] < 0 for t in qq):
                return '%s_split_at(%d): match on the wrong side' % (side, i)
            if any(t[2] < 0 or t[0] < 0 or t[1] < 0 for t in list(pre.matching_blocks) + list(post.matching_blocks)):
                return '%s_split_at(%d): negative block' % (side, i)
            exp = ((a[:i], b, a[i:], b) if side == 'a' else (a, b[:i], a, b[i:]))
            if (pre.a, pre.b, post.a, post.b) != exp:
                return '%s_split_at(%d): texts' % (side, i)
            pre2, post2 = call(f, i, 'PRE', 'POST')
            if pairs(pre2.matching_blocks) != pp or pairs(post2.matching_blocks) != qq:
                return '%s_split_at(%d) with given texts differs' % (side, i)
            got = (getattr(pre2, side), getattr(post2, side))
            if got != ('PRE', 'POST'):
                return '%s_split_at(%d): given texts not used' % (side, i)
    return None


def gen_inv(g):
    pos, ranges = g.r.randrange(-2, 4), []
    for _ in range(g.size(5, 12)):
        s = pos + g.r.randrange(0, 4)
        e = s + g.r.randrange(0, 4)
        ranges.append([s, e])
        pos = e if g.p(.8) else g.r.randrange(s, e + 1)
    a = g.r.randrange(-1, 12)
    return [ranges, a, a + g.r.randrange(-1, 14)]


def gen_inv_all(g):
    pts = range(0, 5)
    rs = [(p, q) for p in pts for q in pts if p <= q]
    for start in range(0, 4):
        for end in range(start, 6):
            yield [[], start, end]
            for r1 in rs:
                yield [[list(r1)], start, end]
                for r2 in rs:
                    if r2[0] >= r1[0]:
                        yield [[list(r1), list(r2)], start, end]


def check_inv(x):
    ranges, start, end = x
    if any(p > q for p, q in ranges) or any(r[0] > s[0] for r, s in zip(ranges, ranges[1:])):
        return None
    f = R(FM, 'invert_index_ranges')
    r = [tuple(t) for t in call(f, [tuple(t) for t in ranges], start, end)]
    got = [k for p, q in r for k in range(p, q)]
    covered = {k for p, q in ranges for k in range(p, q)}
    e = [k for k in range(start, end) if k not in covered]
    if got != e:
        return 'invert_index_ranges(%r, %r, %r) = %r' % (ranges, start, end, r)
    if any(p >= q for p, q in r):
        return 'empty range in %r' % r
    return None


def gen_junk(g):
    return [''.join(g.str(list('ab. ,*x.A1')) for _ in range(g.size(10, 40))),
            g.choice([None, 'dot', 'none', 'all', 'odd', 'space'])]


def check_junk(x):
    s, k = x
    f = R(FM, 'remove_junk')
    fns = dict(JUNK, odd=lambda s, i: i % 2 == 1, space=lambda s, i: s[i].isspace())
    jf = fns.get(k)
    r = call(f, s) if jf is None else call(f, s, jf)
    jf = jf or default_junk
    e = ''.join(c for i, c in enumerate(s) if not jf(s, i))
    return None if r == e else 'remove_junk(%r, %r) = %r, expected %r' % (s, k, r, e)


def gen_match(g):
    w = ['alpha', 'beta', 'ab', 'c', 'the quick', 'x', '.', 'ABC']
    mk = lambda: ' '.join(g.choice(w) for _ in range(g.size(6)))  # noqa
    a = mk()
    return [a, g.choice([mk(), a, a[:len(a) // 2], a.replace('a', 'A')])]


def check_match(x):
    """results of the matcher are valid matches"""
    a, b = x
    if not a or not b:
        return None
    fm = call(R(FM, 'fuzzy_match'), a, b)
    blocks = [list(t) for t in fm.matching_blocks]
    if (fm.a, fm.b) != (a, b):
        return 'texts of the match differ'
    y = {'a': a, 'b': b, 'blocks': blocks, 'junk': None}
    if not valid(y):
        return None  # the matcher is a dependency (sciencebeam_alignment)
    return check(y)


def subs():
    return [
        Sub('result', gen, check, 1500, 30000, weight=4, bound='texts of up to ~60 characters, all split positions',
            nontrivial=lambda x: any(t[2] for t in x['blocks'])),
        Sub('invert_all', gen_inv_all, check_inv, 0, exhaustive=True, weight=2,
            bound='up to two ranges within 0..4, all bounds within 0..5'),
        Sub('invert', gen_inv, check_inv, 4000, 60000, bound='up to 12 ranges'),
        Sub('remove_junk', gen_junk, check_junk, 3000, 40000, bound='texts of up to 40 characters'),
        Sub('match', gen_match, check_match, 200, 3000, weight=2, bound='texts of up to 6 words'),
    ]
