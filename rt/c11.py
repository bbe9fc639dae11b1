"""C11: fuzzy search"""
import itertools
from common import R, Sub, call

ID = 'C11'
FZ = 'utils.fuzzy'
FILES = ['sciencebeam_trainer_grobid_tools/utils/fuzzy.py',
         'sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py']
WS = ' \t\n'
WORDS = ['alpha', 'beta', 'gamma', 'ab', 'c', 'the', 'quick', 'x', '.', 'ABC', 'Smith', 'J.', '12', 'a,b',
         '(x)', 'figure', 'et', 'al.', 'delta-wave', '\u00e9t\u00e9', '*', 'journal', 'of', 'biology']
SEPS = [' ', ' ', ' ', ' ', '\n', '\t', '  ', ', ', '. ', '-']


def nows(s):
    return ''.join(c for c in s if c not in WS)


def mktext(g, n, hard=20):
    s = ''
    for i in range(g.size(n, hard)):
        s += (g.choice(SEPS) if s else '') + g.str(WORDS, .05)
    if g.p(.1):
        s = g.choice(WS) + s
    if g.p(.1):
        s += g.choice(WS)
    return s


def gen(g):
    needle = mktext(g, g.choice([1, 2, 4, 7]))
    kind = g.choice(['random', 'literal', 'partial', 'split', 'twice'])
    if kind == 'random':
        hay = mktext(g, 12)
    elif kind == 'literal':
        hay = ' '.join([mktext(g, 6), needle, mktext(g, 6)])
    elif kind == 'partial':
        i, j = sorted([g.r.randrange(len(needle) + 1), g.r.randrange(len(needle) + 1)])
        hay = ' '.join([mktext(g, 5), needle[:i] + needle[j:], mktext(g, 5)])
    elif kind == 'split':
        i = g.r.randrange(len(needle) + 1)
        parts = [needle[:i], needle[i:]]
        if g.p(.3):
            parts.reverse()
        hay = ' '.join([mktext(g, 3), parts[0], mktext(g, 4), parts[1], mktext(g, 3)])
    else:
        hay = ' '.join([mktext(g, 3), needle, mktext(g, 3), needle, mktext(g, 3)])
    if g.p(.02):
        pad = ' '.join(g.choice(WORDS) for _ in range(g.r.randrange(150, 320)))
        hay = g.choice([pad + ' ' + hay, hay + ' ' + pad])
    start = 0 if g.p(.5) else g.r.randrange(len(hay) + 2)
    x = {'hay': hay, 'needle': needle, 'threshold': g.choice([.3, .5, .7, .8, .9, 1.0]), 'start': start,
         'max_chunks': g.choice([1, 1, 1, 2, 3]), 'word': g.choice([5, 5, 5, 0, 3, 10])}
    return x


def block_problem(hay, needle, b, word):
    ai, bi, n = b
    if n < 0 or ai < 0 or bi < 0 or ai + n > len(hay) or bi > len(needle):
        return 'block %r out of bounds' % (b,)
    part = hay[ai:ai + n]
    if word:
        return None if needle[bi:bi + n] == part else 'block %r: %r vs %r' % (b, part, needle[bi:bi + n])
    p = nows(part)
    if not nows(needle[bi:]).startswith(p):
        return 'block %r: %r vs %r' % (b, part, needle[bi:bi + n])
    return None


def check(x):
    hay, needle, start = x['hay'], x['needle'], x['start']
    if not hay or not nows(needle):
        return None
    kw = {'exact_word_match_threshold': x['word'], 'max_chunks': x['max_chunks'], 'start_index': start}
    r = call(R(FZ, 'fuzzy_search_chunks'), hay, needle, x['threshold'], **kw)
    word = min(len(hay) - min(start, len(hay)), len(needle)) < x['word']
    ranges = None
    if r:
        ranges = []
        for fm in r.matches:
            if (fm.a, fm.b) != (hay, needle):
                return 'texts of the result are not those searched'
            for b in fm.matching_blocks:
                m = block_problem(hay, needle, tuple(b), word)
                if m:
                    return m
                if b[2] and b[0] < start:
                    return 'block %r before the start position %d' % (b, start)
            a0, a1 = fm.a_index_range()
            ranges.append((a0, a1))
            if a0 < a1 and not start <= a0 < a1 <= len(hay):
                return 'range %r' % ((a0, a1),)
    m = call(R(FZ, 'fuzzy_search'), hay, needle, x['threshold'], **kw)
    if bool(r) != bool(m):
        return 'fuzzy_search %r but chunks %r' % (m, r)
    if m:
        if sorted(map(tuple, m.matching_blocks)) != sorted(tuple(b) for fm in r.matches for b in fm.matching_blocks):
            return 'merged blocks differ'
        if tuple(R(FZ, 'fuzzy_search_index_range')(hay, needle, x['threshold'], **kw)) != tuple(m.a_index_range()):
            return 'index range differs'
        if [tuple(t) for t in R(FZ, 'fuzzy_search_index_range_chunks')(hay, needle, x['threshold'], **kw)] != ranges:
            return 'index range chunks differ'
    elif R(FZ, 'fuzzy_search_index_range')(hay, needle, x['threshold'], **kw) is not None:
        return 'index range for no match'
    return literal(x, m)


def literal(x, m):
    """a pattern that occurs literally, as whole words, in a short text is found"""
    hay, needle, start = x['hay'], x['needle'], x['start']
    sep = R(FZ, 'DEFAULT_WORD_SEPARATORS')
    if len(hay) > 900 or not nows(needle) or needle != needle.strip() or all(c in sep or c == '*' for c in needle):
        return None
    i = hay.find(needle, start)
    while i >= 0:
        j = i + len(needle)
        if (i == 0 or hay[i - 1] in WS) and (j == len(hay) or hay[j] in WS) and (
                i > start or start == 0 or hay[start - 1] in WS):
            if not m:
                return 'literal occurrence at %d not found' % i
            return None
        i = hay.find(needle, i + 1)
    return None


def gen_all(g):
    x = gen(g)
    if len(x['hay']) > 400:
        x['hay'] = x['hay'][:400]
    x['start'] = 0 if g.p(.8) else g.r.randrange(len(x['hay']) + 2)
    return x


def check_all(x):
    hay, needle, start = x['hay'], x['needle'], x['start']
    if not hay or not nows(needle):
        return None
    kw = {'exact_word_match_threshold': x['word'], 'max_chunks': x['max_chunks'], 'start_index': start}
    it = R(FZ, 'iter_fuzzy_search_all')(hay, needle, x['threshold'], **kw)
    fms = list(itertools.islice(it, len(hay) + 2))
    if len(fms) > len(hay) + 1:
        return 'more results than characters'
    got = [tuple(fm.a_index_range()) for fm in fms]
    prev = start
    ends = [e for _, e in got]
    if any(b <= a for a, b in zip(ends, ends[1:])):
        return 'ends not increasing: %r' % got
    for s, e in got:
        if s < e and not (prev <= s and e <= len(hay)):
            return 'range %r after %d' % ((s, e), prev)
        prev = max(prev, e)
    r2 = list(itertools.islice(
        R(FZ, 'iter_fuzzy_search_all_index_ranges')(hay, needle, x['threshold'], **kw), len(hay) + 2))
    if [tuple(t) for t in r2] != got:
        return 'index ranges %r vs %r' % (r2, got)
    if start < len(hay):
        first = R(FZ, 'fuzzy_search')(hay, needle, x['threshold'], **kw)
        if bool(first) != bool(got) or (first and tuple(first.a_index_range()) != got[0]):
            return 'first result differs from a single search'
        if got and ends[-1] < len(hay) and ends[-1] > (ends[-2] if len(ends) > 1 else start):
            kw2 = dict(kw, start_index=ends[-1])
            if R(FZ, 'fuzzy_search')(hay, needle, x['threshold'], **kw2):
                return 'stopped although there is another match after %d' % ends[-1]
    return None


def gen_split(g):
    return [''.join(g.str(list('ab .,-xyz;')) for _ in range(g.size(10, 40))),
            g.choice([' ', '.,', ' .,-:;()[]\n\t', '', 'a']), g.p(.6)]


def gen_split_all(g):
    for n in range(0, 6):
        for t in itertools.product('ab ,', repeat=n):
            for sep in (' ', ' ,', ''):
                for inc in (True, False):
                    yield [''.join(t), sep, inc]


def check_split(x):
    s, sep, inc = x
    r = [tuple(t) for t in call(R(FZ, 'split_with_offset'), s, sep, inc)]
    e = []
    for k, grp in itertools.groupby(enumerate(s), key=lambda ic: ic[1] in sep):
        grp = list(grp)
        if not k:
            e.append((grp[0][0], ''.join(c for _, c in grp)))
        elif inc:
            e += grp
    return None if r == e else 'split_with_offset(%r, %r, %r) = %r, expected %r' % (s, sep, inc, r, e)


def gen_view(g):
    s = ''.join(g.str(list('ab .,*J ')) for _ in range(g.size(10, 40)))
    return [s, g.choice(['default', 'none', 'space', 'odd', 'all', 'never'])]


def spec_default_junk(s, i):
    if s[i] in '* ':
        return True
    before = s[:i].rstrip(' ')
    last = before[-1] if before else ''
    return (s[i] == ',' and last == '.') or (s[i] == '.' and last.isalpha())


def check_view(x):
    s, k = x
    f = R(FZ, 'get_no_junk_string_view')
    fns = {'space': lambda t, i: t[i] in WS, 'odd': lambda t, i: i % 2 == 1, 'all': lambda t, i: True,
           'never': lambda t, i: False}
    if k == 'default':
        v, jf = call(f, s), spec_default_junk
    elif k == 'none':
        v, jf = call(f, s, None), (lambda t, i: False)
    else:
        v, jf = call(f, s, fns[k]), fns[k]
    keep = [i for i in range(len(s)) if not jf(s, i)]
    if str(v) != ''.join(s[i] for i in keep):
        return 'view of %r is %r' % (s, str(v))
    if list(v.original_index_at) != keep:
        return 'positions %r, expected %r' % (v.original_index_at, keep)
    for i in range(len(s)):
        if bool(R(FZ, 'space_is_junk')(s, i)) != (s[i] in WS):
            return 'space_is_junk'
        if bool(R(FZ, 'default_is_junk')(s, i)) != spec_default_junk(s, i):
            return 'default_is_junk(%r, %d)' % (s, i)
    return None


def gen_off(g):
    blocks = [[g.int(0, 9), g.int(0, 9), g.int(0, 4)] for _ in range(g.size(5))]
    return [blocks, g.int(-3, 6) if g.p(.7) else 0, g.int(-3, 6) if g.p(.7) else 0]


def check_off(x):
    bl, a, b = x
    r = call(R(FZ, 'get_offset_matching_blocks'), [tuple(t) for t in bl], a_offset=a, b_offset=b)
    e = [(p + a, q + b, n) for p, q, n in bl]
    return None if [tuple(t) for t in r] == e else 'offset %r: %r' % (x, r)


def gen_ws(g):
    return [mktext(g, 6), mktext(g, 4)]


def check_ws(x):
    a, b = x
    sep = R(FZ, 'DEFAULT_WORD_SEPARATORS')
    blocks = [tuple(t) for t in call(R(FZ, 'WordSequenceMatcher'), None, a, b).get_matching_blocks()]
    pa = pb = 0
    for ai, bi, n in blocks:
        if n <= 0 or a[ai:ai + n] != b[bi:bi + n] or ai + n > len(a) or bi + n > len(b):
            return 'block %r' % ((ai, bi, n),)
        if ai < pa or bi < pb:
            return 'blocks not increasing %r' % blocks
        for s, i in ((a, ai), (b, bi)):
            for k in (i, i + n):
                if 0 < k < len(s) and s[k - 1] not in sep and s[k] not in sep:
                    return 'block %r does not end at word borders' % ((ai, bi, n),)
        pa, pb = ai + n, bi + n
    return None


def gen_strided(g):
    x = gen(g)
    hay, needle = nows(x['hay'])[:200], nows(x['needle'])[:60]
    ml = max(1, g.choice([len(needle) * 2, len(needle) * 4, len(hay)]))
    return {'hay': hay, 'needle': needle, 'max_length': ml,
            'stride': max(1, g.choice([ml, ml // 2, ml - len(needle)])), 'threshold': x['threshold'],
            'max_chunks': x['max_chunks'], 'start': 0 if g.p(.7) else g.r.randrange(len(hay) + 1)}


def check_strided(x):
    if not x['hay'] or not x['needle']:
        return None
    r = call(R(FZ, 'get_str_left_strided_matching_blocks_chunks'), x['hay'], x['needle'],
             max_length=x['max_length'], stride=x['stride'], threshold=x['threshold'],
             isjunk=R(FZ, 'default_is_junk'), max_chunks=x['max_chunks'], start_index=x['start'])
    if len(r) > max(1, x['max_chunks']):
        return 'more chunks than allowed'
    for chunk in r:
        for b in chunk:
            ai, bi, n = b
            if n and (ai < 0 or x['hay'][ai:ai + n] != x['needle'][bi:bi + n] or ai + n > len(x['hay'])
                      or bi < 0 or bi + n > len(x['needle'])):
                return 'block %r' % (b,)
            if x['max_chunks'] <= 1 and n and ai < x['start']:
                return 'block %r before the start' % (b,)
    return None


def subs():
    return [
        Sub('search', gen, check, 400, 8000, weight=4, bound='texts of up to ~20 words (some longer), patterns of up to 7 words',
            nontrivial=lambda x: len(x['needle']) > 1),
        Sub('search_all', gen_all, check_all, 200, 4000, weight=3, bound='texts of up to 400 characters'),
        Sub('strided', gen_strided, check_strided, 200, 4000, weight=2, bound='texts of up to 200 characters'),
        Sub('split_exhaustive', gen_split_all, check_split, 0, exhaustive=True, bound='all texts of up to 5 of 4 characters'),
        Sub('split', gen_split, check_split, 2000, 40000, bound='texts of up to 40 characters'),
        Sub('view', gen_view, check_view, 2000, 40000, bound='texts of up to 40 characters'),
        Sub('offset', gen_off, check_off, 1000, 10000, bound='up to 5 blocks'),
        Sub('word_matcher', gen_ws, check_ws, 1500, 20000, bound='up to 20 words'),
    ]
