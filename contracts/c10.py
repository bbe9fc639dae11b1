"""C10: matches of two texts"""
from contracts.lib import contract, lemma, implies, invariant
from sciencebeam_trainer_grobid_tools.core.annotation.fuzzy_match import FuzzyMatchResult, invert_index_ranges

CLASSES = {
    'FuzzyMatch': {'path': 'core.annotation.fuzzy_match:FuzzyMatchResult', 'noalloc': True,
                   'internal': ['_match_count', '_a_index_range', '_b_index_range'],
                   'fields': {'a': 'str', 'b': 'str', 'matching_blocks': 'list[tuple[int,int,int]]',
                              'non_empty_matching_blocks': 'list[tuple[int,int,int]]', '_match_count': 'opt[int]',
                              '_a_index_range': 'opt[tuple[int,int]]', '_b_index_range': 'opt[tuple[int,int]]',
                              'isjunk': 'fn[str,int,bool]'}},
}
MOD = 'core.annotation.fuzzy_match'


def total(blocks):
    return sum(block[2] for block in blocks)


def span(blocks, k):
    """from the first to after the last position, of text k"""
    if not blocks:
        return (0, 0)
    return (blocks[0][k], blocks[-1][k] + blocks[-1][2])


def valid(self):
    """what has been computed before is right"""
    return (
        (self._match_count is None or self._match_count == total(self.matching_blocks))
        and (self._a_index_range is None or self._a_index_range == span(self.non_empty_matching_blocks, 0))
        and (self._b_index_range is None or self._b_index_range == span(self.non_empty_matching_blocks, 1))
    )


def valid_split(self, index, pre, post):
    return valid(self)


@contract('core.annotation.fuzzy_match', 'len_index_range', 'C10', index_range='tuple[int,int]')
def length_spec(index_range):
    start, end = index_range
    return end - start


@contract('core.annotation.fuzzy_match', 'invert_index_ranges', 'C10',
          range_list='list[tuple[int,int]]', start='int', end='int')
def invert_spec(range_list, start, end):
    """the gaps between the ranges, within the bounds"""
    gaps = []
    position = start
    for r in range_list:
        if position >= end:
            return gaps
        if r[0] > position:
            gaps.append((position, min(r[0], end)))
        position = max(r[1], position)
    if position < end:
        gaps.append((position, end))
    return gaps


@contract('core.annotation.fuzzy_match', 'remove_junk', 'C10', s='str', isjunk='fn[str,int,bool]')
def remove_junk_spec(s, isjunk):
    """the pieces between junk"""
    parts = None
    start = 0
    for i in range(len(s)):
        if isjunk(s, i):
            if parts is None:
                parts = []
            if i > start:
                parts.append(s[start:i])
            start = i + 1
    if parts is None:
        return s
    if start < len(s):
        parts.append(s[start:])
    return ''.join(parts)


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.match_count', 'C10', self='FuzzyMatch',
          requires='valid', ensures='valid')
def match_count_spec(self):
    return total(self.matching_blocks)


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.a_index_range', 'C10', self='FuzzyMatch',
          requires='valid', ensures='valid')
def a_index_range_spec(self):
    return span(self.non_empty_matching_blocks, 0)


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.b_index_range', 'C10', self='FuzzyMatch',
          requires='valid', ensures='valid')
def b_index_range_spec(self):
    return span(self.non_empty_matching_blocks, 1)


def ratio(count, size):
    return 0.0 if size == 0 else count / size


def valid_size(self, size):
    return valid(self)


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.ratio_to', 'C10', self='FuzzyMatch', size='int',
          requires='valid_size')
def ratio_to_spec(self, size):
    return ratio(total(self.matching_blocks), size)


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.count_junk_between', 'C10', self='FuzzyMatch', s='str',
          index_range='tuple[int,int]')
def count_junk_spec(self, s, index_range):
    """the number of positions with junk"""
    n = 0
    for i in range(index_range[0], index_range[1]):
        if self.isjunk(s, i):
            n += 1
    return n


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.count_non_matching_junk', 'C10', self='FuzzyMatch',
          s='str', s_matching_blocks='list[tuple[int,int]]', index_range='opt[tuple[int,int]]')
def count_non_matching_junk_spec(self, s, s_matching_blocks, index_range):
    """junk outside of the matching blocks"""
    if index_range is None:
        index_range = (0, len(s))
    n = 0
    for gap in invert_index_ranges(s_matching_blocks, index_range[0], index_range[1]):
        n += self.count_junk_between(s, gap)
    return n


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.a_non_matching_junk_count', 'C10', self='FuzzyMatch',
          index_range='opt[tuple[int,int]]')
def a_junk_spec(self, index_range):
    return self.count_non_matching_junk(
        self.a, [(x[0], x[0] + x[2]) for x in self.non_empty_matching_blocks], index_range)


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.b_non_matching_junk_count', 'C10', self='FuzzyMatch',
          index_range='opt[tuple[int,int]]')
def b_junk_spec(self, index_range):
    return self.count_non_matching_junk(
        self.b, [(x[1], x[1] + x[2]) for x in self.non_empty_matching_blocks], index_range)


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.b_ratio', 'C10', self='FuzzyMatch', requires='valid')
def b_ratio_spec(self):
    return ratio(total(self.matching_blocks), len(self.b) - b_junk_spec(self, None))


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.a_ratio', 'C10', self='FuzzyMatch', requires='valid')
def a_ratio_spec(self):
    return ratio(total(self.matching_blocks), len(self.a) - a_junk_spec(self, None))


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.ratio', 'C10', self='FuzzyMatch', requires='valid')
def ratio_spec(self):
    """matched characters by the length of the longer part matched without junk"""
    a_range = span(self.non_empty_matching_blocks, 0)
    b_range = span(self.non_empty_matching_blocks, 1)
    a_length = a_range[1] - a_range[0]
    b_length = b_range[1] - b_range[0]
    if a_length >= b_length:
        return ratio(total(self.matching_blocks), a_length - a_junk_spec(self, a_range))
    return ratio(total(self.matching_blocks), b_length - b_junk_spec(self, b_range))


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.b_gap_ratio', 'C10', self='FuzzyMatch', requires='valid')
def base_b_gap_ratio_spec(self):
    a_range = span(self.non_empty_matching_blocks, 0)
    count = total(self.matching_blocks)
    a_junk = a_junk_spec(self, a_range)
    b_junk = b_junk_spec(self, None)
    return ratio(count, len(self.b) + (a_range[1] - a_range[0] - count) - a_junk - b_junk)


def before(self, index, k):
    """the part of the blocks before the index of text k"""
    return [(x[0], x[1], min(x[2], index - x[k])) for x in self.non_empty_matching_blocks if x[k] < index]


def after(self, index, k):
    """the part of the blocks from the index of text k, where text k starts now"""
    parts = []
    for x in self.non_empty_matching_blocks:
        if x[k] + x[2] > index:
            skip = max(0, index - x[k])
            start = max(0, x[k] - index)
            rest = x[2] if x[k] >= index else x[2] + x[k] - index
            parts.append((start, x[1] + skip, rest) if k == 0 else (x[0] + skip, start, rest))
    return parts


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.a_split_at', 'C10', self='FuzzyMatch', index='int',
          a_pre_split='opt[str]', a_post_split='opt[str]', requires='valid_split')
def a_split_spec(self, index, a_pre_split, a_post_split):
    pre = self.a[:index] if a_pre_split is None else a_pre_split
    post = self.a[index:] if a_post_split is None else a_post_split
    blocks = self.non_empty_matching_blocks
    if not blocks or blocks[-1][0] + blocks[-1][2] <= index:
        return FuzzyMatchResult(pre, self.b, blocks), FuzzyMatchResult(post, self.b, [])
    return FuzzyMatchResult(pre, self.b, before(self, index, 0)), FuzzyMatchResult(post, self.b, after(self, index, 0))


@contract('core.annotation.fuzzy_match', 'FuzzyMatchResult.b_split_at', 'C10', self='FuzzyMatch', index='int',
          b_pre_split='opt[str]', b_post_split='opt[str]', requires='valid_split')
def b_split_spec(self, index, b_pre_split, b_post_split):
    pre = self.b[:index] if b_pre_split is None else b_pre_split
    post = self.b[index:] if b_post_split is None else b_post_split
    blocks = self.non_empty_matching_blocks
    if not blocks or blocks[-1][1] + blocks[-1][2] <= index:
        return FuzzyMatchResult(self.a, pre, blocks), FuzzyMatchResult(self.a, post, [])
    return FuzzyMatchResult(self.a, pre, before(self, index, 1)), FuzzyMatchResult(self.a, post, after(self, index, 1))
