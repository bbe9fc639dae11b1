"""C11: fuzzy search"""
from difflib import SequenceMatcher
from contracts.lib import contract, lemma, implies, invariant
from contracts.c10 import valid, total, span, ratio, a_junk_spec, b_junk_spec
from sciencebeam_alignment.align import LocalSequenceMatcher
from sciencebeam_trainer_grobid_tools.core.annotation.fuzzy_match import DEFAULT_SCORING
from sciencebeam_trainer_grobid_tools.utils.fuzzy import (
    ChunkedFuzzyMatchResult, FuzzyMatchResult, split_with_offset, get_matching_blocks_b_gap_ratio,
    get_first_chunk_matching_blocks, get_last_chunk_matching_blocks, get_str_matching_blocks_using_sequence_matcher,
    get_str_left_strided_matching_blocks_chunks, get_str_auto_left_strided_matching_blocks_chunks,
    get_default_max_length_and_stride, get_offset_matching_blocks, get_no_junk_string_view, StringView, space_is_junk, default_is_junk,
    WordSequenceMatcher, DEFAULT_WORD_SEPARATORS, fuzzy_search_chunks, fuzzy_search,
    get_merged_matching_blocks_chunks
)

CLASSES = {
    'WordMatcher': {'path': 'utils.fuzzy:WordSequenceMatcher', 'noalloc': True,
                    'fields': {'a': 'str', 'b': 'str', 'sep': 'str'}},
    'LibMatcher': {'fields': {}},
    'Scoring': {'fields': {}},
    'View': {'path': 'utils.fuzzy:StringView', 'noalloc': True,
             'fields': {'original_string': 'str', 'in_view': 'list[bool]', 'string_view': 'str',
                        'original_index_at': 'list[int]'}},
    'FuzzyMatch2': {'path': 'utils.fuzzy:FuzzyMatchResult', 'noalloc': True,
                    'internal': ['_match_count', '_a_index_range', '_b_index_range'],
                    'fields': {'a': 'str', 'b': 'str', 'matching_blocks': 'list[tuple[int,int,int]]',
                               'non_empty_matching_blocks': 'list[tuple[int,int,int]]', '_match_count': 'opt[int]',
                               '_a_index_range': 'opt[tuple[int,int]]', '_b_index_range': 'opt[tuple[int,int]]',
                               'isjunk': 'fn[str,int,bool]'}},
}
EXTERNS = {
    'difflib.SequenceMatcher': {'args': ['none', 'list[str]', 'list[str]', 'bool'],
                                'names': ['isjunk', 'a', 'b', 'autojunk'], 'ret': 'LibMatcher'},
    'sciencebeam_alignment.align.SimpleScoring': {'args': ['int', 'int', 'int'],
                                                  'names': ['match_score', 'mismatch_score', 'gap_score'],
                                                  'ret': 'Scoring'},
    'sciencebeam_alignment.align.LocalSequenceMatcher': {'args': ['str', 'str', 'Scoring'],
                                                         'names': ['a', 'b', 'scoring'], 'ret': 'LibMatcher'},
    'LibMatcher.get_matching_blocks': {'args': ['LibMatcher'], 'ret': 'list[tuple[int,int,int]]'},
}


@contract('utils.fuzzy', 'space_is_junk', 'C11', s='str', i='int')
def space_is_junk_spec(s, i):
    return s[i] == ' ' or s[i] == '\t' or s[i] == '\n'


@contract('utils.fuzzy', 'default_is_junk', 'C11', s='str', i='int', opaque=True, returns='bool',
          may_raise='IndexError')
def default_is_junk_spec(s, i):
    """spaces, stars, commas after a dot and dots after a letter, with any spaces in between"""
    ch = s[i]
    if ch == '*' or ch == ' ':
        return True
    k = i - 1
    while k >= 0 and s[k] == ' ':
        k -= 1
    before = s[k] if k >= 0 else ''
    return (ch == ',' and before == '.') or (ch == '.' and before.isalpha())


@contract('utils.fuzzy', 'get_merged_matching_blocks_chunks', 'C11',
          matching_blocks_chunks='list[list[tuple[int,int,int]]]')
def merged_chunks_spec(matching_blocks_chunks):
    result = []
    for chunk in matching_blocks_chunks:
        for block in chunk:
            result.append(block)
    return result


@contract('utils.fuzzy', 'split_with_offset', 'C11', s='str', sep='str', include_separators='bool', opaque=True,
          returns='list[tuple[int,str]]')
def split_with_offset_spec(s, sep, include_separators):
    """words and separators with the position they start at"""
    result = []
    start = 0
    for i, ch in enumerate(s):
        if ch in sep:
            if i > start:
                result.append((start, s[start:i]))
            if include_separators:
                result.append((i, ch))
            start = i + 1
    if start < len(s):
        result.append((start, s[start:]))
    return result


@contract('utils.fuzzy', 'get_matching_blocks_size', 'C11', matching_blocks='list[tuple[int,int,int]]')
def blocks_size_spec(matching_blocks):
    return total(matching_blocks)


@contract('utils.fuzzy', 'get_matching_blocks_end_offset', 'C11', matching_blocks='list[tuple[int,int,int]]',
          seq_index='int')
def end_offset_spec(matching_blocks, seq_index):
    if not matching_blocks or matching_blocks[-1][2] == 0:
        return 0
    return matching_blocks[-1][seq_index] + matching_blocks[-1][2]


@contract('utils.fuzzy', 'get_matching_blocks_start_offset', 'C11', matching_blocks='list[tuple[int,int,int]]',
          seq_index='int')
def start_offset_spec(matching_blocks, seq_index):
    if not matching_blocks or matching_blocks[0][2] == 0:
        return None
    return matching_blocks[0][seq_index]


@contract('utils.fuzzy', 'get_offset_matching_blocks', 'C11', matching_blocks='list[tuple[int,int,int]]',
          a_offset='int', b_offset='int', opaque=True, returns='list[tuple[int,int,int]]')
def offset_blocks_spec(matching_blocks, a_offset, b_offset):
    if a_offset == 0 and b_offset == 0:
        return matching_blocks
    return [(x[0] + a_offset, x[1] + b_offset, x[2]) for x in matching_blocks]


@contract('utils.fuzzy', 'FuzzyMatchResult.b_gap_ratio', 'C11 C10', self='FuzzyMatch2', requires='valid', opaque=True,
          returns='real', reads='FuzzyMatch2.*')
def b_gap_ratio_spec(self):
    """matched characters by the length of b and the gaps in a, both without junk"""
    a_range = span(self.non_empty_matching_blocks, 0)
    count = total(self.matching_blocks)
    a_junk = a_junk_spec(self, a_range)
    b_junk = b_junk_spec(self, None)
    gaps = max(0, a_range[1] - a_range[0] - count)
    return ratio(count, len(self.b) + gaps - a_junk - b_junk)


@contract('utils.fuzzy', 'get_matching_blocks_b_gap_ratio', 'C11', haystack='str', needle='str',
          matching_blocks='list[tuple[int,int,int]]', isjunk='fn[str,int,bool]', opaque=True, returns='real')
def blocks_ratio_spec(haystack, needle, matching_blocks, isjunk):
    return FuzzyMatchResult(haystack, needle, matching_blocks, isjunk).b_gap_ratio()


@contract('utils.fuzzy', 'get_first_chunk_matching_blocks', 'C11', haystack='str', needle='str',
          matching_blocks='list[tuple[int,int,int]]', threshold='real', isjunk='fn[str,int,bool]', opaque=True,
          returns='list[tuple[int,int,int]]')
def first_chunk_spec(haystack, needle, matching_blocks, threshold, isjunk):
    """the most blocks from the start, but not all, that match the start of the needle well enough"""
    n = len(matching_blocks) - 1
    while n:
        blocks = matching_blocks[:n]
        end = end_offset_spec(blocks, 1)
        if not end:
            break
        if FuzzyMatchResult(haystack, needle[:end], blocks, isjunk).b_gap_ratio() >= threshold:
            return blocks
        n -= 1
    return []


@contract('utils.fuzzy', 'get_last_chunk_matching_blocks', 'C11', haystack='str', needle='str',
          matching_blocks='list[tuple[int,int,int]]', threshold='real', isjunk='fn[str,int,bool]', opaque=True,
          returns='list[tuple[int,int,int]]')
def last_chunk_spec(haystack, needle, matching_blocks, threshold, isjunk):
    """the most blocks up to the end that match the end of the needle well enough"""
    first = 0
    while first < len(matching_blocks):
        blocks = matching_blocks[first:]
        start = start_offset_spec(blocks, 1)
        if start is None:
            break
        moved = get_offset_matching_blocks(blocks, 0, 0 - start)
        if FuzzyMatchResult(haystack, needle[start:], moved, isjunk).b_gap_ratio() >= threshold:
            return blocks
        first += 1
    return []


@contract('utils.fuzzy', 'WordSequenceMatcher.get_matching_blocks', 'C11', self='WordMatcher', opaque=True,
          returns='list[tuple[int,int,int]]', reads='WordMatcher.*', may_raise='IndexError')
def word_blocks_spec(self):
    """the blocks of words that match, as positions and lengths of the texts"""
    a_items = split_with_offset(self.a, self.sep)
    b_items = split_with_offset(self.b, self.sep)
    a_words = [x[1] for x in a_items]
    b_words = [x[1] for x in b_items]
    a_starts = [x[0] for x in a_items]
    b_starts = [x[0] for x in b_items]
    matcher = SequenceMatcher(None, a_words, b_words, autojunk=False)
    return [(a_starts[x[0]], b_starts[x[1]], sum(len(a_words[x[0] + k]) for k in range(x[2])))
            for x in matcher.get_matching_blocks() if x[2]]


@contract('utils.fuzzy', 'get_default_max_length_and_stride', 'C11', haystack_length='int', needle_length='int',
          threshold='real', min_max_length='int', opaque=True, returns='tuple[int,int]')
def length_and_stride_spec(haystack_length, needle_length, threshold, min_max_length):
    if haystack_length <= min_max_length:
        return haystack_length, haystack_length
    matched = needle_length + round(min(haystack_length, needle_length) * (1 - threshold))
    length = max(min_max_length, matched * 4)
    return length, length - matched


@contract('utils.fuzzy', 'get_str_matching_blocks_using_sequence_matcher', 'C11', haystack='str', needle='str',
          opaque=True, returns='list[tuple[int,int,int]]')
def alignment_spec(haystack, needle):
    return LocalSequenceMatcher(a=haystack, b=needle, scoring=DEFAULT_SCORING).get_matching_blocks()


def advances(haystack, needle, max_length, stride, threshold, isjunk, max_chunks, start_index):
    return stride > 0 or start_index >= len(haystack)


@contract('utils.fuzzy', 'get_str_left_strided_matching_blocks_chunks', 'C11', haystack='str', needle='str',
          max_length='int', stride='int', threshold='real', isjunk='fn[str,int,bool]', max_chunks='int',
          start_index='int', opaque=True, returns='list[list[tuple[int,int,int]]]', seconds=200,
          may_raise='AssertionError', terminates='advances')
def strided_spec(haystack, needle, max_length, stride, threshold, isjunk, max_chunks, start_index):
    """the first window whose alignment with the needle is good enough, or, with more chunks allowed, in which the
    start or the end of the needle is found and the rest of the needle elsewhere"""
    at = start_index
    while at < len(haystack):
        found = get_str_matching_blocks_using_sequence_matcher(haystack[at:at + max_length], needle)
        if found and found[0][0] <= stride and found[0][2] != 0:
            blocks = get_offset_matching_blocks(found, at, 0)
            if get_matching_blocks_b_gap_ratio(haystack, needle, blocks, isjunk) >= threshold:
                return [blocks]
            if max_chunks > 1:
                first = get_first_chunk_matching_blocks(haystack, needle, blocks, threshold, isjunk)
                if first:
                    end = end_offset_spec(first, 1)
                    rest = get_str_left_strided_matching_blocks_chunks(
                        haystack, needle[end:], max_length, stride, threshold, isjunk, max_chunks - 1, at + end)
                    if rest:
                        return [first] + [get_offset_matching_blocks(x, 0, end) for x in rest]
                else:
                    last = get_last_chunk_matching_blocks(haystack, needle, blocks, threshold, isjunk)
                    if last:
                        start = start_offset_spec(last, 1)
                        if start is None:
                            raise AssertionError()
                        rest = get_str_left_strided_matching_blocks_chunks(
                            haystack, needle[:start], max_length, stride, threshold, isjunk, max_chunks - 1, 0)
                        if rest:
                            return rest + [last]
        at += stride
    return []


@contract('utils.fuzzy', 'get_no_junk_string_view', 'C11', original_string='str', isjunk='fn[str,int,bool]')
def view_spec(original_string, isjunk):
    """the text without junk, and where each character of it was"""
    keep = [not isjunk(original_string, k) for k in range(len(original_string))]
    return StringView(original_string, keep)


@contract('utils.fuzzy', 'StringView.__init__', 'C11', self='View', original_string='str', in_view='list[bool]')
def view_init_spec(self, original_string, in_view):
    self.original_string = original_string
    self.in_view = in_view
    chars = []
    for ch, keep in zip(original_string, in_view):
        if keep:
            chars.append(ch)
    self.string_view = ''.join(chars)
    self.original_index_at = [k for k, keep in enumerate(in_view) if keep]


@contract('utils.fuzzy', 'fuzzy_search_chunks', 'C11', haystack='str', needle='str', threshold='real',
          exact_word_match_threshold='int', max_chunks='int', start_index='int', isjunk='none', seconds=200)
def search_spec(haystack, needle, threshold, exact_word_match_threshold, max_chunks, start_index, isjunk):
    """matches of words for short texts, of the texts without spaces otherwise, at positions of the texts given"""
    rest = haystack[start_index:] if start_index != 0 else haystack
    if min(len(rest), len(needle)) < exact_word_match_threshold:
        words = WordSequenceMatcher(None, rest, needle, sep=DEFAULT_WORD_SEPARATORS).get_matching_blocks()
        match = FuzzyMatchResult(haystack, needle, get_offset_matching_blocks(words, start_index, 0), default_is_junk)
        if match.b_gap_ratio() >= threshold:
            return ChunkedFuzzyMatchResult([match])
        return None
    a = get_no_junk_string_view(rest, space_is_junk)
    b = get_no_junk_string_view(needle, space_is_junk)
    length, stride = get_default_max_length_and_stride(len(a.string_view), len(b.string_view), threshold)
    raw = get_str_left_strided_matching_blocks_chunks(
        a.string_view, b.string_view, length, stride, threshold, default_is_junk, max_chunks, 0)
    if not raw:
        return None
    at = a.original_index_at
    bt = b.original_index_at
    chunks = [[(at[x[0]], bt[x[1]], at[x[0] + x[2] - 1] - at[x[0]] + 1) for x in blocks if x[2]] for blocks in raw]
    moved = [get_offset_matching_blocks(blocks, start_index, 0) for blocks in chunks]
    return ChunkedFuzzyMatchResult([FuzzyMatchResult(haystack, needle, blocks, default_is_junk) for blocks in moved])


@contract('utils.fuzzy', 'fuzzy_search', 'C11', haystack='str', needle='str', threshold='real',
          exact_word_match_threshold='int', max_chunks='int', start_index='int', isjunk='none', seconds=200)
def search_merged_spec(haystack, needle, threshold, exact_word_match_threshold=5, max_chunks=1, start_index=0,
                       isjunk=None):
    """all chunks as one match"""
    found = fuzzy_search_chunks(haystack, needle, threshold, exact_word_match_threshold, max_chunks, start_index)
    if found is None:
        return None
    blocks = get_merged_matching_blocks_chunks([x.matching_blocks for x in found.matches])
    first = found.matches[0]
    return FuzzyMatchResult(first.a, first.b, blocks, first.isjunk)


@contract('utils.fuzzy', 'fuzzy_search_index_range', 'C11', haystack='str', needle='str', threshold='real',
          exact_word_match_threshold='int', max_chunks='int', start_index='int', isjunk='none', seconds=200)
def search_range_spec(haystack, needle, threshold, exact_word_match_threshold=5, max_chunks=1, start_index=0,
                      isjunk=None):
    found = fuzzy_search(haystack, needle, threshold, exact_word_match_threshold, max_chunks, start_index)
    if found is None:
        return None
    return span(found.non_empty_matching_blocks, 0)


@contract('utils.fuzzy', 'fuzzy_search_index_range_chunks', 'C11', haystack='str', needle='str', threshold='real',
          exact_word_match_threshold='int', max_chunks='int', start_index='int', isjunk='none', seconds=200)
def search_range_chunks_spec(haystack, needle, threshold, exact_word_match_threshold=5, max_chunks=1, start_index=0,
                             isjunk=None):
    found = fuzzy_search_chunks(haystack, needle, threshold, exact_word_match_threshold, max_chunks, start_index)
    if found is None:
        return None
    return [span(x.non_empty_matching_blocks, 0) for x in found.matches]


@contract('utils.fuzzy', 'iter_fuzzy_search_all', 'C11', haystack='str', needle='str', threshold='real',
          start_index='int', exact_word_match_threshold='int', max_chunks='int', isjunk='none', seconds=200)
def search_all_spec(haystack, needle, threshold, start_index=0, exact_word_match_threshold=5, max_chunks=1,
                    isjunk=None):
    """one match after the other, each after the end of the one before"""
    at = start_index
    while at < len(haystack):
        found = fuzzy_search(haystack, needle, threshold, exact_word_match_threshold, max_chunks, at)
        if found is None:
            break
        yield found
        end = span(found.non_empty_matching_blocks, 0)[1]
        if end <= at:
            break
        at = end
