"""C09: positions in joined texts"""
from contracts.lib import contract, lemma, implies, invariant

CLASSES = {
    'JoinedText': {'path': 'annotation.matching_utils:JoinedText', 'noalloc': True,
                   'fields': {'_items': 'list[str]', '_text': 'str',
                              '_item_index_ranges': 'list[tuple[int,int]]'}},
    'SequenceWrapper': {'path': 'annotation.matching_utils:SequenceWrapper', 'noalloc': True,
                        'fields': {'structured_document': 'Doc', 'tokens': 'list[TeiText]',
                                   'joined_text': 'JoinedText', 'token_str_list': 'list[str]',
                                   'tokens_as_str': 'str'}},
    'JoinedSequences': {'path': 'annotation.matching_utils:JoinedText', 'noalloc': True,
                        'fields': {'_items': 'list[SequenceWrapper]', '_text': 'str',
                                   '_item_index_ranges': 'list[tuple[int,int]]'}},
    'SequencesText': {'path': 'annotation.matching_utils:SequencesText', 'noalloc': True,
                      'fields': {'_joined_text': 'JoinedSequences'}},
}


@contract('annotation.matching_utils', 'join_with_index_ranges', 'C09',
          items='list[str]', sep='str', pad='str', whitespace_list='opt[list[opt[str]]]', opaque=True,
          returns='tuple[str,list[tuple[int,int]]]', may_raise='IndexError')
def join_spec(items, sep, pad, whitespace_list):
    """the text, and for every item where it starts and ends in it"""
    padded = [pad + item + pad for item in items]
    ranges = []
    start = len(pad)
    if whitespace_list:
        gaps = [sep if x is None else x for x in whitespace_list]
        gaps[-1] = ''
        parts = []
        for x, gap in zip(padded, gaps):
            parts.append(x)
            parts.append(gap)
        text = ''.join(parts)
        for i, x in enumerate(padded):
            end = start + len(x) - 2 * len(pad)
            ranges.append((start, end))
            start = end + len(gaps[i]) + 2 * len(pad)
    else:
        text = sep.join(padded)
        for x in padded:
            end = start + len(x) - 2 * len(pad)
            ranges.append((start, end))
            start = end + len(pad) + len(sep) + len(pad)
    return text, ranges


def overlapping(ranges, index_range):
    """index and range of the items that overlap; the ranges are in order, so all after the first one that starts
    at or after the end are left out"""
    found = []
    for i, r in enumerate(ranges):
        if r[0] >= index_range[1]:
            break
        if r[1] > index_range[0]:
            found.append((i, r))
    return found


@contract('annotation.matching_utils', 'JoinedText.iter_item_indices_and_index_range_between', 'C09',
          self='JoinedText', index_range='tuple[int,int]')
def item_indices_between_spec(self, index_range):
    return overlapping(self._item_index_ranges, index_range)


def items_match_ranges(self, index_range):
    return len(self._items) == len(self._item_index_ranges)


@contract('annotation.matching_utils', 'JoinedText.iter_items_and_index_range_between', 'C09',
          self='JoinedText', index_range='tuple[int,int]')
def items_between_spec(self, index_range):
    return [(self._items[i], r) for i, r in overlapping(self._item_index_ranges, index_range)]


@contract('annotation.matching_utils', 'JoinedText.end_index', 'C09', self='JoinedText')
def joined_end_index_spec(self):
    if not self._item_index_ranges:
        return 0
    return self._item_index_ranges[-1][1]


@contract('annotation.matching_utils', 'SequenceWrapper.tokens_between', 'C09',
          self='SequenceWrapper', index_range='tuple[int,int]')
def tokens_between_spec(self, index_range):
    return [self.tokens[i] for i, _ in overlapping(self.joined_text._item_index_ranges, index_range)]


@contract('annotation.matching_utils', 'SequencesText.iter_sequences_between', 'C09',
          self='SequencesText', index_range='tuple[int,int]')
def sequences_between_spec(self, index_range):
    return [seq for seq, _ in items_between_spec(self._joined_text, index_range)]


@contract('annotation.matching_utils', 'SequencesText.iter_tokens_between', 'C09',
          self='SequencesText', index_range='tuple[int,int]', opaque=True, returns='list[TeiText]',
          reads='SequencesText._joined_text JoinedSequences._items JoinedSequences._item_index_ranges '
                'SequenceWrapper.tokens SequenceWrapper.joined_text JoinedText._item_index_ranges',
          may_raise='IndexError')
def sequences_tokens_between_spec(self, index_range):
    """of every overlapping sequence the tokens overlapping the range in its own coordinates"""
    tokens = []
    for seq, r in items_between_spec(self._joined_text, index_range):
        for token in tokens_between_spec(seq, (index_range[0] - r[0], index_range[1] - r[0])):
            tokens.append(token)
    return tokens


@contract('annotation.matching_utils', 'get_token_whitespace', 'C09', token='TeiText')
def token_whitespace_spec(token):
    return ' ' if token.whitespace is None else token.whitespace
