"""C20: grouping of words, pending sequences"""
from itertools import islice
from contracts.lib import contract, lemma, implies, invariant
from contracts.c04 import attrib_name
from sciencebeam_trainer_grobid_tools.core.structured_document import split_tag_prefix
from sciencebeam_trainer_grobid_tools.annotation.matching_utils import PendingSequences, SequenceWrapperWithPosition

EXTERNS = {
    'annotation.matching_utils:SequenceWrapperWithPosition': {
        'args': ['Doc', 'list[TeiText]', 'fn[str,str]', 'int'], 'names': ['structured_document', 'tokens', 'str_filter_f', 'position'],
        'ret': 'SequenceWrapper', 'within': ['from_document_spec']},
    'SequenceWrapper.sub_sequence_for_tokens': {
        'args': ['SequenceWrapper', 'list[TeiText]'], 'ret': 'SequenceWrapper',
        'within': ['untagged_sub_sequences_spec']},
    'SequenceWrapper.untagged_sub_sequences': {
        'args': ['SequenceWrapper'], 'ret': 'list[SequenceWrapper]',
        'within': ['iter_pending_sequences_spec', 'get_pending_sequences_spec']},
}
CLASSES = {
    'PendingSequences': {'path': 'annotation.matching_utils:PendingSequences', 'value': True,
                         'fields': {'_sequences': 'list[SequenceWrapper]'}},
}


def tag_of(token):
    return token.attrib.get(attrib_name('tag', None, None))


@contract('annotation.reference_annotator', '_iter_group_tokens_by_tag_entity', 'C20 C08',
          structured_document='Doc', tokens='list[TeiText]')
def group_tokens_spec(structured_document, tokens):
    """runs of words with the same tag value, a begin tag starts a new one"""
    value = None
    run = None
    for token in tokens:
        prefix, token_value = split_tag_prefix(tag_of(token))
        if run and (value != token_value or prefix == 'b-'):
            yield value, run
            run = None
        if run:
            run.append(token)
        else:
            value = token_value
            run = [token]
    if run:
        yield value, run


@contract('annotation.reference_annotator', '_iter_all_tokens', 'C20 C08', structured_document='Doc')
def reference_all_tokens_spec(structured_document):
    return (token for line in structured_document._lines for token in line.non_space_tokens)


@contract('structured_document.utils', 'iter_all_tokens_excluding_space', 'C20 C22', structured_document='Doc')
def all_words_spec(structured_document):
    return (token for line in structured_document._lines for token in line.non_space_tokens)


@contract('structured_document.utils', 'iter_all_tokens_including_space', 'C20 C22', structured_document='Doc')
def all_tokens_spec(structured_document):
    return (token for line in structured_document._lines for token in line.tokens)


@contract('annotation.matching_utils', 'iter_lines', 'C20', structured_document='Doc')
def iter_lines_spec(structured_document):
    return (line for line in structured_document._lines)


@contract('annotation.matching_utils', 'get_untagged_line_tokens', 'C20 C21', structured_document='Doc', line='TeiLine')
def untagged_line_tokens_spec(structured_document, line):
    """the words of the line without tag"""
    return [token for token in line.non_space_tokens if not tag_of(token)]


@contract('annotation.matching_utils', 'SequenceWrapper.untagged_sub_sequences', 'C20', self='SequenceWrapper')
def untagged_sub_sequences_spec(self):
    """the sequence itself if nothing in it is tagged, otherwise its maximal runs of untagged words"""
    tagged = len([t for t in [tag_of(token) for token in self.tokens] if t])
    if tagged == 0:
        yield self
        return
    if tagged == len(self.tokens):
        return
    run = []
    for token, tag in zip(self.tokens, [tag_of(token) for token in self.tokens]):
        if not tag:
            run.append(token)
        elif run:
            yield self.sub_sequence_for_tokens(run)
            run = []
    if run:
        yield self.sub_sequence_for_tokens(run)


@contract('annotation.matching_utils', 'PendingSequences.iter_pending_sequences', 'C20',
          self='PendingSequences', limit='opt[int]')
def iter_pending_sequences_spec(self, limit):
    """the untagged parts of all sequences in order, at most as many as the limit"""
    found = (part for seq in self._sequences for part in seq.untagged_sub_sequences())
    if limit:
        return islice(found, limit)
    return found


@contract('annotation.matching_utils', 'PendingSequences.get_pending_sequences', 'C20',
          self='PendingSequences', limit='opt[int]')
def get_pending_sequences_spec(self, limit):
    return list(iter_pending_sequences_spec(self, limit))


@contract('annotation.matching_utils', 'PendingSequences.from_structured_document', 'C20',
          structured_document='Doc', normalize_fn='fn[str,str]')
def from_document_spec(structured_document, normalize_fn):
    """one sequence per line that has untagged words, with exactly these"""
    sequences = []
    for line in structured_document._lines:
        words = [token for token in line.non_space_tokens if not tag_of(token)]
        if words:
            sequences.append(SequenceWrapperWithPosition(structured_document, words, normalize_fn,
                                                         position=len(sequences)))
    return PendingSequences(sequences)
