"""C21: automatic matching"""
import re
from distutils.util import strtobool
from itertools import groupby
from contracts.lib import contract, lemma, implies, invariant
from contracts.c12 import merge_ranges_spec
from contracts.c04 import attrib_name, store, put_tag
from sciencebeam_trainer_grobid_tools.core.structured_document import add_tag_prefix
from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
    get_extended_line_token_tags, split_and_join_with_space, SimpleTagConfig, parse_regex,
    parse_alternative_spellings
)
from sciencebeam_trainer_grobid_tools.utils.fuzzy import (
    iter_fuzzy_search_all_index_ranges, fuzzy_search_index_range_chunks
)
from sciencebeam_trainer_grobid_tools.annotation.matching_utils import (
    SequencesText, SequenceWrapper, normalise_and_remove_junk_str_or_list, normalise_str_or_list,
    PendingSequences, normalise_and_remove_junk_str
)

EXTERNS = {
    'MatchingAnnotator.process_target_annotations': {
        'args': ['MatchingAnnotator', 'Doc', 'list[SubTarget]'], 'ret': 'list[SubTarget]',
        'reads': ['TeiText.line', 'TeiLine.tokens'], 'modifies': ['TeiText.attrib'], 'within': ['do_annotate_spec']},
    'MatchingAnnotator.extend_annotations_to_whole_line': {
        'args': ['MatchingAnnotator', 'Doc'], 'ret': 'none',
        'reads': ['TeiText.line', 'TeiLine.tokens'], 'modifies': ['TeiText.attrib'], 'within': ['do_annotate_spec']},
    'distutils.util.strtobool': {'args': ['str'], 'ret': 'int'},
    're.compile': {'args': ['str'], 'ret': 'none', 'log': 'compiled'},
    'annotation.simple_matching_annotator:parse_regex': {
        'args': ['opt[str]'], 'ret': 'opt[str]', 'log': 'parse_regex', 'within': ['tag_config_spec']},
    'annotation.simple_matching_annotator:parse_alternative_spellings': {
        'args': ['opt[str]'], 'ret': 'dict[str,list[str]]', 'log': 'parse_alternatives', 'within': ['tag_config_spec']},
    'MatchingAnnotator.iter_matching_index_ranges': {
        'args': ['MatchingAnnotator', 'SequencesText', 'list[SubTarget]'], 'ret': 'list[tuple[int,int]]', 'within': ['process_targets_spec']},
    'MatchingAnnotator.apply_match_prefix_regex_to_index_range': {
        'args': ['MatchingAnnotator', 'SequencesText', 'tuple[int,int]', 'opt[str]', 'SubTarget'],
        'names': ['self', 'text', 'index_range', 'tag_name', 'target_annotation'],
        'ret': 'tuple[int,int]', 'within': ['process_targets_spec']},
    'MatchingAnnotator.update_annotation_for_index_range': {
        'args': ['MatchingAnnotator', 'Doc', 'SequencesText', 'tuple[int,int]', 'opt[str]'],
        'names': ['self', 'structured_document', 'text', 'index_range', 'tag_name'],
        'ret': 'none', 'reads': ['TeiText.line', 'TeiLine.tokens'], 'modifies': ['TeiText.attrib'], 'within': ['process_targets_spec']},
    'MatchingAnnotator.process_sub_annotations': {
        'args': ['MatchingAnnotator', 'Doc', 'SequencesText', 'tuple[int,int]', 'opt[list[Target]]'],
        'names': ['self', 'structured_document', 'text', 'index_range', 'sub_annotations'],
        'ret': 'none', 'reads': ['TeiText.line', 'TeiLine.tokens'], 'modifies': ['TeiText.attrib'], 'within': ['process_targets_spec']},
    'SequencesText.iter_sequences_between': {
        'args': ['SequencesText', 'tuple[int,int]'], 'ret': 'list[SequenceWrapper]', 'within': ['process_targets_spec']},
    'annotation.matching_utils:PendingSequences': {
        'args': ['list[SequenceWrapper]'], 'ret': 'Pending', 'within': ['process_targets_spec']},
    'annotation.matching_utils:PendingSequences.from_structured_document': {
        'args': ['Doc', 'fn[str,str]'], 'names': ['structured_document', 'normalize_fn'], 'ret': 'Pending',
        'reads': ['TeiText.attrib'], 'within': ['process_targets_spec']},
    'Pending.get_pending_sequences': {
        'args': ['Pending', 'opt[int]'], 'names': ['self', 'limit'], 'ret': 'list[SequenceWrapper]',
        'reads': ['TeiText.attrib'], 'within': ['process_targets_spec']},
    'utils.fuzzy:fuzzy_search_index_range_chunks': {
        'args': ['str', 'str', 'real', 'int', 'opt[int]'],
        'names': ['haystack', 'needle', 'threshold', 'exact_word_match_threshold', 'max_chunks'],
        'ret': 'opt[list[tuple[int,int]]]', 'within': ['range_chunks_spec']},
    'annotation.simple_matching_annotator:split_and_join_with_space': {
        'args': ['str'], 'ret': 'str', 'within': ['range_chunks_spec']},
    'annotation.matching_utils:normalise_and_remove_junk_str_or_list': {
        'args': ['str'], 'ret': 'str', 'within': ['range_chunks_spec']},
    'annotation.matching_utils:normalise_str_or_list': {
        'args': ['str'], 'ret': 'str', 'within': ['range_chunks_spec']},
    'MatchingAnnotator.resolve_regex_placeholders': {
        'args': ['MatchingAnnotator', 'str', 'dict[str,str]'], 'ret': 'str', 'within': ['apply_prefix_spec']},
    'utils.fuzzy:iter_fuzzy_search_all_index_ranges': {
        'args': ['str', 'str', 'real', 'int'], 'names': ['haystack', 'needle', 'threshold', 'exact_word_match_threshold'],
        'ret': 'list[tuple[int,int]]', 'within': ['process_sub_annotations_spec']},
    'annotation.matching_utils:SequencesText': {
        'args': ['list[SequenceWrapper]'], 'ret': 'SequencesText',
        'within': ['process_sub_annotations_spec', 'process_targets_spec']},
    'annotation.matching_utils:SequenceWrapper': {
        'args': ['Doc', 'list[TeiText]'], 'ret': 'SequenceWrapper', 'reads': ['TeiText.attrib'],
        'within': ['process_sub_annotations_spec']},
}
CLASSES = {
    'Pending': {'path': 'annotation.matching_utils:PendingSequences', 'noalloc': True, 'fields': {}},
    'SubTarget': {'path': 'core.annotation.target_annotation:TargetAnnotation', 'noalloc': True,
                  'fields': {'name': 'str', 'value': 'str', 'sub_annotations': 'opt[list[Target]]'}},
    'ListTarget': {'path': 'core.annotation.target_annotation:TargetAnnotation', 'noalloc': True,
                   'fields': {'name': 'str', 'value': 'list[str]'}},
    'TagConfig': {'path': 'annotation.simple_matching_annotator:SimpleTagConfig', 'noalloc': True,
                  'fields': {'match_prefix_regex': 'opt[str]', 'alternative_spellings': 'opt[dict[str,list[str]]]',
                             'merge_enabled': 'bool', 'extend_to_line_enabled': 'bool', 'max_chunks': 'int',
                             'block_name': 'opt[str]'}},
    'MatchingConfig': {'path': 'annotation.simple_matching_annotator:SimpleSimpleMatchingConfig', 'noalloc': True,
                       'fields': {'threshold': 'real', 'lookahead_sequence_count': 'int', 'min_token_length': 'int',
                                  'exact_word_match_threshold': 'int', 'use_begin_prefix': 'bool',
                                  'extend_to_line_enabled': 'bool', 'use_sub_annotations': 'bool',
                                  'preserve_sub_annotations': 'bool', 'tag_config_map': 'map[str,TagConfig]'}},
    'MatchingAnnotator': {'path': 'annotation.simple_matching_annotator:SimpleMatchingAnnotator', 'noalloc': True,
                          'fields': {'config': 'MatchingConfig', 'merge_enabled_map': 'map[str,bool]',
                                     'extend_to_line_enabled_map': 'map[str,bool]',
                                     'target_annotations': 'list[SubTarget]'}},
}


def word_tag(name, index, use_begin_prefix):
    """the first word gets a begin tag, the others inside tags"""
    prefix = None
    if use_begin_prefix:
        prefix = 'b-' if index == 0 else 'i-'
    return add_tag_prefix(name, prefix)


@contract('annotation.simple_matching_annotator', 'SimpleMatchingAnnotator.update_annotation_for_index_range', 'C21',
          self='MatchingAnnotator', structured_document='Doc', text='SequencesText', index_range='tuple[int,int]',
          tag_name='str')
def update_annotation_spec(self, structured_document, text, index_range, tag_name):
    """the words of the range that have no tag get the tag of the field, the first one as begin tag"""
    words = list(text.iter_tokens_between(index_range))
    untagged = [token for token in words if not token.attrib.get(attrib_name('tag', None, None))]
    for index, token in enumerate(untagged):
        tag = word_tag(tag_name, index, self.config.use_begin_prefix)
        if self.config.preserve_sub_annotations:
            store(token.attrib, attrib_name('tag', None, None), tag)
        else:
            put_tag(structured_document, token, tag, None)


@contract('annotation.simple_matching_annotator', 'SimpleMatchingAnnotator.extend_annotations_to_whole_line', 'C21',
          self='MatchingAnnotator', structured_document='Doc')
def extend_lines_spec(self, structured_document):
    """the words of every line get the extended tags of the line; words without tag keep what they have"""
    for line in structured_document._lines:
        words = line.non_space_tokens
        tags = get_extended_line_token_tags(
            [token.attrib.get(attrib_name('tag', None, None)) for token in words],
            self.extend_to_line_enabled_map, self.merge_enabled_map, True, True)
        for token, tag in zip(words, tags):
            if tag:
                put_tag(structured_document, token, tag, None)
    return structured_document


@contract('annotation.simple_matching_annotator', 'SimpleMatchingAnnotator.process_sub_annotations', 'C21',
          self='MatchingAnnotator', structured_document='Doc', text='SequencesText', index_range='tuple[int,int]',
          sub_annotations='opt[list[Target]]')
def process_sub_annotations_spec(self, structured_document, text, index_range, sub_annotations):
    """every sub annotation goes to the words of the first match of its value none of which has a sub tag"""
    if not sub_annotations:
        return
    sub_text = SequencesText([
        SequenceWrapper(structured_document, list(text.iter_tokens_between(index_range)))])
    searched = str(sub_text).lower()
    for sub_annotation in sub_annotations:
        found = iter_fuzzy_search_all_index_ranges(
            searched, sub_annotation.value.lower(), threshold=self.config.threshold,
            exact_word_match_threshold=self.config.exact_word_match_threshold)
        for sub_range in found:
            words = list(sub_text.iter_tokens_between(sub_range))
            if any([token.attrib.get(attrib_name('tag', None, 2)) for token in words]):
                continue
            for index, token in enumerate(words):
                put_tag(structured_document, token,
                             word_tag(sub_annotation.name, index, self.config.use_begin_prefix), 2)
            break


@contract('annotation.simple_matching_annotator', 'SimpleMatchingAnnotator.get_fuzzy_matching_index_range_chunks',
          'C21', self='MatchingAnnotator', haystack='str', needle='str', max_chunks='opt[int]',
          opaque=True, returns='opt[list[tuple[int,int]]]', reads='MatchingAnnotator.config MatchingConfig.*')
def range_chunks_spec(self, haystack, needle, max_chunks=None):
    """nothing for too short values; otherwise where the value is found, or else its words without junk; for short
    values line feeds count as spaces"""
    if len(needle) < self.config.min_token_length:
        return None
    value = normalise_str_or_list(needle)
    if len(value) < self.config.exact_word_match_threshold:
        haystack = haystack.replace('\n', ' ')
    found = fuzzy_search_index_range_chunks(
        haystack, value, threshold=self.config.threshold,
        exact_word_match_threshold=self.config.exact_word_match_threshold, max_chunks=max_chunks)
    if found:
        return found
    return fuzzy_search_index_range_chunks(
        haystack, split_and_join_with_space(normalise_and_remove_junk_str_or_list(needle)),
        threshold=self.config.threshold,
        exact_word_match_threshold=self.config.exact_word_match_threshold, max_chunks=max_chunks)


@contract('annotation.simple_matching_annotator',
          'SimpleMatchingAnnotator.get_fuzzy_matching_index_range_with_alternative_spellings_chunks',
          'C21', self='MatchingAnnotator', haystack='str', needle='str',
          alternative_spellings='opt[dict[str,list[str]]]', max_chunks='opt[int]',
          opaque=True, returns='opt[list[tuple[int,int]]]', reads='MatchingAnnotator.config MatchingConfig.*')
def alternative_chunks_spec(self, haystack, needle, alternative_spellings, max_chunks=None):
    """the value, or else the first of its alternative spellings that is found"""
    found = self.get_fuzzy_matching_index_range_chunks(haystack, needle, max_chunks=max_chunks)
    if found or not alternative_spellings:
        return found
    for other in alternative_spellings.get(needle, []):
        found = self.get_fuzzy_matching_index_range_chunks(haystack, other, max_chunks=max_chunks)
        if found:
            return found
    return None


@contract('annotation.simple_matching_annotator',
          'SimpleMatchingAnnotator.get_fuzzy_matching_index_range_with_alternative_spellings',
          'C21', self='MatchingAnnotator', haystack='str', needle='str',
          alternative_spellings='opt[dict[str,list[str]]]',
          opaque=True, returns='opt[tuple[int,int]]', reads='MatchingAnnotator.config MatchingConfig.*')
def alternative_range_spec(self, haystack, needle, alternative_spellings):
    """from the start of the first to the end of the last part found"""
    found = self.get_fuzzy_matching_index_range_with_alternative_spellings_chunks(
        haystack, needle, alternative_spellings)
    if not found:
        return None
    return (found[0][0], found[-1][1])


@contract('annotation.simple_matching_annotator', 'SimpleMatchingAnnotator.get_sub_tag_placeholders', 'C21',
          self='MatchingAnnotator', sub_annotations='opt[list[Target]]')
def placeholders_spec(self, sub_annotations):
    result = {}
    if sub_annotations:
        for sub_annotation in sub_annotations:
            result[sub_annotation.name] = sub_annotation.value
    return result


@contract('annotation.simple_matching_annotator', 'SimpleMatchingAnnotator.apply_match_prefix_regex_to_index_range',
          'C21', self='MatchingAnnotator', text='SequencesText', index_range='tuple[int,int]', tag_name='str',
          target_annotation='SubTarget')
def apply_prefix_spec(self, text, index_range, tag_name, target_annotation):
    """the range starts where the prefix of the field, if it has one, is found in the text before it"""
    config = self.config.get_tag_config(tag_name)
    regex = config.match_prefix_regex
    start = index_range[0]
    if start > 0 and regex:
        prefix = str(text)[:start]
        regex = self.resolve_regex_placeholders(
            regex, placeholders_spec(self, target_annotation.sub_annotations))
        m = re.search(regex, prefix)
        if m:
            start = m.start()
    return (start, index_range[1])


@contract('annotation.simple_matching_annotator', 'SimpleMatchingAnnotator.iter_matching_index_ranges', 'C21',
          self='MatchingAnnotator', text='SequencesText', target_annotations='list[Target]')
def matching_ranges_spec(self, text, target_annotations):
    for target in target_annotations:
        config = self.config.get_tag_config(target.name)
        found = self.get_fuzzy_matching_index_range_with_alternative_spellings_chunks(
            str(text), target.value, config.alternative_spellings, max_chunks=config.max_chunks)
        if found:
            for r in found:
                yield r


@contract('annotation.simple_matching_annotator', 'SimpleMatchingAnnotator.process_target_annotations', 'C21',
          self='MatchingAnnotator', structured_document='Doc', target_annotations='list[SubTarget]', seconds=240)
def process_targets_spec(self, structured_document, target_annotations):
    """the targets one after the other: searched in the next pending sequences and, when the block of the field is
    another one, in the whole document, where the block then starts; all that is matched is tagged with the name of
    the target and its sub annotations, the targets not found are returned"""
    not_found = []
    all_pending = PendingSequences.from_structured_document(
        structured_document, normalize_fn=normalise_and_remove_junk_str)
    pending = all_pending
    block = None
    for name, group in groupby(target_annotations, key=lambda target: target.name):
        tag_block = self.config.get_tag_config(name).block_name or 'default'
        for target in list(group):
            text = SequencesText(pending.get_pending_sequences(limit=self.config.lookahead_sequence_count))
            found = list(self.iter_matching_index_ranges(text, [target]))
            if not found and block != tag_block:
                text = SequencesText(all_pending.get_pending_sequences(limit=None))
                found = list(self.iter_matching_index_ranges(text, [target]))
                if not found:
                    not_found.append(target)
                    continue
                start = merge_ranges_spec(found)[0]
                pending = PendingSequences(list(text.iter_sequences_between((start, text.end_index))))
                block = tag_block
            if not found:
                not_found.append(target)
                continue
            for r in found:
                r = self.apply_match_prefix_regex_to_index_range(text, r, name, target_annotation=target)
                self.update_annotation_for_index_range(structured_document, text, r, name)
                if self.config.use_sub_annotations:
                    self.process_sub_annotations(structured_document, text, r, sub_annotations=target.sub_annotations)
    return not_found


@contract('annotation.simple_matching_annotator', 'SimpleMatchingAnnotator._do_annotate', 'C21',
          self='MatchingAnnotator', structured_document='Doc')
def do_annotate_spec(self, structured_document):
    """again with the targets not found, until none is left or none of them was found; then the lines"""
    targets = self.target_annotations
    while targets:
        not_found = self.process_target_annotations(structured_document, targets)
        if len(not_found) == len(targets):
            break
        targets = not_found
    if self.config.extend_to_line_enabled:
        self.extend_annotations_to_whole_line(structured_document)
    return structured_document


@contract('annotation.simple_matching_annotator', 'parse_alternative_spellings', 'C21',
          alternative_spellings_str='opt[str]')
def parse_alternatives_spec(alternative_spellings_str):
    result = {}
    if alternative_spellings_str:
        for line in alternative_spellings_str.splitlines():
            line = line.strip()
            if line:
                name, values = line.split('=', 1)
                result[name.strip()] = values.strip().split(',')
    return result


@contract('annotation.simple_matching_annotator', 'parse_regex', 'C21', regex_str='opt[str]')
def parse_regex_spec(regex_str):
    """quotes around it are removed; it must be a valid pattern"""
    if not regex_str:
        return regex_str
    if len(regex_str) >= 2 and regex_str.startswith('"') and regex_str.endswith('"'):
        regex_str = regex_str[1:-1]
    re.compile(regex_str)
    return regex_str


@contract('annotation.simple_matching_annotator', 'get_simple_tag_config', 'C21 C19',
          config_map='map[str,str]', field='str')
def tag_config_spec(config_map, field):
    return SimpleTagConfig(
        match_prefix_regex=parse_regex(config_map.get(field + '.match-prefix-regex')),
        alternative_spellings=parse_alternative_spellings(config_map.get(field + '.alternative-spellings')),
        merge_enabled=strtobool(config_map.get(field + '.merge', 'True')) == 1,
        extend_to_line_enabled=strtobool(config_map.get(field + '.extend-to-line', 'True')) == 1,
        max_chunks=int(config_map.get(field + '.max_chunks', '1')),
        block_name=config_map.get(field + '.block'))
