"""C17: segmentation"""
import re
from collections import Counter
from contracts.lib import contract, lemma, implies, invariant
from contracts.c04 import attrib_name, put_tag, tag_or_preserved, value_of
from sciencebeam_trainer_grobid_tools.utils.misc import get_dict_safe
from sciencebeam_trainer_grobid_tools.annotation.segmentation_annotator import (
    SegmentationLine, SegmentationLineList, _set_line_tokens_tag, _clear_line_token_tags,
    clear_front_tags_for_front_blocks_starting_after_threshold, apply_preserved_page_numbers,
    find_missing_page_numbers, find_and_tag_page_headers, merge_lines,
    PageNumberCandidate, is_valid_page_number_candidate, is_valid_page_header_candidate
)


class Counts:
    """collections.Counter as far as it is used: the order of most_common is a function of what was counted"""
    def __init__(self, counted):
        self.counted = counted

    def __len__(self):
        return len(self.counted)

    def most_common(self, n=None):
        if n is None:
            return ranked_texts(self.counted)
        return ranked_counts(self.counted, n)

    def __getitem__(self, key):
        return 0

    def __setitem__(self, key, value):
        pass


def counter(items=()):
    return Counts(list(items))


def ranked_texts(items):
    return Counter(items).most_common()


def ranked_counts(items, n):
    return Counter(items).most_common(n)


CLASSES = {
    'SegLine': {'path': 'annotation.segmentation_annotator:SegmentationLine',
                'fields': {'structured_document': 'Doc', 'line_index': 'int', 'line': 'TeiLine',
                           'segmentation_tag': 'opt[str]', 'text': 'str'}},
    'SegLines': {'path': 'annotation.segmentation_annotator:SegmentationLineList', 'noalloc': True, 'sequence': 'lines',
                 'fields': {'lines': 'list[SegLine]'}},
    'SegConfig': {'path': 'annotation.segmentation_annotator:SegmentationConfig', 'noalloc': True,
                  'fields': {'segmentation_mapping': 'dict[str,set[str]]', 'front_max_start_line_index': 'int',
                             'page_header_max_first_line_index': 'int', 'no_merge_references': 'bool'}},
    'SegAnnotator': {'path': 'annotation.segmentation_annotator:SegmentationAnnotator', 'noalloc': True,
                     'fields': {'config': 'SegConfig', 'preserve_tags': 'bool',
                                'segmentation_tag_name_by_tag_name': 'dict[str,str]'}},
}
EXTERNS = {
    'typing.Counter': {'model': 'contracts.c17:counter', 'args': ['any'], 'ret': 'none'},
    'collections.Counter': {'model': 'contracts.c17:counter', 'args': ['any'], 'ret': 'none'},
    'contracts.c17:ranked_texts': {'args': ['list[str]'], 'ret': 'list[tuple[str,int]]'},
    'contracts.c17:ranked_counts': {'args': ['list[opt[str]]', 'opt[int]'], 'ret': 'list[tuple[opt[str],int]]'},
    're.match': {'args': ['str', 'str'], 'ret': 'opt[Match]'},
    're.split': {'args': ['str', 'str'], 'ret': 'list[str]'},
}


@contract('annotation.segmentation_annotator', '_set_line_tokens_tag', 'C17',
          structured_document='Doc', line='TeiLine', tag='opt[str]', opaque=True, returns='none',
          modifies='TeiText.attrib', reads='TeiText.line TeiLine.tokens', may_raise='AttributeError')
def set_line_spec(structured_document, line, tag):
    """all tokens of the line"""
    for token in line.tokens:
        put_tag(structured_document, token, tag, None)


@contract('annotation.segmentation_annotator', '_clear_line_token_tags', 'C17',
          structured_document='Doc', line='TeiLine', opaque=True, returns='none',
          modifies='TeiText.attrib', reads='TeiText.line TeiLine.tokens', may_raise='AttributeError')
def clear_line_spec(structured_document, line):
    for token in line.tokens:
        if token.attrib.get(attrib_name('tag', None, None)):
            put_tag(structured_document, token, None, None)


@contract('annotation.segmentation_annotator', '_get_line_token_tag_or_preserved_tag_values', 'C17',
          structured_document='Doc', line='TeiLine')
def line_values_spec(structured_document, line):
    return [value_of(tag) for tag in [tag_or_preserved(token, None, None) for token in line.non_space_tokens]]


@contract('annotation.segmentation_annotator', 'SegmentationLine.set_segmentation_tag', 'C17',
          self='SegLine', segmentation_tag='opt[str]')
def set_segment_spec(self, segmentation_tag):
    """the whole line"""
    self.segmentation_tag = segmentation_tag
    _set_line_tokens_tag(self.structured_document, self.line, segmentation_tag)


@contract('annotation.segmentation_annotator', 'SegmentationLine.clear_line_token_tags', 'C17', self='SegLine')
def clear_segment_spec(self):
    self.segmentation_tag = None
    _clear_line_token_tags(self.structured_document, self.line)


@contract('annotation.segmentation_annotator', 'SegmentationLine.get_line_token_tags', 'C17', self='SegLine')
def line_tags_spec(self):
    return [token.attrib.get(attrib_name('tag', None, None)) for token in self.line.non_space_tokens]


@contract('annotation.segmentation_annotator', 'clear_front_tags_for_front_blocks_starting_after_threshold', 'C17',
          segmentation_lines='SegLines', max_block_start_line_index='int', opaque=True, returns='none',
          modifies='TeiText.attrib SegLine.segmentation_tag',
          reads='TeiText.line TeiLine.tokens SegLines.* SegLine.line SegLine.line_index SegLine.structured_document',
          may_raise='AttributeError')
def clear_front_spec(segmentation_lines, max_block_start_line_index):
    """blocks of front lines that start after the threshold lose their tags"""
    if not max_block_start_line_index:
        return
    tag = None
    start = 0
    for line in segmentation_lines.lines:
        if line.segmentation_tag != tag:
            tag = line.segmentation_tag
            start = line.line_index
        if tag == 'front' and start > max_block_start_line_index:
            clear_segment_spec(line)


@contract('annotation.segmentation_annotator', 'apply_preserved_page_numbers', 'C17',
          segmentation_lines='SegLines', opaque=True, returns='none',
          modifies='TeiText.attrib SegLine.segmentation_tag',
          reads='TeiText.line TeiLine.tokens TeiLine.non_space_tokens SegLines.* SegLine.line '
                'SegLine.structured_document',
          may_raise='AttributeError')
def preserved_pages_spec(segmentation_lines):
    """lines without segment that have a word tagged as page, or preserved as such"""
    for line in segmentation_lines.lines:
        if not line.segmentation_tag:
            if 'page' in line_values_spec(line.structured_document, line.line):
                set_segment_spec(line, 'page')


@contract('annotation.segmentation_annotator', 'is_valid_page_number_candidate', 'C17', text='str',
          opaque=True, returns='bool')
def page_number_candidate_spec(text):
    return re.match(r'^\d+$', text) is not None


@contract('annotation.segmentation_annotator', 'parse_page_number', 'C17', text='str')
def parse_page_number_spec(text):
    try:
        return int(text)
    except ValueError:
        return -1


@contract('annotation.segmentation_annotator', 'is_valid_page_header_candidate', 'C17', text='str', count='int',
          min_count='opt[int]', opaque=True, returns='bool')
def page_header_candidate_spec(text, count, min_count):
    """frequent enough, two words or more, not only digits"""
    if count < (2 if min_count is None else min_count):
        return False
    if re.match(r'^(\d|\s|\.)+$', text):
        return False
    return len(re.split(r'\s', text)) >= 2


@contract('annotation.segmentation_annotator', 'find_missing_page_numbers', 'C17',
          segmentation_lines='SegLines', opaque=True, returns='none',
          modifies='TeiText.attrib SegLine.segmentation_tag',
          reads='TeiText.line TeiLine.tokens SegLines.* SegLine.line SegLine.line_index SegLine.text '
                'SegLine.structured_document',
          may_raise='AttributeError')
def missing_pages_spec(segmentation_lines):
    """number lines without segment between two page numbers that have a number between theirs; the next number
    must not be smaller than expected"""
    known = [PageNumberCandidate(parse_page_number_spec(line.text), line)
             for line in segmentation_lines.lines if line.segmentation_tag == 'page']
    numbers = [PageNumberCandidate(parse_page_number_spec(line.text), line)
               for line in segmentation_lines.lines
               if not line.segmentation_tag and is_valid_page_number_candidate(line.text)]
    first_index = 0
    expected = 1
    for k in known:
        last_index = k.line.line_index
        last = k.page_number - 1
        for candidate in numbers:
            number, line = candidate.page_number, candidate.line
            if line.line_index < first_index:
                continue
            if line.line_index > last_index:
                continue
            if number < expected:
                continue
            if number > last:
                continue
            set_segment_spec(line, 'page')
            expected = expected + 1
        first_index = last_index
        expected = last + 1


@contract('annotation.segmentation_annotator', 'find_and_tag_page_headers', 'C17',
          segmentation_lines='SegLines', max_first_line_index='int', opaque=True, returns='none',
          modifies='TeiText.attrib SegLine.segmentation_tag',
          reads='TeiText.line TeiLine.tokens SegLines.* SegLine.line SegLine.line_index SegLine.text '
                'SegLine.structured_document',
          may_raise='AttributeError')
def page_headers_spec(segmentation_lines, max_first_line_index):
    """texts that occur on several lines without segment, the first time before the limit"""
    counts = Counter(line.text for line in segmentation_lines.lines if not line.segmentation_tag)
    if not counts:
        return
    min_count = None
    for text, count in counts.most_common():
        if not is_valid_page_header_candidate(text, count, min_count):
            continue
        first = -1
        for line in segmentation_lines.lines:
            if line.text == text:
                first = line.line_index
                break
        if first >= max_first_line_index:
            continue
        if min_count is None:
            min_count = max(2, count - 1)
        for line in segmentation_lines.lines:
            if line.text == text:
                set_segment_spec(line, 'headnote')


@contract('annotation.segmentation_annotator', 'merge_lines', 'C17',
          segmentation_lines='SegLines', preserve_tags='bool', enabled_tags='set[str]',
          enabled_remaining_tags='set[str]', opaque=True, returns='none',
          modifies='TeiText.attrib SegLine.segmentation_tag',
          reads='TeiText.line TeiLine.tokens TeiLine.non_space_tokens SegLines.* SegLine.line '
                'SegLine.structured_document',
          may_raise='AttributeError')
def merge_lines_spec(segmentation_lines, preserve_tags, enabled_tags, enabled_remaining_tags):
    """lines without segment between two lines of the same enabled segment join it (head notes and page numbers do
    not count), and the last ones an enabled remaining segment"""
    waiting = []
    segment = 'front'
    for line in segmentation_lines.lines:
        tag = line.segmentation_tag
        if tag in ('headnote', 'page'):
            continue
        if tag:
            if segment != tag:
                waiting = []
            segment = tag
        if tag in enabled_tags:
            if waiting:
                for other in waiting:
                    set_segment_spec(other, line.segmentation_tag)
            waiting = []
            continue
        if tag:
            waiting = []
            continue
        values = line_values_spec(line.structured_document, line.line)
        if preserve_tags and 'page' in values:
            continue
        if segment in enabled_tags:
            waiting.append(line)
    if waiting and segment in enabled_remaining_tags:
        for line in waiting:
            set_segment_spec(line, segment)


@contract('annotation.segmentation_annotator', 'get_segmentation_tag_name_by_tag_name', 'C17',
          segmentation_config='SegConfig')
def segment_by_tag_spec(segmentation_config):
    result = {}
    for segment, names in segmentation_config.segmentation_mapping.items():
        for name in names:
            result[name] = segment
    return result


@contract('annotation.segmentation_annotator', 'SegmentationAnnotator.annotate', 'C17',
          self='SegAnnotator', structured_document='Doc', seconds=240)
def segmentation_annotate_spec(self, structured_document):
    """every line gets the segment of its most frequent tag; then the rules, in this order; the rest is body"""
    lines = SegmentationLineList([
        SegmentationLine(structured_document, index, line, None)
        for index, line in enumerate(structured_document._lines)])
    for line in lines.lines:
        counts = Counter([value_of(tag) for tag in line_tags_spec(line)])
        if not counts:
            continue
        name = counts.most_common(1)[0][0]
        segment = get_dict_safe(self.segmentation_tag_name_by_tag_name, name)
        if segment and segment == name:
            if not self.config.no_merge_references:
                set_segment_spec(line, segment)
        elif segment:
            set_segment_spec(line, segment)
        elif name is None:
            clear_segment_spec(line)
        line.segmentation_tag = segment or name
    clear_front_tags_for_front_blocks_starting_after_threshold(lines, self.config.front_max_start_line_index)
    if self.preserve_tags:
        apply_preserved_page_numbers(lines)
    find_missing_page_numbers(lines)
    find_and_tag_page_headers(lines, self.config.page_header_max_first_line_index)
    enabled = {'front', 'annex'}
    if not self.config.no_merge_references:
        enabled.add('reference')
    merge_lines(lines, self.preserve_tags, enabled, {'annex'})
    if not self.preserve_tags:
        for line in lines.lines:
            if not line.segmentation_tag:
                set_segment_spec(line, 'body')
    return structured_document
