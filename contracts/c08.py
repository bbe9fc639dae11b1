"""C08: sub tags of references"""
import re
from itertools import groupby
from contracts.lib import contract, lemma, implies, invariant
from contracts.c04 import attrib_name, put_tag
from contracts.c09 import overlapping
from sciencebeam_trainer_grobid_tools.core.structured_document import (
    add_tag_prefix, split_tag_prefix, strip_tag_prefix
)
from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
    to_inside_tag, get_extended_line_token_tags
)
from sciencebeam_trainer_grobid_tools.utils.misc import get_safe
from sciencebeam_trainer_grobid_tools.annotation.matching_utils import join_with_index_ranges
from sciencebeam_trainer_grobid_tools.annotation.reference_annotator import (
    _map_etal_sub_tag, _add_name_text_suffix, _add_idno_text_prefix, _merge_sub_tags,
    _map_tags, get_etal_mapped_tags, get_suffix_extended_token_tags, get_prefix_extended_token_tags
)


@contract('annotation.reference_annotator', 'get_etal_mapped_tags', 'C08',
          token_tags='list[opt[str]]', etal_sub_tag='str', etal_merge_enabled_sub_tags='set[str]',
          opaque=True, returns='list[opt[str]]', may_raise='IndexError')
def etal_spec(token_tags, etal_sub_tag, etal_merge_enabled_sub_tags):
    """runs of the et al tag get the tag of the last run of an enabled field, unless another tagged run is between"""
    result = []
    last = None
    for run in [list(group) for _, group in groupby(token_tags, key=strip_tag_prefix)]:
        value = strip_tag_prefix(run[0])
        if value == etal_sub_tag and last:
            result.append(last)
            result.extend([to_inside_tag(last)] * (len(run) - 1))
        else:
            result.extend(run)
            if value in etal_merge_enabled_sub_tags:
                last = run[0]
            elif run[0]:
                last = None
    return result


CLASSES = {
    'Match': {'fields': {}},
    'ReferenceConfig': {'path': 'annotation.reference_annotator:ReferenceAnnotatorConfig', 'noalloc': True,
                        'fields': {'sub_tag_map': 'map[str,str]', 'merge_enabled_sub_tags': 'set[str]',
                                   'include_prefix_enabled_sub_tags': 'set[str]',
                                   'include_suffix_enabled_sub_tags': 'set[str]',
                                   'prefix_regex_by_sub_tag_map': 'map[str,str]', 'etal_sub_tag': 'str',
                                   'etal_merge_enabled_sub_tags': 'set[str]'}},
    'ReferenceAnnotator': {'path': 'annotation.reference_annotator:ReferencePostProcessingAnnotator',
                           'noalloc': True, 'fields': {'config': 'ReferenceConfig'}},
}
EXTERNS = {
    're.search': {'args': ['str', 'str'], 'ret': 'opt[Match]'},
    'Match.start': {'args': ['Match'], 'ret': 'int'},
    'Match.end': {'args': ['Match'], 'ret': 'int'},
}


def value_key(item):
    return strip_tag_prefix(item[0])


def runs_of(token_tags, token_texts, token_whitespaces):
    """runs of (tag, text, white space) with equal tag values"""
    if token_whitespaces is None:
        token_whitespaces = [' '] * len(token_texts)
    return [list(group) for _, group in groupby(zip(token_tags, token_texts, token_whitespaces), key=value_key)]


@contract('annotation.reference_annotator', 'get_suffix_extended_token_tags', 'C08',
          token_tags='list[opt[str]]', token_texts='list[str]', enabled_tags='set[str]',
          token_whitespaces='opt[list[opt[str]]]', seconds=300,
          opaque=True, returns='list[opt[str]]', may_raise='IndexError ValueError')
def suffix_spec(token_tags, token_texts, enabled_tags, token_whitespaces):
    """an untagged run after a run of an enabled field that starts with a dot: the words with the dot get its tag"""
    runs = runs_of(token_tags, token_texts, token_whitespaces)
    result = []
    for i, run in enumerate(runs):
        tags, texts, whitespaces = zip(*run)
        before = get_safe(get_safe(runs[i - 1] if i > 0 else None, 0), 0)
        if tags[0] or split_tag_prefix(before)[1] not in enabled_tags:
            result.extend(tags)
            continue
        text, ranges = join_with_index_ranges(texts, sep=' ', pad='', whitespace_list=whitespaces)
        m = re.search(r'^\.', text)
        if not m:
            result.extend(tags)
            continue
        count = len([(texts[i], r) for i, r in overlapping(ranges, (0, m.end()))])
        if not count:
            result.extend(tags)
            continue
        result.extend([to_inside_tag(before)] * count)
        result.extend([None] * (len(tags) - count))
    return result


@contract('annotation.reference_annotator', 'get_prefix_extended_token_tags', 'C08',
          token_tags='list[opt[str]]', token_texts='list[str]', prefix_regex_by_tag_map='map[str,str]',
          token_whitespaces='opt[list[opt[str]]]', enabled_tags='set[str]', seconds=300,
          opaque=True, returns='list[opt[str]]', may_raise='IndexError KeyError ValueError',
          reveal='split_tag_prefix_spec')
def prefix_spec(token_tags, token_texts, prefix_regex_by_tag_map, token_whitespaces, enabled_tags):
    """an untagged run before a run of an enabled field whose text ends with the prefix of the field: the words of
    the prefix become the first words of the field"""
    runs = runs_of(token_tags, token_texts, token_whitespaces)
    result = []
    for i, run in enumerate(runs):
        tags, texts, whitespaces = zip(*run)
        after = get_safe(get_safe(runs[i + 1] if i + 1 < len(runs) else None, 0), 0)
        after_prefix, after_value = split_tag_prefix(after)
        if tags[0] or after_value not in enabled_tags:
            result.extend(tags)
            continue
        text, ranges = join_with_index_ranges(texts, sep=' ', pad='', whitespace_list=whitespaces)
        m = re.search(prefix_regex_by_tag_map[after_value], text)
        if not m:
            result.extend(tags)
            continue
        found = [(texts[k], r) for k, r in overlapping(ranges, (m.start(), len(text)))]
        if not found:
            result.extend(tags)
            continue
        result.extend([None] * (len(tags) - len(found)))
        result.append(after)
        result.extend([to_inside_tag(after)] * (len(found) - 1))
        if after_prefix == 'b-':
            runs[i + 1][0] = (to_inside_tag(after), runs[i + 1][0][1], runs[i + 1][0][2])
    return result


def sub_tags_of(tokens, tag_map):
    """the mapped sub tags"""
    return _map_tags([t.attrib.get(attrib_name('tag', None, 2)) for t in tokens], tag_map)


def set_sub_tags(structured_document, tokens, sub_tags):
    """words without new sub tag keep theirs"""
    for token, sub_tag in zip(tokens, sub_tags):
        if sub_tag:
            put_tag(structured_document, token, sub_tag, 2)


@contract('annotation.reference_annotator', '_map_etal_sub_tag', 'C08',
          structured_document='Doc', tokens='list[TeiText]', config='ReferenceConfig',
          opaque=True, returns='=structured_document', modifies='TeiText.attrib',
          reads='TeiText.line TeiLine.* TeiText.stripped_text TeiText.whitespace ReferenceConfig.*',
          may_raise='AttributeError IndexError')
def map_etal_spec(structured_document, tokens, config):
    set_sub_tags(structured_document, tokens, get_etal_mapped_tags(
        sub_tags_of(tokens, config.sub_tag_map), config.etal_sub_tag, config.etal_merge_enabled_sub_tags))
    return structured_document


@contract('annotation.reference_annotator', '_add_name_text_suffix', 'C08',
          structured_document='Doc', tokens='list[TeiText]', config='ReferenceConfig',
          opaque=True, returns='=structured_document', modifies='TeiText.attrib',
          reads='TeiText.line TeiLine.* TeiText.stripped_text TeiText.whitespace ReferenceConfig.*',
          may_raise='AttributeError IndexError ValueError')
def add_suffix_spec(structured_document, tokens, config):
    tags = [t.attrib.get(attrib_name('tag', None, 2)) for t in tokens]
    texts = [t.stripped_text for t in tokens]
    whitespaces = [t.whitespace for t in tokens]
    set_sub_tags(structured_document, tokens, get_suffix_extended_token_tags(
        _map_tags(tags, config.sub_tag_map), texts, config.include_suffix_enabled_sub_tags, whitespaces))
    return structured_document


@contract('annotation.reference_annotator', '_add_idno_text_prefix', 'C08',
          structured_document='Doc', tokens='list[TeiText]', config='ReferenceConfig',
          opaque=True, returns='=structured_document', modifies='TeiText.attrib',
          reads='TeiText.line TeiLine.* TeiText.stripped_text TeiText.whitespace ReferenceConfig.*',
          may_raise='AttributeError IndexError KeyError ValueError')
def add_prefix_spec(structured_document, tokens, config):
    tags = [t.attrib.get(attrib_name('tag', None, 2)) for t in tokens]
    texts = [t.stripped_text for t in tokens]
    whitespaces = [t.whitespace for t in tokens]
    set_sub_tags(structured_document, tokens, get_prefix_extended_token_tags(
        _map_tags(tags, config.sub_tag_map), texts, config.prefix_regex_by_sub_tag_map, whitespaces,
        config.include_prefix_enabled_sub_tags))
    return structured_document


@contract('annotation.reference_annotator', '_merge_sub_tags', 'C08',
          structured_document='Doc', tokens='list[TeiText]', config='ReferenceConfig',
          opaque=True, returns='=structured_document', modifies='TeiText.attrib',
          reads='TeiText.line TeiLine.* TeiText.stripped_text TeiText.whitespace ReferenceConfig.*',
          may_raise='AttributeError IndexError')
def merge_sub_tags_spec(structured_document, tokens, config):
    set_sub_tags(structured_document, tokens, get_extended_line_token_tags(
        sub_tags_of(tokens, config.sub_tag_map), {}, {key: True for key in config.merge_enabled_sub_tags},
        False, False))
    return structured_document


def entities(structured_document):
    """runs of words with the same tag value, a begin tag starts a new one"""
    value = None
    run = None
    for line in structured_document._lines:
        for token in line.non_space_tokens:
            prefix, token_value = split_tag_prefix(token.attrib.get(attrib_name('tag', None, None)))
            if run and (value != token_value or prefix == 'b-'):
                yield run
                run = None
            if not run:
                value = token_value
                run = [token]
            else:
                run.append(token)
    if run:
        yield run


@contract('annotation.reference_annotator', 'ReferencePostProcessingAnnotator.annotate', 'C08',
          self='ReferenceAnnotator', structured_document='Doc', seconds=300)
def reference_annotate_spec(self, structured_document):
    """per entity, in this order"""
    for tokens in entities(structured_document):
        _map_etal_sub_tag(structured_document, tokens, self.config)
        _add_name_text_suffix(structured_document, tokens, self.config)
        _add_idno_text_prefix(structured_document, tokens, self.config)
        _merge_sub_tags(structured_document, tokens, self.config)
    return structured_document
