"""C03: tag prefixes"""
from contracts.lib import contract, lemma, implies
from sciencebeam_trainer_grobid_tools.core.structured_document import (
    add_tag_prefix, split_tag_prefix, strip_tag_prefix
)


@contract('core.structured_document', 'split_tag_prefix', 'C03', tag='opt[str]',
          opaque=True, returns='tuple[opt[str],opt[str]]')
def split_tag_prefix_spec(tag):
    if tag is not None and tag[:2] == 'b-':
        return ('b-', tag[2:])
    if tag is not None and tag[:2] == 'i-':
        return ('i-', tag[2:])
    return (None, tag)


@contract('core.structured_document', 'strip_tag_prefix', 'C03', tag='opt[str]')
def strip_tag_prefix_spec(tag):
    return split_tag_prefix(tag)[1]


@contract('core.structured_document', 'add_tag_prefix', 'C03', tag='opt[str]', prefix='opt[str]')
def add_tag_prefix_spec(tag, prefix):
    if tag is None or tag == '':
        return tag
    if prefix is None:
        return tag
    return prefix + tag


@lemma('C03', tag='opt[str]', prefix='opt[str]', reveal='split_tag_prefix_spec')
def value_of_tag_with_added_prefix(tag, prefix):
    """adding a prefix to a value and taking the value is the identity"""
    return implies(prefix == 'b-' or prefix == 'i-',
                   implies(tag is not None and tag != '', strip_tag_prefix(add_tag_prefix(tag, prefix)) == tag))


@lemma('C03', tag='opt[str]', reveal='split_tag_prefix_spec')
def split_and_add_is_identity(tag):
    prefix, value = split_tag_prefix(tag)
    return implies(tag != 'b-' and tag != 'i-', add_tag_prefix(value, prefix) == tag)


@lemma('C03', tag='opt[str]', reveal='split_tag_prefix_spec')
def strip_removes_at_most_a_prefix(tag):
    value = strip_tag_prefix(tag)
    return implies(tag is not None, value == tag or 'b-' + value == tag or 'i-' + value == tag)


@lemma('C03', tag='opt[str]', reveal='split_tag_prefix_spec')
def values_of_tags_without_prefix_letters_are_kept(tag):
    return implies(tag is not None and len(tag) < 2, strip_tag_prefix(tag) == tag)


# ---------------------------------------------------------------- begin and inside form of a tag

@contract('annotation.simple_matching_annotator', 'to_begin_tag', 'C03', tag='opt[str]')
def to_begin_tag_spec(tag):
    prefix, value = split_tag_prefix(tag)
    return add_tag_prefix(value, 'b-') if prefix == 'i-' else tag


@contract('annotation.simple_matching_annotator', 'to_inside_tag', 'C03 C07', tag='opt[str]',
          opaque=True, returns='opt[str]')
def to_inside_tag_spec(tag):
    prefix, value = split_tag_prefix(tag)
    return add_tag_prefix(value, 'i-') if prefix == 'b-' else tag


@contract('annotation.simple_matching_annotator', 'to_begin_inside_tags', 'C03 C07', tag='opt[str]', length='int',
          opaque=True, returns='list[opt[str]]')
def to_begin_inside_tags_spec(tag, length):
    """a begin tag followed by inside tags; a tag without prefix is repeated"""
    if length == 0:
        return []
    prefix, value = split_tag_prefix(tag)
    if not prefix:
        return [tag] * length
    return [add_tag_prefix(value, 'b-')] + [add_tag_prefix(value, 'i-')] * (length - 1)


@contract('annotation.simple_matching_annotator', 'get_merged_begin_inside_tags_of_same_tag_value', 'C03 C07',
          tags='list[opt[str]]', opaque=True, returns='list[opt[str]]')
def merged_begin_inside_spec(tags):
    """the first tag is kept, the others become inside tags of its value, if it has a prefix"""
    if not tags:
        return []
    prefix, value = split_tag_prefix(tags[0])
    if not prefix:
        return tags
    return [tags[0]] + [add_tag_prefix(value, 'i-')] * (len(tags) - 1)


@contract('annotation.reference_annotator', '_map_tag', 'C03 C08', tag='opt[str]', tag_map='map[str,str]')
def map_tag_spec(tag, tag_map):
    """the value is mapped if the map has it, the prefix stays"""
    prefix, value = split_tag_prefix(tag)
    if not value:
        return value
    return add_tag_prefix(tag_map[value] if value in tag_map else value, prefix)


@contract('annotation.reference_annotator', '_map_tags', 'C03 C08', tags='list[opt[str]]', tag_map='map[str,str]')
def map_tags_spec(tags, tag_map):
    return [map_tag_spec(tag, tag_map) for tag in tags]


@lemma('C03', tag='opt[str]', reveal='split_tag_prefix_spec')
def begin_form_keeps_the_value(tag):
    return implies(tag != 'i-', strip_tag_prefix(to_begin_tag_spec(tag)) == strip_tag_prefix(tag))


@lemma('C03', tag='opt[str]', reveal='split_tag_prefix_spec')
def inside_form_keeps_the_value(tag):
    return implies(tag != 'b-', strip_tag_prefix(to_inside_tag_spec(tag)) == strip_tag_prefix(tag))


@lemma('C03', tag='opt[str]', reveal='split_tag_prefix_spec')
def begin_and_inside_forms_leave_other_tags(tag):
    prefix, _ = split_tag_prefix(tag)
    return implies(prefix is None, to_begin_tag_spec(tag) == tag and to_inside_tag_spec(tag) == tag)


@lemma('C03', tag='opt[str]', tag_map='map[str,str]', reveal='split_tag_prefix_spec')
def mapping_keeps_the_prefix(tag, tag_map):
    prefix, value = split_tag_prefix(tag)
    mapped = map_tag_spec(tag, tag_map)
    return implies(value and value not in tag_map, mapped == tag)
