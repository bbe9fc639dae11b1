"""C23: target values: what is extracted of the text of an element"""
import re
from contracts.lib import contract, lemma, implies, invariant
from sciencebeam_trainer_grobid_tools.utils.string import is_blank
from sciencebeam_trainer_grobid_tools.core.annotation.target_annotation import (
    re_compile_or_none, match_xpaths, get_stripped_text_content, strip_whitespace, extract_using_regex,
    TargetAnnotation
)
from sciencebeam_trainer_grobid_tools.utils.xml import iter_text_content_and_exclude
from sciencebeam_trainer_grobid_tools.annotation.target_annotation import (
    contains_raw_text, is_ends_with_word, is_starts_with_word
)

CLASSES = {
    'Pattern': {'noalloc': True, 'fields': {}},
    'FieldTarget': {'path': 'core.annotation.target_annotation:TargetAnnotation',
                    'fields': {'value': 'str', 'name': 'str', 'match_multiple': 'bool', 'bonding': 'bool',
                               'require_next': 'bool', 'sub_annotations': 'none'}},
}
EXTERNS = {
    'core.annotation.target_annotation:re_compile_or_none': {
        'args': ['opt[str]'], 'ret': 'opt[Pattern]', 'within': ['sub_annotations_spec']},
    'core.annotation.target_annotation:match_xpaths': {
        'args': ['Elem', 'list[str]'], 'ret': 'list[Elem]', 'within': ['sub_annotations_spec']},
    'core.annotation.target_annotation:get_stripped_text_content': {
        'args': ['Elem'], 'ret': 'str', 'within': ['sub_annotations_spec']},
    'core.annotation.target_annotation:strip_whitespace': {
        'args': ['str'], 'ret': 'str', 'within': ['sub_annotations_spec']},
    'core.annotation.target_annotation:extract_using_regex': {
        'args': ['str', 'Pattern'], 'ret': 'str', 'within': ['sub_annotations_spec']},
    'Elem.iterchildren': {'model': 'contracts.c23:children_of', 'ret': 'list[Elem]'},
}


def children_of(element):
    return element.children


@contract('annotation.target_annotation', 'contains_raw_text', 'C23', element='Elem', opaque=True, returns='bool',
          reads='Elem.text Elem.tail Elem.children')
def contains_raw_text_spec(element):
    """text that is not blank: of the element, behind a child, or in a child that has children"""
    if not is_blank(element.text):
        return True
    for child in element:
        if not is_blank(child.tail):
            return True
        if len(child) and contains_raw_text(child):
            return True
    return False


@contract('utils.xml', 'iter_text_content_and_exclude', 'C23', node='Elem', exclude='list[Elem]', opaque=True,
          returns='list[str]', reads='Elem.text Elem.tail Elem.children')
def text_content_spec(node, exclude):
    """the texts in document order; not of excluded elements, but what is behind them"""
    texts = []
    if not exclude:
        for text in node.itertext():
            texts.append(text)
        return texts
    if node.text is not None:
        texts.append(node.text)
    for child in node.iterchildren():
        if child not in exclude:
            for text in iter_text_content_and_exclude(child, exclude=exclude):
                texts.append(text)
        if child.tail:
            texts.append(child.tail)
    return texts


@contract('annotation.target_annotation', 'is_ends_with_word', 'C23', text='str')
def ends_with_word_spec(text):
    return re.search(r'\w$', text) is not None


@contract('annotation.target_annotation', 'is_starts_with_word', 'C23', text='str')
def starts_with_word_spec(text):
    return re.match(r'^\w.*', text) is not None


@contract('annotation.target_annotation', 'get_raw_text_content', 'C23', element='Elem', exclude_childrens='list[Elem]')
def raw_text_spec(element, exclude_childrens):
    """all of the texts, with a space between two words"""
    texts = []
    for text in iter_text_content_and_exclude(element, exclude=exclude_childrens):
        if texts and is_ends_with_word(texts[-1]) and is_starts_with_word(text):
            texts.append(' ')
        texts.append(text)
    return ''.join(texts)


@contract('annotation.target_annotation', 'is_wildcard_children_xpaths', 'C23', children_xpaths='opt[list[str]]')
def is_wildcard_spec(children_xpaths):
    return children_xpaths == ['.//*']


@contract('core.annotation.target_annotation', 'get_prefixed_dict_values', 'C23', d='dict[str,str]', key_prefix='str')
def prefixed_values_spec(d, key_prefix):
    return {k[len(key_prefix):]: v for k, v in d.items() if k.startswith(key_prefix)}


@contract('core.annotation.target_annotation', 'get_sub_mapping', 'C23', mapping='dict[str,str]', tag='str')
def sub_mapping_spec(mapping, tag):
    """the fields named tag.sub.name"""
    prefix = tag + '.sub' + '.'
    return {k: v for k, v in prefixed_values_spec(mapping, prefix).items() if '.' not in k}


@contract('core.annotation.target_annotation', 'exclude_parents', 'C23', children='list[Elem]')
def exclude_parents_spec(children):
    """those that are not the parent of another one"""
    parents = set()
    for child in children:
        if child.getparent() is not None:
            parents.add(child.getparent())
    return [child for child in children if child not in parents]


@contract('core.annotation.target_annotation', 'parse_xpaths', 'C23', s='opt[str]')
def parse_xpaths_spec(s):
    """one in each line"""
    if not s:
        return None
    return [x.strip() for x in s.strip().split('\n') if x]


@contract('core.annotation.target_annotation', 'extract_sub_annotations', 'C23', parent_node='Elem',
          sub_xpaths='dict[str,str]', mapping='map[str,str]', parent_key='str', native=False)
def sub_annotations_spec(parent_node, sub_xpaths, mapping, parent_key):
    """of every sub field, in order, the elements its path selects in this element: one sub annotation each, named
    after the sub field, with the stripped text (what its regular expression extracts), unless that is empty"""
    if not sub_xpaths:
        return None
    result = []
    for name, path in sub_xpaths.items():
        pattern = re_compile_or_none(mapping.get(parent_key + '.sub.' + name + '.extract-regex'))
        for element in match_xpaths(parent_node, [path]):
            value = get_stripped_text_content(element)
            if value:
                value = strip_whitespace(value).strip()
                if pattern is not None and value:
                    value = extract_using_regex(value, pattern)
            if value:
                result.append(TargetAnnotation(value, name))
    return result
