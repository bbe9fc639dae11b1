"""C05: which tags survive annotation"""
from contracts.lib import contract, lemma, implies, invariant
from contracts.c04 import attrib_name, value_of, tag_or_preserved, store, put_tag
from sciencebeam_trainer_grobid_tools.annotation.annotator import _preserve_tag_fn

CLASSES = {'AnyAnnotator': {'fields': {}}}
EXTERNS = {
    # any annotator: may change the tags and lines of the document in any way, as a function of the document
    'AnyAnnotator.annotate': {'args': ['AnyAnnotator', 'Doc'], 'ret': 'Doc',
                              'modifies': ['TeiText.attrib', 'TeiText.line', 'Doc._lines', 'TeiLine.tokens',
                                           'TeiLine.non_space_tokens']},
}


def is_kept(tag, include_fields, exclude_fields):
    value = value_of(tag)
    if exclude_fields and value in exclude_fields:
        return False
    if include_fields and value not in include_fields:
        return False
    return True


@contract('annotation.annotator', '_preserve_tag_fn', 'C05',
          existing_tag='opt[str]', token='TeiText', include_fields='opt[set[str]]', exclude_fields='opt[set[str]]')
def preserve_tag_fn_spec(existing_tag, token, include_fields, exclude_fields):
    return existing_tag if is_kept(existing_tag, include_fields, exclude_fields) else None


@contract('annotation.annotator', '_no_preserve_tag_fn', 'C05', existing_tag='opt[str]', token='TeiText')
def no_preserve_tag_fn_spec(existing_tag=None, token=None):
    return None


def drop_tags(doc, keep, level):
    """removes tag and preserved tag of the words and spaces whose tag is not kept"""
    for line in doc._lines:
        for token in line.tokens:
            tag = tag_or_preserved(token, None, level)
            if tag is not None and not keep(tag):
                token.attrib.pop(attrib_name('tag', None, level), None)
                token.attrib.pop(attrib_name('preserved_tag', None, level), None)


@contract('annotation.annotator', '_map_token_tags', 'C05', structured_document='Doc',
          tag_fn='fn[opt[str],TeiText,opt[str]]', level='opt[int]')
def map_token_tags_spec(structured_document, tag_fn, level=None):
    for line in structured_document._lines:
        for token in line.tokens:
            tag = tag_or_preserved(token, None, level)
            new = tag_fn(tag, token)
            if new != tag:
                store(token.attrib, attrib_name('tag', None, level), new)
                token.attrib.pop(attrib_name('preserved_tag', None, level), None)


@contract('annotation.annotator', 'annotate_structured_document_inplace', 'C05',
          structured_document='Doc', annotator='AnyAnnotator', preserve_tags='bool', fields='opt[set[str]]',
          preserve_fields='opt[set[str]]', preserve_sub_tags='bool', no_preserve_sub_fields='opt[set[str]]',
          seconds=120)
def annotate_structured_document_inplace_spec(structured_document, annotator, preserve_tags, fields,
                                              preserve_fields, preserve_sub_tags, no_preserve_sub_fields):
    doc = structured_document
    if preserve_tags or preserve_fields:
        exclude = set() if not fields else set(fields)
        if preserve_fields:
            exclude = exclude - set(preserve_fields)
        drop_tags(doc, lambda tag: is_kept(tag, preserve_fields, exclude), None)
    else:
        drop_tags(doc, lambda tag: False, None)
    if not preserve_sub_tags:
        drop_tags(doc, lambda tag: False, 2)
    elif no_preserve_sub_fields:
        drop_tags(doc, lambda tag: is_kept(tag, None, no_preserve_sub_fields), 2)
    annotator.annotate(doc)


@contract('annotation.annotator', '_apply_preserved_fields', 'C05',
          structured_document='Doc', always_preserve_fields='set[str]')
def apply_preserved_fields_spec(structured_document, always_preserve_fields):
    for line in structured_document._lines:
        for token in line.tokens:
            tag = tag_or_preserved(token, None, None)
            if value_of(tag) in always_preserve_fields:
                put_tag(structured_document, token, tag, None)
