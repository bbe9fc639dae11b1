"""C06: which documents are saved, and where"""
from itertools import groupby
from contracts.lib import contract, lemma, implies, invariant
from contracts.c05 import annotate_structured_document_inplace_spec, apply_preserved_fields_spec
from sciencebeam_trainer_grobid_tools.core.structured_document import split_tag_prefix
from sciencebeam_trainer_grobid_tools.annotation.checks import (
    get_required_target_value_by_name, get_structured_document_entities_by_name
)
from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    load_grobid_training_tei_structured_document, save_grobid_training_tei_structured_document
)
from sciencebeam_alignment.levenshtein import get_levenshtein_ratio

CLASSES = {
    'CheckFn': {'fields': {}},
    'Target': {'path': 'core.annotation.target_annotation:TargetAnnotation', 'noalloc': True,
               'fields': {'name': 'str', 'value': 'str'}},
}
EXTERNS = {
    'structured_document.grobid_training_tei:load_grobid_training_tei_structured_document': {
        'args': ['str'], 'ret': 'Doc', 'log': 'load'},
    'structured_document.grobid_training_tei:save_grobid_training_tei_structured_document': {
        'args': ['str', 'Doc'], 'ret': 'none', 'log': 'save',
        'reads': ['TeiText.attrib', 'TeiText.line', 'Doc._lines', 'TeiLine.tokens', 'TeiLine.non_space_tokens']},
    'CheckFn.__call__': {
        'args': ['CheckFn', 'Doc'], 'ret': 'bool',
        'reads': ['TeiText.attrib', 'TeiText.line', 'Doc._lines', 'TeiLine.tokens', 'TeiLine.non_space_tokens']},
    'sciencebeam_alignment.levenshtein.get_levenshtein_ratio': {'args': ['str', 'str'], 'ret': 'real'},
}


@contract('annotation.checks', 'get_token_text', 'C06', tokens='list[TeiText]')
def token_text_spec(tokens):
    """the texts with the white space between them"""
    if not tokens:
        return ''
    parts = []
    for token in tokens[:-1]:
        parts.append(token.text)
        parts.append(token.whitespace or '')
    return ''.join(parts + [tokens[-1].text])


@contract('annotation.checks', 'iter_structured_document_entities', 'C06 C20', structured_document='Doc')
def entities_spec(structured_document):
    """(tag value, text) of the runs of words with the same tag value; a begin prefix starts a new run"""
    found = []
    run = []
    value = None
    for line in structured_document._lines:
        for token in line.non_space_tokens:
            prefix, token_value = split_tag_prefix(structured_document.get_tag(token))
            if run and (token_value != value or prefix == 'b-'):
                assert value is not None
                found.append((value, token_text_spec(run)))
                run = []
                value = None
            if token_value:
                value = token_value
                run.append(token)
    if run:
        assert value is not None
        found.append((value, token_text_spec(run)))
    return found


def has_target_path(
        source_structured_document_path, target_structured_document_path, annotator, preserve_tags, fields,
        is_structured_document_passing_checks, always_preserve_fields, preserve_sub_tags, no_preserve_sub_fields,
        failed_target_structured_document_path):
    return target_structured_document_path != ''


@contract('annotation.annotator', 'annotate_structured_document', 'C06 C05',
          source_structured_document_path='str', target_structured_document_path='str',
          annotator='AnyAnnotator', preserve_tags='bool', fields='opt[set[str]]',
          is_structured_document_passing_checks='CheckFn', always_preserve_fields='opt[set[str]]',
          preserve_sub_tags='bool', no_preserve_sub_fields='opt[set[str]]',
          failed_target_structured_document_path='opt[str]', seconds=200,
          requires='has_target_path')
def annotate_structured_document_spec(
        source_structured_document_path, target_structured_document_path, annotator, preserve_tags, fields,
        is_structured_document_passing_checks, always_preserve_fields, preserve_sub_tags, no_preserve_sub_fields,
        failed_target_structured_document_path):
    """saved once: if it passes to the target path, otherwise to the path for failed documents if there is one"""
    doc = load_grobid_training_tei_structured_document(source_structured_document_path)
    if always_preserve_fields:
        apply_preserved_fields_spec(doc, always_preserve_fields)
    annotate_structured_document_inplace_spec(
        doc, annotator, preserve_tags, fields, always_preserve_fields, preserve_sub_tags, no_preserve_sub_fields)
    if is_structured_document_passing_checks(doc):
        save_grobid_training_tei_structured_document(target_structured_document_path, doc)
    elif failed_target_structured_document_path:
        save_grobid_training_tei_structured_document(failed_target_structured_document_path, doc)


def name_of(target):
    return target.name


def first_of(pair):
    return pair[0]


@contract('annotation.checks', 'get_required_target_annotation_by_name', 'C06',
          target_annotations='list[Target]', require_matching_fields='set[str]')
def required_targets_spec(target_annotations, require_matching_fields):
    """the target annotations of the fields, by name"""
    found = {}
    for name, group in groupby(sorted(target_annotations, key=name_of), key=name_of):
        if name in require_matching_fields:
            found[name] = list(group)
    return found


@contract('annotation.checks', 'get_required_target_value_by_name', 'C06',
          target_annotations='list[Target]', require_matching_fields='set[str]',
          opaque=True, returns='dict[str,str]', reads='Target.name Target.value', may_raise='RuntimeError')
def required_values_spec(target_annotations, require_matching_fields):
    """the value of the only target annotation of each field that has one; fields with several are an error"""
    targets = required_targets_spec(target_annotations, require_matching_fields)
    values = {}
    for name in require_matching_fields:
        found = targets.get(name)
        if not found:
            continue
        if len(found) > 1:
            raise RuntimeError('several')
        values[name] = found[0].value
    return values


@contract('annotation.checks', 'get_structured_document_entities_by_name', 'C06', structured_document='Doc',
          opaque=True, returns='dict[str,list[str]]', may_raise='AssertionError',
          reads='TeiText.text TeiText.whitespace TeiText.attrib Doc._lines TeiLine.non_space_tokens')
def entities_by_name_spec(structured_document):
    found = {}
    for name, group in groupby(sorted(entities_spec(structured_document), key=first_of), key=first_of):
        found[name] = [pair[1] for pair in group]
    return found


@contract('annotation.checks', 'is_structured_document_passing_checks', 'C06',
          structured_document='Doc', require_matching_fields='opt[set[str]]', required_fields='opt[set[str]]',
          target_annotations='list[Target]', threshold='real', seconds=200)
def passing_checks_spec(structured_document, require_matching_fields, required_fields, target_annotations,
                        threshold):
    """every required field has a target value, and the joined entities of every field with a target value that is
    required or to be matched are similar enough to it"""
    names = set(require_matching_fields or set()) | set(required_fields or set())
    if not names:
        return True
    if not target_annotations:
        raise RuntimeError('no targets')
    values = get_required_target_value_by_name(target_annotations, names)
    if required_fields and set(required_fields) - set(values.keys()):
        return False
    if not values:
        return True
    entities = get_structured_document_entities_by_name(structured_document)
    for name, value in values.items():
        texts = entities.get(name, [])
        if not texts:
            return False
        if get_levenshtein_ratio(value, ' '.join(texts)) < threshold:
            return False
    return True
