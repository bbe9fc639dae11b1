"""C22: post processing steps"""
from contracts.lib import contract, lemma, implies, invariant
from contracts.c04 import attrib_name, value_of, tag_or_preserved, store, put_tag
from sciencebeam_trainer_grobid_tools.core.structured_document import add_tag_prefix, split_tag_prefix

CLASSES = {
    'ReplaceConfig': {'path': 'annotation.replace_tags_annotator:ReplaceTagsAnnotatorConfig',
                      'fields': {'replaced_tag_by_tag': 'map[str,opt[str]]'}},
    'ReplaceAnnotator': {'path': 'annotation.replace_tags_annotator:ReplaceTagsPostProcessingAnnotator',
                         'fields': {'config': 'ReplaceConfig'}},
    'MergeConfig': {'path': 'annotation.merge_group_tags_annotator:MergeGroupTagsAnnotatorConfig',
                    'fields': {'get_group_tag_for_tag_fn': 'fn[str,opt[str]]', 'tag_level': 'opt[int]'}},
    'MergeAnnotator': {'path': 'annotation.merge_group_tags_annotator:MergeGroupTagsPostProcessingAnnotator',
                       'fields': {'config': 'MergeConfig'}},
    'ExpandConfig': {'path': 'annotation.expand_to_untagged_lines_annotator:ExpandToUntaggedLinesAnnotatorConfig',
                     'fields': {'enabled_tags': 'set[str]'}},
    'ExpandPrevious': {
        'path': 'annotation.expand_to_untagged_lines_annotator:ExpandToPreviousUntaggedLinesPostProcessingAnnotator',
        'fields': {'config': 'ExpandConfig'}},
    'ExpandFollowing': {
        'path': 'annotation.expand_to_untagged_lines_annotator:ExpandToFollowingUntaggedLinesPostProcessingAnnotator',
        'fields': {'config': 'ExpandConfig'}},
    'SubTagOnly': {'path': 'annotation.sub_tag_annotator:SubTagOnlyAnnotator', 'fields': {'config': 'MatchingConfig'}},
    'RemoveUntagged': {'path': 'annotation.remove_untagged_annotator:RemoveUntaggedPostProcessingAnnotator',
                       'fields': {}},
}
EXTERNS = {
    # the annotation itself: unknown, it may change all tags
    'super().annotate': {'args': ['SubTagOnly', 'Doc'], 'ret': 'Doc', 'reads': ['TeiText.line', 'TeiLine.tokens'],
                         'modifies': ['TeiText.attrib'], 'within': ['sub_tag_only_spec']},
}


@contract('annotation.replace_tags_annotator', 'ReplaceTagsPostProcessingAnnotator.annotate', 'C22',
          self='ReplaceAnnotator', structured_document='Doc')
def replace_tags_spec(self, structured_document):
    """every word whose tag value is in the mapping gets the replacement, with the same prefix; all others keep"""
    for line in structured_document._lines:
        for token in line.non_space_tokens:
            prefix, value = split_tag_prefix(tag_or_preserved(token, None, None))
            if value and value in self.config.replaced_tag_by_tag:
                new = self.config.replaced_tag_by_tag[value]
                put_tag(structured_document, token, add_tag_prefix(new, prefix), None)
    return structured_document


@contract('annotation.merge_group_tags_annotator', 'MergeGroupTagsPostProcessingAnnotator.annotate', 'C22',
          self='MergeAnnotator', structured_document='Doc')
def merge_group_tags_spec(self, structured_document):
    """words without tag (of the level) get the group tag of the tagged word before them"""
    level = self.config.tag_level
    group = None
    for line in structured_document._lines:
        for token in line.non_space_tokens:
            if level and not tag_or_preserved(token, None, None):
                continue
            value = value_of(tag_or_preserved(token, None, level))
            if value:
                group = self.config.get_group_tag_for_tag_fn(value)
            elif group:
                store(token.attrib, attrib_name('tag', None, level), add_tag_prefix(group, 'i-'))
    return structured_document


@contract('annotation.expand_to_untagged_lines_annotator',
          'ExpandToPreviousUntaggedLinesPostProcessingAnnotator.annotate', 'C22',
          self='ExpandPrevious', structured_document='Doc')
def expand_previous_spec(self, structured_document):
    """untagged words directly before a word with an enabled tag get that tag, the first one with begin prefix"""
    name = attrib_name('tag', None, None)
    pending = []
    for line in structured_document._lines:
        for token in line.non_space_tokens:
            value = value_of(tag_or_preserved(token, None, None))
            if not value:
                pending.append(token)
            elif pending:
                if value in self.config.enabled_tags:
                    for i, t in enumerate(pending):
                        store(t.attrib, name, add_tag_prefix(value, 'b-' if i == 0 else 'i-'))
                    store(token.attrib, name, add_tag_prefix(value, 'i-'))
                pending = []
    return structured_document


@contract('annotation.expand_to_untagged_lines_annotator',
          'ExpandToFollowingUntaggedLinesPostProcessingAnnotator.annotate', 'C22',
          self='ExpandFollowing', structured_document='Doc')
def expand_following_spec(self, structured_document):
    """untagged words after a word with an enabled tag continue that tag, up to the next tagged word"""
    current = None
    for line in structured_document._lines:
        for token in line.non_space_tokens:
            value = value_of(tag_or_preserved(token, None, None))
            if value:
                current = value if value in self.config.enabled_tags else None
            elif current:
                store(token.attrib, attrib_name('tag', None, None), add_tag_prefix(current, 'i-'))
    return structured_document


@contract('annotation.remove_untagged_annotator', 'RemoveUntaggedPostProcessingAnnotator.annotate', 'C22',
          self='RemoveUntagged', structured_document='Doc')
def remove_untagged_annotator_spec(self, structured_document):
    structured_document.remove_all_untagged()
    return structured_document


@contract('annotation.sub_tag_annotator', 'SubTagOnlyAnnotator.annotate', 'C22',
          self='SubTagOnly', structured_document='Doc', native=False)
def sub_tag_only_spec(self, structured_document):
    """whatever the annotation does: afterwards every token, spaces included, has the tag it had before (its tag or,
    without one, its preserved tag); unless sub annotations are preserved, the annotation starts without them"""
    tags = [(token, tag_or_preserved(token, None, None))
            for line in structured_document._lines for token in line.tokens]
    for token, _ in tags:
        store(token.attrib, attrib_name('tag', None, None), None)
        if not self.config.preserve_sub_annotations:
            token.attrib.pop(attrib_name('preserved_tag', None, 2), None)
    super().annotate(structured_document)
    for token, tag in tags:
        store(token.attrib, attrib_name('tag', None, None), tag)
    return structured_document
