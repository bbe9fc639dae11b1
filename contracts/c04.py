"""C04: the tag store of a training document"""
from contracts.lib import contract, lemma, implies, invariant
from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import TeiSpace, TeiLine
from sciencebeam_trainer_grobid_tools.core.structured_document import get_scoped_attrib_name, strip_tag_prefix

MOD = 'structured_document.grobid_training_tei'


attrib_name = get_scoped_attrib_name
value_of = strip_tag_prefix


@contract('core.structured_document', 'get_scoped_attrib_name', 'C04 C03',
          name='str', scope='opt[str]', level='opt[int]', opaque=True, returns='str')
def get_scoped_attrib_name_spec(name, scope, level):
    """name of the attribute of a scope and level"""
    base = name if not level else 'level' + str(level) + '_' + name
    return base if not scope else scope + '-' + base


@contract('structured_document.grobid_training_tei', '_get_tag_attrib_name', 'C04',
          scope='opt[str]', level='opt[int]')
def get_tag_attrib_name_spec(scope, level):
    return attrib_name('tag', scope, level)


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument.get_tag', 'C04',
          self='Doc', parent='TeiText', scope='opt[str]', level='opt[int]')
def get_tag_spec(self, parent, scope, level):
    return parent.attrib.get(attrib_name('tag', scope, level))


def store(attrib, name, value):
    if value is None:
        attrib.pop(name, None)
    else:
        attrib[name] = value


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument.set_tag_only', 'C04',
          self='Doc', parent='TeiText', tag='opt[str]', scope='opt[str]', level='opt[int]')
def set_tag_only_spec(self, parent, tag, scope, level):
    store(parent.attrib, attrib_name('tag', scope, level), tag)


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument.set_sub_tag_only', 'C04',
          self='Doc', parent='TeiText', tag='opt[str]')
def set_sub_tag_only_spec(self, parent, tag):
    store(parent.attrib, attrib_name('tag', None, 2), tag)


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument.clear_preserved_sub_tag',
          'C04', self='Doc', parent='TeiText')
def clear_preserved_sub_tag_spec(self, parent):
    parent.attrib.pop(attrib_name('preserved_tag', None, 2), None)


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument._set_preserved_tag',
          'C04', self='Doc', parent='TeiText', tag='opt[str]', level='opt[int]')
def set_preserved_tag_spec(self, parent, tag, level):
    store(parent.attrib, attrib_name('preserved_tag', None, level), tag)


@contract('structured_document.grobid_training_tei',
          'GrobidTrainingTeiStructuredDocument._clear_same_preserved_tag_on_same_line',
          'C04', self='Doc', token='TeiText', level='opt[int]')
def clear_same_preserved_tag_spec(self, token, level):
    name = attrib_name('preserved_tag', None, level)
    value = value_of(token.attrib.get(name))
    if not value:
        return None
    for t in token.line.tokens:
        if value_of(t.attrib.get(name)) == value:
            t.attrib.pop(name, None)
    return None


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument.get_preserved_tag',
          'C04', self='Doc', parent='TeiText', scope='opt[str]', level='opt[int]')
def get_preserved_tag_spec(self, parent, scope=None, level=None):
    return parent.attrib.get(attrib_name('preserved_tag', scope, level))


def tag_or_preserved(parent, scope, level):
    tag = parent.attrib.get(attrib_name('tag', scope, level))
    if tag:
        return tag
    return parent.attrib.get(attrib_name('preserved_tag', scope, level))


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument.get_tag_or_preserved_tag',
          'C04', self='Doc', parent='TeiText', scope='opt[str]', level='opt[int]')
def get_tag_or_preserved_tag_spec(self, parent, scope=None, level=None):
    return tag_or_preserved(parent, scope, level)


@contract('structured_document.grobid_training_tei',
          'GrobidTrainingTeiStructuredDocument.get_tag_or_preserved_tag_value',
          'C04', self='Doc', parent='TeiText', scope='opt[str]', level='opt[int]')
def get_tag_or_preserved_tag_value_spec(self, parent, scope=None, level=None):
    return value_of(tag_or_preserved(parent, scope, level))


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument.clear_preserved_tag_only',
          'C04', self='Doc', parent='TeiText', scope='opt[str]', level='opt[int]')
def clear_preserved_tag_only_spec(self, parent, scope=None, level=None):
    parent.attrib.pop(attrib_name('preserved_tag', scope, level), None)


def clear_stale(token, level):
    name = attrib_name('preserved_tag', None, level)
    value = value_of(token.attrib.get(name))
    if value:
        for t in token.line.tokens:
            if value_of(t.attrib.get(name)) == value:
                t.attrib.pop(name, None)


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument.set_tag',
          'C04', self='Doc', parent='TeiText', tag='opt[str]', scope='opt[str]', level='opt[int]',
          opaque=True, returns='none', modifies='TeiText.attrib', reads='TeiText.line TeiLine.tokens',
          may_raise='AttributeError')
def set_tag_spec(self, parent, tag, scope, level):
    """stores the tag; a changed value of a word makes equal preserved tags of the line stale, of the level and,
    for the main level, of the sub level"""
    previous = tag_or_preserved(parent, None, level)
    store(parent.attrib, attrib_name('tag', scope, level), tag)
    if isinstance(parent, TeiSpace) or value_of(tag) == value_of(previous):
        return
    clear_stale(parent, level)
    if level is None:
        clear_stale(parent, 2)


def put_tag(structured_document, token, tag, level):
    structured_document.set_tag(token, tag, scope=None, level=level)


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument.remove_all_untagged',
          'C22', self='Doc')
def remove_all_untagged_spec(self):
    """keeps tagged words and the spaces after them (and before the first word); a line without tokens goes"""
    lines = []
    keep = True
    for line in self._lines:
        tokens = []
        for token in line.tokens:
            if not isinstance(token, TeiSpace):
                keep = bool(token.attrib.get('tag'))
            if keep:
                tokens.append(token)
        if tokens:
            lines.append(TeiLine(tokens))
    self._lines = lines


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument._reset_current_tags',
          'C04', self='Doc')
def reset_current_tags_spec(self):
    for line in self._lines:
        for token in line.tokens:
            token.attrib.pop(attrib_name('tag', None, None), None)
            token.attrib.pop(attrib_name('tag', None, 2), None)
