"""C01, C02: writing tokens back"""
import re
import regex
from contracts.lib import contract, lemma, implies, invariant
from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    _get_common_path, _get_tag_required_path, _path_starts_with, _split_path, XmlTreeWriter,
    _parse_tag_expression, TagExpression, TeiLine, TeiText, TeiSpace, _tokenize_text, _get_element_at_path, _append_text, LineBuffer, _node_to_tag_expression, has_direct_text, _iter_extract_lines_from_element, _iter_split_lower_to_upper_case
)
from sciencebeam_trainer_grobid_tools.core.structured_document import split_tag_prefix, add_tag_prefix, strip_tag_prefix, get_scoped_attrib_name
from sciencebeam_trainer_grobid_tools.utils.string import is_blank
from lxml.builder import E

MOD = 'structured_document.grobid_training_tei'

CLASSES = {
    'TreeWriter': {'path': 'structured_document.grobid_training_tei:XmlTreeWriter',
                   'fields': {'current_element': 'opt[Elem]', 'current_path': 'list[str]'}},
    'LineBuffer': {'path': 'structured_document.grobid_training_tei:LineBuffer',
                   'fields': {'tokens': 'list[TeiText]', 'next_tag': 'opt[str]', 'next_sub_tag': 'opt[str]'}},
    'TagExpression': {'path': 'structured_document.grobid_training_tei:TagExpression',
                      'fields': {'tag': 'str', 'attrib': 'dict[str,str]'}},
}

# the writer of the document: its calls in order are the observable effect of _lines_to_tei
EXTERNS = {
    'structured_document.grobid_training_tei:XmlTreeWriter.append': {
        'args': ['any', 'Elem'], 'names': ['self', 'element'], 'ret': 'none', 'log': 'writer', 'within': ['lines_to_tei_spec'],
        'entry': ['element', [], '']},
    'structured_document.grobid_training_tei:XmlTreeWriter.append_text': {
        'args': ['any', 'str'], 'names': ['self', 'text'], 'ret': 'none', 'log': 'writer',
        'within': ['lines_to_tei_spec'], 'entry': ['text', [], 0]},
    'structured_document.grobid_training_tei:XmlTreeWriter.require_path': {
        'args': ['any', 'list[str]', 'TeiText'], 'names': ['self', 'required_path', 'token'], 'ret': 'none',
        'log': 'writer', 'within': ['lines_to_tei_spec'], 'entry': ['path', 0, '']},
    'structured_document.grobid_training_tei:XmlTreeWriter.require_path_or_below': {
        'args': ['any', 'list[str]', 'TeiText'], 'names': ['self', 'required_path', 'token'], 'ret': 'none',
        'log': 'writer', 'within': ['lines_to_tei_spec'], 'entry': ['path or below', 0, '']},
    'regex.split': {'args': ['str', 'str'], 'ret': 'list[str]'},
    're.match': {'args': ['str', 'str'], 'ret': 'opt[Match]'},
    # a group that takes no part as an empty one: only looked at as a condition
    'Match.group': {'args': ['Match', 'int'], 'ret': 'str'},
    'Match.groups': {'args': ['Match'], 'ret': 'list[str]'},
}


@contract('structured_document.grobid_training_tei', '_get_common_path', 'C02', path1='list[str]', path2='list[str]')
def common_path_spec(path1, path2):
    """the elements both paths start with"""
    if path1 == path2:
        return path1
    common = []
    for i in range(max(len(path1), len(path2))):
        if i >= len(path1) or i >= len(path2) or path1[i] != path2[i]:
            break
        common.append(path1[i])
    return common


@contract('structured_document.grobid_training_tei', '_append_text', 'C01', element='Elem', text='opt[str]')
def append_text_spec(element, text):
    """the text is added at the end of the content of the element"""
    if not text:
        return None
    if len(element):
        last = element[-1]
        last.tail = (last.tail or '') + text
    else:
        element.text = (element.text or '') + text
    return None


@contract('structured_document.grobid_training_tei', '_get_last_child_or_none', 'C01', element='Elem')
def last_child_spec(element):
    return element[-1] if len(element) else None


@contract('structured_document.grobid_training_tei', '_path_starts_with', 'C02', path1='list[str]',
          path2='list[str]', opaque=True, returns='bool')
def path_starts_with_spec(path1, path2):
    return common_path_spec(path1, path2 or []) == path1


@contract('structured_document.grobid_training_tei', '_split_path', 'C02', path_str='str')
def split_path_spec(path_str):
    """at slashes outside of {...}: of the library regex"""
    return regex.split(r'(?<!\{[^}]*)/', path_str)


@contract('structured_document.grobid_training_tei', '_get_tag_required_path', 'C02', tag='opt[str]',
          tag_to_tei_path_mapping='dict[str,str]', opaque=True, returns='list[str]')
def required_path_spec(tag, tag_to_tei_path_mapping):
    """the path mapped to the tag, the tag itself without a mapping; the default path without a tag"""
    if tag:
        return _split_path(tag_to_tei_path_mapping.get(tag, tag))
    default = tag_to_tei_path_mapping.get('')
    return _split_path(default) if default else []


@contract('structured_document.grobid_training_tei', '_lines_to_tei', 'C01 C02', parent='Elem', lines='list[TeiLine]',
          tag_to_tei_path_mapping='dict[str,str]', seconds=200)
def lines_to_tei_spec(parent, lines, tag_to_tei_path_mapping):
    """writes the texts of the tokens in order, with a line break element between lines; words at the path of their
    sub tag or tag, which is left and entered again at the begin of an entity; spaces with the word that follows"""
    writer = XmlTreeWriter(parent)
    spaces = []
    begun = set()
    for i, line in enumerate(lines):
        if i > 0:
            writer.append(E('lb'))
        for token in line.tokens:
            main = token.attrib.get('tag')
            if not main:
                main = token.attrib.get('preserved_tag')
            sub = token.attrib.get(get_scoped_attrib_name('tag', level=2))
            if not sub:
                sub = token.attrib.get(get_scoped_attrib_name('preserved_tag', level=2))
            main_prefix, main_value = split_tag_prefix(main)
            sub_prefix, sub_value = split_tag_prefix(sub)
            if not token.stripped_text:
                if main_prefix == 'b-':
                    begun.add(main_value)
                spaces.append(token)
                continue
            main_path = _get_tag_required_path(main_value, tag_to_tei_path_mapping)
            path = main_path
            sub_path = []
            if sub:
                sub_path = _get_tag_required_path(sub_value, tag_to_tei_path_mapping)
                if _path_starts_with(main_path, sub_path):
                    path = sub_path
                else:
                    sub_path = []
                    sub_prefix = None
            if main_prefix == 'b-':
                writer.require_path(main_path[:-1], token=token)
            elif main_value in begun:
                writer.require_path([], token=token)
            elif sub_prefix == 'b-':
                writer.require_path_or_below(sub_path[:-1], token=token)
            begun.clear()
            for space in spaces:
                writer.require_path_or_below(path, token=space)
                writer.append_text(space.text)
            spaces = []
            writer.require_path(path, token=token)
            writer.append_text(token.text)
    for space in spaces:
        writer.require_path_or_below([], token=space)
        writer.append_text(space.text)
    return parent


@contract('structured_document.grobid_training_tei', '_get_element_at_path', 'C02', current_element='opt[Elem]',
          current_path='list[str]', required_path='list[str]', token='TeiText', seconds=100)
def element_at_path_spec(current_element, current_path, required_path, token):
    """from an element at the current path: up to the common path and down again with new elements"""
    if required_path == current_path:
        return current_element, current_path
    common = _get_common_path(current_path, required_path)
    element = current_element
    for _ in range(len(current_path) - len(common)):
        element = element.getparent()
    path = common
    for name in required_path[len(common):]:
        try:
            child = _parse_tag_expression(name).create_node()
        except ValueError as e:
            raise ValueError() from e
        element.append(child)
        element = child
        path = path + [name]
    return element, path


@contract('structured_document.grobid_training_tei', 'has_direct_text', 'C01', element='Elem',
          opaque=True, returns='bool', reads='Elem.text Elem.tail Elem.children')
def has_direct_text_spec(element):
    if not is_blank(element.text):
        return True
    for child in element:
        if not is_blank(child.tail):
            return True
    return False


@contract('structured_document.grobid_training_tei', '_iter_split_lower_to_upper_case', 'C01', text='str')
def split_case_spec(text):
    """the text cut where an upper case letter follows a lower case letter"""
    parts = []
    start = 0
    for i in range(len(text)):
        if i > 0 and text[i].isupper() and text[i - 1].islower():
            parts.append(text[start:i])
            start = i
    if start < len(text):
        parts.append(text[start:])
    return parts


@contract('structured_document.grobid_training_tei', '_tokenize_text', 'C01', text='str')
def tokenize_spec(text):
    """cut at every character that is not part of a word, and at changes to upper case"""
    return [part for word in regex.split(r'(\W)', text) for part in _iter_split_lower_to_upper_case(word) if part]


@contract('structured_document.grobid_training_tei', '_parse_tag_expression', 'C02', tag_expression='str')
def parse_tag_expression_spec(tag_expression):
    """name, or name[@attribute="value"]"""
    match = re.match(r'^([^\[]+)(\[@?([^=]+)="(.+)"\])?$', tag_expression)
    if not match:
        raise ValueError()
    attrib = {}
    if match.group(2):
        attrib[match.group(3)] = match.group(4)
    return TagExpression(match.group(1), attrib)


@contract('structured_document.grobid_training_tei', 'TagExpression.create_node', 'C02', self='TagExpression')
def create_node_spec(self):
    try:
        return E(self.tag, self.attrib)
    except ValueError as e:
        raise ValueError() from e


@contract('structured_document.grobid_training_tei', 'XmlTreeWriter.append', 'C01 C02', self='TreeWriter', element='Elem')
def writer_append_spec(self, element):
    self.current_element.append(element)


@contract('structured_document.grobid_training_tei', 'XmlTreeWriter.append_text', 'C01', self='TreeWriter', text='str',
          requires='writes_somewhere')
def writer_append_text_spec(self, text):
    _append_text(self.current_element, text)


def writes_somewhere(self, text):
    return self.current_element is not None


@contract('structured_document.grobid_training_tei', 'XmlTreeWriter.require_path', 'C02', self='TreeWriter',
          required_path='list[str]', token='TeiText')
def writer_require_path_spec(self, required_path, token):
    self.current_element, self.current_path = element_at_path_spec(
        self.current_element, self.current_path, required_path, token)


@contract('structured_document.grobid_training_tei', 'XmlTreeWriter.require_path_or_below', 'C02', self='TreeWriter',
          required_path='list[str]', token='TeiText')
def writer_require_path_or_below_spec(self, required_path, token):
    """leaves what is not on the required path, does not enter anything"""
    path = _get_common_path(self.current_path, required_path)
    self.current_element, self.current_path = element_at_path_spec(
        self.current_element, self.current_path, path, token)


@contract('structured_document.grobid_training_tei', '_to_text_token', 'C01', text='str', tag='opt[str]',
          sub_tag='opt[str]')
def to_text_token_spec(text, tag=None, sub_tag=None):
    attrib = {}
    if tag is not None:
        attrib['tag'] = tag
    if sub_tag is not None:
        attrib[get_scoped_attrib_name('tag', level=2)] = sub_tag
    if not text.strip():
        return TeiSpace(text, attrib=attrib)
    return TeiText(text, attrib=attrib)


@contract('structured_document.grobid_training_tei', 'TokenWriter.set_next_tag', 'C01', self='LineBuffer', tag='opt[str]',
          begin_tag='bool')
def set_next_tag_spec(self, tag, begin_tag):
    self.next_tag = add_tag_prefix(tag, 'b-' if begin_tag else 'i-')


@contract('structured_document.grobid_training_tei', 'TokenWriter.set_next_sub_tag', 'C01', self='LineBuffer',
          tag='opt[str]', begin_tag='bool')
def set_next_sub_tag_spec(self, tag, begin_tag):
    self.next_sub_tag = add_tag_prefix(tag, 'b-' if begin_tag else 'i-')


@contract('structured_document.grobid_training_tei', 'TokenWriter.append_tokenized_text_token', 'C01', self='LineBuffer',
          tokenized_text_token='str')
def append_token_spec(self, tokenized_text_token):
    """the token has the text and the next tags, which continue; the whitespace of the token before it is the token if
    it is a space"""
    text = tokenized_text_token
    if self.tokens:
        self.tokens[-1].whitespace = '' if text.strip() else text
    self.tokens.append(to_text_token_spec(text, self.next_tag, self.next_sub_tag))
    self.next_tag = add_tag_prefix(strip_tag_prefix(self.next_tag), 'i-')
    self.next_sub_tag = add_tag_prefix(strip_tag_prefix(self.next_sub_tag), 'i-')


@contract('structured_document.grobid_training_tei', 'TokenWriter.append_text', 'C01', self='LineBuffer',
          text='opt[str]', opaque=True, returns='none', modifies='LineBuffer.* TeiText.*')
def append_text_tokens_spec(self, text):
    """a token for each part of the text, in order"""
    if text:
        for part in _tokenize_text(text):
            append_token_spec(self, part)


@contract('structured_document.grobid_training_tei', 'LineBuffer.flush', 'C01', self='LineBuffer')
def flush_spec(self):
    """a line of the tokens written, and starts with none"""
    line = TeiLine(self.tokens)
    self.tokens = []
    return line


@contract('structured_document.grobid_training_tei', 'GrobidTrainingTeiStructuredDocument._preserve_current_tags',
          'C01 C02', self='Doc')
def preserve_current_tags_spec(self):
    """the tags and sub tags of the input are kept, as the tags mapped to them"""
    to_tag = {path: tag for tag, path in self._tag_to_tei_path_mapping.items()}
    for line in self._lines:
        for token in line.tokens:
            for level in (None, 2):
                prefix, value = split_tag_prefix(token.attrib.get(get_scoped_attrib_name('tag', level=level)))
                tag = add_tag_prefix(to_tag.get(value, value), prefix)
                if tag is None:
                    token.attrib.pop(get_scoped_attrib_name('preserved_tag', level=level), None)
                else:
                    token.attrib[get_scoped_attrib_name('preserved_tag', level=level)] = tag


@contract('structured_document.grobid_training_tei', '_node_to_tag_expression', 'C02 C01', node='Elem', opaque=True,
          returns='str', reads='Elem.tag Elem.attrib', may_raise='ValueError')
def tag_expression_spec(node):
    """the name and the attribute of an element"""
    if not node.attrib:
        return node.tag
    if len(node.attrib) > 1:
        raise ValueError()
    key, value = list(node.attrib.items())[0]
    return node.tag + '[@' + key + '="' + value + '"]'


@contract('structured_document.grobid_training_tei', '_iter_extract_lines_from_element', 'C01', parent_element='Elem',
          line_buffer='LineBuffer', current_path='list[str]', root_paths='set[str]',
          parent_tagged_path='none', begin_tag='bool', opaque=True, returns='list[TeiLine]',
          reads='Elem.*', modifies='LineBuffer.* TeiText.* TeiLine.*', may_raise='ValueError', seconds=100)
def extract_lines_spec(parent_element, line_buffer, current_path, root_paths, parent_tagged_path, begin_tag):
    """all of the text of the element and its tail, in order, as tokens; a line ends at each line break element. An
    element with a text of its own, or mapped, begins a tag, or a sub tag within a tag"""
    lines = []
    outer_tag = line_buffer.next_tag
    own = '/'.join(current_path) if current_path else None
    begins = has_direct_text(parent_element)
    if not begins:
        begins = own in root_paths
    if begins:
        if outer_tag:
            line_buffer.set_next_sub_tag(own)
        else:
            line_buffer.set_next_tag(own)
    line_buffer.append_text(parent_element.text)
    for child in parent_element:
        if child.tag == 'lb':
            lines.append(line_buffer.flush())
        path = current_path + [_node_to_tag_expression(child)]
        for line in _iter_extract_lines_from_element(
                child, line_buffer, path, root_paths=root_paths, parent_tagged_path=parent_tagged_path,
                begin_tag=begin_tag):
            lines.append(line)
    if outer_tag:
        line_buffer.next_sub_tag = None
    else:
        line_buffer.next_tag = None
    line_buffer.append_text(parent_element.tail)
    return lines


@contract('structured_document.grobid_training_tei', '_iter_extract_lines_from_container_elements', 'C01',
          container_elements='list[Elem]', root_paths='set[str]', seconds=100)
def extract_lines_from_containers_spec(container_elements, root_paths=None):
    """the lines of all of the containers, in order; a line ends with its container"""
    line_buffer = LineBuffer()
    lines = []
    for container in container_elements:
        for line in _iter_extract_lines_from_element(container, line_buffer, [], root_paths=root_paths):
            lines.append(line)
        if line_buffer.tokens:
            lines.append(line_buffer.flush())
    return lines
