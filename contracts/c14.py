"""C14: repairing XML: the tags written"""
import xml.sax.saxutils
from lxml import etree
from contracts.lib import contract, lemma, implies, invariant
from sciencebeam_trainer_grobid_tools.utils.xml import FixingHtmlParser

CLASSES = {
    'Buffer': {'path': 'contracts.c14:Buffer', 'fields': {'content': 'str'}},
    'FixingParser': {'path': 'utils.xml:FixingHtmlParser', 'noalloc': True,
                     'fields': {'buffer': 'Buffer', 'tag_stack': 'list[str]'}},
}
EXTERNS = {
    'xml.sax.saxutils.quoteattr': {'args': ['str'], 'ret': 'str'},
    'xml.sax.saxutils.escape': {'args': ['str'], 'ret': 'str'},
    # what is left in the buffer of the parser may be passed to the handlers
    'super().close': {'args': ['FixingParser'], 'ret': 'none', 'reads': ['FixingParser.buffer'],
                      'modifies': ['FixingParser.tag_stack', 'Buffer.content'], 'within': ['close_spec', 'fixed_xml_spec']},
    'lxml.etree.fromstring': {'args': ['str'], 'ret': 'Elem', 'may_raise': ['XMLSyntaxError']},
    'utils.xml:FixingHtmlParser': {'args': [], 'ret': 'FixingParser', 'within': ['fixed_xml_spec']},
    'FixingParser.feed': {'args': ['FixingParser', 'str'], 'ret': 'none', 'reads': ['FixingParser.buffer'],
                          'modifies': ['FixingParser.tag_stack', 'Buffer.content'], 'within': ['fixed_xml_spec']},
}


class Buffer:
    """assumed contract of io.StringIO"""
    def __init__(self):
        self.content = ''

    def write(self, text):
        self.content = self.content + text

    def getvalue(self):
        return self.content


def has_open(self):
    return len(self.tag_stack) > 0


@contract('utils.xml', 'FixingHtmlParser.handle_starttag', 'C14', self='FixingParser', tag='str',
          attrs='list[tuple[str,opt[str]]]')
def start_tag_spec(self, tag, attrs):
    """writes the start tag with all of its attributes, and it is open"""
    self.buffer.write('<' + tag)
    for key, value in attrs:
        self.buffer.write(' ' + key + '=' + xml.sax.saxutils.quoteattr(value or ''))
    self.buffer.write('>')
    self.tag_stack.append(tag)


@contract('utils.xml', 'FixingHtmlParser._close_current_element', 'C14', self='FixingParser')
def close_current_spec(self):
    tag = self.tag_stack[-1]
    self.tag_stack.pop()
    self.buffer.write('</' + tag + '>')


@contract('utils.xml', 'FixingHtmlParser.handle_endtag', 'C14', self='FixingParser', tag='str')
def end_tag_spec(self, tag):
    """closes what is open up to the tag; the innermost one if there is no such tag open; nothing if nothing is open"""
    if not self.tag_stack:
        return
    if tag == self.tag_stack[-1]:
        close_current_spec(self)
        return
    if tag not in self.tag_stack:
        close_current_spec(self)
        return
    while tag != self.tag_stack[-1]:
        close_current_spec(self)
    close_current_spec(self)


@contract('utils.xml', 'FixingHtmlParser.handle_data', 'C14', self='FixingParser', data='str')
def data_spec(self, data):
    self.buffer.write(xml.sax.saxutils.escape(data))


@lemma('C14', self='FixingParser', requires='has_open')
def closing_is_the_innermost(self):
    """what is written is the end tag of the tag opened last, which is no longer open"""
    tag = self.tag_stack[-1]
    n = len(self.tag_stack)
    before = self.buffer.getvalue()
    close_current_spec(self)
    return self.buffer.getvalue() == before + '</' + tag + '>' and len(self.tag_stack) == n - 1


@contract('utils.xml', 'FixingHtmlParser.close', 'C14', self='FixingParser', native=False)
def close_spec(self):
    """everything that is still open is closed, the innermost one first"""
    super().close()
    while len(self.tag_stack) > 0:
        self.buffer.write('</' + self.tag_stack[-1] + '>')
        self.tag_stack.pop()


@contract('utils.xml', 'get_fixed_xml_str', 'C14', xml_str='str', native=False)
def fixed_xml_spec(xml_str):
    """XML that can be parsed is not changed; otherwise what the parser writes until it is closed"""
    try:
        etree.fromstring(xml_str)
        return xml_str
    except etree.XMLSyntaxError:
        pass
    parser = FixingHtmlParser()
    parser.feed(xml_str)
    close_spec(parser)
    return parser.buffer.getvalue()
