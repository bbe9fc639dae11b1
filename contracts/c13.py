"""C13: correcting references: the edits of the tree"""
import re
import regex
from contracts.lib import contract, lemma, implies, invariant
from lxml.builder import E
from sciencebeam_utils.utils.xml import get_text_content
from sciencebeam_trainer_grobid_tools.fix_jats_xml import (
    JatsXpaths, DOI_PATTERN, DOI_TRUNCATE_AT_PATTERN, PII_VALID_PATTERN, PII_OTHER_PATTERN, PMID_PATTERN,
    PMID_FIX_PATTERN, PMCID_PATTERN, WOS_PATTERN, DOI_URL_PREFIX_PATTERN, ARTICLE_TITLE_PATTERN, XLINK_HREF,
    KNOWN_PUB_ID_TYPES, LEFT_QUOTE_CHARS, RIGHT_BY_LEFT_QUOTE_CHAR,
    find_re_pattern_start_end, get_jats_pub_id_element, get_jats_ext_link_element, get_full_cleaned_url,
    add_text_to_previous, add_text_to_tail_prefix, replace_element_with_text, add_next_sibling_element,
    change_annotation_to_matching_text, add_annotation_to_element_text_if_matching,
    add_annotation_to_element_tail_if_matching, has_surrounding_quotes, get_previous_text, set_previous_text
)

EXTERNS = {
    'Elem.itertext': {
        'args': ['Elem'], 'ret': 'list[str]', 'reads': ['Elem.text', 'Elem.tail', 'Elem.children']},
    'regex.finditer': {'args': ['str', 'str'], 'ret': 'list[Match]'},
    're.sub': {'args': ['str', 'str', 'str'], 'ret': 'str'},
    'regex.sub': {'args': ['str', 'str', 'str'], 'ret': 'str'},
}


def in_text(element, find_start_end_fn):
    """what is found is a part of the text; the element is in a tree"""
    if element.getparent() is None:
        return False
    if element.text is None:
        return True
    found = find_start_end_fn(element.text)
    if found is None:
        return True
    return 0 <= found[0] <= found[1] <= len(element.text)


@contract('fix_jats_xml', 'with_element_tail', 'C13', element='Elem', tail='opt[str]')
def with_tail_spec(element, tail):
    element.tail = tail
    return element


@contract('fix_jats_xml', 'get_jats_pub_id_element', 'C13', text='str', pub_id_type='str', tail='opt[str]')
def pub_id_spec(text, pub_id_type, tail=None):
    r = E('pub-id', {'pub-id-type': pub_id_type}, text)
    if tail:
        r.tail = tail
    return r


@contract('fix_jats_xml', 'get_full_cleaned_url', 'C13', text='str')
def cleaned_url_spec(text):
    url = re.sub(r'\s', '', text)
    return url if '://' in url else 'https://' + url


@contract('fix_jats_xml', 'get_jats_ext_link_element', 'C13', text='str', tail='opt[str]', ext_link_type='str',
          url='opt[str]')
def ext_link_spec(text, tail, ext_link_type, url):
    if url is None:
        url = get_full_cleaned_url(text)
    r = E('ext-link', {'ext-link-type': ext_link_type, XLINK_HREF: url}, text)
    if tail:
        r.tail = tail
    return r


@contract('fix_jats_xml', 'get_previous_text', 'C13', current='Elem')
def previous_text_spec(current):
    previous = current.getprevious()
    return current.getparent().text if previous is None else previous.tail


@contract('fix_jats_xml', 'set_previous_text', 'C13', current='Elem', text='opt[str]')
def set_previous_text_spec(current, text):
    previous = current.getprevious()
    if previous is None:
        current.getparent().text = text
    else:
        previous.tail = text


@contract('fix_jats_xml', 'add_text_to_previous', 'C13', current='Elem', text='str')
def add_to_previous_spec(current, text):
    previous = current.getprevious()
    if previous is None:
        current.getparent().text = (current.getparent().text or '') + text
    else:
        previous.tail = (previous.tail or '') + text


@contract('fix_jats_xml', 'add_text_to_tail_prefix', 'C13', current='Elem', text='str')
def add_to_tail_prefix_spec(current, text):
    current.tail = text + (current.tail or '')


@contract('fix_jats_xml', 'replace_element_with_text', 'C13', current='Elem', text='str',
          opaque=True, returns='none', modifies='Elem.*',
          may_raise='ValueError AttributeError')
def replace_with_text_spec(current, text):
    """the text, the children and the tail take the place of the element"""
    add_text_to_previous(current, text)
    for child in list(current):
        current.addprevious(child)
    add_text_to_previous(current, current.tail or '')
    current.getparent().remove(current)


@contract('fix_jats_xml', 'add_next_sibling_element', 'C13', element='Elem', new_element='Elem')
def next_sibling_spec(element, new_element):
    """the tail moves behind the new element and its tail"""
    if element.tail:
        new_element.tail = (new_element.tail or '') + element.tail
        element.tail = None
    element.getparent().insert(element.getparent().index(element) + 1, new_element)


def distinct_with_parent(element, new_element):
    return element.getparent() is not None and element is not new_element


@contract('fix_jats_xml', 'find_re_pattern_start_end', 'C13', text='str', pattern='str', flags='int',
          group_index='int', opaque=True, returns='opt[tuple[int,int]]')
def find_pattern_spec(text, pattern, flags, group_index):
    m = re.search(pattern, text, flags=flags)
    if m:
        return m.start(group_index), m.end(group_index)
    return None


@contract('fix_jats_xml', 'truncate_doi_at_known_tokens', 'C13', doi='str')
def truncate_doi_spec(doi):
    m = re.search(DOI_TRUNCATE_AT_PATTERN, doi)
    if m:
        return doi[:m.start(1)].rstrip().rstrip('.')
    return doi


@contract('fix_jats_xml', 'find_doi_ext_link_start_end', 'C13', text='str')
def find_doi_ext_link_spec(text):
    """up to a repeated doi in brackets"""
    m = re.match(r'(.*)(\[' + DOI_PATTERN + r'\])', text)
    if m:
        return 0, m.start(2)
    return 0, len(text)


@contract('fix_jats_xml', 'has_surrounding_quotes', 'C13', text='str', start='int', end='opt[int]')
def surrounding_quotes_spec(text, start, end):
    if end is None:
        end = len(text)
    if end <= start + 2:
        return False
    first = text[start]
    if first == '"':
        return text[end - 1] == '"'
    if first == '\u2018':
        return text[end - 1] == '\u2019'
    return first == '\u201c' and text[end - 1] == '\u201d'


@contract('fix_jats_xml', 'find_article_title_start_end', 'C13', text='str')
def find_article_title_spec(text):
    found = find_re_pattern_start_end(text, ARTICLE_TITLE_PATTERN)
    if found:
        start, end = found
    else:
        start = 0
        end = len(text)
    if has_surrounding_quotes(text, start, end):
        return start + 1, end - 1
    return start, end


@contract('fix_jats_xml', 'change_annotation_to_matching_text', 'C13', element='Elem',
          find_start_end_fn='fn[str,opt[tuple[int,int]]]', opaque=True, returns='none',
          modifies='Elem.*', may_raise='ValueError AttributeError')
def change_to_matching_spec(element, find_start_end_fn):
    """the element keeps what is found, up to its children; the rest moves in front of it and behind it. Nothing found:
    replaced with its text"""
    text = element.text
    if text is None:
        return
    found = find_start_end_fn(text)
    if not found:
        replace_element_with_text(element, text)
        return
    start, end = found
    if len(element):
        end = len(text)
    element.text = text[start:end]
    add_text_to_previous(element, text[:start])
    add_text_to_tail_prefix(element, text[end:])


@contract('fix_jats_xml', 'add_annotation_to_element_text_if_matching', 'C13', element='Elem',
          find_start_end_fn='fn[str,opt[tuple[int,int]]]', create_element_fn='fn[str,Elem]', as_next_sibling='bool')
def annotate_text_spec(element, find_start_end_fn, create_element_fn, as_next_sibling=False):
    """the part of the text found becomes an element, followed by the rest of the text"""
    text = element.text
    if not text:
        return False
    found = find_start_end_fn(text)
    if not found:
        return False
    start, end = found
    element.text = text[:start]
    new = create_element_fn(text[start:end])
    new.tail = text[end:]
    if as_next_sibling and not len(element):
        add_next_sibling_element(element, new)
    else:
        element.insert(0, new)
    return True


@contract('fix_jats_xml', 'add_annotation_to_element_tail_if_matching', 'C13', element='Elem',
          find_start_end_fn='fn[str,opt[tuple[int,int]]]', create_element_fn='fn[str,Elem]')
def annotate_tail_spec(element, find_start_end_fn, create_element_fn):
    """the part of the tail found becomes an element, followed by the rest of the tail"""
    text = element.tail
    if not text:
        return False
    found = find_start_end_fn(text)
    if not found:
        return False
    start, end = found
    index = element.getparent().index(element) + 1
    new = create_element_fn(text[start:end])
    new.tail = text[end:]
    element.getparent().insert(index, new)
    element.tail = text[:start]
    return True


@contract('fix_jats_xml', 'split_url', 'C13', url='str')
def split_url_spec(url):
    """cut in front of each http(s)://"""
    parts = []
    pos = 0
    for m in regex.finditer(r'https?://', url):
        if m.start() > pos:
            parts.append(url[pos:m.start()])
        pos = m.start()
    if len(url) > pos:
        parts.append(url[pos:])
    return parts


# no text is lost or moved to another place: the text in front of the element, its text, and the text behind it

@lemma('C13', element='Elem', find_start_end_fn='fn[str,opt[tuple[int,int]]]', requires='leaf_in_text',
       reveal='change_to_matching_spec')
def change_keeps_text(element, find_start_end_fn):
    """in front of it, the element, behind it: what was there with the text cut in three (parts_are_the_text, middle_and_rest)"""
    before = get_previous_text(element) or ''
    text = element.text
    after = element.tail or ''
    change_to_matching_spec(element, find_start_end_fn)
    if text is None:
        return element.text is None and (get_previous_text(element) or '') == before and (element.tail or '') == after
    start, end = find_start_end_fn(text)
    return (
        get_previous_text(element) == before + text[:start] and element.text == text[start:end]
        and element.tail == text[end:] + after)


@lemma('C13', text='str', start='int', requires='is_position')
def parts_are_the_text(text, start):
    return text[:start] + text[start:] == text


def is_position(text, start):
    return 0 <= start <= len(text)


@lemma('C13', text='str', start='int', end='int', requires='is_range')
def middle_and_rest(text, start, end):
    return text[start:end] + text[end:] == text[start:]


def is_range(text, start, end):
    return 0 <= start <= end <= len(text)


def leaf_in_text(element, find_start_end_fn):
    """no children; something is found"""
    if not in_text(element, find_start_end_fn):
        return False
    if element.getprevious() is element or element.getparent() is element or len(element):
        return False
    return element.text is None or find_start_end_fn(element.text) is not None


@lemma('C13', element='Elem', new_element='Elem', requires='distinct_with_parent')
def next_sibling_keeps_text(element, new_element):
    """the new element and its tail in front of the tail of the element"""
    own = element.tail or ''
    new = new_element.tail or ''
    try:
        next_sibling_spec(element, new_element)
    except ValueError:
        return True     # not one of the children of its parent: not a tree
    return not element.tail and (new_element.tail or '') == new + own


@contract('fix_jats_xml', 'remove_surrounding_quotes_from_element', 'C13', element='Elem', opaque=True, returns='none',
          modifies='Elem.text Elem.tail', reads='Elem.*', may_raise='AttributeError')
def remove_quotes_spec(element):
    """quotes at the begin and the end move out of the element; an opening one without its closing one as well"""
    text = get_text_content(element)
    if len(text) < 2:
        return
    if has_surrounding_quotes(text):
        if element.text:
            add_text_to_previous(element, element.text[:1])
            element.text = element.text[1:]
        if len(element):
            last = element[-1]
            if last.tail:
                add_text_to_tail_prefix(element, last.tail[-1:])
                last.tail = last.tail[:-1]
    elif text[0] in LEFT_QUOTE_CHARS:
        if RIGHT_BY_LEFT_QUOTE_CHAR[text[0]] not in text[1:] and element.text:
            add_text_to_previous(element, element.text[:1])
            element.text = element.text[1:]


@contract('fix_jats_xml', 'remove_training_comma_from_element', 'C13', element='Elem', opaque=True, returns='none',
          modifies='Elem.text Elem.tail', reads='Elem.*')
def remove_comma_spec(element):
    """commas and spaces at the end, behind the last child, move out of the element"""
    text = get_text_content(element)
    kept = text.rstrip(', ')
    if len(kept) == len(text):
        return
    if len(element):
        last = element[-1]
        if last.tail:
            tail = last.tail
            end = max(0, len(tail) + len(kept) - len(text))
            add_text_to_tail_prefix(element, tail[end:])
            last.tail = tail[:end]


@contract('fix_jats_xml', 'convert_known_pub_id_type_to_lower_case', 'C13', reference_element='Elem', opaque=True,
          returns='none', modifies='Elem.attrib', reads='Elem.*')
def lower_case_types_spec(reference_element):
    for pub_id in reference_element.xpath(JatsXpaths.PUB_ID):
        name = pub_id.attrib.get('pub-id-type')
        if name and name.lower() in KNOWN_PUB_ID_TYPES:
            pub_id.attrib['pub-id-type'] = name.lower()


@contract('fix_jats_xml', 'replace_doi_annotation_with_ext_link_if_url', 'C13', reference_element='Elem', opaque=True,
          returns='none', modifies='Elem.*', may_raise='AttributeError ValueError', seconds=100)
def doi_to_link_spec(reference_element):
    """a doi behind the begin of a url becomes a link with both texts and the children of the doi"""
    for doi in reference_element.xpath(JatsXpaths.DOI):
        before = get_previous_text(doi)
        if not before or not doi.text:
            continue
        found = find_re_pattern_start_end(before, DOI_URL_PREFIX_PATTERN)
        if not found:
            continue
        url = before[found[0]:] + doi.text
        set_previous_text(doi, before[:found[0]])
        link = get_jats_ext_link_element(url, tail=doi.tail)
        link.extend(list(doi))
        doi.getparent().replace(doi, link)


@contract('fix_jats_xml', 'add_annotation_to_element_if_matching', 'C13', element='Elem',
          find_start_end_fn='fn[str,opt[tuple[int,int]]]', create_element_fn='fn[str,Elem]', parse_comment='bool',
          seconds=100)
def annotate_element_spec(element, find_start_end_fn, create_element_fn, parse_comment):
    """in the text, or behind one of the children, or in one of the comments: the first found"""
    if add_annotation_to_element_text_if_matching(element, find_start_end_fn, create_element_fn):
        return True
    for child in element.xpath('./*'):
        if add_annotation_to_element_tail_if_matching(child, find_start_end_fn, create_element_fn):
            return True
    if parse_comment:
        for child in element.xpath('./comment'):
            if add_annotation_to_element_text_if_matching(child, find_start_end_fn, create_element_fn, True):
                break
    return False


@contract('fix_jats_xml', 'find_doi_url_prefix_valid_start_end', 'C13', text='str')
def find_doi_url_prefix_spec(text):
    return find_re_pattern_start_end(text, DOI_URL_PREFIX_PATTERN)


@contract('fix_jats_xml', 'find_pii_valid_start_end', 'C13', text='str')
def find_pii_spec(text):
    return find_re_pattern_start_end(text, PII_VALID_PATTERN)


@contract('fix_jats_xml', 'find_pii_other_start_end', 'C13', text='str')
def find_pii_other_spec(text):
    return find_re_pattern_start_end(text, PII_OTHER_PATTERN)


@contract('fix_jats_xml', 'find_pmid_start_end', 'C13', text='str')
def find_pmid_spec(text):
    return find_re_pattern_start_end(text, PMID_PATTERN)


@contract('fix_jats_xml', 'find_pmid_fix_start_end', 'C13', text='str')
def find_pmid_fix_spec(text):
    return find_re_pattern_start_end(text, PMID_FIX_PATTERN)


@contract('fix_jats_xml', 'add_next_sibling_elements', 'C13', element='Elem', new_elements='list[Elem]',
          opaque=True, returns='none', modifies='Elem.*', may_raise='AttributeError ValueError')
def next_siblings_spec(element, new_elements):
    """one behind the other"""
    last = element
    for new in new_elements:
        add_next_sibling_element(last, new)
        last = new
