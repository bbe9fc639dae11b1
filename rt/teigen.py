"""Generation of TEI training documents and tag assignments (JSON-able), and the readers used by
the oracles.  Independent of the code under test."""
from lxml import etree
from common import R, call

TEI_MODULE = 'structured_document.grobid_training_tei'
WORDS = ['a', 'Bb', 'cD', 'x1', '.', ',', '(', '-', '\u00e9', 'fooBar', ' ', ' ', ' ', '  ', '\n',
         '\t', '\u2009', '\u00a0', 'the', 'Results', '12', '3.4', 'e\u0301X', '\u4e2d\u6587', 'aB',
         'abCD', 'ABc', '\u00df\u00dc', '_', 'a_B', "'", '&', '<', '\u01c5x', '/', 'x[y]', '%s', '\u00aax',
         '\U0001d4b3']
EL_NAMES = ['note', 'p', 'q', 'head', 'docTitle', 'titlePart', 'div', 'persName', 'forename']
ATTRS = [['type', 'other'], ['type', 'abstract'], ['n', '1'], ['type', 'x y']]
NS = 'http://www.tei-c.org/ns/1.0'
MAPPINGS = [
    None,
    {},
    {'': 'note[@type="other"]', 't': 'docTitle/titlePart', 'u': 'docTitle', 'v': 'p'},
    {'t': 'p/q', 'u': 'p/head', 'v': 'p/q/head[@type="x y"]', 'w': 'note'},
    {'t': 'p', 'u': 'p/q', 'v': 'p/q/head', 'w': 'p/q[@n="1"]', '': 'p'},
    {'t': 'div[@type="abstract"]', 'u': 'div', 'v': 'div[@type="abstract"]/p', 'w': 'div/p/head',
     '': 'div'},
    {'t': 'p/p', 'u': 'p', 'v': 'p/p/p', 'w': 'q/p', 'title': 'docTitle/titlePart'},
    {'t': '{http://x.org/a/b}p/q', 'u': '{http://x.org/a/b}p', 'v': '{http://x.org/a}p/{u:v/w}q'},
    {'t': 'note[@type="other"]', 'u': 'note[@type="other"]', 'v': 'note[@type="abstract"]/p'},
]
TAG_VALUES = ['t', 'u', 'v', 'w', 'zz', 'title', 'p', 'p/q', 'note[@type="other"]', 'p/q/head', 'b-t',
              'bi', 'i']
PREFIXES = ['', 'b-', 'i-']


def gen_text(g, n=5):
    s = ''.join(g.str(WORDS, .06) for _ in range(g.size(n, 14)))
    s = ''.join(c for c in s if c in '\t\n' or (c >= ' ' and c not in '\ufffe\uffff'))
    return s or None


def gen_el(g, depth, ns=False):
    if g.p(.38):
        e = ['lb', None, None, [], None]
    elif g.p(.04):
        e = [g.choice(['#comment', '?pi']), None, 'c m', [], None]
    else:
        attr = g.choice(ATTRS) if g.p(.4) else None
        e = [g.choice(EL_NAMES), attr, gen_text(g), [], None]
        if depth < 4:
            for _ in range(g.size(2, 5)):
                e[3].append(gen_el(g, depth + 1))
    e[4] = gen_text(g)
    return e


def gen_container(g):
    c = ['front', None, gen_text(g), [], None]
    for _ in range(g.size(4, 12)):
        c[3].append(gen_el(g, 0))
    return c


def gen_tag(g, values=None):
    if g.p(.08):
        return None
    return g.choice(PREFIXES) + g.choice(values or TAG_VALUES)


def gen_tags(g, n=None, p_tag=None, p_sub=None, values=None):
    """list of [token number, level, tag], token numbers are taken modulo the number of tokens"""
    p_tag = g.choice([0, .2, .5, .9]) if p_tag is None else p_tag
    p_sub = g.choice([0, 0, .2, .5]) if p_sub is None else p_sub
    n = n if n is not None else g.size(30, 60)
    out = []
    values = values or (g.r.sample(TAG_VALUES, g.r.randrange(1, 5)))
    for i in range(n):
        if g.p(p_tag):
            out.append([i, None, gen_tag(g, values)])
        if g.p(p_sub):
            out.append([i, 2, gen_tag(g, values)])
    if g.p(.2):
        g.r.shuffle(out)
    return out


def build(tree, ns=None):
    if tree[0][0] in '#?':
        e = etree.Comment('some comment') if tree[0][0] == '#' else etree.PI('pi', 'p="1"')
        e.tail = tree[4] or None
        return e
    e = etree.Element(('{%s}%s' % (ns, tree[0])) if ns and tree[0] != 'lb' else tree[0])
    if tree[1]:
        e.set(tree[1][0], tree[1][1])
    e.text = tree[2] or None
    for c in tree[3]:
        e.append(build(c, ns))
    e.tail = tree[4] or None
    return e


def build_root(containers, before=None, after=None, between=None):
    """root/text/(before, front..., after); the tail of each container is part of its tree"""
    root = etree.Element('tei')
    h = etree.SubElement(root, 'teiHeader')
    h.text = ' head er'
    etree.SubElement(h, 'fileDesc').set('{http://www.w3.org/XML/1998/namespace}id', 'x0')
    text = etree.SubElement(root, 'text')
    text.text = '\n '
    if before is not None:
        text.append(build(before))
    for c in containers:
        text.append(build(c))
    if after is not None:
        text.append(build(after))
    return etree.fromstring(etree.tostring(root))


def text_of(e):
    return ''.join(e.itertext())


def line_texts(container):
    """text between line breaks (without white space), trailing empty lines dropped"""
    out = ['']

    def go(e):
        if not isinstance(e.tag, str):
            return
        if etree.QName(e).localname == 'lb':
            out.append('')
        out[-1] += e.text or ''
        for c in e:
            go(c)
            out[-1] += c.tail or ''
    go(container)
    out = [''.join(x.split()) for x in out]
    while out and not out[-1]:
        out.pop()
    return out


def tokens(doc):
    return [
        t for page in doc.get_pages() for line in doc.get_lines_of_page(page)
        for t in doc.get_all_tokens_of_line(line)]


def lines(doc):
    return [line for page in doc.get_pages() for line in doc.get_lines_of_page(page)]


def make_doc(root, mapping=None, preserve=True, **kwargs):
    cls = R(TEI_MODULE, 'GrobidTrainingTeiStructuredDocument')
    return call(cls, root, tag_to_tei_path_mapping=mapping, preserve_tags=preserve, **kwargs)


def apply_tags(doc, tags):
    toks = tokens(doc)
    if not toks:
        return
    for i, level, tag in tags:
        doc.set_tag(toks[i % len(toks)], tag, level=level)


# ------------------------------------------------------------- documents given as lines of words
# a document is a list of lines, a line a list of [text, tag, sub_tag, preserved_tag, preserved_sub]

def root_from_lines(line_specs, container='front'):
    """TEI XML with the given words (one space between the words of a line)"""
    root = etree.Element('tei')
    text = etree.SubElement(root, 'text')
    front = etree.SubElement(text, container)
    last = None
    for i, line in enumerate(line_specs):
        if i:
            last = etree.SubElement(front, 'lb')
        s = ' '.join(w[0] for w in line)
        if i + 1 < len(line_specs):
            s += '\n' if i % 2 else ' '
        if last is None:
            front.text = s
        else:
            last.tail = s
    return root


def doc_from_lines(line_specs, mapping=None, container='front'):
    """TEI document with the given words; returns (document, list of lists of word tokens)"""
    root = root_from_lines(line_specs, container)
    doc = make_doc(root, mapping, preserve=False, container_node_path='text/' + container)
    ls = lines(doc)
    words = [doc.get_tokens_of_line(line) for line in ls]
    return doc, words
