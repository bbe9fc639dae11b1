"""C13: fixing JATS references"""
import os
from lxml import etree
from common import R, Sub, call
from pipeline_util import scratch

ID = 'C13'
M = 'fix_jats_xml'
FILES = ['sciencebeam_trainer_grobid_tools/fix_jats_xml.py', 'sciencebeam_trainer_grobid_tools/utils/xml.py']
XL = '{http://www.w3.org/1999/xlink}href'
TXT = ['', ' ', 'abc', 'PMID: 1234567', 'PMC1234567', 'PMCID: PMC123', 'doi: 10.1234/abc.def',
       '10.1234/abc [pii] x', 'S0140-6736(05)12345-6 ', 'https://doi.org/', 'http://dx.doi.org/10.1234/x',
       'http://a.com http://b.com', '[pii]', ', ', '"', '\u201c', '\u201d', '\u2018', '\u2019', 'foo;',
       '; PMC12 ', 'WOS:123456789012345', '10.1234/xyz PubMed', '.', ' 10.1234/abc [doi]',
       '10.1234/abc 10.1234/abc', ']', '[10.1234/abc]', 'S0140673605123456', '\n', 'https : / / doi . org / ',
       '1234567', 'doi:S0140-6736 [pii]', ' Some title', 'The "quoted" one', '(2001)', '\u00e9\U0001d4b3',
       '10.1234/a.b(c)d.', '10.1000.12/x;', '10.1234/x[y]]', ' Epub 2010', '10.1234/xy \u201cxy\u201d [pii]',
       'PMID: 12 PMID: 34', 'pmc99', 'http://a.comwhttp://b.com', 'doi.org/', ',', '%', '10.1234/',
       '10.1234/ab 1234/ab [pii]', '; pmc12', '10.1234/abc (PubMed', '10.1234/x Accessed 2']
NAMES = ['pub-id', 'pub-id', 'article-title', 'article-title', 'ext-link', 'ext-link', 'comment', 'italic', 'year']
TYPES = ['doi', 'doi', 'DOI', 'pii', 'pmid', 'pmcid', 'other', 'PMID', 'Pii', 'x', 'isbn', '']


def txt(g, n=3):
    s = ''.join(g.str(TXT, .05) for _ in range(g.size(n, 8)))
    return ''.join(c for c in s if c in '\t\n' or c >= ' ') or None


def gen_el(g, d=0):
    name = g.choice(NAMES)
    if g.p(.04):
        return [g.choice(['#comment', '?pi']), {}, None, [], txt(g)]
    e = [name, {}, txt(g), [], None]
    if name == 'pub-id' and g.p(.95):
        e[1]['pub-id-type'] = g.choice(TYPES)
    if d < 2:
        for _ in range(g.choice([0, 0, 0, 1, 2])):
            e[3].append(gen_el(g, d + 1))
    if name == 'ext-link' and g.p(.85):
        e[1][XL] = g.choice([e[2] or 'http://x.com', e[2] or '', 'http://a.com http://b.com', 'https://doi.org/10.1234/x',
                             'https://doi.org/10.1234/x [10.1234/x]'])
    e[4] = txt(g)
    return e


def gen_ref(g):
    e = ['ref', {}, txt(g, 1), [], None]
    if g.p(.7):
        e[1]['id'] = 'r%d' % g.r.randrange(20)
    for _ in range(g.choice([1, 1, 1, 2])):
        m = ['mixed-citation', {}, txt(g), [], txt(g, 1)]
        for _ in range(g.size(3, 8)):
            m[3].append(gen_el(g))
        e[3].append(m)
    if g.p(.1):
        e[3].append(gen_el(g))
    return e


def build(t):
    if t[0][0] in '#?':
        e = etree.Comment('some 10.1234/x comment') if t[0][0] == '#' else etree.PI('pi', 'p="1"')
        e.tail = t[4] or None
        return e
    e = etree.Element(t[0])
    for k, v in t[1].items():
        e.set(k, v)
    e.text = t[2] or None
    for c in t[3]:
        e.append(build(c))
    e.tail = t[4] or None
    return e


def parse(t):
    return etree.fromstring(etree.tostring(build(t)))


def text(e):
    return ''.join(e.itertext())


def check_ref(t):
    if t[0] != 'ref':
        return None
    e = parse(t)
    before = text(e)
    names = sorted(str(c.tag) for c in e.iter() if c.tag not in ('pub-id', 'ext-link', 'article-title'))
    src = etree.tostring(e, encoding='unicode')
    r = call(R(M, 'fix_reference'), e)
    for x in (e, r if r is not None else e):
        if text(x) != before:
            return 'text of %s changed\n  to %s' % (src, etree.tostring(x, encoding='unicode'))
    if sorted(str(c.tag) for c in e.iter() if c.tag not in ('pub-id', 'ext-link', 'article-title')) != names:
        return 'other elements changed: %s' % etree.tostring(e, encoding='unicode')
    return None


def gen_doc(g):
    return {'before': gen_el(g), 'refs': [gen_ref(g) for _ in range(g.size(4, 8))], 'group': g.p(.3),
            'after': gen_el(g), 'nested': g.p(.3), 'bad': g.p(.15)}


def document(x):
    root = etree.Element('article')
    if x['group']:
        etree.SubElement(root, 'custom-meta-group').text = 'old'
    front = etree.SubElement(root, 'front')
    front.append(build(x['before']))
    back = etree.SubElement(root, 'back')
    back.text = ' PMID: 123 '
    lst = etree.SubElement(back, 'ref-list')
    for i, r in enumerate(x['refs']):
        lst.append(build(r))
        if i == 0:
            etree.SubElement(lst, 'title').text = 'doi: 10.1234/abc'
    after = etree.SubElement(back, 'app')
    after.append(build(x['after']))
    # a reference outside the reference list
    s = etree.SubElement(after, 'ref')
    etree.SubElement(s, 'mixed-citation').text = 'PMID: 1234567 x'
    return etree.fromstring(etree.tostring(root))


def outside(root, skip_meta):
    root = etree.fromstring(etree.tostring(root))
    for ref in root.xpath('.//back/ref-list/ref'):
        tail = ref.tail
        ref.clear()
        ref.tail = tail
    if skip_meta:
        g = root.find('custom-meta-group')
        metas = {}
        for c in list(g if g is not None else []):
            k = c.findtext('meta-name')
            if k and k.startswith('fix-jats-'):
                metas[k] = c.findtext('meta-value')
                g.remove(c)
        if g is not None and g.text == '\n' and not len(g):
            root.remove(g)
        return etree.tostring(root), metas
    return etree.tostring(root), {}


def check_doc(x):
    with scratch('vfc13') as d:
        os.mkdir(os.path.join(d, 'in'))
        src, dst = os.path.join(d, 'in', 'a.xml'), os.path.join(d, 'a.xml')
        doc = document(x)
        data = etree.tostring(doc, xml_declaration=True, encoding='utf-8')
        if x['bad']:
            data = b'  \n' + data
        open(src, 'wb').write(data)
        call(R(M, 'fix_jats_xml_file'), src, dst)
        if open(src, 'rb').read() != data:
            return 'source file changed'
        out = etree.parse(dst).getroot()
    a, _ = outside(doc, False)
    b, metas = outside(out, True)
    if a != b:
        return 'outside of the references: %s\n became %s' % (a, b)
    refs, outs = doc.xpath('.//back/ref-list/ref'), out.xpath('.//back/ref-list/ref')
    if len(refs) != len(outs):
        return 'number of references changed'
    changed = []
    for p, q in zip(refs, outs):
        if text(p) != text(q) or p.tail != q.tail:
            return 'text of reference changed: %s to %s' % (etree.tostring(p), etree.tostring(q))
        if etree.tostring(p) != etree.tostring(q):
            changed.append(p.get('id', ''))
    if metas.get('fix-jats-changed-reference-count') != str(len(changed)):
        return 'recorded %r changed references, there are %d' % (
            metas.get('fix-jats-changed-reference-count'), len(changed))
    if (metas.get('fix-jats-changed-reference-ids') or '') != ','.join(changed):
        return 'changed reference ids'
    if metas.get('fix-jats-malformatted-xml') != str(x['bad']).lower():
        return 'malformatted xml flag'
    return None


def gen_find(g):
    return ''.join(g.str(TXT, .05) for _ in range(g.size(5, 10)))


def check_find(s):
    m = R(M)
    n = 0
    for k in dir(m):
        if k.startswith('find_') and k.endswith('_start_end') and k != 'find_re_pattern_start_end':
            n += 1
            r = getattr(m, k)(s)
            if r is not None and not (0 <= r[0] <= r[1] <= len(s)):
                return '%s(%r) = %r' % (k, s, r)
    if hasattr(m, 'split_url') and ''.join(m.split_url(s)) != s:
        return 'split_url(%r) = %r' % (s, m.split_url(s))
    return None


def subs():
    return [
        Sub('reference', gen_ref, check_ref, 2500, 60000, weight=4,
            bound='references of up to 2 citations with up to 8 elements nested up to 3 deep'),
        Sub('document', gen_doc, check_doc, 150, 3000, weight=2, bound='documents of up to 8 references'),
        Sub('find', gen_find, check_find, 1500, 30000, bound='texts of up to 10 fragments'),
    ]
