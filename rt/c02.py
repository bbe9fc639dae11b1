"""C02: each word is written inside the element path its tag stands for"""
import re
from lxml import etree
from common import Sub
import teigen as T

ID = 'C02'
FILES = ['sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py']
DEFAULT = {'': 'note[@type="other"]', 'title': 'docTitle/titlePart',
           'abstract': 'div[@type="abstract"]'}


def split(tag):
    if tag and tag[:2] in ('b-', 'i-'):
        return tag[:2], tag[2:]
    return None, tag


def split_path(p):
    out, cur, depth = [], '', 0
    for c in p:
        if c == '{':
            depth = 1
        elif c == '}':
            depth = 0
        if c == '/' and not depth:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]


def required(value, mapping):
    if value:
        return split_path(mapping.get(value, value))
    d = mapping.get('')
    return split_path(d) if d else []


def common(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return n


def expected(tokens, mapping):
    """per non white space token: list of (fragment, element number)"""
    stack, fresh, pending, out = [], [0], set(), []
    for text, main_full, sub_full in tokens:
        mp, mv = split(main_full)
        sp, sv = split(sub_full)
        if not text.strip():
            if mp == 'b-':
                pending.add(mv)
            continue
        main = required(mv, mapping)
        req = main
        if sub_full:
            sub = required(sv, mapping)
            if sub[:len(main)] == main:
                req = sub
            else:
                sp = None
        else:
            sp = None
        names = [f for f, _ in stack]
        if mp == 'b-':
            stack = stack[:common(names, main[:-1])]
        elif mv in pending:
            stack = []
        elif sp == 'b-':
            stack = stack[:common(names, req[:-1])]
        pending = set()
        stack = stack[:common([f for f, _ in stack], req)]
        for f in req[len(stack):]:
            fresh[0] += 1
            stack = stack + [(f, fresh[0])]
        out.append((text, list(stack)))
    return out


def fragment(el):
    m = el.tag
    for k, v in el.attrib.items():
        m += '[@%s="%s"]' % (k, v)
    return m


def actual(container):
    """(character, chain of elements) for every non white space character"""
    out = []

    def go(e, chain):
        for c in e.text or '':
            out.append((c, chain))
        for k in e:
            if k.tag != 'lb':
                go(k, chain + [k])
            for c in k.tail or '':
                out.append((c, chain))
    go(container, [])
    return [(c, ch) for c, ch in out if not c.isspace()]


def norm_fragment(f):
    m = re.match(r'^([^\[]+)(?:\[@?([^=]+)="(.+)"\])?$', f)
    return m.group(1) + ('[@%s="%s"]' % (m.group(2), m.group(3)) if m.group(2) else '')


def compare(tokens, mapping, container):
    exp = [(c, ch) for text, ch in expected(tokens, mapping) for c in text if not c.isspace()]
    act = actual(container)
    if [c for c, _ in exp] != [c for c, _ in act]:
        return 'text differs'
    ids = {}
    rev = {}
    for i, ((c, ech), (_, ach)) in enumerate(zip(exp, act)):
        en = [norm_fragment(f) for f, _ in ech]
        an = [fragment(e) for e in ach]
        if en != an:
            return 'character %d %r: expected path %r, is in %r' % (i, c, en, an)
        for (_, n), e in zip(ech, ach):
            if ids.setdefault(n, e) is not e:
                return 'character %d %r: element not shared as expected (%s)' % (i, c, '/'.join(an))
            if rev.setdefault(e, n) != n:
                return 'character %d %r: no new element where expected (%s)' % (i, c, '/'.join(an))
    return None


def gen(g):
    return {'containers': [T.gen_container(g)], 'mapping': g.choice(T.MAPPINGS),
            'preserve': g.p(.5), 'tags': T.gen_tags(g)}


PATH_EL = re.compile(r'^[^\[]+(\[@?[^=]+=".+"\])?$')


def token_tags(doc, token):
    gt = doc.get_tag_or_preserved_tag
    return token.text, gt(token), gt(token, level=2)


def check(x):
    if not x['containers']:
        return None
    root = T.build_root(x['containers'][:1])
    doc = T.make_doc(root, x['mapping'], x['preserve'])
    T.apply_tags(doc, x['tags'])
    toks = [token_tags(doc, t) for t in T.tokens(doc)]
    mapping = DEFAULT if x['mapping'] is None else x['mapping']
    return compare(toks, mapping, doc.root.find('text/front'))


def gen_plain(g):
    """words with all combinations of tags, few values, so that paths meet"""
    vals = g.choice([['t', 'u'], ['t', 'u', 'v'], ['t', 'u', 'v', 'w'], ['t', '', 'p/q', 'p']])
    p0, p1, p2 = g.choice([.1, .4]), g.choice([.2, .7]), g.choice([0, .3])

    def tag(p):
        if g.p(p):
            return None
        return g.choice(['', 'b-', 'i-', 'i-', 'b-']) + g.str(vals, .05)
    lines = []
    for _ in range(g.r.randrange(1, 5)):
        lines.append([[g.choice(['a', 'b', 'c', ' ', ' ']), tag(p0), tag(p1), tag(1 - p2),
                       tag(1 - p2)] for _ in range(g.size(7, 20))])
    return {'lines': lines, 'mapping': g.choice(T.MAPPINGS[1:])}


NAME = re.compile(r'^[A-Za-z][-A-Za-z0-9]*$')


def valid_tag(tag):
    v = split(tag)[1]
    return not v or all(f != 'lb' and NAME.match(re.sub(r'\[@\w+="[^"]+"\]$', '', f)) for f in split_path(v))


def check_plain(x):
    """words tagged directly, including the white space between them"""
    root = etree.Element('tei')
    front = etree.SubElement(etree.SubElement(root, 'text'), 'front')
    seq = []
    last = None
    for i, line in enumerate(x['lines']):
        if i:
            last = etree.SubElement(front, 'lb')
        s = ''
        for k, w in enumerate(line):
            if not all(valid_tag(t) for t in w[1:]):
                return None
            s += '.' if w[0] != ' ' else ' '
            seq.append(w)
        if last is None:
            front.text = s
        else:
            last.tail = s
    doc = T.make_doc(root, x['mapping'], False)
    toks = T.tokens(doc)
    if len(toks) != len(seq):
        return None
    names = {1: ('tag', None), 2: ('tag', 2), 3: ('preserved_tag', None), 4: ('preserved_tag', 2)}
    model = []
    for t, w in zip(toks, seq):
        doc.set_tag_only(t, w[1])
        doc.set_tag_only(t, w[2], level=2)
        for k in (3, 4):
            if w[k]:
                t.attrib[('level2_' if names[k][1] else '') + 'preserved_tag'] = w[k]
        model.append((t.text, w[1] or w[3], w[2] or w[4]))
        if doc.get_preserved_tag(t) != w[3] or doc.get_preserved_tag(t, level=2) != w[4]:
            return None
    return compare(model, x['mapping'], doc.root.find('text/front'))


def subs():
    return [
        Sub('document', gen, check, 2500, 50000, weight=5, bound='random documents of ~40 words',
            nontrivial=lambda x: len(x['tags']) > 1),
        Sub('tokens', gen_plain, check_plain, 2500, 50000, weight=5,
            bound='random lines of tagged words and spaces'),
    ]
