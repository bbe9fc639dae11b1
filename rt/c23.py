"""C23: extraction of target values"""
import re
from lxml import etree
from common import R, Sub, call

ID = 'C23'
M = 'annotation.target_annotation'
FILES = ['sciencebeam_trainer_grobid_tools/annotation/target_annotation.py',
         'sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py',
         'sciencebeam_trainer_grobid_tools/utils/xml.py']
NAMES = ['sec', 'p', 'title', 'label', 'fig', 'b', 'x']
TXT = ['', '', ' ', 'abc', 'Def', '1', '.', ', ', 'two words', '\n', 'line\nfeed', ' lead', 'trail ', '\u00e9',
       '\u4e2d', '-', '(', '"', '_', 'a\tb', '\U0001d4b3', 'x\r']


def txt(g):
    s = ''.join(g.str(TXT, .05) for _ in range(g.r.randrange(0, 3)))
    return ''.join(c for c in s if c in '\t\n' or c >= ' ') or None


def gen_el(g, d=0):
    if d and g.p(.05):
        return [g.choice('#?'), None, [], txt(g)]
    e = [g.choice(NAMES), txt(g), [], None]
    if d < 4:
        for _ in range(g.size(3, 5)):
            e[2].append(gen_el(g, d + 1))
    e[3] = txt(g)
    return e


def build(t):
    if t[0] == '#':
        e = etree.Comment('some comment')
    elif t[0] == '?':
        e = etree.PI('pi', 'p="1"')
    else:
        e = etree.Element(t[0])
        e.text = t[1] or None
        for c in t[2]:
            e.append(build(c))
    e.tail = t[3] or None
    return e


def gen(g):
    fields = []
    names = ['f%d' % i for i in range(4)]
    pathnames = g.r.sample(NAMES, 5)
    for i in range(g.r.randrange(1, 4)):
        f = {'name': names[i], 'paths': ['.//' + pathnames[i]] + (['.//' + pathnames[4]] if i == 0 and g.p(.3) else [])}
        if g.p(.4):
            f['priority'] = g.choice(['0', '1', '-1', '10', '2'])
        if g.p(.4):
            f['ignore'] = g.choice(['.//' + g.choice(NAMES), './/%s|%s' % (g.choice(NAMES), g.choice(NAMES)),
                                    './' + g.choice(NAMES)])
        if g.p(.4):
            f['sub'] = {'s%d' % k: './/' + g.choice(NAMES) for k in range(g.r.randrange(1, 3))}
        if g.p(.2):
            f['children'] = './/*'
            f['use-raw-text'] = g.choice(['true', 'yes', '1', None])
        fields.append(f)
    g.r.shuffle(fields)
    return {'root': ['article', None, [gen_el(g) for _ in range(g.r.randrange(1, 5))], None], 'fields': fields}


def is_word(c):
    return re.match(r'\w', c) is not None


def pieces(e, excluded):
    if e.text:
        yield e.text
    for c in e:
        if isinstance(c.tag, str) and c not in excluded:
            yield from pieces(c, excluded)
        if c.tail:
            yield c.tail


def raw_text(e, excluded):
    out = ''
    for p in pieces(e, excluded):
        if out and is_word(out[-1]) and is_word(p[0]):
            out += ' '
        out += p
    return out


def norm(s):
    return ' '.join(s.split())


def has_raw(e):
    return bool((e.text or '').strip()) or any(
        (c.tail or '').strip() or (len(c) and has_raw(c)) for c in e)


def check(x):
    if not x['fields'] or x['root'][0] != 'article':
        return None
    root = etree.fromstring(etree.tostring(build(x['root'])))
    mapping = {}
    for f in x['fields']:
        k = f['name']
        mapping[k] = '\n'.join(f['paths'])
        for opt in ('priority', 'ignore', 'children', 'use-raw-text'):
            if f.get(opt):
                mapping[k + '.' + opt] = f[opt]
        for s, p in f.get('sub', {}).items():
            mapping[k + '.sub.' + s] = p
    pos = {e: i for i, e in enumerate(root.iter())}
    exp = []
    for f in x['fields']:
        for path in f['paths']:
            for e in root.xpath(path):
                ex = set(e.xpath(f['ignore'])) if f.get('ignore') else set()
                if f.get('children') and not f.get('use-raw-text') and not has_raw(e):
                    continue  # children values, see below
                subs = [(s, norm(''.join(t for t in c.itertext())))
                        for s, p in f.get('sub', {}).items() for c in e.xpath(p)]
                exp.append((-int(f.get('priority', '0')), pos[e], f['name'], norm(raw_text(e, ex)),
                            [s for s in subs if s[1]]))
    before = etree.tostring(root)
    r = call(R(M, 'xml_root_to_target_annotations'), root, {'article': mapping})
    if etree.tostring(root) != before:
        return 'the XML was changed'
    exp = [e for e in exp if e[3]]
    order = {f['name']: n for n, f in enumerate(x['fields'])}
    exp.sort(key=lambda e: (e[0], e[1], order[e[2]]))
    if any(f.get('children') and not f.get('use-raw-text') for f in x['fields']):
        # fields with values of single children: only the others are compared
        names = {f['name'] for f in x['fields'] if not (f.get('children') and not f.get('use-raw-text'))}
        r = [a for a in r if a.name in names]
        exp = [e for e in exp if e[2] in names]
    if any(not isinstance(a.value, str) for a in r):
        return 'a value is not a text: %r' % [a.value for a in r]
    got = [(a.name, norm(a.value), [(s.name, norm(s.value)) for s in a.sub_annotations or []]) for a in r]
    want = [e[2:] for e in exp]
    if got != want:
        return 'target values %r, expected %r for %s' % (got, want, before.decode()[:800])
    for a in r:
        if a.value != a.value.strip() or not a.value:
            return 'value %r is empty or not stripped' % a.value
    return None


def check_raw(x):
    if not isinstance(x['root'][0], str) or x['root'][0] in '#?':
        return None
    root = etree.fromstring(etree.tostring(build(x['root'])))
    ex = [e for i, e in enumerate(root.iter()) if i and isinstance(e.tag, str) and i % 7 in x['exclude']]
    r = call(R(M, 'get_raw_text_content'), root, exclude_childrens=ex or None)
    e = raw_text(root, set(ex))
    if norm(r) != norm(e) or ''.join(r.split()) != ''.join(e.split()):
        return 'text %r, expected %r of %s' % (r, e, etree.tostring(root))
    exact = ''.join(pieces(root, set(ex)))
    # nothing but single spaces is added
    i = 0
    for c in r:
        if i < len(exact) and exact[i] == c:
            i += 1
        elif c != ' ':
            return 'character %r added to %r' % (c, exact)
    if i != len(exact):
        return 'text lost: %r of %r' % (r, exact)
    return None


def gen_raw(g):
    return {'root': ['p', txt(g), [gen_el(g, 1) for _ in range(g.r.randrange(0, 4))], None],
            'exclude': [k for k in range(7) if g.p(.1)]}


def gen_conf(g):
    secs = {}
    for s in g.r.sample(['article', 'tei', 'pmc'], g.r.randrange(1, 3)):
        secs[s] = {g.choice(['title', 'author', 'abstract.sub.p', 'title.priority', 'ref.ignore']):
                   [g.choice(['.//p', 'front/x', '{a}/b', './/q[1]']) for _ in range(g.r.randrange(1, 3))]
                   for _ in range(g.r.randrange(0, 4))}
    return secs


def check_conf(x):
    import os
    import tempfile
    d = tempfile.mkdtemp(prefix='vp-c23-')
    p = os.path.join(d, 'm.conf')
    try:
        with open(p, 'w') as f:
            for s, kv in x.items():
                f.write('[%s]\n' % s)
                for k, vs in kv.items():
                    f.write('%s = %s\n' % (k, '\n  '.join(vs)))
                f.write('\n')
        r = call(R('core.annotation.target_annotation', 'parse_xml_mapping'), p)
    finally:
        if os.path.exists(p):
            os.remove(p)
        os.rmdir(d)
    e = {s: {k: '\n'.join(vs) for k, vs in kv.items()} for s, kv in x.items()}
    if r != e:
        return 'mapping %r, expected %r' % (r, e)
    return None


def check_pending_ws(s):
    f = R('core.annotation.target_annotation', 'strip_whitespace')
    r = call(f, s)
    if ''.join(r.split()) != ''.join(s.split()) or norm(r) != norm(s):
        return 'strip_whitespace(%r) == %r' % (s, r)
    return None


def gen_children(g):
    kids = [[g.choice(['label', 'title', 'b']), txt(g), [], txt(g) if g.p(.4) else None]
            for _ in range(g.r.randrange(0, 5))]
    return {'kids': kids, 'raw': txt(g) if g.p(.3) else None,
            'mode': g.choice(['title', 'concat', 'wild']), 'sep': g.choice([' ', '-', ''])}


def check_children(x):
    root = etree.fromstring(etree.tostring(build(['article', None, [['sec', x['raw'], x['kids'], None]], None])))
    sec = root[0]
    mapping = {'f': './/sec'}

    def texts(name):
        return [norm(''.join(c.itertext())) for c in sec if c.tag == name]
    if x['mode'] == 'title':
        mapping['f.children'] = './title'
        want = [t for t in texts('title') if t]
    elif x['mode'] == 'concat':
        mapping['f.children'] = './title'
        mapping['f.children.concat'] = (
            '[[{"xpath": "./label"}, {"value": "%s"}, {"xpath": "./title"}]]' % x['sep'])
        if texts('label') and texts('title'):
            want = [norm(' '.join(texts('label')) + x['sep'] + ' '.join(texts('title')))]
        else:
            want = [t for t in texts('title')]
        want = [t for t in want if t]
    else:
        mapping['f.children'] = './/*'
        if has_raw(sec):
            want = [norm(raw_text(sec, set()))]
        else:
            want = [t for t in (norm(''.join(c.itertext())) for c in sec) if t]
        want = [t for t in want if t]
    r = call(R(M, 'xml_root_to_target_annotations'), root, {'article': mapping})
    got = []
    for a in r:
        got.extend(a.value if isinstance(a.value, list) else [a.value])
    if sorted(norm(s) for s in got) != sorted(want) or len(r) > 1:
        return 'values %r, expected %r of %s' % (got, want, etree.tostring(root))
    if [len(s) for s in got] != sorted((len(s) for s in got), reverse=True):
        return 'values not ordered by length: %r' % got
    if any(not s.strip() for s in got):
        return 'empty value'
    return None


def subs():
    return [
        Sub('extract', gen, check, 2000, 40000, weight=3, bound='random XML <= 5 levels, up to 3 fields',
            nontrivial=lambda x: len(x['root'][2]) > 1),
        Sub('raw_text', gen_raw, check_raw, 2000, 40000, weight=2, bound='random XML <= 5 levels'),
        Sub('children', gen_children, check_children, 2000, 30000, weight=1, bound='up to 4 children'),
        Sub('whitespace', lambda g: ''.join(g.choice('ab \t\n\r') for _ in range(g.size(14, 40))),
            check_pending_ws, 1000, 20000, weight=1, bound='strings up to 40 characters'),
        Sub('mapping', gen_conf, check_conf, 150, 2000, weight=1, bound='up to 3 sections'),
    ]
