"""C14: repairing malformed XML"""
import os
from xml.sax.saxutils import escape, quoteattr
from lxml import etree
from common import R, Sub, call
from pipeline_util import scratch

ID = 'C14'
M = 'utils.xml'
FILES = ['sciencebeam_trainer_grobid_tools/utils/xml.py']
NAMES = ['a', 'b', 'p', 'tei', 'note', 'x1', 'lb', 'text', 'br', 'ref-list', 'li']
TEXTS = ['x', ' ', 'foo bar', '\n', '\u00e9', '1.2', 'y z', '"', "'", ';', '.', '\U0001d4b3', 'a=b', ')']
ATTRS = [['n', '1'], ['type', 'x y'], ['type', 'a"b'], ['rend', None], ['n', ''], ['type', "it's"], ['type', '\u00e9']]


def gen(g):
    """list of ['s', name, attrs] / ['e', name] / ['t', text]"""
    wrap = g.p(.7)
    out = [['s', 'tei', []]] if wrap else []
    open_ = ['tei'] if wrap else []
    for _ in range(g.size(12, 40)):
        k = g.r.random()
        if k < .35:
            attrs = []
            for a in g.r.sample(ATTRS, g.choice([0, 0, 0, 1, 2])):
                if all(a[0] != b[0] for b in attrs):
                    attrs.append(a)
            n = g.str(NAMES, .0)
            out.append(['s', n, attrs])
            open_.append(n)
        elif k < .65:
            if g.p(.8) and len(open_) > 1:
                i = len(open_) - 1 if g.p(.6) else g.r.randrange(1 if wrap else 0, len(open_))
                n = open_[i]
                del open_[i:]
            else:
                n = g.choice(NAMES)
            out.append(['e', n])
        else:
            out.append(['t', g.str(TEXTS, .05).replace('<', '').replace('&', '').replace('>', '')])
    if wrap and g.p(.5):
        out.append(['e', 'tei'])
    return out


def source(x):
    s = ''
    for t in x:
        if t[0] == 's':
            s += '<%s%s>' % (t[1], ''.join(
                ' ' + k if v is None else ' %s=%s' % (k, quoteattr(v)) for k, v in t[2]))
        elif t[0] == 'e':
            s += '</%s>' % t[1]
        else:
            s += escape(t[1])
    return s


def expected(x):
    out, stack = '', []

    def close():
        return '</%s>' % stack.pop()
    for t in x:
        if t[0] == 's':
            out += '<%s%s>' % (t[1], ''.join(' %s=%s' % (k, quoteattr(v or '')) for k, v in t[2]))
            stack.append(t[1])
        elif t[0] == 't':
            out += escape(t[1])
        elif not stack:
            continue
        elif t[1] not in stack:
            out += close()
        else:
            while stack[-1] != t[1]:
                out += close()
            out += close()
    while stack:
        out += close()
    return out


def wellformed(s):
    try:
        return etree.fromstring(s.encode('utf-8'))
    except etree.XMLSyntaxError:
        return None


def tok(s):
    """-> sequence of tags and text of balanced output"""
    import re
    return re.findall(r'<[^>]*>|[^<]+', s)


def check(x):
    s = source(x)
    r = call(R(M, 'get_fixed_xml_str'), s)
    root = wellformed(s)
    if root is not None:
        return None if r == s else 'well-formed %r changed to %r' % (s, r)
    if not s.strip():
        return None
    # statement: balanced, same start tags with attributes and text in order
    stack, seen = [], []
    for t in tok(r):
        if t.startswith('</'):
            if not stack or stack.pop() != t[2:-1]:
                return 'unbalanced output %r for %r' % (r, s)
        elif t.startswith('<'):
            stack.append(t[1:-1].split()[0])
            seen.append(t)
        else:
            if seen and not seen[-1].startswith('<'):
                seen[-1] += t
            else:
                seen.append(t)
    if stack:
        return 'open tags %r in output %r for %r' % (stack, r, s)
    exp = []
    for t in x:
        if t[0] == 's':
            exp.append('<%s%s>' % (t[1], ''.join(' %s=%s' % (k, quoteattr(v or '')) for k, v in t[2])))
        elif t[0] == 't' and t[1]:
            if exp and not exp[-1].startswith('<'):
                exp[-1] += escape(t[1])
            else:
                exp.append(escape(t[1]))
    if seen != exp:
        return 'start tags and text %r, expected %r' % (seen, exp)
    # an end tag closes the innermost open element of its name
    if r != expected(x):
        return '%r repaired to %r, expected %r' % (s, r, expected(x))
    stack, single = [], bool(x) and x[0][0] == 's'
    for i, t in enumerate(x):
        if i and not stack:
            single = single and t[0] == 't' and not t[1].strip()
        if t[0] == 's':
            stack.append(t[1])
        elif t[0] == 'e':
            if t[1] not in stack:
                single = False
                break
            while stack.pop() != t[1]:
                pass
    if single:
        e = wellformed(r)
        if e is None:
            return 'output %r for %r is not well-formed' % (r, s)
        if ''.join(e.itertext()).strip() != ''.join(t[1] for t in x if t[0] == 't').strip():
            return 'text of %r, input %r' % (r, s)
    b = call(R(M, 'get_fixed_xml_bytes'), s.encode('utf-8'))
    if b != r.encode('utf-8'):
        return 'get_fixed_xml_bytes differs'
    return None


def check_file(x):
    s = source(x)
    with scratch('vfc14') as d:
        p = os.path.join(d, 'a.tei.xml')
        open(p, 'wb').write(s.encode('utf-8'))
        with call(R(M, 'get_fixed_source_url'), p) as q:
            if os.path.basename(q) != 'a.tei.xml' or os.path.abspath(q) == p:
                return 'file name %r' % q
            if open(q, 'rb').read() != R(M, 'get_fixed_xml_bytes')(s.encode('utf-8')):
                return 'file content differs'
        if os.path.exists(q):
            return 'temporary file remains'
        if open(p, 'rb').read() != s.encode('utf-8'):
            return 'source file changed'
    return None


def gen_valid(g):
    """well-formed documents with things the repair would not keep"""
    inner = ''.join(g.choice(['x', ' ', '<a/>', '<b n="1">y</b>', '<!-- c -->', '&amp;', '&lt;', '<B>z</B>', '<?pi x?>',
                              '<![CDATA[q<]]>', '\n', '&#233;', "<c n='1'/>", '<script>if</script>', '\u00e9'])
                    for _ in range(g.size(8, 20)))
    return g.choice(['', '  '[:0], '<!DOCTYPE tei>']) + '<tei>%s</tei>' % inner


def check_valid(s):
    if wellformed(s) is None:
        return None
    r = call(R(M, 'get_fixed_xml_str'), s)
    if r != s:
        return 'well-formed %r changed to %r' % (s, r)
    if call(R(M, 'get_fixed_xml_bytes'), s.encode('utf-8')) != s.encode('utf-8'):
        return 'well-formed bytes changed'
    return None


def subs():
    return [
        Sub('soup', gen, check, 6000, 100000, weight=3, bound='up to 40 tags and texts',
            nontrivial=lambda x: wellformed(source(x)) is None),
        Sub('valid', gen_valid, check_valid, 1500, 20000, bound='up to 20 pieces of markup'),
        Sub('file', gen, check_file, 200, 2000, bound='up to 40 tags and texts'),
    ]
