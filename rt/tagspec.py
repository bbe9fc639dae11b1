"""executable specification of tags (independent of the code under test)"""


def split(tag):
    if isinstance(tag, str) and tag[:2] in ('b-', 'i-'):
        return tag[:2], tag[2:]
    return None, tag


def value(tag):
    return split(tag)[1]


def prefix(tag):
    return split(tag)[0]


def begin(tag):
    """changes nothing but an inside prefix (a bare prefix has nothing to add a prefix to)"""
    p, v = split(tag)
    return 'b-' + v if p == 'i-' and v else (v if p == 'i-' else tag)


def inside(tag):
    p, v = split(tag)
    return 'i-' + v if p == 'b-' and v else (v if p == 'b-' else tag)


def runs(tags):
    """maximal runs of the same tag value"""
    out = []
    for t in tags:
        if out and value(out[-1][-1]) == value(t):
            out[-1].append(t)
        else:
            out.append([t])
    return out


VALUES = ['t', 'u', 'title', 'b', 'i', 'x-y', 'author', 'Z', 'b-t', '\u00e9', 'i-x', 'ti']


def gen_tag(g, values=('t', 'u'), p_none=.3):
    if g.p(p_none):
        return None
    return g.choice(['', 'b-', 'i-']) + g.str(list(values))
