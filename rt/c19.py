"""C19: field options"""
import copy
import os
from common import R, Sub, call
from pipeline_util import scratch

ID = 'C19'
ST, AU = 'utils.string', 'auto_annotate_utils'
FILES = ['sciencebeam_trainer_grobid_tools/utils/string.py', 'sciencebeam_trainer_grobid_tools/auto_annotate_utils.py',
         'sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py']
ITEMS = ['a', 'b', 'title', 'ref', 'x-y', 'abstract', 'a b', '', '+', 'c.d', '\u00e9']


def items(s):
    s = s.strip()
    return [t.strip() for t in s.split(',')] if s else []


def gen_comma(g):
    return ''.join(g.str(['a', 'b', 'title', ',', ',', ' ', '  ', '+', '-', '\t', 'x y', '.']) for _ in range(g.size(8, 20)))


def check_comma(s):
    r = call(R(ST, 'comma_separated_str_to_list'), s)
    return None if list(r) == items(s) else '%r: %r, expected %r' % (s, r, items(s))


def gen_pm(g):
    default = [g.choice(['a', 'b', 'title', 'ref', 'x-y', 'abstract']) for _ in range(g.size(5))]
    if g.p(.5):
        default = list(dict.fromkeys(default))
    parts = []
    for k in range(g.size(5, 10)):
        w = g.str(['a', 'b', 'title', 'new', 'x-y', 'ref'])
        p = g.choice(['+', '-', '', '+', '-']) if k else g.choice(['+', '-', '', '+', '-'])
        parts.append(g.choice(['', ' ']) + p + w + g.choice(['', ' ']))
        if g.p(.05):
            parts.append(' ')
    return [','.join(parts), default]


def spec_pm(s, default):
    """None if an item to remove is not there"""
    user = items(s)
    if not user or user[0][:1] not in ('+', '-'):
        return user
    out, mode = list(default), None
    for t in user:
        if not t:
            continue
        if t[0] in '+-':
            mode, t = t[0], t[1:]
        if mode == '+':
            out.append(t)
        else:
            if t not in out:
                return None
            out.remove(t)
    return out


def check_pm(x):
    s, default = x
    e = spec_pm(s, default)
    d = list(default)
    if e is not None:
        r = call(R(ST, 'plus_minus_comma_separated_str_to_list'), s, d)
        if list(r) != e:
            return '%r with default %r: %r, expected %r' % (s, default, r, e)
        if r is d or d != default:
            return 'default modified'
        f = call(R(ST, 'get_plus_minus_comma_separated_str_to_list_fn'), d)
        for _ in range(2):
            if list(f(s)) != e or d != default:
                return 'function: %r / default %r' % (f(s), d)
    ds = set(default)
    e = spec_pm(s, list(dict.fromkeys(default)))
    if e is not None:
        f = call(R(ST, 'get_plus_minus_comma_separated_str_to_set_fn'), ds)
        for _ in range(2):
            if set(f(s)) != set(e) or ds != set(default):
                return 'set: %r / default %r, expected %r' % (f(s), ds, set(e))
    return None


def gen_dict(g):
    return [[g.choice(['a', ' b', 'x.y ', 'title.sub.z']), g.choice(['1', ' /a/b ', 'c=d', '', 'true', 'x[@y="z"]'])] for _ in range(g.size(4))]


def check_dict(x):
    r = call(R(ST, 'parse_dict'), '|'.join('='.join(t) for t in x))
    e = {k.strip(): v.strip() for k, v in x}
    return None if r == e else '%r: %r' % (x, r)


KEYS = ['title', 'title.sub.a', 'title.sub.b', 'title.sub.a.c', 'title.bonding', 'ref', 'ref.sub.a', 'ref.sub.b.c', 'ref.x.sub.a',
        'title-sub', 'abstract', 'abstract.use-raw-text', 'a.sub', 'a.sub.', 'a.subx.b', 'titles', 'ref.sub.ref.sub.a']


def gen_map(g):
    m = {sec: {k: g.choice(['x', 'y', '']) + str(i) for i, k in enumerate(KEYS) if g.p(.5)} for sec in g.r.sample(['article', 'b', 'DEFAULT'], g.r.randrange(1, 3))}
    return {'mapping': m, 'fields': g.choice([None, [], g.r.sample(['title', 'ref', 'abstract', 'a', 'zz', 'title.sub'], g.r.randrange(1, 4))]),
            'sub': g.choice([None, [], g.r.sample(['a', 'b', 'a.c', 'b.c', 'zz', 'c'], g.r.randrange(1, 4))]),
            'over': g.choice([None, {}, {k: 'o' + k for k in g.r.sample(KEYS + ['new', 'new.sub.a'], g.r.randrange(1, 4))}])}


def keep(k, fields, sub):
    f = k.split('.')[0]
    if fields and f not in fields:
        return False
    if sub and k.startswith(f + '.sub.') and k != f + '.sub.':
        return k[len(f + '.sub.'):].split('.')[0] in sub
    return True


def check_map(x):
    m = copy.deepcopy(x['mapping'])
    fields = None if x['fields'] is None else set(x['fields'])
    sub = None if x['sub'] is None else set(x['sub'])
    r, fs = call(R(AU, 'get_filtered_xml_mapping_and_fields'), m, fields, sub)
    e = {s: {k: v for k, v in d.items() if keep(k, x['fields'], x['sub'])} for s, d in x['mapping'].items()}
    if r != e:
        return 'filtered %r, expected %r' % (r, e)
    for s in e:
        if list(r[s]) != list(e[s]):
            return 'order of the keys changed'
    ef = set(x['fields']) if x['fields'] else {k for d in x['mapping'].values() for k in d if '.' not in k}
    if set(fs) != ef:
        return 'fields %r, expected %r' % (fs, ef)
    if m != x['mapping']:
        return 'mapping modified'
    over = copy.deepcopy(x['over'])
    r = call(R(AU, 'get_xml_mapping_with_overrides'), m, over)
    e = {s: {**d, **(x['over'] or {})} for s, d in x['mapping'].items()}
    if r != e or m != x['mapping'] or over != x['over']:
        return 'overrides %r: %r' % (x['over'], r)
    return None


def check_file(x):
    with scratch('vfc19') as d:
        p = os.path.join(d, 'm.conf')
        with open(p, 'w') as f:
            for s, m in x['mapping'].items():
                if s == 'DEFAULT':
                    continue
                f.write('[%s]\n' % s + ''.join('%s = %s\n' % t for t in m.items()))
        r, fs = call(R(AU, 'get_xml_mapping_and_fields'), p, None if x['fields'] is None else set(x['fields']),
                     sub_fields=None if x['sub'] is None else set(x['sub']), xml_mapping_overrides=x['over'])
    src = {s: {**m, **(x['over'] or {})} for s, m in x['mapping'].items() if s != 'DEFAULT'}
    e = {s: {k: v for k, v in m.items() if keep(k, x['fields'], x['sub'])} for s, m in src.items()}
    if {s: dict(m) for s, m in r.items()} != e:
        return 'mapping from file %r, expected %r' % (r, e)
    ef = set(x['fields']) if x['fields'] else {k for m in src.values() for k in m if '.' not in k}
    return None if set(fs) == ef else 'fields %r' % fs


def gen_cli(g):
    x = gen_pm(g)
    return {'s': x[0], 'default': list(dict.fromkeys(x[1])), 'over': gen_dict(g), 'given': g.p(.8)}


def check_cli(x):
    """the options of the tools"""
    import argparse
    p = argparse.ArgumentParser()
    call(R(AU, 'add_fields_argument'), p, default_fields=list(x['default']))
    call(R(AU, 'add_sub_fields_argument'), p, default_sub_fields=list(x['default']))
    e = spec_pm(x['s'], x['default']) if x['given'] else list(x['default'])
    if e is None or (not x['given'] and not x['default']):
        return None
    args = p.parse_args(['--fields=' + x['s'], '--sub-fields=' + x['s']] if x['given'] else [])
    for k in ('fields', 'sub_fields'):
        if set(getattr(args, k)) != set(e):
            return '--%s=%r default %r: %r, expected %r' % (k, x['s'], x['default'], getattr(args, k), e)
    return None


def subs():
    return [
        Sub('comma', gen_comma, check_comma, 2000, 20000, bound='up to 20 pieces'),
        Sub('plus_minus', gen_pm, check_pm, 3000, 40000, weight=2, bound='up to 10 items, defaults of up to 5'),
        Sub('dict', gen_dict, check_dict, 1000, 10000, bound='up to 4 entries'),
        Sub('mapping', gen_map, check_map, 2000, 30000, weight=2, bound='%d keys in up to 2 sections' % len(KEYS)),
        Sub('file', gen_map, check_file, 300, 3000, bound='as mapping'),
        Sub('arguments', gen_cli, check_cli, 500, 5000, bound='as plus_minus'),
    ]
