"""C15: downloading pairs"""
import csv
import gzip
import os
from common import R, Sub, call
from pipeline_util import scratch, files

ID = 'C15'
M = 'download_source_files'
FILES = ['sciencebeam_trainer_grobid_tools/download_source_files.py']
DIRS = ['', 'a/', 'b/', 'a/c/', 'x.y/']
EXTS = ['.pdf', '.pdf.gz', '', '.xml', '.nxml.gz', '.PDF', '.tar.GZ'[:4], '.a.b']
PATTERNS = ['{filename}', '{dir}{filename}', '{index}_{name}{ext}', '{document.name}/{filename}', '{target.name}{ext}_{index}',
            '{document.dir}{target.name}_{index}{ext}', '{index}/{document.filename}.{target.filename}',
            '{dir}{name}_{document.ext}{target.ext}', '{index:03d}{ext}', 'p/{target.dir}{index}{name}']


def gen(g):
    n = g.size(6, 20)
    docs, tgts = [], []
    for i in range(n):
        docs.append([g.choice(DIRS) + g.choice(['d', 'doc.v1', 'a-b', '%d' % i]) + str(i) + g.choice(EXTS), g.p(.75)])
        tgts.append([g.choice(DIRS) + g.choice(['t', 'tgt.v1', '%d' % i]) + str(i) + g.choice(EXTS), g.p(.75)])
    if n and g.p(.1):
        docs[-1] = list(docs[0])
    if n and g.p(.05):
        tgts.append(['extra.xml', True])
    return {'docs': docs, 'tgts': tgts, 'dp': g.choice(PATTERNS), 'tp': g.choice(PATTERNS), 'threads': g.choice([1, 1, 2, 4]),
            'base': g.p(.8), 'limit': None if g.p(.8) else g.int(1, 8), 'tsv': g.p(.5), 'absolute': g.p(.3), 'relative': g.p(.4)}


def content(kind, path):
    return ('%s of %s \x00\n' % (kind, path)).encode('utf-8') * 3


def read(p):
    data = open(p, 'rb').read()
    return gzip.decompress(data) if p.endswith('.gz') else data


def props(rel):
    d, f = os.path.split(rel)
    name, ext = os.path.splitext(f)
    if ext.lower() == '.gz':
        name, ext = os.path.splitext(name)

    class P:
        pass
    r = P()
    r.dir, r.filename, r.name, r.ext = d + '/' if d else '', f, name, ext
    return r


def out_name(pattern, i, own, docs, tgts):
    o = props(own)
    return pattern.format(index=i, dir=o.dir, filename=o.filename, name=o.name, ext=o.ext,
                          document=props(docs[i]), target=props(tgts[i]))


def check(x):
    docs, tgts = x['docs'], x['tgts']
    with scratch('vfc15') as d:
        for kind, lst in (('docs', docs), ('tgts', tgts)):
            os.makedirs(os.path.join(d, kind))
            for rel, exists in lst:
                p = os.path.join(d, kind, rel)
                if exists:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    c = content(kind, rel)
                    open(p, 'wb').write(gzip.compress(c) if p.endswith('.gz') else c)
            if not x['absolute']:
                # relative to the directory of the list
                rows = [kind + '/' + rel for rel, _ in lst]
            else:
                rows = [os.path.join(d, kind, rel) for rel, _ in lst]
            with open(os.path.join(d, kind + ('.tsv' if x['tsv'] else '.csv')), 'w', newline='') as f:
                w = csv.writer(f, delimiter='\t' if x['tsv'] else ',')
                w.writerow(['other', 'source_url' if kind == 'docs' else 'xml_url'])
                for r in rows:
                    w.writerow(['zz', r])
        ext = '.tsv' if x['tsv'] else '.csv'
        cwd = os.getcwd()
        rel = x['relative'] and not x['absolute']
        root = '' if rel else d
        argv = []
        for name, kind, pat in (('document', 'docs', x['dp']), ('target', 'tgts', x['tp'])):
            argv += ['--%s-file-list' % name, os.path.join(root, kind + ext), '--%s-output-path' % name, os.path.join(root, 'out_' + kind),
                     '--%s-output-filename-pattern' % name, pat]
            if x['base']:
                argv += ['--%s-base-path' % name, os.path.join(root, kind)]
        if x['limit'] is not None:
            argv += ['--limit', str(x['limit'])]
        argv += ['--threads', str(x['threads'])]
        # a file may exist through another entry of the same name
        dn, tn = [r for r, _ in docs][:x['limit']], [r for r, _ in tgts][:x['limit']]
        keep = [(p, q) for p, q in zip(dn, tn)
                if os.path.isfile(os.path.join(d, 'docs', p)) and os.path.isfile(os.path.join(d, 'tgts', q))]
        kd = [p for p, _ in keep] if x['base'] else [os.path.join(root, 'docs', p) for p, _ in keep]
        kt = [q for _, q in keep] if x['base'] else [os.path.join(root, 'tgts', q) for _, q in keep]
        exp = {}
        clash = False
        for kind, lst, pat in (('docs', kd, x['dp']), ('tgts', kt, x['tp'])):
            for i, own in enumerate(lst):
                o = os.path.normpath(os.path.join(d, 'out_' + kind, out_name(pat, i, own, kd, kt)))
                if not o.startswith(os.path.join(d, 'out_' + kind) + os.sep):
                    return None
                v = (kind, keep[i][0] if kind == 'docs' else keep[i][1])
                clash = clash or exp.get(o, v) != v
                exp[o] = v
        if len(dn) != len(tn) or clash or any(o + os.sep in p for o in exp for p in exp):
            return None   # outside: the pattern gives one name for two files
        before = {f: open(os.path.join(d, f), 'rb').read() for f in files(d)}
        main = R(M, 'main')
        try:
            os.chdir(d)
            call(main, argv)
        except ValueError:
            if keep:
                raise
            return None if not [f for f in files(d) if f not in before] else 'written although no pair exists'
        finally:
            os.chdir(cwd)
        if not keep:
            return 'no pair exists but no error'
        if any(open(os.path.join(d, f), 'rb').read() != c for f, c in before.items()):
            return 'source files changed'
        got = [os.path.join(d, f) for f in files(d) if f not in before]
        if sorted(got) != sorted(exp):
            return 'written %r, expected %r' % (sorted(got), sorted(exp))
        for o, (kind, rel) in exp.items():
            if read(o) != content(kind, rel):
                return '%s does not have the content of %s' % (o, rel)
    return None


def gen_props(g):
    return g.choice(['', '/', '/r/']) + g.choice(DIRS) + g.str(['d', 'a.b', '.hid', 'x..', '']) + g.choice(EXTS + ['.GZ', '.gz', '.x.Gz'])


def check_props(s):
    r = call(R(M, 'get_filename_pattern_props'), s)
    p = props(s)
    e = dict(dir=p.dir, filename=p.filename, name=p.name, ext=p.ext)
    if dict(r) != e:
        return '%r: %r, expected %r' % (s, r, e)
    return None


def gen_sel(g):
    n = g.size(6, 20)
    return [[g.choice(DIRS) + 'f%d' % i for i in range(n)], [g.p(.5) for i in range(n)], g.choice([None, '/base', 'rel'])]


def check_sel(x):
    names, sel, base = x
    if len(names) != len(sel):
        return None
    cls = R(M, 'FileList')
    fl = call(cls, base, list(names))
    r = fl.select(list(sel))
    ab = [os.path.join(base, n) if base else n for n in names]
    for f, keep in ((fl, [True] * len(names)), (r, sel)):
        if list(f.relative_file_list) != [n for n, s in zip(names, keep) if s] or \
                list(f.absolute_file_list) != [n for n, s in zip(ab, keep) if s]:
            return 'file list %r' % f
        if len(f) != sum(keep) or bool(f) != any(keep):
            return 'length'
    return None


def subs():
    return [
        Sub('run', gen, check, 150, 3000, weight=5, bound='up to 20 pairs, 10 name patterns, up to 4 threads',
            nontrivial=lambda x: len(x['docs']) > 1),
        Sub('props', gen_props, check_props, 500, 5000, bound='paths of up to 3 parts'),
        Sub('select', gen_sel, check_sel, 1000, 10000, bound='up to 20 files'),
    ]
