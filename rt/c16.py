"""C16: processing of the source files"""
import contextlib
import io
import os
import threading
from lxml import etree
from common import R, REPO, Sub, call
from pipeline_util import scratch, options, factory, files

ID = 'C16'
AU = 'auto_annotate_utils'
FILES = ['sciencebeam_trainer_grobid_tools/auto_annotate_utils.py', 'sciencebeam_trainer_grobid_tools/auto_annotate_figure.py',
         'sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py', 'sciencebeam_trainer_grobid_tools/utils/xml.py',
         'sciencebeam_trainer_grobid_tools/annotation/annotator.py', 'sciencebeam_trainer_grobid_tools/utils/io.py']


def words(name):
    return 'begin %s end' % name.replace('.', '_')


def write_source(p, name, bad=False, container='front'):
    with open(p, 'w') as f:
        # (the parser recovers from most errors)
        f.write('' if bad else '<tei><text><%s>%s<lb/></%s></text></tei>' % (container, words(name), container))


class Tagger:
    def __init__(self, fn):
        self.fn = fn

    def annotate(self, doc):
        self.fn(doc)
        for page in doc.get_pages():
            for line in doc.get_lines_of_page(page):
                for token in doc.get_tokens_of_line(line):
                    if '_tei_xml' in doc.get_text(token):
                        doc.set_tag(token, 'b-t')
        return doc


def gen(g):
    n = g.size(5, 9)
    names = []
    for i in range(n):
        names.append(g.choice(['f%d', 'a%d', 'x_%d', 'F%d']) % i + '.tei.xml')
    r = g.r
    return {'names': names, 'existing': [s for s in names if g.p(.3)], 'bad': [s for s in names if g.p(.15)],
            'fail': [s for s in names if g.p(.12)], 'resume': g.p(.5), 'skip': g.p(.6), 'workers': g.choice([1, 1, 2, 3, 8]),
            'wait': g.p(.2), 'limit': None if g.p(.8) else r.randrange(1, 7), 'other': g.p(.5), 'failed': g.p(.3),
            'final': g.p(.5), 'single': g.p(.1)}


def make_factory(x, d, seen, opt):
    lock, first = threading.Lock(), threading.Event()
    state = {'n': 0, 'active': {}}
    problems = []

    def get_annotator(url):
        name = os.path.basename(url)
        with lock:
            seen.append(name)
            state['n'] += 1
            n = state['n']
        if x['wait'] and x['workers'] > 1 and n <= 2:
            if n == 2:
                first.set()
            else:
                first.wait(.1)

        def fn(doc):
            if not os.path.exists(url):
                problems.append('source %s gone while annotating' % url)
            if name in x['fail']:
                raise ValueError('annotator failed')
        return Tagger(fn)
    return factory(opt, get_annotator, {'t': 'note[@type="t"]'}), problems


def check(x):
    names = x['names']
    if len(set(names)) != len(names) or not all(s.endswith('.tei.xml') and len(s) > 8 for s in names):
        return None
    with scratch('vfc16') as d:
        for s in ('src', 'out', 'xml'):
            os.mkdir(os.path.join(d, s))
        for s in names:
            write_source(os.path.join(d, 'src', s), s, s in x['bad'])
        if x['other']:
            open(os.path.join(d, 'src', 'other.txt'), 'w').write('x')
        existing = [s for s in x['existing'] if s in names]
        for s in existing:
            open(os.path.join(d, 'out', s), 'w').write('old')
        args = ['--num-workers', str(x['workers'])]
        args += ['--resume'] if x['resume'] else []
        args += ['--skip-errors'] if x['skip'] else []
        args += ['--limit', str(x['limit'])] if x['limit'] is not None else []
        opt = options(d, failed=x['failed'], args=args)
        single = x['single'] and names
        if single:
            opt.source_base_path = None
            opt.source_path = os.path.join(d, 'src', names[0])
        seen = []
        f, problems = make_factory(x, d, seen, opt)
        found = [os.path.basename(s) for s in call(f.get_source_file_list)]
        limit = x['limit'] if x['limit'] is not None else len(names)
        if single:
            if found != [names[0]]:
                return 'source path: %r' % found
        elif len(set(found)) != len(found) or set(found) - set(names) or len(found) != min(limit, len(names)):
            return 'found %r of %r' % (found, names)
        todo = [s for s in found if not (x['resume'] and s in existing)]
        rem = [os.path.basename(s) for s in call(f.get_remaining_source_file_list)]
        if rem != todo:
            return 'remaining %r, expected %r' % (rem, todo)
        failing = [s for s in todo if s in x['bad'] or s in x['fail']]
        err = None
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                call(f.run, opt)
            except Exception as e:  # pylint: disable=broad-except
                err = e
        if problems:
            return problems[0]
        if bool(err) != bool(failing and not x['skip']):
            return 'run raised %r, failing files %r, skip errors %r' % (err, failing, x['skip'])
        if sorted(seen) != sorted(todo):
            return 'processed %r, expected %r' % (sorted(seen), sorted(todo))
        for s in names:
            p = os.path.join(d, 'out', s)
            content = open(p).read() if os.path.exists(p) else None
            if s in todo and s not in failing:
                if content is None or content == 'old':
                    return '%s not written' % s
                root = etree.fromstring(content.encode('utf-8'))
                if ' '.join(''.join(root.itertext()).split()) != words(s):
                    return '%s has the content %r' % (s, content)
                if [n.text for n in root.iter('note') if n.get('type') == 't'] != [words(s).split()[1]]:
                    return '%s annotated as %r' % (s, content)
            elif s in existing:
                if content != 'old':
                    return 'existing output %s changed' % s
            elif content is not None:
                return 'unexpected output %s: %r' % (s, content)
        extra = set(files(os.path.join(d, 'out'))) - set(names)
        if extra:
            return 'extra output %r' % extra
        if x['failed'] and os.path.isdir(os.path.join(d, 'failed')):
            return 'failed output although all checks pass'
    return None


# ---- the factories that work on a temporary copy of the source file

MODULES = [('auto_annotate_figure', '.figure.tei.xml'), ('auto_annotate_fulltext', '.fulltext.tei.xml')]


def gen_temp(g):
    n = g.r.randrange(1, 5)
    return {'module': g.r.randrange(2), 'names': ['d%d' % i for i in range(n)],
            'order': [g.r.randrange(n) for _ in range(n)], 'fail': [g.p(.2) for _ in range(n)], 'skip': True}


def temp_options(d, module, args=()):
    return R(module, 'parse_args')([
        '--source-base-path', os.path.join(d, 'src'), '--output-path', os.path.join(d, 'out'),
        '--xml-path', os.path.join(d, 'xml'), '--xml-filename-regex', r'/\.(figure|fulltext)\.tei\.xml/.xml/',
        '--xml-mapping-path', os.path.join(REPO, 'config', 'xml-mapping.conf')] + list(args))


def check_temp(x):
    """files started while another one is being processed"""
    module, ext = MODULES[x['module']]
    names = [s + ext for s in x['names']]
    if not names or len(x['fail']) != len(names):
        return None
    with scratch('vfc16') as d:
        for s in ('src', 'out', 'xml'):
            os.mkdir(os.path.join(d, s))
        for s in names:
            write_source(os.path.join(d, 'src', s), s, container='body')
        opt = temp_options(d, module, ['--skip-errors'])
        base = R(module, 'AnnotatePipelineFactory')
        used, problems, done, top = [], [], [], []

        class Factory(base):
            def get_annotator(self, source_url):
                name = os.path.basename(source_url)
                used.append(source_url)
                if not os.path.exists(source_url):
                    problems.append('%s not available' % source_url)
                # another file is started (and finished) while this one is being processed
                for i in x['order']:
                    if i < len(names) and names[i] not in done:
                        done.append(names[i])
                        top[0].auto_annotate(os.path.join(d, 'src', names[i]))
                        break
                if not os.path.exists(source_url):
                    problems.append('temporary file of %s gone after processing another file' % name)

                def fn(doc):
                    if not os.path.exists(source_url):
                        problems.append('temporary file of %s gone while annotating' % name)
                    if x['fail'][names.index(name)]:
                        raise ValueError('annotator failed')
                return Tagger(fn)
        f = call(Factory, opt)
        top.append(f)
        for s in names:
            if s not in done:
                done.append(s)
                call(f.auto_annotate, os.path.join(d, 'src', s))
        if problems:
            return problems[0]
        if sorted(os.path.basename(u) for u in used) != sorted(names):
            return 'processed %r' % used
        src = [os.path.join(d, 'src', s) for s in names]
        for u in used:
            if u not in src and os.path.exists(u):
                return 'temporary file %s remains' % u
        for s, fail in zip(names, x['fail']):
            p = os.path.join(d, 'out', s)
            if os.path.exists(p) == bool(fail):
                return '%s written: %r, failing: %r' % (s, not fail, fail)
            if not fail and ' '.join(''.join(etree.parse(p).getroot().itertext()).split()) != words(s):
                return '%s has other content' % s
    return None


# ---- whole runs of a tool, with processes

def gen_main(g):
    n = g.r.randrange(1, 5)
    return {'module': 0, 'n': n, 'bad': [g.p(.25) for _ in range(n)], 'existing': [g.p(.25) for _ in range(n)],
            'resume': g.p(.5), 'skip': g.p(.7), 'workers': g.choice([1, 2, 4]), 'processes': g.p(.6)}


def check_main(x):
    module, ext = MODULES[x['module']]
    n = min(x['n'], len(x['bad']), len(x['existing']))
    names = ['doc%d%s' % (i, ext) for i in range(n)]
    if not n:
        return None
    with scratch('vfc16') as d:
        for s in ('src', 'out', 'xml'):
            os.mkdir(os.path.join(d, s))
        for i, s in enumerate(names):
            write_source(os.path.join(d, 'src', s), s, container='body')
            if not x['bad'][i]:
                open(os.path.join(d, 'xml', s.replace(ext, '.xml')), 'w').write('<article/>')
            if x['existing'][i]:
                open(os.path.join(d, 'out', s), 'w').write('old')
        args = ['--num-workers', str(x['workers'])] + (['--multi-processing'] if x['processes'] else [])
        args += ['--resume'] if x['resume'] else []
        args += ['--skip-errors'] if x['skip'] else []
        opt = temp_options(d, module, args)
        todo = [i for i in range(n) if not (x['resume'] and x['existing'][i])]
        failing = [i for i in todo if x['bad'][i]]
        err = None
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                call(R(module, 'run'), opt)
            except Exception as e:  # pylint: disable=broad-except
                err = e
        if bool(err) != bool(failing and not x['skip']):
            return 'run raised %r, failing files %r, skip errors %r' % (err, failing, x['skip'])
        for i, s in enumerate(names):
            p = os.path.join(d, 'out', s)
            content = open(p).read() if os.path.exists(p) else None
            if i in todo and i not in failing:
                if content in (None, 'old'):
                    return '%s not written' % s
                if ' '.join(''.join(etree.fromstring(content.encode()).itertext()).split()) != words(s):
                    return '%s has other content' % s
            elif content != ('old' if x['existing'][i] else None):
                return 'unexpected output for %s' % s
        if set(files(os.path.join(d, 'out'))) - set(names):
            return 'extra output'
    return None


def gen_names(g):
    return [g.choice(['', 'a/', '/x/y/', 'gs://b/']) + g.str(['f', 'a.b', 'd 1']) + '.tei.xml',
            g.choice(['/o', 'o/', 'gs://o']), g.choice([None, '/fail', 'x'])]


def check_names(x):
    url, out, failed = x
    with scratch('vfc16') as d:
        opt = options(d)
    opt.output_path, opt.failed_output_path, opt.xml_path = out, failed, '/x'
    f = factory(opt, lambda u: None)
    b = os.path.basename(url)
    got = [f.get_tei_xml_output_file_for_source_file(url), f.get_tei_xml_failed_output_file_for_source_file(url),
           f.get_target_xml_for_source_file(url)]
    exp = [os.path.join(out, b), os.path.join(failed, b) if failed else None, os.path.join('/x', b.replace('.tei.xml', '.xml'))]
    return None if got == exp else '%r: %r, expected %r' % (x, got, exp)


def gen_resume(g):
    n = g.size(6, 15)
    names = [g.choice(['a', 'b', 'c/', '']) + 'f%d' % i for i in range(n)]
    if n > 1 and g.p(.2):
        names[-1] = names[0]
    return [names, [s for s in names if g.p(.4)]]


def check_resume(x):
    names, existing = x
    with scratch('vfc16') as d:
        for s in existing:
            open(os.path.join(d, s.replace('/', '_')), 'w').close()
        r = call(R(AU, 'get_file_list_without_output_file'), list(names), lambda s: os.path.join(d, s.replace('/', '_')))
    e = [s for s in names if s not in existing]
    return None if list(r) == e else 'resume of %r with %r existing: %r' % (names, existing, r)


def subs():
    return [
        Sub('run', gen, check, 150, 2500, weight=4, bound='up to 9 files, up to 8 threads',
            nontrivial=lambda x: len(x['names']) > 1),
        Sub('temporary', gen_temp, check_temp, 80, 1000, weight=3, bound='up to 4 files, nested starts, 2 tools'),
        Sub('tool', gen_main, check_main, 12, 200, weight=3, bound='up to 4 files, threads or processes'),
        Sub('names', gen_names, check_names, 200, 2000, bound='single names'),
        Sub('resume', gen_resume, check_resume, 100, 1000, bound='up to 15 files'),
    ]
