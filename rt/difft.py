"""The contracts of contracts/*.py run natively: the function of /repo and its specification on the same generated
arguments; results, exceptions, effects on the arguments and logged external calls have to agree.

Gives a concrete input for an obligation that the verifier cannot discharge."""
import ast
import copy
import glob
import importlib
import inspect
import os
import random
import sys
import natives
from common import REPO, VERIF, PKG, Skip, Sub

LITERALS = {}


class Contract:
    def __init__(self, spec, kind, module, qualname, props, params, opts):
        self.spec, self.kind, self.module, self.qualname, self.props = spec, kind, module, qualname, props
        self.params, self.opts = params, opts


def parse_type(s):
    s = s.strip()
    if '[' not in s:
        return (s,)
    head, rest = s.split('[', 1)
    rest = rest[:-1]
    parts, depth, cur = [], 0, ''
    for ch in rest:
        if ch == ',' and not depth:
            parts.append(cur)
            cur = ''
            continue
        depth += {'[': 1, ']': -1}.get(ch, 0)
        cur += ch
    parts.append(cur)
    if head == 'obj':
        return (parts[0],)
    return (head,) + tuple(parse_type(p) for p in parts)


def load():
    """-> contracts, classes, externs, read from the source as the verifier does"""
    contracts, classes, externs = [], {}, {}
    for p in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.py'))):
        name = os.path.basename(p)[:-3]
        tree = ast.parse(open(p, encoding='utf-8').read())
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                if n.targets[0].id == 'CLASSES':
                    classes.update(ast.literal_eval(n.value))
                if n.targets[0].id == 'EXTERNS':
                    externs.update(ast.literal_eval(n.value))
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list:
                    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('contract', 'lemma'):
                        pos = [ast.literal_eval(x) for x in d.args]
                        kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                        names = [a.arg for a in n.args.args]
                        params = {k: kw[k] for k in names}
                        opts = {k: v for k, v in kw.items() if k not in params}
                        if d.func.id == 'contract':
                            mod, qn, props = pos
                        else:
                            mod, qn, props = None, n.name, pos[0]
                        contracts.append(Contract((name, n.name), d.func.id, mod, qn, props.split(), params, opts))
    return contracts, classes, externs


CONTRACTS, CLASSES, EXTERNS = load()

VALUES = ['x', 'y', 'title', 'p/q', 'zz']
WORDS = ['a', 'B', 'ab', 'Smith', '1', '2', '3', '12', '.', ',', '-', '(', 'et', 'al', 'doi', ':', 'PMID', 'x1', 'é',
         'xY', '.x', '10']


class Builder:
    """values of declared types from a random source; the same seed gives equal values"""
    def __init__(self, seed, hints, log):
        self.r = random.Random(seed)
        self.hints = hints
        self.log = log
        self.doc = None
        self.objs = {}
        self.strs = VALUES + [s for s in hints.get('strs', [])]
        self.flavour = self.r.random()
        self.names = {}

    def p(self, x):
        return self.r.random() < x

    def n(self):
        if self.hints.get('ints') and self.p(.1):
            return max(0, min(60, abs(self.r.choice(self.hints['ints'])) + self.r.randrange(-1, 2)))
        return self.r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8])

    def tag(self):
        if self.p(.05):
            return self.r.choice(['', 'b-', 'i-', 'b-b-x', 'i-b-y', 'bx', 'ix', 'B-x'])
        return self.r.choice(['', 'b-', 'i-', 'i-', 'b-']) + self.r.choice(self.strs)

    def text(self):
        if self.p(.1):
            return self.r.choice(['', ' ', '  ', '\t', 'a b', ' x ', 'x ', '\n', "'", '-'])
        if self.hints.get('strs') and self.p(.15):
            return self.r.choice(self.hints['strs'])
        if self.p(.25):
            return ''.join(self.r.choice('abcAB12 -.,:/=|+[]"') for _ in range(self.r.randrange(1, 9)))
        return self.r.choice(WORDS)

    def str(self, name):
        if 'regex' in name:
            return self.r.choice([r'\ba', r'[a-z]+$', r'^\.', r'\d', r'\b[a-zA-Z]{2,}(\s?:)?$', 'x*'])
        if name == 'key' or 'xml_mapping' in name:
            return self.r.choice(['x', 'y', 'x.sub', 'x.sub.y', 'x.sub.', 'y.sub.x', 'x.y', 'x.sub.y.z', 'x.sub.x', ''])
        if name == 'expr':
            return '|'.join(self.text() + self.r.choice(['=', '=', ' = ', '', '==']) + self.text()
                            for _ in range(self.r.randrange(4)))
        if name == 's' and self.p(.6):
            return ','.join(self.r.choice(['', '', '+', '-', ' ', ' +']) + self.r.choice(self.strs)
                            for _ in range(self.r.randrange(5)))
        if 'whitespace' in name:
            return self.r.choice(['', ' ', '  ', '\n', ' '])
        if 'text' in name or name in ('s', 'line', 'value', 'sep', 'pad', 'items', 'item', 'haystack', 'needle'):
            return self.text()
        if name.rstrip('s').endswith(('fields', 'field', 'enabled_tag', 'sub_tag', 'name')) or 'map' in name:
            return self.r.choice(self.strs)
        if 'path' in name or 'url' in name:
            return self.r.choice(['', '/a/b/']) + self.r.choice(['x.xml', 'y.tei.xml', 'z.xml.gz', 'q'])
        if 'tag' in name:
            return self.tag()
        return self.tag() if self.p(.4) else self.text()

    def int(self, name):
        if name == 'level':
            return self.r.choice([2, 2, 2, 3, 0])
        if self.hints.get('ints') and self.p(.15):
            return self.r.choice(self.hints['ints']) + self.r.randrange(-1, 2)
        if self.p(.1):
            return self.r.randrange(-3, 40)
        return self.r.randrange(0, 9)

    def make(self, ty, name=''):
        k = ty[0]
        if k == 'int':
            return self.int(name)
        if k == 'bool':
            return self.p(.5)
        if k == 'real':
            return self.r.choice([0, .25, .5, .5, .7, .8, 1, 2, self.r.random()])
        if k == 'str':
            return self.str(name)
        if k == 'none':
            return None
        if k == 'opt':
            return None if self.p(.3) else self.make(ty[1], name)
        if k == 'list':
            return self.list(ty[1], name)
        if k == 'set':
            return {self.make(ty[1], name) for _ in range(self.r.randrange(4))}
        if k == 'tuple':
            if ty[1:] == (('int',), ('int',)):
                a = self.r.randrange(0, 12)
                return (a, a + self.r.randrange(0, 8) if self.p(.9) else self.r.randrange(0, 12))
            return tuple(self.make(t, name) for t in ty[1:])
        if k in ('map', 'dict'):
            return {self.make(ty[1], name + '_map'): self.make(ty[2], name) for _ in range(self.r.randrange(4))}
        if k == 'fn':
            return self.fn(ty, name)
        return self.obj(k, name)

    def list(self, ty, name):
        if ty[0] in ('TeiText', 'TeiLine'):
            self.document()
            pool = [t for ln in self.doc._lines for t in ln.tokens] if ty[0] == 'TeiText' else list(self.doc._lines)
            if self.p(.3):
                return [x for x in pool if self.p(.6)]
            i = self.r.randrange(len(pool) + 1)
            return pool[i:i + self.n() + 2]
        key = ('len', ty[0] in ('int',))
        n = self.n()
        if any(s in name for s in ('token', 'text', 'whitespace', 'tags', 'items')):
            # lists that belong together have the same length
            n = self.names.setdefault('n', n)
            if self.p(.06):
                n = self.n()
        del key
        if ty == ('opt', ('str',)) and 'tag' in name:
            out, cur = [], None
            for _ in range(n):
                if self.p(.5):
                    cur = self.make(ty, name) if self.p(.6) else None
                elif cur:
                    cur = 'i-' + cur.split('-', 1)[-1]
                out.append(cur)
            return out
        if ty == ('tuple', ('int',), ('int',)):
            out, pos = [], self.r.randrange(3)
            for _ in range(n):
                e = pos + self.r.randrange(0, 5)
                out.append((pos, e))
                pos = e + self.r.randrange(0, 3)
            return out
        return [self.make(ty, name) for _ in range(n)]

    def fn(self, ty, name):
        salt = self.r.randrange(10 ** 6)
        ret, hints = ty[-1], self.hints

        def f(*args):
            b = Builder('%s/%r' % (salt, [canon(a, {}) for a in args]), hints, self.log)
            if ret == ('opt', ('str',)) and args and isinstance(args[0], (str, type(None))) and b.p(.3):
                return args[0]
            if ret == ('opt', ('tuple', ('int',), ('int',))) and args and isinstance(args[0], str) and b.p(.7):
                i = b.r.randrange(len(args[0]) + 1)
                return (i, b.r.randrange(i, len(args[0]) + 1))
            return b.make(ret, name)
        return f

    def document(self):
        if self.doc is not None:
            return self.doc
        m = importlib.import_module(PKG + '.structured_document.grobid_training_tei')
        lines = []
        n_names = self.r.random()
        for _ in range(self.n()):
            tokens = []
            cur = {}
            for _ in range(self.n()):
                if tokens and self.p(.6):
                    ws = self.r.choice([' ', ' ', '  ', '\n'])
                    sp = m.TeiSpace(ws)
                    tokens[-1].whitespace = ws
                    if self.p(.3):
                        sp.attrib['tag'] = self.tag()
                    if self.p(.3):
                        sp.attrib.update({k: v for k, v in cur.items()})
                    tokens.append(sp)
                t = m.TeiText(self.r.choice(WORDS), whitespace=self.r.choice([None, '', ' ', ' ']))
                if self.p(.4):
                    cur = {}
                for a in ('tag', 'level2_tag', 'preserved_tag', 'level2_preserved_tag'):
                    if self.p(.35 if n_names < .7 else .1):
                        t.attrib[a] = cur[a] = self.tag()
                    elif a in cur and self.p(.5):
                        t.attrib[a] = 'i-' + cur[a].split('-', 1)[-1]
                tokens.append(t)
            lines.append(m.TeiLine(tokens))
        d = m.GrobidTrainingTeiStructuredDocument.__new__(m.GrobidTrainingTeiStructuredDocument)
        d._lines = lines
        d._root = None
        d._tag_to_tei_path_mapping = {}
        d._preserve_tags = True
        self.doc = d
        return d

    def obj(self, cls, name):
        if cls == 'Doc':
            return self.document()
        if cls in ('TeiText', 'TeiLine'):
            self.document()
            pool = [t for ln in self.doc._lines for t in ln.tokens] if cls == 'TeiText' else list(self.doc._lines)
            if not pool:
                raise Skip1()
            return self.r.choice(pool)
        if cls not in CLASSES:
            raise Skip('no generator for %s' % cls)
        d = CLASSES[cls]
        if cls in natives.NATIVE:
            return natives.NATIVE[cls](self)
        path = d.get('path')
        if not path:
            return self.fake(cls)
        mn, cn = path.split(':')
        c = importlib.import_module(PKG + '.' + mn)
        for part in cn.split('.'):
            if not hasattr(c, part):
                raise Skip('%s not found' % path)
            c = getattr(c, part)
        fields = {f: self.make(parse_type(t), f) for f, t in d.get('fields', {}).items()}
        try:
            ps = list(inspect.signature(c).parameters.values())
            o = c(**{p.name: fields[p.name] for p in ps if p.name in fields})
        except Exception:    # pylint: disable=broad-except
            o = c.__new__(c)
        if hasattr(o, '__dict__'):
            o.__dict__.update(fields)
        return o

    def fake(self, cls):
        return Fake(cls, self.r.randrange(10 ** 6), self.hints, self.log)


class Skip1(Exception):
    """no value for this seed"""


class Fake:
    """an object of a class known only by its external methods: their results are a function of the arguments"""
    def __init__(self, cls, salt, hints, log):
        self._cls, self._salt, self._hints, self._log = cls, salt, hints, log

    def _do(self, name, args):
        d = EXTERNS['%s.%s' % (self._cls, name)]
        state = canon(list(args), {})
        b = Builder('%s/%s/%r' % (self._salt, name, state), self._hints, self._log)
        self._log.append((name, state))
        for a in args:
            if d.get('modifies') and hasattr(a, '_lines'):
                for line in a._lines:
                    for t in line.tokens:
                        if b.p(.4):
                            for at in ('tag', 'level2_tag'):
                                if b.p(.4):
                                    t.attrib[at] = b.tag()
                                elif b.p(.2):
                                    t.attrib.pop(at, None)
        ret = parse_type(d['ret'])
        for a in args:
            if type(a).__name__ == 'GrobidTrainingTeiStructuredDocument' and ret == ('Doc',):
                return a
        return b.make(ret, name)

    def __call__(self, *args):
        return self._do('__call__', args)

    def __getattr__(self, name):
        if name.startswith('__') or '%s.%s' % (self._cls, name) not in EXTERNS:
            raise AttributeError(name)
        return lambda *args: self._do(name, args)


FIELDS = {}
for _n, _d in CLASSES.items():
    if _d.get('path'):
        FIELDS.setdefault(_d['path'].split(':')[-1].split('.')[-1], []).append(
            sorted(set(_d.get('fields', {})) - set(_d.get('internal', ()))))
        for _s in _d.get('subclasses', {}):
            FIELDS.setdefault(_s, []).append(sorted(_d.get('fields', {})))


def canon(v, memo):
    if v is None or isinstance(v, (bool, int, str, float)):
        return v
    if isinstance(v, (list, tuple)):
        return [canon(x, memo) for x in v]
    if isinstance(v, (set, frozenset)):
        return ['#set'] + sorted((canon(x, memo) for x in v), key=repr)
    if isinstance(v, dict):
        return ['#dict'] + sorted(([canon(k, memo), canon(x, memo)] for k, x in v.items()), key=repr)
    if inspect.isgenerator(v) or type(v).__name__ in ('map', 'filter', 'zip', 'chain', 'islice', 'dict_keys',
                                                      'dict_values', 'dict_items', 'reversed', 'list_iterator'):
        return [canon(x, memo) for x in v]
    if inspect.isfunction(v) or inspect.ismethod(v):
        return '#fn'
    if isinstance(v, Fake):
        return '#%s %d' % (v._cls, v._salt)
    if type(v).__name__ == '_Element':
        # the whole tree and the place of the element in it
        from lxml import etree      # pylint: disable=import-outside-toplevel
        t = v.getroottree()
        return ['#element', t.getpath(v), etree.tostring(t.getroot(), encoding='unicode')]
    if id(v) in memo:
        return '#%d' % memo[id(v)][0]
    memo[id(v)] = (len(memo), v)
    n = type(v).__name__
    out = ['#' + n, len(memo) - 1]
    for fields in FIELDS.get(n, [sorted(getattr(v, '__dict__', {}))])[:1]:
        for f in fields:
            if f in ('_root',):
                continue
            x = v.__dict__.get(f, '#missing') if hasattr(v, '__dict__') else '#?'
            out.append([f, canon(x, memo)])
    return out


class Patched:
    """logged external functions of the repository are replaced wherever they were imported"""
    def __init__(self, log, seed, hints, spec=None):
        self.spec = spec
        self.log, self.seed, self.hints, self.undo = log, seed, hints, []

    def __enter__(self):
        for n, d in EXTERNS.items():
            if ':' not in n:
                if not (d.get('log') or d.get('stub')) or n.count('.') < 2:
                    continue
                mn, qn = n.rsplit('.', 1)
            else:
                mn, qn = n.split(':')
                mn = PKG + '.' + mn
            if '.' in qn or (d.get('within') and (not d.get('log') or self.spec not in d['within'])):
                continue
            try:
                orig = getattr(importlib.import_module(mn), qn)
            except (ImportError, AttributeError):
                continue
            new = self.stand_in(qn, d)
            key = ('sites', n, len(sys.modules))
            if key not in LITERALS:
                LITERALS[key] = [
                    (m, a) for m in list(sys.modules.values())
                    if getattr(m, '__name__', '').startswith((PKG, 'contracts'))
                    for a, v in list(vars(m).items()) if v is orig]
            for m, a in LITERALS[key]:
                self.undo.append((m, a, orig))
                setattr(m, a, new)
        return self

    def stand_in(self, qn, d):
        def f(*args, **kwargs):
            args = list(args)
            for name in d.get('names', [])[len(args):]:
                if name not in kwargs:
                    break
                args.append(kwargs.pop(name))
            state = canon([args, kwargs], {})
            if d.get('log'):
                self.log.append((qn, state))
            if d.get('stub') == 'each':     # a value for each item
                return [self.value(qn, d, canon(x, {})) for x in args[0]]
            return self.value(qn, d, state)
        return f

    def value(self, qn, d, state):
        b = Builder('%s/%s/%r' % (self.seed, qn, state), self.hints, self.log)
        ty = parse_type(d['ret'])
        return b.make(ty[1] if d.get('stub') == 'each' else ty, qn)

    def __exit__(self, *a):
        for m, n, v in self.undo:
            setattr(m, n, v)


def spec_of(c):
    m = importlib.import_module('contracts.' + c.spec[0])
    return m, getattr(m, c.spec[1])


def code_of(c):
    try:
        o = importlib.import_module(PKG + '.' + c.module)
    except ImportError:
        raise Skip('module %s not found' % c.module)
    for part in c.qualname.split('.'):
        if not hasattr(o, part):
            raise Skip('%s not found' % c.qualname)
        raw = o.__dict__.get(part) if inspect.isclass(o) else None
        o = getattr(o, part)
        if isinstance(raw, property):
            o = raw.fget
    return o


def bind(fn, names, values):
    """arguments by name where the code has the name, otherwise by position"""
    try:
        sig = inspect.signature(fn)
    except (TypeError, ValueError):
        return values, {}
    ps = list(sig.parameters.values())
    if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
        args, kwargs = [], {}
        own = [p.name for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
        var = any(p.kind == p.VAR_POSITIONAL for p in ps)
        kw = any(p.kind == p.VAR_KEYWORD for p in ps)
        for i, (n, v) in enumerate(zip(names, values)):
            if i < len(own) or (var and (not kw or i < len(own) + 1)):
                args.append(v)
            else:
                kwargs[n] = v
        return args, kwargs
    known = [p.name for p in ps]
    if all(n in known for n in names):
        return [], dict(zip(names, values))
    raise Skip('the parameters of %s changed' % fn.__name__)


def one_side(fn, c, seed, hints, is_code):
    log = []
    b = Builder(seed, hints, log)
    names = list(c.params)
    values = [b.make(parse_type(c.params[n]), n) for n in names]
    m, _ = spec_of(c)
    for req in (c.opts.get('requires'), c.opts.get('terminates')):
        if req and not getattr(m, req)(*values):
            raise Skip1()
    shown = canon(values, {}) if is_code is not None else None
    args, kwargs = bind(fn, names, values) if is_code else (values, {})
    memo = {}
    with Patched(log, seed, hints, c.spec[1]):
        try:
            r = fn(*args, **kwargs)
            if inspect.isgenerator(r):
                r = list(r)
            elif inspect.isawaitable(r):
                raise Skip('awaitable')
            out = 'returns'
        except Skip1:
            raise
        except Skip:
            raise
        except RecursionError:
            raise Skip1()
        except Exception as e:      # pylint: disable=broad-except
            r, out = None, 'raises ' + type(e).__name__
            if isinstance(e, (UnicodeError,)):
                out = 'raises ValueError'
            if isinstance(e, AttributeError) and 'NoneType' not in str(e):
                # an attribute or method that the generated objects do not have
                raise Skip('attribute not set by the generator: %s' % e)
    after = canon(values, memo)
    return shown, {'outcome': out, 'result': canon(r, memo) if out == 'returns' else None,
                   'arguments afterwards': after if out == 'returns' or not is_code else after, 'external calls': log}


def referenced_in_tests(name):
    if 'tests' not in LITERALS:
        text = ''
        for p in glob.glob(os.path.join(REPO, 'tests', '**', '*.py'), recursive=True):
            text += open(p, encoding='utf-8').read()
        LITERALS['tests'] = text
    return name in LITERALS['tests']


def make_sub(c, hints):
    m, spec = spec_of(c)

    def check(x):
        code = code_of(c)
        seed = x['seed']
        try:
            shown, a = one_side(code, c, seed, hints, True)
            _, b = one_side(spec, c, seed, hints, False)
        except Skip1:
            return None
        if a['outcome'] != 'returns' and b['outcome'] != 'returns':
            # what is left behind by a failed call is not specified
            a.pop('arguments afterwards')
            b.pop('arguments afterwards')
        for k in a:
            if a[k] != b.get(k):
                return '%s(%s): %s: %r, contract: %r' % (
                    c.qualname, ', '.join('%s=%r' % z for z in zip(c.params, shown)), k, a[k], b.get(k))
        return None

    def gen(g):
        return {'seed': g.r.randrange(10 ** 12)}
    short = c.qualname
    public = not short.split('.')[-1].startswith('_') and referenced_in_tests(short.split('.')[-1])
    return Sub('contract:%s%s' % ('' if public else 'internal:', short), gen, check, 250, 4000, weight=.3,
               bound='generated arguments of the declared types')


def make_lemma_sub(c, hints):
    m, spec = spec_of(c)

    def check(x):
        b = Builder(x['seed'], hints, [])
        values = [b.make(parse_type(t), n) for n, t in c.params.items()]
        req = c.opts.get('requires')
        if req and not getattr(m, req)(*values):
            return None
        shown = canon(values, {})
        if not spec(*values):
            return 'lemma %s fails for %r' % (c.qualname, shown)
        return None
    return Sub('lemma:' + c.qualname, lambda g: {'seed': g.r.randrange(10 ** 12)}, check, 150, 2000, weight=.15,
               bound='generated arguments of the declared types')


def not_covered(c, why):
    def check(x):
        raise Skip(why)
    return Sub('contract:' + c.qualname, lambda g: {}, check, 1, 1, weight=.01)


def subs(pid, hints):
    out = []
    for c in CONTRACTS:
        if pid not in c.props:
            continue
        try:
            spec_of(c)
        except (ImportError, AttributeError) as e:
            out.append(not_covered(c, str(e)))
            continue
        if c.opts.get('native') is False:
            out.append(not_covered(c, 'the specification uses super() and is not run natively'))
        elif c.kind == 'contract':
            out.append(make_sub(c, hints))
        elif not c.opts.get('ghost'):
            out.append(make_lemma_sub(c, hints))
    return out
