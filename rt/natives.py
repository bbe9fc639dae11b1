"""Builders for objects with an invariant: made by their constructors."""
from common import R


def joined_text(b, items=None):
    c = R('annotation.matching_utils', 'JoinedText')
    n = b.n()
    items = [b.text() for _ in range(n)]
    ws = None if b.p(.5) else [b.r.choice([None, '', ' ', '  ']) for _ in items]
    return c(items, sep=b.r.choice([' ', '', '\n', ', ']), whitespace_list=ws)


def sequence_wrapper(b):
    c = R('annotation.matching_utils', 'SequenceWrapper')
    doc = b.document()
    pool = [t for ln in doc._lines for t in ln.tokens]
    i = b.r.randrange(len(pool) + 1)
    return c(doc, pool[i:i + b.n()])


def sequences_text(b):
    c = R('annotation.matching_utils', 'SequencesText')
    return c([sequence_wrapper(b) for _ in range(b.n())])


def joined_sequences(b):
    return sequences_text(b)._joined_text


def fuzzy_match(b, module='core.annotation.fuzzy_match'):
    c = R(module, 'FuzzyMatchResult')
    ai, bi, blocks = b.r.randrange(3), b.r.randrange(3), []
    for _ in range(b.n()):
        n = b.r.choice([0, 1, 1, 2, 3, 5])
        blocks.append((ai, bi, n))
        ai += n + b.r.randrange(3)
        bi += n + b.r.randrange(3)

    def some(n):
        return ''.join(b.r.choice('ab. ,*') for _ in range(n))
    m = c(some(ai + b.r.randrange(4)), some(bi + b.r.randrange(4)), blocks)
    if b.p(.5):
        m.isjunk = b.fn(('fn', ('str',), ('int',), ('bool',)), 'isjunk')
    for f in ('match_count', 'a_index_range', 'b_index_range'):
        if b.p(.3):
            getattr(m, f)()
    return m


def element(b):
    """an element of a new tree, or a detached one"""
    from lxml import etree      # pylint: disable=import-outside-toplevel

    def text():
        return None if b.p(.3) else ''.join(b.r.choice(['a', ' ', 'B', '\n', 'x1', '"', 'é']) for _ in range(b.r.randrange(4)))

    def tree(depth):
        e = etree.Element(b.r.choice(['a', 'b', 'p', 'note', 'ext-link']))
        if b.p(.3):
            e.set(b.r.choice(['type', 'id']), b.r.choice(['x', 'y']))
        e.text = text()
        for _ in range(b.r.choice([0, 0, 1, 2, 3]) if depth else 0):
            c = tree(depth - 1)
            c.tail = text()
            e.append(c)
        return e
    root = tree(b.r.randrange(4))
    nodes = list(root.iter())
    r = b.r.choice(nodes)
    ELEMENTS.append(nodes)
    del ELEMENTS[:-50]
    return r


def tree_writer(b):
    c = R('structured_document.grobid_training_tei', 'XmlTreeWriter')
    w = c(element(b))
    w.current_path = [x.tag for x in reversed(list(w.current_element.iterancestors()))]
    if b.p(.3):
        w.current_path = w.current_path[1:]
    return w


def line_buffer(b):
    c = R('structured_document.grobid_training_tei', 'LineBuffer')
    w = c()
    w.tokens = b.make(('list', ('TeiText',)), 'tokens')
    w.next_tag = b.make(('opt', ('str',)), 'tag')
    w.next_sub_tag = b.make(('opt', ('str',)), 'tag')
    return w


def fixing_parser(b):
    from contracts.c14 import Buffer        # pylint: disable=import-outside-toplevel
    p = R('utils.xml', 'FixingHtmlParser')()
    p.buffer = Buffer()
    p.buffer.write(b.text())
    p.tag_stack = [b.r.choice(['a', 'b', 'p', 'x']) for _ in range(b.n())]
    return p


def namespace(cls):
    def make(b):
        import argparse     # pylint: disable=import-outside-toplevel
        from difft import CLASSES, parse_type     # pylint: disable=import-outside-toplevel,cyclic-import
        return argparse.Namespace(**{
            f: b.make(parse_type(t), f) for f, t in CLASSES[cls].get('fields', {}).items()})
    return make


def pipeline(cls, *methods):
    """an object whose methods that start pipelines only record the files"""
    def make(b):
        import inspect      # pylint: disable=import-outside-toplevel
        from difft import CLASSES, parse_type     # pylint: disable=import-outside-toplevel,cyclic-import
        module, name = CLASSES[cls]['path'].split(':')
        base = R(module, name)

        def recorder(method):
            sig = inspect.signature(getattr(base, method))

            def record(*args, **kwargs):
                bound = sig.bind(*args, **kwargs)
                bound.apply_defaults()
                b.log.append((method, sorted((k, repr(v)) for k, v in bound.arguments.items()
                                             if k not in ('self', 'args'))))
            return record
        sub = type(name, (base,), {'get_annotator': lambda self, source_url: None,
                                   **{m: recorder(m) for m in methods}})
        o = sub.__new__(sub)
        o.__dict__.update({f: b.make(parse_type(t), f) for f, t in CLASSES[cls]['fields'].items()})
        return o
    return make


ELEMENTS = []       # keeps the proxies of the nodes alive

NATIVE = {'RunArgs': namespace('RunArgs'),
          'Factory': pipeline('Factory', 'run_local_pipeline', 'run_beam_pipeline'),
          'FixProcessor': pipeline('FixProcessor', 'run_local_pipeline'),
          'DownloadArgs': namespace('DownloadArgs'), 'FixingParser': fixing_parser, 'Elem': element, 'TreeWriter': tree_writer, 'LineBuffer': line_buffer,
          'FuzzyMatch': fuzzy_match, 'FuzzyMatch2': lambda b: fuzzy_match(b, 'utils.fuzzy'),
          'JoinedText': joined_text, 'SequenceWrapper': sequence_wrapper, 'SequencesText': sequences_text,
          'JoinedSequences': joined_sequences}
