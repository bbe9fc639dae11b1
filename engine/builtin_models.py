"""Models of builtins, methods of builtin types and library functions.

Exact where z3 has the operation, by a Python definition (prelude.py) where that is a loop, and an
uninterpreted function of the arguments otherwise (sound: nothing is assumed but determinism)."""
import ast
import z3
from vals import *  # noqa
import sym


def _prelude(ip, name):
    m = ip.w.module('prelude')
    return Fn(m.defs[name], m)


def _ident(x):
    return x


def call(ip, f, args, kwargs):
    n = f.name
    if f.self_val is not None and not n.startswith('#'):
        return method(ip, f.self_val, n, args, kwargs)
    g = globals().get('b_' + n.replace('.', '_'))
    if g is not None:
        return g(ip, args, kwargs)
    if n in ip.w.externs:
        return extern(ip, n, args, kwargs)
    if n in sym.EXCEPTIONS or n == '#exception':
        return Builtin('#exception')
    if n.startswith('#super'):
        return super_call(ip, f, args, kwargs)
    short = n.split('.')[-1]
    if n.startswith(('six.', 'typing.')) and short == 'cast':
        return args[1]
    raise Unsupported('function %s' % n)


def super_call(ip, f, args, kwargs):
    # '#super.method'
    name = f.name[len('#super.'):]
    if ip.extern_here('super().' + name):
        return extern(ip, 'super().' + name, [ip.lookup('self')] + list(args), kwargs)
    fn = ip.fn_of_frame[ip.fid]
    if fn.cls is None:
        raise Unsupported('super')
    mod, node = fn.cls
    # the class that defines the running method
    owner = ip.w.owner_of(mod, node, fn.node)
    if owner is None:
        raise Unsupported('super')
    om, on = owner
    self_val = ip.lookup('self')
    for b in on.bases:
        if isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name):
            try:
                bm, bn, _ = ip.w.find(om.name, b.id)
            except Unsupported:
                continue
            if isinstance(bn, ast.ClassDef):
                r = ip.w.lookup_method(bm, bn, name)
                if r is not None:
                    return ip.call_fn(Fn(r[1], r[0], None, self_val, name, cls=(mod, node)), args, kwargs)
    if name == '__init__' and not args and not kwargs:
        return NONE_V
    raise Unsupported('super().%s' % name)


def extern(ip, name, args, kwargs):
    """declared external function: an unknown total function of its arguments and of the fields it reads; it may
    change only the fields it is declared to modify; with log, calls and their arguments are recorded in order"""
    spec = ip.w.externs[name]
    ip.w.used_externs.add(name)
    if spec.get('model'):
        # an assumed contract, written as a function
        m, node, _ = ip.w.find(*spec['model'].split(':'))
        return ip.call_fn(Fn(node, m), args, kwargs)
    keys = sorted(kwargs)
    for k in keys:
        if isinstance(kwargs[k], Builtin) and kwargs[k].name == '#kwargs':
            raise Unsupported('keyword arguments of %s' % name)
    vals = list(args) + [kwargs[k] for k in keys]
    ats = spec.get('args')
    names = spec.get('names')
    if names is not None and ats is not None:
        vals = list(args)
        for n in names[len(args):]:
            vals.append(kwargs[n] if n in kwargs else NONE_V)
        if set(kwargs) - set(names):
            raise Unsupported('arguments of %s' % name)
        keys = []
    if ats is not None:
        if len(ats) > len(vals):
            raise Unsupported('arguments of %s' % name)
        # arguments that are not declared: of the types they have
        ats = list(ats) + [ip.tyof(v) for v in vals[len(ats):]]
        fns = ''
        for i, t in enumerate(ats):
            if t[0] == 'fn':
                # a function: part of what is called
                more, n = ip.opaque_arg(vals[i], t)
                if more:
                    raise Unsupported('function argument of %s' % name)
                fns += n
        vals, ats = [v for v, t in zip(vals, ats) if t[0] != 'fn'], [t for t in ats if t[0] != 'fn']
        vals = [from_term(t, ip.term(ip.refine(v) if t[0] != 'opt' else v, t)) if t != ('any',) else None
                for v, t in zip(vals, ats)]
        vals = [v for v in vals if v is not None]
    suffix = ''.join('_' + k for k in keys) + (fns if ats is not None else '')
    reads = [heap_key(ip, f) for f in list(spec.get('reads', ())) + list(spec.get('modifies', ()))]
    reads = list(dict.fromkeys(reads))
    arrs = [ip.heap_array(c, f, ip.w.classes[c]['fields'][f]).term for c, f in reads]
    vals_in = vals
    r = app(ip, 'ext_' + name + suffix, vals, arrs, spec['ret'])
    for f in spec.get('modifies', ()):
        c, fl = heap_key(ip, f)
        ty = ip.w.classes[c]['fields'][fl]
        srt = z3.ArraySort(sort(('obj', c)), sort(ty))
        ip.st.heap[(c, fl)] = T(ty, app(ip, 'mod_%s_%s_%s' % (name, c, fl), vals, arrs, srt))
    if spec.get('log'):
        if spec.get('reads'):
            # the state it was called in
            vals = vals + [app(ip, 'state_' + name, [], arrs, INT)]
        if spec.get('entry'):
            # one log of calls of several functions: a tuple of the same type for each
            vals = [vals[x] if isinstance(x, int) else T(STR, z3.StringVal(x)) if isinstance(x, str)
                    else from_term(('list', STR), z3.Empty(sort(('list', STR)))) for x in spec['entry']]
        if ats is not None and fns:
            vals = vals + [T(STR, z3.StringVal(fns))]
        log_call(ip, spec['log'] if isinstance(spec['log'], str) else name, vals)
    for exc in spec.get('may_raise', ()):
        if ip.decide(app(ip, 'ext_%s_raises_%s' % (name + suffix, exc), vals_in, arrs, BOOL).term):
            raise sym.RaiseSig(exc)
    if 'same_len' in spec:
        # assumed: one element for each of an argument
        ip.st.pc.append(sym.fact(z3.Length(r.term) == z3.Length(ip.term(vals_in[spec['same_len']]))))
    if spec['ret'][0] in ('list', 'dict', 'set', 'map'):
        return ip.new_cell(r)
    return r


def heap_key(ip, f):
    c, fl = f.split('.')
    return c, fl


def app(ip, name, vals, arrs, ret):
    terms = []
    fz = ip.st.frozen
    for v in vals:
        terms.append(ip.term(v))
    ip.st.frozen = fz
    terms += arrs
    srt = ret if isinstance(ret, z3.SortRef) else sort(ret)
    full = 'x_%s__%s' % (name, '_'.join(str(t.sort()).replace(' ', '') for t in terms))
    t = z3.Function(full, *([x.sort() for x in terms] + [srt]))(*terms) if terms else z3.Const(full, srt)
    return t if isinstance(ret, z3.SortRef) else from_term(ret, t)


def log_call(ip, name, vals):
    """ghost state: the calls made so far"""
    ip.w.classes.setdefault('Ghost', {'fields': {}, 'path': None, 'subclasses': {}})
    et = ('tuple',) + tuple(ip.tyof(v) for v in vals)
    field = 'log_' + name.replace('.', '_').replace(':', '_') + '_' + tyname(et)
    ip.w.classes['Ghost']['fields'][field] = ('list', et)
    ref = Ref(('field', 'Ghost', field, z3.Const('ghost', sort(('obj', 'Ghost')))))
    ip.list_append(ref, Tup(vals))


def one(args, kwargs):
    if len(args) != 1 or kwargs:
        raise Unsupported('arguments')
    return args[0]


# ------------------------------------------------------------------ functions

def b_len(ip, args, kwargs):
    v = ip.narrow(one(args, kwargs))
    if isinstance(v, Tup):
        return T(INT, z3.IntVal(len(v.items)))
    c = ip.container(v)
    if c is not None:
        if c.ty[0] in ('list', 'str'):
            if c.ty == ('list', BOT):
                return T(INT, z3.IntVal(0))
            u = seq_units(c.term) if c.ty[0] == 'list' else None
            if u is not None:
                return T(INT, z3.IntVal(len(u)))
            return T(INT, z3.Length(c.term))
        if c.ty[0] == 'dict':
            return T(INT, z3.Length(sort(c.ty).items(c.term)))
        if c.ty[0] == 'set':
            r = ip.uf('card_' + tyname(c.ty), [c], INT)
            ip.st.pc.append(sym.fact(r.term >= 0))
            return r
    m = ip.find_method(v, '__len__')
    if m is not None:
        return ip.call(m, [], {})
    raise Unsupported('len of %r' % (v,))


def b_str(ip, args, kwargs):
    if not args:
        return T(STR, sval(''))
    return ip.to_str(args[0])


def b_repr(ip, args, kwargs):
    return ip.to_str(args[0], 'r')


def b_bool(ip, args, kwargs):
    return T(BOOL, ip.truth(args[0]) if args else z3.BoolVal(False))


def b_implies(ip, args, kwargs):
    return T(BOOL, z3.Implies(ip.truth(args[0]), ip.truth(args[1])))


def b_contracts_lib_implies(ip, args, kwargs):
    return b_implies(ip, args, kwargs)


def b_contracts_lib_invariant(ip, args, kwargs):
    ip.st.user_invs = ip.st.user_invs + [args[0]]
    return NONE_V


def b_int(ip, args, kwargs):
    v = ip.narrow(one(args, kwargs))
    if isinstance(v, T) and v.ty == INT:
        return v
    if isinstance(v, T) and v.ty == BOOL:
        return ip.num(v)
    if isinstance(v, T) and v.ty == REAL:
        return T(INT, z3.If(v.term >= 0, z3.ToInt(v.term), -z3.ToInt(-v.term)))
    if isinstance(v, T) and v.ty == STR:
        ok = ip.uf('is_int_text', [v], BOOL)
        if not ip.decide(ok.term):
            raise sym.RaiseSig('ValueError')
        return ip.uf('int_of_text', [v], INT)
    raise Unsupported('int of %r' % (v,))


def b_float(ip, args, kwargs):
    v = ip.narrow(one(args, kwargs))
    if isinstance(v, T) and v.ty in (INT, REAL):
        return T(REAL, coerce_term(v.term, v.ty, REAL))
    if isinstance(v, T) and v.ty == STR:
        ok = ip.uf('is_float_text', [v], BOOL)
        if not ip.decide(ok.term):
            raise sym.RaiseSig('ValueError')
        return ip.uf('float_of_text', [v], REAL)
    raise Unsupported('float of %r' % (v,))


def b_round(ip, args, kwargs):
    """to the nearest integer, halves to the even one"""
    if len(args) != 1 or kwargs:
        raise Unsupported('round')
    v = ip.num(args[0])
    if v.ty[0] != 'real':
        return v
    x = v.term
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    up = z3.Or(d > z3.RealVal('1/2'), z3.And(d == z3.RealVal('1/2'), f % 2 == 1))
    return T(INT, z3.If(up, f + 1, f))


def b_abs(ip, args, kwargs):
    v = ip.num(one(args, kwargs))
    return T(v.ty, z3.If(v.term >= 0, v.term, -v.term))


def _less(ip, a, b):
    return ip.compare(ast.Lt(), a, b)


def _minmax(ip, args, kwargs, is_max):
    key = kwargs.get('key', NONE_V)
    default = kwargs.get('default')

    def k(v):
        return v if key is NONE_V else ip.call(key, [v], {})

    def better(x, cur):
        # does x replace cur? (the first of equal values is kept)
        return _less(ip, k(cur), k(x)) if is_max else _less(ip, k(x), k(cur))
    if len(args) > 1:
        cur = args[0]
        for x in args[1:]:
            c = better(x, cur)
            cc = cur
            cur = ip.branch_merge(c, lambda: x, lambda: cc)
        return cur
    it = ip.narrow(args[0])
    if isinstance(it, Tup):
        if not it.items:
            if default is not None:
                return default
            raise sym.RaiseSig('ValueError')
        return _minmax(ip, list(it.items), {k2: v for k2, v in kwargs.items() if k2 == 'key'}, is_max)
    h = ip.hidden('found', T(BOOL, z3.BoolVal(False)))
    m = ip.hidden('m', NONE_V)

    def each(x):
        if not ip.decide(ip.hget(h).term):
            ip.hset(h, T(BOOL, z3.BoolVal(True)))
            ip.hset(m, x)
            return
        cur = ip.narrow_known(ip.hget(m))
        if ip.decide(better(x, cur)):
            ip.hset(m, x)
    ip.iterate(it, each)
    if not ip.decide(ip.hget(h).term):
        if default is not None:
            return default
        raise sym.RaiseSig('ValueError')
    return ip.narrow_known(ip.hget(m))


def b_min(ip, args, kwargs):
    return _minmax(ip, args, kwargs, False)


def b_max(ip, args, kwargs):
    return _minmax(ip, args, kwargs, True)


def b_sorted(ip, args, kwargs):
    lst = ip.to_list(args[0])
    c = ip.load(lst)
    rev = kwargs.get('reverse')
    r = const_bool(rev) if rev is not None else False
    if r is None:
        raise Unsupported('sorted(reverse=...)')
    key = kwargs.get('key', NONE_V)
    u = seq_units(c.term) if c.ty[0] == 'list' and c.ty[1] != BOT else None
    if c.ty[1] == BOT or (u is not None and len(u) <= 1):
        return lst
    if key is NONE_V:
        t = ip.uf('sorted%s' % ('_rev' if r else ''), [c], c.ty)
    else:
        keys = ip.new_list([])
        ip.iterate(lst, lambda x: ip.list_append(keys, ip.call(key, [x], {})))
        t = ip.uf('sorted_by%s' % ('_rev' if r else ''), [c, ip.load(keys)], c.ty)
    ip.st.pc.append(sym.fact(z3.Length(t.term) == z3.Length(c.term)))
    if key is NONE_V and not r and sym.SORTED_AXIOMS:
        i = z3.Int('si')
        el, cur = (lambda s, j: from_term(c.ty[1], s[j])), t.term
        ip.st.pc.append(sym.fact(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i + 1 < z3.Length(cur)),
            z3.Not(_less(ip, el(cur, i + 1), el(cur, i)))))))
    return ip.new_cell(t)


def const_bool(v):
    if isinstance(v, T) and v.ty == BOOL:
        t = z3.simplify(v.term)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return None


def b_any(ip, args, kwargs):
    return ip.call_fn(_prelude(ip, 'py_any'), args, kwargs)


def b_all(ip, args, kwargs):
    return ip.call_fn(_prelude(ip, 'py_all'), args, kwargs)


def b_sum(ip, args, kwargs):
    return ip.call_fn(_prelude(ip, 'py_sum'), args, kwargs)


def b_next(ip, args, kwargs):
    it = args[0]
    if isinstance(it, It) and it.kind == 'iter':
        it = it.parts[0]
    if isinstance(it, Ref) or not isinstance(it, It):
        raise Unsupported('next of an iterator that is kept')
    if len(args) == 2:
        return ip.call_fn(_prelude(ip, 'py_next_default'), [it, args[1]], {})
    return ip.call_fn(_prelude(ip, 'py_next'), [it], {})


def b_iter(ip, args, kwargs):
    v = ip.narrow(one(args, kwargs))
    if ip.container(v) is not None or isinstance(v, Tup):
        return It('iter', v)
    return v


def b_enumerate(ip, args, kwargs):
    start = kwargs.get('start', args[1] if len(args) > 1 else None)
    s = z3.IntVal(0) if start is None else ip.num(start).term
    return It('enumerate', args[0], s)


def b_zip(ip, args, kwargs):
    if kwargs:
        raise Unsupported('zip')
    return It('zip', *args)


def b_range(ip, args, kwargs):
    if kwargs or len(args) > 2:
        raise Unsupported('range')
    a = [ip.num(x).term for x in args]
    if len(a) == 1:
        a = [z3.IntVal(0)] + a
    return It('range', a[0], a[1])


def b_reversed(ip, args, kwargs):
    return It('reversed', one(args, kwargs))


def b_map(ip, args, kwargs):
    if len(args) != 2:
        raise Unsupported('map')
    return It('map', args[0], args[1])


def b_filter(ip, args, kwargs):
    return It('filter', args[0], args[1])


def b_list(ip, args, kwargs):
    return ip.to_list(args[0]) if args else ip.new_list([])


def b_tuple(ip, args, kwargs):
    if not args:
        return Tup([])
    v = ip.narrow(args[0])
    if isinstance(v, Tup):
        return v
    u = seq_units(ip.container(v).term) if ip.container(v) is not None and ip.container(v).ty[0] == 'list' else None
    if u is not None:
        return Tup([from_term(ip.container(v).ty[1], x) for x in u])
    ip.w.dropped.add('tuple(iterable) as a list')
    return ip.to_list(v)


def b_set(ip, args, kwargs):
    if not args:
        return ip.new_cell(T(('set', BOT), z3.K(sort(BOT), z3.BoolVal(False))))
    return ip.to_set(args[0])


b_frozenset = b_set


def b_dict(ip, args, kwargs):
    if args:
        v = ip.narrow(args[0])
        c = ip.container(v)
        if c is not None and c.ty[0] in ('dict', 'map'):
            r = ip.new_cell(T(c.ty, c.term))
        else:
            r = ip.to_dict(v)
    else:
        r = ip.new_cell(T(('dict', BOT, BOT), empty_dict(('dict', BOT, BOT))))
    for k, v in kwargs.items():
        ip.dict_set(r, T(STR, sval(k)), v)
    return r


b_collections_OrderedDict = b_dict


def b_collections_defaultdict(ip, args, kwargs):
    raise Unsupported('defaultdict')


def _class_names(ip, t):
    if isinstance(t, Tup):
        return [x for y in t.items for x in _class_names(ip, y)]
    return [t]


def b_isinstance(ip, args, kwargs):
    v, t = args
    res = [_isinst(ip, v, c) for c in _class_names(ip, t)]
    return T(BOOL, z3.Or(*res) if len(res) > 1 else res[0])


def _isinst(ip, v, c):
    if v is NONE_V:
        return z3.BoolVal(False)
    if is_opt(v):
        o = opt_val(v)
        return z3.And(z3.Not(is_none_term(v)), _isinst(ip, from_term(o.ty, o.term), c))
    if isinstance(c, Cls):
        if isinstance(v, T) and v.ty[0] == 'obj':
            d = ip.w.classes.get(v.ty[1], {})
            if d.get('path'):
                mn, cn = d['path'].split(':')
                if ip.w.is_subclass(mn, cn, c.node):
                    return z3.BoolVal(True)
                f = z3.Function('isinst_' + c.name, sort(v.ty), z3.BoolSort())
                return f(v.term)
        if isinstance(v, Ref) and isinstance(ip.load(v), sym.RecCell):
            m, n = ip.load(v)['#node']
            return z3.BoolVal(ip.w.is_subclass_node(m, n, c.node))
        if isinstance(v, (Tup, Ref)) or (isinstance(v, T) and v.ty[0] in ('str', 'int', 'bool', 'list')):
            return z3.BoolVal(False)
        raise Unsupported('isinstance of %r' % (v,))
    if isinstance(c, Builtin):
        k = ip.tyof(v)[0]
        m = {'str': ('str',), 'int': ('int', 'bool'), 'bool': ('bool',), 'list': ('list',), 'dict': ('dict', 'map'),
             'tuple': ('tuple',), 'set': ('set',), 'float': ('real',)}.get(c.name.split('.')[-1])
        if m is not None:
            return z3.BoolVal(k in m)
    raise Unsupported('isinstance')


def b_getattr(ip, args, kwargs):
    n = args[1]
    if isinstance(n, T) and n.ty == STR:
        n = T(STR, z3.simplify(n.term))
    n = const_str(n)
    if n is None:
        raise Unsupported('getattr')
    if len(args) > 2:
        # the default is used only for objects without the field: the declared fields are always set
        o = ip.narrow(args[0])
        ty = getattr(o, 'ty', None)
        if ty is None or ty[0] != 'obj' or n not in ip.w.classes[ty[1]]['fields']:
            raise Unsupported('getattr')
    return ip.attr(args[0], n)


def b_callable(ip, args, kwargs):
    return T(BOOL, z3.BoolVal(isinstance(args[0], (Fn, Builtin, Cls, SymFn, Partial))))


def b_print(ip, args, kwargs):
    return NONE_V


def b_functools_partial(ip, args, kwargs):
    return Partial(args[0], args[1:], kwargs)


def b_itertools_chain(ip, args, kwargs):
    return It('chain', *args)


def b_itertools_chain_from_iterable(ip, args, kwargs):
    return It('flatten', args[0])


def b_itertools_groupby(ip, args, kwargs):
    key = kwargs.get('key', args[1] if len(args) > 1 else None)
    if key is None or key is NONE_V:
        raise Unsupported('groupby without key')
    return ip.call_fn(_prelude(ip, 'py_groupby'), [args[0], key], {})


def b_itertools_zip_longest(ip, args, kwargs):
    if len(args) != 2 or kwargs:
        raise Unsupported('zip_longest')
    return ip.call_fn(_prelude(ip, 'py_zip_longest'), args, {})


def b_itertools_islice(ip, args, kwargs):
    if len(args) == 2:
        if args[1] is NONE_V:
            return args[0]
        return ip.call_fn(_prelude(ip, 'py_islice_stop'), args, {})
    if len(args) == 3:
        return ip.call_fn(_prelude(ip, 'py_islice'), args, {})
    raise Unsupported('islice')


def b_itertools_takewhile(ip, args, kwargs):
    return ip.call_fn(_prelude(ip, 'py_takewhile'), args, kwargs)


def b_itertools_dropwhile(ip, args, kwargs):
    return ip.call_fn(_prelude(ip, 'py_dropwhile'), args, kwargs)


def b_six_iteritems(ip, args, kwargs):
    return method(ip, args[0], 'items', [], {})


def b_copy_copy(ip, args, kwargs):
    v = ip.narrow(args[0])
    c = ip.container(v)
    if c is not None:
        return ip.new_cell(T(c.ty, c.term))
    raise Unsupported('copy')


def b_operator_itemgetter(ip, args, kwargs):
    raise Unsupported('itemgetter')


# ------------------------------------------------------------------ methods

def method(ip, v, name, args, kwargs):
    v = ip.narrow(v)
    if isinstance(v, It):
        raise Unsupported('method %s of an iterator' % name)
    c = ip.container(v)
    if c is None:
        raise Unsupported('method %s of %r' % (name, v))
    g = globals().get('m_%s_%s' % (c.ty[0], name))
    if g is None and c.ty[0] == 'map':
        g = globals().get('m_dict_' + name)
    if g is None:
        raise Unsupported('method %s of a %s' % (name, c.ty[0]))
    return g(ip, v, c, args, kwargs)


def strarg(ip, v):
    v = ip.narrow(v)
    if not (isinstance(v, T) and v.ty == STR):
        if isinstance(v, T):
            raise sym.RaiseSig('TypeError')
        raise Unsupported('string argument')
    return v


def m_str_startswith(ip, v, c, args, kwargs):
    a = args[0]
    if isinstance(a, Tup):
        return T(BOOL, z3.Or(*[z3.PrefixOf(strarg(ip, x).term, c.term) for x in a.items]))
    return T(BOOL, z3.PrefixOf(strarg(ip, a).term, c.term))


def m_str_endswith(ip, v, c, args, kwargs):
    a = args[0]
    if isinstance(a, Tup):
        return T(BOOL, z3.Or(*[z3.SuffixOf(strarg(ip, x).term, c.term) for x in a.items]))
    return T(BOOL, z3.SuffixOf(strarg(ip, a).term, c.term))


def _str_uf(name, ret):
    def f(ip, v, c, args, kwargs):
        if kwargs:
            raise Unsupported('arguments of str.%s' % name)
        return ip.uf('str_' + name, [c] + list(args), ret)
    return f


def _strip(name):
    def f(ip, v, c, args, kwargs):
        r = ip.uf('str_' + name, [c] + list(args), STR)
        ip.st.pc.append(sym.fact(z3.Length(r.term) <= z3.Length(c.term)))
        ip.st.pc.append(sym.fact(z3.Contains(c.term, r.term)))
        return r
    return f


m_str_strip, m_str_lstrip, m_str_rstrip = _strip('strip'), _strip('lstrip'), _strip('rstrip')
m_str_lower, m_str_upper, m_str_title = _str_uf('lower', STR), _str_uf('upper', STR), _str_uf('title', STR)
m_str_capitalize = _str_uf('capitalize', STR)
m_str_isdigit, m_str_isupper, m_str_islower = _str_uf('isdigit', BOOL), _str_uf('isupper', BOOL), _str_uf('islower', BOOL)
m_str_isspace, m_str_isalpha, m_str_isalnum = _str_uf('isspace', BOOL), _str_uf('isalpha', BOOL), _str_uf('isalnum', BOOL)


def m_str_split(ip, v, c, args, kwargs):
    args = list(args) + ([NONE_V] if not args and 'maxsplit' in kwargs and 'sep' not in kwargs else [])
    args += [kwargs[k] for k in ('sep', 'maxsplit') if k in kwargs]
    t = ip.uf('str_split', [c] + args, ('list', STR))
    if args and args[0] is not NONE_V:
        ip.st.pc.append(sym.fact(z3.Length(t.term) >= 1))
    if len(args) > 1:
        n = ip.num(args[1])
        ip.st.pc.append(sym.fact(z3.Implies(n.term >= 0, z3.Length(t.term) <= n.term + 1)))
    sep = const_str(args[0]) if args and isinstance(args[0], T) and args[0].ty == STR else None
    if sep and (len(args) == 1 or (z3.is_int_value(n.term) and n.term.as_long() >= 1)):
        # the part before the first separator does not depend on the number of splits
        first = ip.uf('str_split_first', [c, args[0]], STR).term
        ip.st.pc.append(sym.fact(seq_at(t.term, z3.IntVal(0)) == first))
    return ip.new_cell(t)


def m_str_splitlines(ip, v, c, args, kwargs):
    return ip.new_cell(ip.uf('str_splitlines', [c] + list(args), ('list', STR)))


def m_str_rsplit(ip, v, c, args, kwargs):
    return ip.new_cell(ip.uf('str_rsplit', [c] + list(args) + list(kwargs.values()), ('list', STR)))


def m_str_replace(ip, v, c, args, kwargs):
    if len(args) == 2:
        s = z3.IntVal(0)
        del s
    return ip.uf('str_replace', [c] + list(args), STR)


def m_str_find(ip, v, c, args, kwargs):
    a = strarg(ip, args[0])
    if len(args) == 1:
        return T(INT, z3.IndexOf(c.term, a.term, z3.IntVal(0)))
    if len(args) == 2:
        i = ip.num(args[1]).term
        n = z3.Length(c.term)
        i = z3.simplify(z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), i))
        return T(INT, z3.If(i > n, z3.IntVal(-1), z3.IndexOf(c.term, a.term, i)))
    raise Unsupported('find')


def m_str_index(ip, v, c, args, kwargs):
    r = m_str_find(ip, v, c, args, kwargs)
    if ip.decide(r.term < 0):
        raise sym.RaiseSig('ValueError')
    return r


m_str_rfind = _str_uf('rfind', INT)


def m_str_count(ip, v, c, args, kwargs):
    return ip.uf('str_count', [c] + list(args), INT)


def m_str_join(ip, v, c, args, kwargs):
    lst = ip.to_list(args[0])
    l = ip.load(lst)
    if l.ty[1] == BOT:
        return T(STR, sval(''))
    if l.ty[1] != STR:
        if l.ty[1][0] == 'opt':
            raise Unsupported('join of optional texts')
        raise Unsupported('join')
    u = seq_units(l.term)
    if u is not None:
        out = []
        for i, x in enumerate(u):
            if i:
                out.append(c.term)
            out.append(x)
        if not out:
            return T(STR, sval(''))
        return T(STR, z3.simplify(z3.Concat(*out)) if len(out) > 1 else out[0])
    if const_str(c) == '':
        ip.w.uses_join = True
        return T(STR, joined(l.term))
    return ip.uf('str_join', [c, l], STR)


def joined(seq):
    """''.join of a list: distributes over concatenation"""
    if z3.is_app_of(seq, z3.Z3_OP_SEQ_EMPTY):
        return sval('')
    if z3.is_app_of(seq, z3.Z3_OP_SEQ_UNIT):
        return seq.arg(0)
    if z3.is_app_of(seq, z3.Z3_OP_SEQ_CONCAT):
        parts = [joined(x) for x in seq.children()]
        parts = [x for x in parts if not (z3.is_string_value(x) and x.as_string() == '')]
        return sval('') if not parts else parts[0] if len(parts) == 1 else z3.Concat(*parts)
    if z3.is_app_of(seq, z3.Z3_OP_ITE):
        return z3.If(seq.arg(0), joined(seq.arg(1)), joined(seq.arg(2)))
    f = z3.Function('uf_join_texts', seq.sort(), z3.StringSort())
    return f(seq)


def m_str_format(ip, v, c, args, kwargs):
    f = const_str(c)
    if f is None:
        raise Unsupported('format')
    import string
    out = []
    n = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        if lit:
            out.append(sval(lit))
        if field is None:
            continue
        if spec or conv:
            raise Unsupported('format specification')
        if field == '':
            x = args[n]
            n += 1
        elif field.isdigit():
            x = args[int(field)]
        elif field in kwargs:
            x = kwargs[field]
        else:
            raise Unsupported('format field %s' % field)
        out.append(ip.to_str(x).term)
    if not out:
        return T(STR, sval(''))
    return T(STR, out[0] if len(out) == 1 else z3.Concat(*out))


# lists

def _mut(v):
    if not isinstance(v, Ref):
        raise Unsupported('a container that is part of another one is changed')
    return v


def m_list_append(ip, v, c, args, kwargs):
    ip.list_append(_mut(v), one(args, kwargs))
    return NONE_V


def m_list_extend(ip, v, c, args, kwargs):
    ip.list_extend(_mut(v), one(args, kwargs))
    return NONE_V


def m_list_clear(ip, v, c, args, kwargs):
    ip.save(_mut(v), T(c.ty, z3.Empty(sort(c.ty))) if c.ty[1] != BOT else c)
    return NONE_V


def m_list_copy(ip, v, c, args, kwargs):
    return ip.new_cell(T(c.ty, c.term))


def m_list_insert(ip, v, c, args, kwargs):
    i = const_int(ip.num(args[0]))
    if i != 0:
        raise Unsupported('insert')
    ty = ('list', join_ty(c.ty[1], ip.tyof(args[1])))
    ip.save(_mut(v), T(ty, sym.seq_concat(ty, z3.Unit(ip.term(args[1], ty[1])), coerce_term(c.term, c.ty, ty))))
    return NONE_V


def m_list_pop(ip, v, c, args, kwargs):
    if c.ty[1] == BOT:
        raise sym.RaiseSig('IndexError')
    n = z3.Length(c.term)
    i = z3.IntVal(-1) if not args else ip.num(args[0]).term
    if ip.decide(z3.Or(i >= n, i < -n)):
        raise sym.RaiseSig('IndexError')
    u = seq_units(c.term)
    k = z3.simplify(z3.If(i < 0, i + (z3.IntVal(len(u)) if u is not None else n), i))
    if u is not None and z3.is_int_value(k):
        x = u.pop(k.as_long())
        ip.save(_mut(v), T(c.ty, mk_seq(c.ty, u)))
        return ip.wrap(c.ty[1], x)
    x = ip.at(c.term, k)
    if not args:
        ip.save(_mut(v), T(c.ty, z3.Extract(c.term, z3.IntVal(0), n - 1)))
    else:
        ip.save(_mut(v), T(c.ty, z3.Concat(z3.Extract(c.term, z3.IntVal(0), k), z3.Extract(c.term, k + 1, n - k - 1))))
    return ip.wrap(c.ty[1], x)


def m_list_index(ip, v, c, args, kwargs):
    x = z3.Unit(ip.term(args[0], c.ty[1]))
    if ip.decide(z3.Not(z3.Contains(c.term, x))):
        raise sym.RaiseSig('ValueError')
    return T(INT, z3.IndexOf(c.term, x, z3.IntVal(0)))


def m_list_remove(ip, v, c, args, kwargs):
    i = m_list_index(ip, v, c, args, kwargs).term
    n = z3.Length(c.term)
    ip.save(_mut(v), T(c.ty, z3.Concat(z3.Extract(c.term, z3.IntVal(0), i), z3.Extract(c.term, i + 1, n - i - 1))))
    return NONE_V


def m_list_count(ip, v, c, args, kwargs):
    return ip.call_fn(_prelude(ip, 'py_count'), [v, args[0]], {})


def m_list_reverse(ip, v, c, args, kwargs):
    r = ip.to_list(It('reversed', v))
    ip.save(_mut(v), ip.load(r))
    return NONE_V


def m_list_sort(ip, v, c, args, kwargs):
    r = b_sorted(ip, [v], kwargs)
    ip.save(_mut(v), ip.load(r))
    return NONE_V


# sets

def m_set_add(ip, v, c, args, kwargs):
    ip.set_add(_mut(v), one(args, kwargs))
    return NONE_V


def m_set_update(ip, v, c, args, kwargs):
    ip.iterate(one(args, kwargs), lambda x: ip.set_add(_mut(v), x))
    return NONE_V


def m_set_discard(ip, v, c, args, kwargs):
    if c.ty[1] != BOT:
        ip.save(_mut(v), T(c.ty, z3.Store(c.term, ip.term(args[0], c.ty[1]), z3.BoolVal(False))))
    return NONE_V


def m_set_clear(ip, v, c, args, kwargs):
    ip.save(_mut(v), T(c.ty, z3.K(sort(c.ty[1]), z3.BoolVal(False))))
    return NONE_V


def m_set_union(ip, v, c, args, kwargs):
    o = ip.to_set(args[0])
    return ip.binop(ast.BitOr(), v, o)


def m_set_intersection(ip, v, c, args, kwargs):
    return ip.binop(ast.BitAnd(), v, ip.to_set(args[0]))


def m_set_difference(ip, v, c, args, kwargs):
    return ip.binop(ast.Sub(), v, ip.to_set(args[0]))


# dicts and maps

def m_dict_get(ip, v, c, args, kwargs):
    d = args[1] if len(args) > 1 else NONE_V
    return ip.map_get(c, args[0], d, False)


def _lazy_items(sel):
    def f(ip, v, c, args, kwargs):
        if c.ty[0] != 'dict':
            raise Unsupported('iteration over a map')
        if c.ty[1] == BOT:
            return Tup([])
        return It('items', c, sel)
    return f


m_dict_items, m_dict_keys, m_dict_values = _lazy_items(None), _lazy_items(0), _lazy_items(1)


def m_dict_copy(ip, v, c, args, kwargs):
    return ip.new_cell(T(c.ty, c.term))


def m_dict_update(ip, v, c, args, kwargs):
    for a in args:
        ip.dict_update(_mut(v), a)
    for k, x in kwargs.items():
        ip.dict_set(_mut(v), T(STR, sval(k)), x)
    return NONE_V


def m_dict_setdefault(ip, v, c, args, kwargs):
    if ip.decide(ip.contains(v, args[0])):
        return ip.map_get(ip.container(v), args[0], None, True)
    ip.dict_set(_mut(v), args[0], args[1] if len(args) > 1 else NONE_V)
    return args[1]


def m_dict___delitem__(ip, v, c, args, kwargs):
    if not ip.decide(ip.contains(v, args[0])):
        raise sym.RaiseSig('KeyError')
    _dict_del(ip, v, args[0])
    return NONE_V


def _dict_del(ip, v, key):
    c = ip.container(v)
    k = ip.narrow_known(key) if c.ty[1][0] != 'opt' else key
    kk = ip.term(k, c.ty[1])
    none = opt_none(('opt', c.ty[2]))
    if c.ty[0] == 'map':
        ip.save(_mut(v), T(c.ty, z3.Store(c.term, kk, none)))
        return
    s = sort(c.ty)
    it = ip.uf('dict_items_del', [T(('list', ('tuple', c.ty[1], c.ty[2])), s.items(c.term)), T(c.ty[1], kk)],
               ('list', ('tuple', c.ty[1], c.ty[2]))).term
    ip.save(_mut(v), T(c.ty, s.mk(it, z3.Store(s.map(c.term), kk, none))))


def m_dict_pop(ip, v, c, args, kwargs):
    if not ip.decide(ip.contains(v, args[0])):
        if len(args) > 1:
            return args[1]
        raise sym.RaiseSig('KeyError')
    r = ip.map_get(c, args[0], None, True)
    _dict_del(ip, v, args[0])
    return r
