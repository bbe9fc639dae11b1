"""Types, z3 sorts and symbolic values.

A type is a tuple: ('int',) ('bool',) ('str',) ('real',) ('none',) ('bot',) ('opt', T) ('list', T)
('tuple', T...) ('map', K, V) ('dict', K, V) ('set', K) ('obj', name) ('rec', name, ((field, T), ...))
"""
import re
import z3

INT, BOOL, STR, REAL, NONE, BOT = ('int',), ('bool',), ('str',), ('real',), ('none',), ('bot',)


class Unsupported(Exception):
    """outside the subset of the verifier: the function is demoted to a bounded check"""


VALUE_TYPES = {}     # classes whose objects are never changed: values with fields


def parse_type(s):
    if isinstance(s, tuple):
        return s
    toks = re.findall(r'\w+|[\[\],|]', s)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def args():
        out = []
        assert take() == '['
        while True:
            out.append(ty())
            if take() == ']':
                return out

    def ty():
        n = take()
        if n in ('int', 'bool', 'str', 'real', 'none'):
            return (n,)
        if n == 'opt':
            return ('opt', args()[0])
        if n in ('list', 'set'):
            return (n, args()[0])
        if n in ('tuple', 'map', 'dict'):
            return (n,) + tuple(args())
        if n == 'obj':
            assert take() == '['
            c = take()
            assert take() == ']'
            return ('obj', c)
        if n == 'fn':
            return ('fn',) + tuple(args())   # argument types, result type last
        return VALUE_TYPES.get(n) or ('obj', n)
    r = ty()
    assert peek() is None, s
    return r


_sorts = {}
_dt = {}


def tyname(t):
    if t[0] == 'rec':
        return 'rec_%s_%s' % (t[1], '_'.join(f + '_' + tyname(x) for f, x in t[2]))
    return '_'.join([t[0]] + [tyname(x) if isinstance(x, tuple) else str(x) for x in t[1:]])


def sort(t):
    if t in _sorts:
        return _sorts[t]
    k = t[0]
    if k == 'int':
        s = z3.IntSort()
    elif k == 'bool':
        s = z3.BoolSort()
    elif k == 'str':
        s = z3.StringSort()
    elif k == 'real':
        s = z3.RealSort()
    elif k == 'opt':
        d = z3.Datatype('O_' + tyname(t))
        d.declare('none')
        d.declare('some', ('val', sort(t[1])))
        s = d.create()
    elif k == 'none' or k == 'bot':
        d = z3.Datatype('Unit_' + k)
        d.declare('unit')
        s = d.create()
    elif k == 'list':
        s = z3.SeqSort(sort(t[1]))
    elif k == 'tuple':
        d = z3.Datatype('T_' + tyname(t))
        d.declare('mk', *[('f%d' % i, sort(x)) for i, x in enumerate(t[1:])])
        s = d.create()
    elif k == 'rec':
        d = z3.Datatype('R_' + tyname(t))
        d.declare('mk', *[('f%d' % i, sort(x)) for i, (_, x) in enumerate(t[2])])
        s = d.create()
    elif k == 'map':
        s = z3.ArraySort(sort(t[1]), sort(('opt', t[2])))
    elif k == 'set':
        s = z3.ArraySort(sort(t[1]), z3.BoolSort())
    elif k == 'dict':
        d = z3.Datatype('D_' + tyname(t))
        d.declare('mk', ('items', sort(('list', ('tuple', t[1], t[2])))),
                  ('map', sort(('map', t[1], t[2]))))
        s = d.create()
    elif k == 'obj':
        s = z3.DeclareSort('Obj_' + t[1])
    else:
        raise Unsupported('no sort for %r' % (t,))
    _sorts[t] = s
    return s


def contains_bot(t):
    return t == BOT or any(isinstance(x, tuple) and contains_bot(x) for x in t[1:])


class Val:
    pass


class T(Val):
    """a term of a type"""
    def __init__(self, ty, term):
        self.ty, self.term = ty, term

    def __repr__(self):
        return 'T(%s, %s)' % (tyname(self.ty), self.term)


class OwnedOpt(T):
    """None or a container that only this variable refers to; decided when it is read"""


class Tup(Val):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class NoneV(Val):
    def __repr__(self):
        return 'None'


NONE_V = NoneV()


class Ref(Val):
    """mutable container: location ('cell', id) or ('field', cls, field, object term)"""
    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Ref%r' % (self.loc,)


class Fn(Val):
    def __init__(self, node, module, fid=None, self_val=None, name=None, cls=None):
        self.node, self.module, self.fid, self.self_val = node, module, fid, self_val
        self.name = name or getattr(node, 'name', '<lambda>')
        self.cls = cls

    def bind(self, v):
        return Fn(self.node, self.module, self.fid, v, self.name, self.cls)


class Builtin(Val):
    def __init__(self, name, self_val=None):
        self.name, self.self_val = name, self_val

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class SymFn(Val):
    """a function given as a parameter: uninterpreted and pure"""
    def __init__(self, name, arg_tys, ret_ty):
        self.name, self.arg_tys, self.ret_ty = name, arg_tys, ret_ty


class Partial(Val):
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Mod(Val):
    def __init__(self, name):
        self.name = name


class Cls(Val):
    def __init__(self, node, module, name):
        self.node, self.module, self.name = node, module, name


class It(Val):
    """lazy iterables: kind and parts"""
    def __init__(self, kind, *parts):
        self.kind, self.parts = kind, parts


def is_opt(v):
    return isinstance(v, T) and v.ty[0] == 'opt'


def opt_none(ty):
    return sort(ty).none


def opt_some(ty, term):
    return sort(ty).some(term)


def is_none_term(v):
    return sort(v.ty).is_none(v.term)


def opt_val(v):
    return T(v.ty[1], sort(v.ty).val(v.term))


def join_ty(a, b):
    if a == b:
        return a
    if a == BOT:
        return b
    if b == BOT:
        return a
    if a == NONE:
        return b if b[0] == 'opt' else ('opt', b)
    if b == NONE:
        return a if a[0] == 'opt' else ('opt', a)
    if a[0] == 'opt' and b[0] == 'opt':
        return ('opt', join_ty(a[1], b[1]))
    if a[0] == 'opt':
        return ('opt', join_ty(a[1], b))
    if b[0] == 'opt':
        return ('opt', join_ty(a, b[1]))
    if a[0] == b[0] and a[0] in ('list', 'set', 'map', 'dict'):
        return (a[0],) + tuple(join_ty(x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] == b[0] == 'tuple' and len(a) == len(b):
        return ('tuple',) + tuple(join_ty(x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] == b[0] == 'rec' and a[1] == b[1] and [f for f, _ in a[2]] == [f for f, _ in b[2]]:
        return ('rec', a[1], tuple((f, join_ty(x, y)) for (f, x), (_, y) in zip(a[2], b[2])))
    if {a[0], b[0]} == {'int', 'real'}:
        return REAL
    if {a[0], b[0]} == {'int', 'bool'}:
        return INT
    raise Unsupported('values of types %s and %s' % (tyname(a), tyname(b)))


def coerce_term(term, a, b):
    """term of type a as a term of type b"""
    if a == b:
        return term
    if b[0] == 'opt':
        if a == NONE:
            return opt_none(b)
        if a[0] == 'opt':
            if a[1] == BOT:
                return opt_none(b)
            s = sort(a)
            return z3.If(s.is_none(term), opt_none(b), opt_some(b, coerce_term(s.val(term), a[1], b[1])))
        return opt_some(b, coerce_term(term, a, b[1]))
    if a[0] == 'list' and b[0] == 'list':
        if contains_bot(a[1]) and a[1] == BOT:
            return z3.Empty(sort(b))
        # literal sequences of units can be converted
        parts = seq_units(term)
        if parts is None:
            return coerce_seq(term, a, b)
        return mk_seq(b, [coerce_term(p, a[1], b[1]) for p in parts])
    if a[0] == 'tuple' and b[0] == 'tuple':
        s = sort(a)
        return sort(b).mk(*[coerce_term(s.accessor(0, i)(term), x, y)
                            for i, (x, y) in enumerate(zip(a[1:], b[1:]))])
    if a[0] == 'rec' and b[0] == 'rec':
        s = sort(a)
        return sort(b).mk(*[coerce_term(s.accessor(0, i)(term), x[1], y[1])
                            for i, (x, y) in enumerate(zip(a[2], b[2]))])
    if a[0] == 'map' and a[1] == BOT:
        return z3.K(sort(b[1]), opt_none(('opt', b[2])))
    if a[0] == 'dict' and b[0] == 'map':
        if a[1] == BOT:
            return z3.K(sort(b[1]), opt_none(('opt', b[2])))
        m = ('map',) + a[1:]
        return coerce_term(sort(a).map(term), m, b)
    if a[0] == 'dict' and a[1] == BOT:
        return empty_dict(b)
    if a[0] == 'set' and a[1] == BOT:
        return z3.K(sort(b[1]), z3.BoolVal(False))
    if a == INT and b == REAL:
        return z3.ToReal(term)
    if a == BOOL and b == INT:
        return z3.If(term, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('conversion of %s to %s' % (tyname(a), tyname(b)))


COERCE_FACTS = {}     # lengths of converted lists: true in every state


def coerce_seq(term, a, b):
    k = term.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT:
        return z3.Concat(*[coerce_term(c, a, b) for c in term.children()])
    if k == z3.Z3_OP_ITE:
        return z3.If(term.arg(0), coerce_term(term.arg(1), a, b), coerce_term(term.arg(2), a, b))
    name = term.decl().name()
    if k == z3.Z3_OP_UNINTERPRETED and name.startswith('uf_repeat_%s__' % tyname(a)):
        args = [coerce_term(term.arg(0), a[1], b[1]), term.arg(1)]
        sorts = [x.sort() for x in args]
        r = z3.Function('uf_repeat_%s__%s' % (tyname(b), '_'.join(str(x).replace(' ', '') for x in sorts)),
                        *sorts, sort(b))(*args)
    else:
        r = z3.Function('as_%s_%s' % (tyname(a), tyname(b)), sort(a), sort(b))(term)
    COERCE_FACTS[r.get_id()] = (r, z3.Length(r) == z3.Length(term))
    return r


def empty_dict(ty):
    return sort(ty).mk(z3.Empty(sort(('list', ('tuple', ty[1], ty[2])))),
                       z3.K(sort(ty[1]), opt_none(('opt', ty[2]))))


def seq_units(term):
    """elements of a concatenation of units, or None"""
    d = term.decl().kind()
    if d == z3.Z3_OP_SEQ_EMPTY:
        return []
    if d == z3.Z3_OP_SEQ_UNIT:
        return [term.arg(0)]
    if d == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in term.children():
            p = seq_units(c)
            if p is None:
                return None
            out.extend(p)
        return out
    return None


def mk_seq(ty, terms):
    if not terms:
        return z3.Empty(sort(ty))
    us = [z3.Unit(t) for t in terms]
    return us[0] if len(us) == 1 else z3.Concat(*us)


def from_term(ty, term):
    """a value for a term; tuples become structured"""
    if ty == NONE:
        return NONE_V
    if ty[0] == 'tuple':
        s = sort(ty)
        t = z3.simplify(term) if z3.is_app(term) and term.decl().kind() != z3.Z3_OP_UNINTERPRETED else term
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return Tup([from_term(x, t.arg(i)) for i, x in enumerate(ty[1:])])
        return Tup([from_term(x, s.accessor(0, i)(term)) for i, x in enumerate(ty[1:])])
    return T(ty, term)


def sval(s):
    """z3 string literal of a Python string"""
    out = []
    for c in s:
        o = ord(c)
        if c == '\\' or o < 32 or o > 126:
            if o > 0x2ffff:
                raise Unsupported('character beyond U+2FFFF')
            out.append('\\u{%x}' % o)
        else:
            out.append(c)
    return z3.StringVal(''.join(out))


def unescape(s):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def const_str(v):
    if isinstance(v, T) and v.ty == STR and z3.is_string_value(v.term):
        return unescape(v.term.as_string())
    return None


def const_int(v):
    if isinstance(v, T) and v.ty == INT:
        t = z3.simplify(v.term)
        if z3.is_int_value(t):
            return t.as_long()
    return None


_nth = {}
USE_NTH_I = True


def seq_at(seq, i):
    """element i of a sequence; only used where 0 <= i < length is known"""
    if not USE_NTH_I:
        return seq[i]
    so = seq.sort()
    d = _nth.get(so)
    if d is None:
        e = z3.simplify(z3.Const('nth_s', so)[z3.Int('nth_i')])
        d = e.arg(1).decl()
        assert d.name() == 'seq.nth_i', d
        _nth[so] = d
    return d(seq, i)
