"""Symbolic execution of the Python source of /repo (and of the contracts) for all inputs.

Direct style interpreter; branching is by re-execution with recorded decisions (explore).  A loop is
executed once for an arbitrary iteration from an arbitrary state (FoldRec); what is known about its
final state comes only from inductive invariants (rel.py).  Nothing is unrolled except loops over
tuples of known length.
"""
import ast
import os
import time
import z3
from vals import *  # noqa

PKG = 'sciencebeam_trainer_grobid_tools'
SITE = '/opt/venv/lib/python3.12/site-packages'
# small pure functions of dependencies that are executed from their installed source
SITE_MODULES = ('sciencebeam_utils.utils.xml', 'sciencebeam_utils.utils.collection', 'sciencebeam_utils.utils.string')
MAX_PATHS = 400
QUERY_MS = 3000
FEASIBLE_MS = 25     # unknown counts as feasible: only costs time
SORTED_AXIOMS = False


# ------------------------------------------------------------------ signals

class Sig(Exception):
    pass


class BreakSig(Sig):
    def __init__(self, token):
        self.token = token


class ContinueSig(Sig):
    def __init__(self, token):
        self.token = token


class ReturnSig(Sig):
    def __init__(self, fid, val):
        self.fid, self.val = fid, val


class RaiseSig(Sig):
    def __init__(self, exc):
        self.exc = exc


class DeadPath(Exception):
    pass


# ------------------------------------------------------------------ modules

class Module:
    def __init__(self, name, path, source=None):
        self.name, self.path = name, path
        self.source = source if source is not None else open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.source)
        self.defs, self.assigns, self.imports, self.mods = {}, {}, {}, {}
        for n in self.tree.body:
            self.add(n)

    def add(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.defs[n.name] = n
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.assigns[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.assigns[n.target.id] = n.value
        elif isinstance(n, ast.ImportFrom):
            mod = n.module
            if n.level:
                pkg = self.name.split('.') if self.name else []
                if os.path.basename(self.path) == '__init__.py':
                    pkg = pkg + ['__init__']
                pkg = pkg[:len(pkg) - n.level]
                mod = '.'.join([PKG] + pkg + ([n.module] if n.module else []))
            for a in n.names:
                self.imports[a.asname or a.name] = (mod, a.name, 0)
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.mods[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, (ast.Try, ast.If)):
            for b in n.body:
                self.add(b)


class World:
    def __init__(self, repo, verif, overrides=None):
        self.repo, self.verif = repo, verif
        self.modules = {}
        self.overrides = overrides or {}
        self.contracts = {}      # (module, qualname) -> Contract
        self.classes = {}        # class declarations by short name
        self.class_by_path = {}
        self.externs = {}
        self.some = {}
        self.map_facts = {}        # dotted name -> result type
        self.used_externs = set()
        self.used_models = set()
        self.inlined = set()
        self.dropped = set()
        self.counter = 0
        self.solver_time = 0.0
        self.queries = 0
        self.global_cache = {}

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.startswith('contracts.') or name == 'prelude':
            p = os.path.join(self.verif, 'engine' if name == 'prelude' else '', name.replace('.', '/') + '.py')
        elif name in SITE_MODULES:
            p = os.path.join(SITE, name.replace('.', '/') + '.py')
        else:
            base = os.path.join(self.repo, PKG, *name.split('.')) if name else os.path.join(self.repo, PKG)
            p = base + '.py' if os.path.exists(base + '.py') else os.path.join(base, '__init__.py')
        if not os.path.exists(p):
            raise Unsupported('module %s not found' % name)
        m = Module(name, p, self.overrides.get(name))
        self.modules[name] = m
        return m

    def find(self, module, qualname):
        """-> (module, ast node, class node or None) following imports"""
        m = self.module(module)
        parts = qualname.split('.')
        node = m.defs.get(parts[0])
        if node is None and parts[0] in m.imports:
            mod, nm, _ = m.imports[parts[0]]
            if mod and mod.startswith(PKG):
                return self.find(mod[len(PKG) + 1:], '.'.join([nm] + parts[1:]))
            if mod in SITE_MODULES:
                return self.find(mod, '.'.join([nm] + parts[1:]))
        if node is None:
            raise Unsupported('%s.%s not found' % (module, qualname))
        if len(parts) == 1:
            return m, node, None
        r = self.lookup_method(m, node, parts[1])
        if r is None:
            raise Unsupported('%s.%s not found' % (module, qualname))
        return r

    def lookup_method(self, m, cls, name):
        for n in cls.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return m, n, cls
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, ast.Name) and t.id == name and n.value is not None:
                    return m, n.value, cls
        for b in cls.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                try:
                    bm, bn, _ = self.find(m.name, b.id)
                except Unsupported:
                    continue
                if isinstance(bn, ast.ClassDef):
                    r = self.lookup_method(bm, bn, name)
                    if r is not None:
                        return r
        return None

    def owner_of(self, m, cls, fnode):
        '''class in the hierarchy whose body has the function'''
        if any(n is fnode for n in cls.body):
            return m, cls
        for b in cls.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                try:
                    bm, bn, _ = self.find(m.name, b.id)
                except Unsupported:
                    continue
                if isinstance(bn, ast.ClassDef):
                    r = self.owner_of(bm, bn, fnode)
                    if r is not None:
                        return r
        return None

    def is_subclass(self, modname, clsname, target):
        m, n, _ = self.find(modname, clsname)
        return self.is_subclass_node(m, n, target)

    def is_subclass_node(self, m, n, target):
        if n is target:
            return True
        for b in n.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                try:
                    bm, bn, _ = self.find(m.name, b.id)
                except Unsupported:
                    continue
                if isinstance(bn, ast.ClassDef) and self.is_subclass_node(bm, bn, target):
                    return True
        return False

    def fresh(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def const(self, ty, base='c'):
        return z3.Const(self.fresh(base), sort(ty))


# ------------------------------------------------------------------ state

class State:
    def __init__(self):
        self.pc = []
        self.frames = {}
        self.cells = {}
        self.heap = {}
        self.folds = []
        self.frozen = frozenset()
        self.user_invs = []
        self.gen = {}            # structural changes of containers, invalidating references to elements
        self.poison = frozenset()

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cells = dict(self.cells)      # record cells are copied when written
        s.heap = dict(self.heap)
        s.folds = list(self.folds)
        s.frozen = self.frozen
        s.user_invs = list(self.user_invs)
        s.gen = dict(self.gen)
        s.poison = self.poison
        return s


class Outcome:
    def __init__(self, kind, val, st, base_pc):
        self.kind, self.val, self.st = kind, val, st
        self.delta = st.pc[base_pc:]

    def cond(self):
        d = [c for c in self.delta if not getattr(c, '_fact', False)]
        return z3.And(*d) if d else z3.BoolVal(True)

    def facts(self):
        return [c for c in self.delta if getattr(c, '_fact', False)]


def fact(e):
    """a condition that holds anyway (axiom of a model, invariant of a loop), not a branch taken"""
    e._fact = True
    return e


class FoldRec:
    """a loop: state keys, initial values, one arbitrary iteration, final values"""
    pass


class RecCell(dict):
    """fields of a record object"""


def cond_key(t):
    return t.get_id()


class Interp:
    def __init__(self, world):
        self.w = world
        self.st = State()
        self.fid = None
        self.trace, self.pos, self.stack = [], 0, []
        self.memo, self.seq = {}, 0
        self.depth = 0
        self.yield_cb = {}
        self.fn_of_frame = {}
        self.top = None          # contract being verified
        self.no_loops = 0
        self.paths = 0
        self.deadline = None
        self.fuse = False        # elements of lists made by loops are replaced by their definition

    # -------------------------------------------------------------- solver
    def check(self, assumptions, ms=QUERY_MS):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit of the symbolic execution')
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', ms)
        s.add(*assumptions)
        s.add(*[f for _, f in COERCE_FACTS.values()])
        r = s.check()
        self.w.solver_time += time.time() - t0
        self.w.queries += 1
        return r

    def feasible(self, cond):
        return self.check(self.st.pc + [cond], FEASIBLE_MS) != z3.unsat

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
        else:
            ncond = z3.Not(cond)
            t = self.feasible(cond)
            if not t:
                if not self.feasible(ncond):
                    raise DeadPath()
                d = False
            else:
                f = self.feasible(ncond)
                d = True
                if f:
                    self.paths += 1
                    if self.paths > MAX_PATHS * 20:
                        raise Unsupported('too many paths')
                    self.stack.append(self.trace[:self.pos] + [False])
            self.trace.append(d)
            self.pos += 1
        self.st.pc.append(cond if d else z3.Not(cond))
        return d

    def explore(self, fn, st=None):
        """all paths of fn from the current state; the state of self is left unchanged"""
        key = None
        if st is None:
            self.seq += 1
            key = (tuple(self.trace[:self.pos]), self.seq)
            if key in self.memo:
                outs, self.w.counter = self.memo[key]
                return outs
        st0 = st if st is not None else self.st
        saved = (self.st, self.trace, self.pos, self.stack, self.memo, self.seq, self.fid)
        outs = []
        try:
            self.stack = [[]]
            self.memo = {}
            base_pc = len(st0.pc)
            # names are the same for the same decisions, so that prefixes can be shared
            c0 = cmax = self.w.counter
            while self.stack:
                cmax = max(cmax, self.w.counter)
                self.w.counter = c0
                if len(outs) > MAX_PATHS:
                    raise Unsupported('more than %d paths' % MAX_PATHS)
                self.trace = self.stack.pop()
                self.pos, self.seq = 0, 0
                self.st = st0.copy()
                self.fid = saved[6]
                try:
                    v = fn()
                    outs.append(Outcome('normal', v, self.st, base_pc))
                except DeadPath:
                    continue
                except BreakSig as s:
                    outs.append(Outcome(('break', s.token), None, self.st, base_pc))
                except ContinueSig as s:
                    outs.append(Outcome(('continue', s.token), None, self.st, base_pc))
                except ReturnSig as s:
                    outs.append(Outcome(('return', s.fid), s.val, self.st, base_pc))
                except RaiseSig as s:
                    outs.append(Outcome(('raise', s.exc), None, self.st, base_pc))
            self.w.counter = max(cmax, self.w.counter)
        finally:
            self.st, self.trace, self.pos, self.stack, self.memo, self.seq, self.fid = saved
        if key is not None:
            self.memo[key] = (outs, self.w.counter)
        return outs

    def adopt(self, o):
        self.st = o.st.copy()
        k = o.kind
        if k == 'normal':
            return o.val
        if k[0] == 'return':
            raise ReturnSig(k[1], o.val)
        if k[0] == 'break':
            raise BreakSig(k[1])
        if k[0] == 'continue':
            raise ContinueSig(k[1])
        raise RaiseSig(k[1])

    def select_outcome(self, outs):
        """continue with one of the outcomes (branching)"""
        if not outs:
            raise DeadPath()
        for o in outs[:-1]:
            if self.decide_raw(o.cond()):
                return self.adopt(o)
        o = outs[-1]
        if not self.decide_raw(o.cond()):
            raise DeadPath()
        return self.adopt(o)

    def decide_raw(self, cond):
        return self.decide(cond)

    # -------------------------------------------------------------- values
    def tyof(self, v):
        if isinstance(v, T):
            return v.ty
        if isinstance(v, Tup):
            return ('tuple',) + tuple(self.tyof(x) for x in v.items)
        if v is NONE_V:
            return NONE
        if isinstance(v, Ref):
            c = self.load(v)
            if isinstance(c, RecCell):
                return ('rec', c['#cls'], tuple((f, self.tyof(x)) for f, x in sorted(c.items()) if f[0] != '#'))
            return c.ty
        if isinstance(v, It):
            raise Unsupported('lazy iterable as a value')
        if self.plain_fn(v):
            return ('obj', 'Fn')
        raise Unsupported('value %r in a data structure' % (v,))

    def plain_fn(self, v):
        """a function of a module, without a closure"""
        return isinstance(v, Fn) and v.fid is None and v.self_val is None and isinstance(v.node, ast.FunctionDef) \
            and v.module is not None

    def term(self, v, ty=None):
        if isinstance(v, T):
            t, a = v.term, v.ty
        elif v is NONE_V:
            a = NONE
            if ty is not None and ty[0] == 'opt':
                return opt_none(ty)
            t = sort(NONE).unit
        elif isinstance(v, Tup):
            a = self.tyof(v)
            if ty is not None and ty[0] == 'opt':
                return opt_some(ty, self.term(v, ty[1]))
            if ty is not None and ty[0] == 'tuple':
                return sort(ty).mk(*[self.term(x, y) for x, y in zip(v.items, ty[1:])])
            t = sort(a).mk(*[self.term(x) for x in v.items])
        elif isinstance(v, Ref):
            c = self.load(v)
            if isinstance(c, RecCell):
                a = self.tyof(v)
                t = sort(a).mk(*[self.term(c[f], x) for f, x in a[2]])
            else:
                t, a = c.term, c.ty
            if v.loc[0] == 'cell':
                self.st.frozen = self.st.frozen | {v.loc[1]}
        elif self.plain_fn(v):
            a = ('obj', 'Fn')
            t = z3.Const('fn_%s_%s' % (v.module.name, v.name), sort(a))
        else:
            raise Unsupported('value %r in a data structure' % (v,))
        return t if ty is None else coerce_term(t, a, ty)

    def new_cell(self, content):
        self.w.counter += 1
        cid = self.w.counter
        self.st.cells[cid] = content
        return Ref(('cell', cid))

    def new_list(self, vals):
        ty = BOT
        for v in vals:
            ty = join_ty(ty, self.tyof(v))
        if ty[0] == 'opt':
            vals = [self.refine(v) for v in vals]
            ty = BOT
            for v in vals:
                ty = join_ty(ty, self.tyof(v))
        lt = ('list', ty)
        return self.new_cell(T(lt, mk_seq(lt, [self.term(v, ty) for v in vals])))

    def heap_array(self, cls, field, ty):
        k = (cls, field)
        if k not in self.st.heap:
            # the initial heap is shared by code and contract: constants are named, not numbered
            self.st.heap[k] = T(ty, z3.Const('H_%s_%s' % (cls, field),
                                             z3.ArraySort(sort(('obj', cls)), sort(ty))))
        return self.st.heap[k]

    def load(self, ref):
        loc = ref.loc
        if loc[0] == 'cell':
            if loc[1] in self.st.poison:
                raise Unsupported('a container that was stored in another one may have changed there')
            return self.st.cells[loc[1]]
        if loc[0] in ('elem', 'val'):
            base = self.load(loc[1])
            if self.st.gen.get(self.loc_key(loc[1]), 0) != loc[3]:
                raise Unsupported('element of a container that was changed')
            if loc[0] == 'elem':
                return T(base.ty[1], self.at(base.term, loc[2]))
            return T(base.ty[2], sort(('opt', base.ty[2])).val(z3.Select(self.as_map(base), loc[2])))
        _, cls, field, obj = loc
        ty = self.w.classes[cls]['fields'][field]
        h = self.heap_array(cls, field, ty)
        return T(ty, z3.Select(h.term, obj))

    def loc_key(self, ref):
        if ref.loc[0] == 'cell':
            return ref.loc[1]
        if ref.loc[0] == 'field':
            return ref.loc[1:3]
        return ('in', self.loc_key(ref.loc[1]))

    def element(self, v, c, k):
        """element of a list: containers in it can be changed in place"""
        if isinstance(v, Ref) and c.ty[1][0] in ('list', 'dict', 'set', 'map'):
            return Ref(('elem', v, k, self.st.gen.get(self.loc_key(v), 0)))
        return self.wrap(c.ty[1], self.at(c.term, k))

    def save(self, ref, content, structural=True):
        loc = ref.loc
        if loc[0] == 'cell':
            if loc[1] in self.st.frozen:
                raise Unsupported('a container is changed after it was stored in another one')
            self.st.cells[loc[1]] = content
            if structural:
                self.st.gen[loc[1]] = self.st.gen.get(loc[1], 0) + 1
            return
        if loc[0] in ('elem', 'val'):
            self.load(ref)
            base = self.load(loc[1])
            et = base.ty[1] if loc[0] == 'elem' else base.ty[2]
            jt = join_ty(et, content.ty)
            self.st.poison = self.st.poison | {
                c for c in self.st.frozen if isinstance(self.st.cells.get(c), T) and self.st.cells[c].ty[0] == jt[0]}
            new = coerce_term(content.term, content.ty, jt)
            if loc[0] == 'elem':
                ty = ('list', jt)
                seq = coerce_term(base.term, base.ty, ty)
                units = seq_units(seq)
                k = z3.simplify(loc[2])
                if units is not None and z3.is_int_value(k):
                    units[k.as_long()] = new
                    seq = mk_seq(ty, units)
                else:
                    n = z3.Length(seq)
                    seq = z3.Concat(z3.Extract(seq, z3.IntVal(0), k), z3.Unit(new),
                                    z3.Extract(seq, k + 1, n - k - 1))
                self.save(loc[1], T(ty, seq), False)
                return
            self.dict_set(loc[1], T(base.ty[1], loc[2]), T(jt, new), False)
            return
        _, cls, field, obj = loc
        if structural:
            kk = self.loc_key(ref)
            self.st.gen[kk] = self.st.gen.get(kk, 0) + 1
        ty = self.w.classes[cls]['fields'][field]
        h = self.heap_array(cls, field, ty)
        self.st.heap[(cls, field)] = T(ty, z3.Store(h.term, obj, coerce_term(content.term, content.ty, ty)))

    def wrap(self, ty, term):
        """value of a term read from somewhere; containers become fresh immutable views"""
        return from_term(ty, term)

    def container(self, v):
        """content (T) of a list, dict, set, map value"""
        if isinstance(v, Ref):
            c = self.load(v)
            if isinstance(c, RecCell):
                return None
            return c
        if isinstance(v, T) and v.ty[0] in ('list', 'dict', 'set', 'map', 'str'):
            return v
        s = self.sequence(v)
        return self.container(s) if s is not None else None

    def sequence(self, v):
        """the list an object of a sequence class stands for"""
        if isinstance(v, T) and v.ty[0] == 'obj':
            f = self.w.classes.get(v.ty[1], {}).get('sequence')
            if f:
                return self.attr(v, f)
        return None

    def narrow(self, v, exc='TypeError'):
        """value of an optional, raising for None"""
        while is_opt(v):
            if self.decide(is_none_term(v)):
                raise RaiseSig(exc)
            o = opt_val(v)
            v = self.wrap(o.ty, o.term)
        if v is NONE_V:
            raise RaiseSig(exc)
        return v

    def narrow_known(self, v):
        '''value of an optional that is known not to be None on this path'''
        while is_opt(v):
            o = opt_val(v)
            v = self.wrap(o.ty, o.term)
        return v

    def refine(self, v):
        """an optional that is known to be None, or not to be None, on this path"""
        if isinstance(v, Tup):
            return Tup([self.refine(x) for x in v.items])
        if not is_opt(v):
            return v
        n = z3.simplify(is_none_term(v))
        if z3.is_true(n):
            return NONE_V
        if not z3.is_false(n):
            if self.check(self.st.pc + [n], 1000) != z3.unsat:
                return v
        o = opt_val(v)
        return self.wrap(o.ty, z3.simplify(o.term) if z3.is_false(n) else o.term)

    # -------------------------------------------------------------- truth, equality
    def truth(self, v):
        """z3 Bool"""
        if v is NONE_V:
            return z3.BoolVal(False)
        if isinstance(v, Tup):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, (Fn, Builtin, Cls, SymFn, Partial, Mod)):
            return z3.BoolVal(True)
        if isinstance(v, Ref):
            c = self.load(v)
            if isinstance(c, RecCell):
                return self.obj_truth(v, c)
            return self.truth(c)
        if isinstance(v, T):
            k = v.ty[0]
            if k == 'bool':
                return v.term
            if k == 'int':
                return v.term != 0
            if k == 'real':
                return v.term != 0
            if k in ('str', 'list'):
                return z3.Length(v.term) > 0
            if k == 'opt':
                inner = opt_val(v)
                return z3.And(z3.Not(is_none_term(v)), self.truth(from_term(inner.ty, inner.term)))
            if k == 'tuple':
                return z3.BoolVal(len(v.ty) > 1)
            if k == 'dict':
                return z3.Length(sort(v.ty).items(v.term)) > 0
            if k in ('map', 'set'):
                d = opt_none(('opt', v.ty[2])) if k == 'map' else z3.BoolVal(False)
                return v.term != z3.K(sort(v.ty[1]), d)
            if k == 'obj':
                d = self.w.classes.get(v.ty[1], {})
                if d.get('path'):
                    return self.obj_truth(v, None)
                return z3.BoolVal(True)
            if k in ('none', 'bot'):
                return z3.BoolVal(False)
            if k == 'rec':
                return z3.BoolVal(True)
        raise Unsupported('truth of %r' % (v,))

    def obj_truth(self, v, c):
        m = self.find_method(v, '__bool__') or self.find_method(v, '__len__')
        if m is not None:
            r = self.call(m, [], {})
            return self.truth(r)
        return z3.BoolVal(True)

    def eq(self, a, b):
        """z3 Bool"""
        for x, y in ((a, b), (b, a)):
            if x is NONE_V:
                if y is NONE_V:
                    return z3.BoolVal(True)
                if is_opt(y):
                    return is_none_term(y)
                return z3.BoolVal(False)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And(*[self.eq(x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Cls, Fn, SymFn)) and isinstance(y, T) and y.ty[0] in ('str', 'int', 'bool', 'real'):
                return z3.BoolVal(False)
        if isinstance(a, (Cls, Fn, Builtin)) or isinstance(b, (Cls, Fn, Builtin)):
            if isinstance(a, Cls) and isinstance(b, Cls):
                return z3.BoolVal(a.node is b.node)
            raise Unsupported('comparison of functions')
        ta, tb = self.tyof(a), self.tyof(b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc[0] == b.loc[0] == 'cell' and a.loc == b.loc:
            return z3.BoolVal(True)
        fa, fb = self.st.frozen, None
        try:
            j = join_ty(ta, tb)
        except Unsupported:
            base = {t[0] if t[0] != 'opt' else t[1][0] for t in (ta, tb)}
            if len(base) == 2 and base <= {'int', 'str', 'list', 'tuple', 'obj', 'bool', 'dict'} and base != {'int', 'bool'}:
                if ta[0] == 'opt' and tb[0] == 'opt':
                    return z3.And(is_none_term(a), is_none_term(b))
                return z3.BoolVal(False)
            raise
        del fb
        r = self.term(a, j) == self.term(b, j)
        self.st.frozen = fa     # a comparison does not store anything
        return r

    def same(self, a, b):
        """`is`"""
        if a is NONE_V or b is NONE_V:
            return self.eq(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.loc[0] == 'cell' and b.loc[0] == 'cell':
                return z3.BoolVal(a.loc == b.loc)
            raise Unsupported('identity of containers')
        if isinstance(a, Cls) and isinstance(b, Cls):
            return z3.BoolVal(a.node is b.node)
        ta, tb = self.tyof(a), self.tyof(b)
        if {ta[0], tb[0]} <= {'obj', 'opt', 'bool'}:
            return self.eq(a, b)
        raise Unsupported('identity of values')

    # -------------------------------------------------------------- names
    def lookup(self, name):
        fid = self.fid
        while fid is not None:
            env = self.st.frames.get(fid)
            if env is not None and name in env:
                v = env[name]
                if v is None:
                    raise Unsupported('variable %s may be undefined' % name)
                if isinstance(v, OwnedOpt):
                    if self.decide(is_none_term(v)):
                        v = NONE_V
                    else:
                        o = opt_val(v)
                        v = self.new_cell(T(o.ty, o.term))
                    self.st.frames[fid][name] = v
                return v
            fid = self.fn_of_frame[fid].fid if fid in self.fn_of_frame else None
        m = self.fn_of_frame[self.fid].module if self.fid in self.fn_of_frame else None
        return self.global_name(m, name)

    def global_name(self, m, name):
        if m is not None:
            if name in m.defs:
                n = m.defs[name]
                if isinstance(n, ast.ClassDef):
                    return Cls(n, m, name)
                return Fn(n, m)
            if name in m.imports:
                mod, nm, _ = m.imports[name]
                return self.imported(mod, nm)
            if name in m.mods:
                return Mod(m.mods[name])
            if name in m.assigns:
                return self.module_constant(m, name)
        if name in BUILTINS:
            return Builtin(name)
        if name in EXCEPTIONS:
            return Builtin(name)
        raise Unsupported('name %s' % name)

    def imported(self, mod, nm):
        if mod and (mod == PKG or mod.startswith(PKG + '.')):
            return self.global_name_of(mod[len(PKG) + 1:], nm)
        if mod == 'contracts.lib' and nm in ('implies', 'invariant'):
            return Builtin('contracts.lib.' + nm)
        if mod and (mod.startswith('contracts') or mod in SITE_MODULES):
            return self.global_name_of(mod, nm)
        return Builtin('%s.%s' % (mod, nm))

    def global_name_of(self, modname, nm):
        try:
            m = self.w.module(modname)
        except Unsupported:
            return Mod(PKG + '.' + modname + '.' + nm)
        if nm in m.defs or nm in m.imports or nm in m.assigns or nm in m.mods:
            return self.global_name(m, nm)
        return Mod(PKG + '.' + modname + '.' + nm)

    def module_constant(self, m, name):
        expr = m.assigns[name]
        saved = self.fid
        self.w.counter += 1
        fid = 'g%d' % self.w.counter
        self.st.frames[fid] = {}
        self.fn_of_frame[fid] = Fn(expr, m, None)
        self.fid = fid
        try:
            return self.ev(expr)
        finally:
            self.fid = saved
            self.st.frames.pop(fid, None)

    def bind(self, name, v):
        self.st.frames[self.fid][name] = v

    # -------------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s (line %s)' % (k, getattr(s, 'lineno', '?')))
        m(s)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.bind(a.asname or a.name.split('.')[0], Mod(a.name))

    def s_ImportFrom(self, s):
        for a in s.names:
            self.bind(a.asname or a.name, self.imported(s.module, a.name))

    def s_Global(self, s):
        raise Unsupported('global statement')

    def s_Nonlocal(self, s):
        raise Unsupported('nonlocal statement')

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if self.is_logging(v):
            self.w.dropped.add('logging calls')
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            self.ev(v)
            return
        r = self.ev(v)
        if isinstance(r, It) and r.kind not in ('range',):
            return
        return

    def is_logging(self, e):
        if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Attribute):
            return False
        if e.func.attr not in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log'):
            return False
        b = e.func.value
        if isinstance(b, ast.Name) and b.id in ('LOGGER', 'logger', 'logging', 'log', '_logger'):
            return True
        return isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'get_logger'

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id)
        else:
            cur = self.ev(ast.copy_location(self.as_load(s.target), s.target))
        v = self.ev(s.value)
        c = self.container(cur)
        if isinstance(cur, Ref) and c is not None and c.ty[0] == 'list' and isinstance(s.op, ast.Add):
            self.list_extend(cur, v)
            return
        if isinstance(cur, Ref) and c is not None and c.ty[0] == 'set' and isinstance(s.op, ast.BitOr):
            r = self.binop(s.op, cur, v)
            self.save(cur, self.load(r))
            return
        self.assign(s.target, self.binop(s.op, cur, v))

    def as_load(self, t):
        n = ast.parse(ast.unparse(t), mode='eval').body
        return n

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred assignment')
            for x, y in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.ev(t.value), t.slice, v)
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def unpack(self, v, n):
        v = self.narrow(v)
        if isinstance(v, Tup):
            if len(v.items) != n:
                raise RaiseSig('ValueError')
            return v.items
        c = self.container(v)
        if c is not None and c.ty[0] == 'list':
            if self.decide(z3.Length(c.term) != n):
                raise RaiseSig('ValueError')
            return [self.wrap(c.ty[1], self.at(c.term, z3.IntVal(i))) for i in range(n)]
        raise Unsupported('unpacking of %r' % (v,))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                d = self.ev(t.value)
                self.call_method(d, '__delitem__', [self.ev(t.slice)], {})
            else:
                raise Unsupported('del')

    def s_If(self, s):
        if self.decide(self.truth(self.ev(s.test))):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE_V
        raise ReturnSig(self.fid, v)

    def s_Raise(self, s):
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None
        if n is None:
            raise Unsupported('raise')
        raise RaiseSig(n)

    def s_Assert(self, s):
        if not self.decide(self.truth(self.ev(s.test))):
            raise RaiseSig('AssertionError')

    def s_Break(self, s):
        raise BreakSig(self.loop_token())

    def s_Continue(self, s):
        raise ContinueSig(self.loop_token())

    def loop_token(self):
        return self.st.frames[self.fid].get('#loop')

    def s_FunctionDef(self, s):
        self.bind(s.name, Fn(s, self.fn_of_frame[self.fid].module, self.fid))

    def s_Try(self, s):
        if s.finalbody:
            raise Unsupported('finally')
        try:
            outs = self.explore(lambda: (self.block(s.body), None)[1])
            done = []
            for o in outs:
                done.append(o)
            self.select_outcome(done)
        except RaiseSig as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = None
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id if isinstance(x, ast.Name) else x.attr for x in h.type.elts]
                else:
                    names = [h.type.id if isinstance(h.type, ast.Name) else h.type.attr]
                if not e.exc.startswith('#') and (names is None or e.exc in names or 'Exception' in names
                                                  or 'BaseException' in names):
                    if h.name:
                        self.bind(h.name, Builtin('#exception'))
                    self.block(h.body)
                    return
            raise
        else:
            self.block(s.orelse)

    def s_With(self, s):
        for item in s.items:
            v = self.ev(item.context_expr)
            if item.optional_vars is not None:
                raise Unsupported('with ... as')
            del v
        raise Unsupported('with')

    def s_For(self, s):
        if s.orelse:
            # executed if the loop was not left by break
            flag = '#else%d' % s.lineno
            self.bind(flag, T(BOOL, z3.BoolVal(True)))
        fid = self.fid
        token = ('loop', self.w.fresh('L'))
        it = self.ev(s.iter)
        old = self.st.frames[fid].get('#loop')

        def body(v):
            saved, self.fid = self.fid, fid
            prev = self.st.frames[fid].get('#loop')
            self.st.frames[fid]['#loop'] = token
            try:
                self.assign(s.target, v)
                self.block(s.body)
            except ContinueSig as c:
                if c.token != token:
                    raise
            except BreakSig as c:
                if c.token == token and s.orelse:
                    self.st.frames[fid][flag] = T(BOOL, z3.BoolVal(False))
                raise
            finally:
                self.fid = saved
                self.st.frames[fid]['#loop'] = prev
        try:
            self.iterate(it, body)
        except BreakSig as b:
            if b.token != token:
                raise
        self.fid = fid
        self.st.frames[fid]['#loop'] = old
        if s.orelse:
            if self.decide(self.truth(self.lookup(flag))):
                self.block(s.orelse)

    def s_While(self, s):
        if s.orelse:
            raise Unsupported('while ... else')
        fid = self.fid
        token = ('loop', self.w.fresh('W'))

        def body(i):
            self.fid = fid
            prev = self.st.frames[fid].get('#loop')
            self.st.frames[fid]['#loop'] = token
            try:
                if not self.decide(self.truth(self.ev(s.test))):
                    raise BreakSig(token)
                self.block(s.body)
            except ContinueSig as c:
                if c.token != token:
                    raise
            finally:
                self.st.frames[fid]['#loop'] = prev
        try:
            self.run_loop(None, body)
        except BreakSig as b:
            if b.token != token:
                raise
        self.fid = fid

    # -------------------------------------------------------------- loops
    def iterate(self, it, cb):
        """calls cb for the elements of an iterable, in order"""
        it = self.narrow(it)
        if isinstance(it, Tup):
            for v in it.items:
                cb(v)
            return
        s = self.sequence(it)
        if s is not None:
            return self.iterate(s, cb)
        c = self.container(it)
        if c is not None:
            if c.ty[0] == 'list':
                seq = c.term
                units = seq_units(seq)
                if units is not None and len(units) <= 4 and self.small_literal(units):
                    for u in units:
                        cb(self.wrap(c.ty[1], u))
                    return
                if c.ty[1] == BOT:
                    return
                self.run_loop(z3.Length(seq), lambda i: cb(self.wrap(c.ty[1], self.at(seq, i))),
                              it if isinstance(it, Ref) else None)
                return
            if c.ty[0] == 'str':
                self.run_loop(z3.Length(c.term), lambda i: cb(T(STR, z3.SubString(c.term, i, 1))))
                return
            if c.ty[0] == 'dict':
                items = sort(c.ty).items(c.term)
                et = ('tuple', c.ty[1], c.ty[2])
                self.run_loop(z3.Length(items), lambda i: cb(self.wrap(et, self.at(items, i)).items[0]),
                              it if isinstance(it, Ref) else None)
                return
            if c.ty[0] == 'set':
                if c.ty[1] == BOT:
                    return
                self.w.dropped.add('the iteration order of a set is a function of its value')
                seq = self.uf('set_order_' + tyname(c.ty), [c], ('list', c.ty[1])).term

                def el(i):
                    self.st.pc.append(fact(z3.Select(c.term, seq_at(seq, i))))
                    cb(self.wrap(c.ty[1], seq_at(seq, i)))
                self.run_loop(z3.Length(seq), el, it if isinstance(it, Ref) else None)
                return
            raise Unsupported('iteration over a %s' % c.ty[0])
        if isinstance(it, It):
            return self.iterate_lazy(it, cb)
        if isinstance(it, Ref):
            m = self.find_method(it, '__iter__')
            if m is not None:
                return self.iterate(self.call(m, [], {}), cb)
        raise Unsupported('iteration over %r' % (it,))

    def small_literal(self, units):
        return True

    def hidden(self, base, v):
        """a hidden variable, part of the loop state"""
        self.w.counter += 1
        n = '#h%d' % self.w.counter
        self.st.frames[self.fid][n] = v
        return (self.fid, n)

    def hget(self, h):
        return self.st.frames[h[0]][h[1]]

    def hset(self, h, v):
        self.st.frames[h[0]][h[1]] = v

    def at(self, seq, i):
        """element i (known to be within the bounds)"""
        f = self.w.map_facts.get(seq.get_id()) if self.fuse else None
        if f is not None:
            return z3.substitute(f[2], (f[1], i))
        return seq_at(seq, i)

    def note_map(self, rec, start, final):
        """lists made by a loop that appends one element, a function of the index, in every iteration"""
        for k, ty in rec.keys.items():
            if k[0] == 'heap' or ty[0] != 'list' or ty[1] == BOT or not is_empty_seq(rec.init[k]):
                continue
            parts = []
            for s in rec.steps:
                if s['kind'] != 'normal':
                    if s['kind'][0] == 'raise':
                        continue
                    parts = None
                    break
                e = s['new'][k]
                if not (z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT) and e.num_args() == 2 and e.arg(0).eq(rec.head[k])
                        and z3.is_app_of(e.arg(1), z3.Z3_OP_SEQ_UNIT)):
                    parts = None
                    break
                parts.append((z3.And(*s['cond']), e.arg(1).arg(0)))
            if not parts or len(parts) > 6:
                continue
            e = parts[-1][1]
            for c, x in reversed(parts[:-1]):
                e = z3.If(c, x, e)
            if any(n > start for n in fresh_consts(e, rec.i)):
                continue
            self.w.map_facts[rec.final[k].get_id()] = (rec.final[k], rec.i, e)
            self.note_identity(rec, rec.final[k], e, final)
            if rec.length is not None and not contains_const(e, rec.i):
                # the same element every time
                n = z3.simplify(z3.If(rec.length > 0, rec.length, z3.IntVal(0))) \
                    if not z3.is_app_of(rec.length, z3.Z3_OP_SEQ_LENGTH) else rec.length
                r = self.uf('repeat_' + tyname(ty), [T(ty[1], e), T(INT, n)], ty)
                done = z3.BoolVal(True) if rec.ek is None else rec.ek == 0
                final.pc.append(fact(z3.Implies(done, z3.And(rec.final[k] == r.term, z3.Length(r.term) == n))))

    def note_search(self, rec, start, final):
        """a loop over a list that is left exactly at an element equal to x is left iff the list contains x"""
        n = rec.length
        if n is None or len(rec.kinds) != 1 or not z3.is_app_of(n, z3.Z3_OP_SEQ_LENGTH):
            return
        src = n.arg(0)
        if z3.is_string(src):
            return
        exits = [z3.And(*s['cond']) for s in rec.steps if s['kind'] != 'normal']
        if any(s['folds'] for s in rec.steps if s['kind'] != 'normal') or \
                any(m > start for e in exits for m in fresh_consts(e, rec.i)):
            return
        found = z3.Or(*exits) if len(exits) > 1 else exits[0]
        el = seq_at(src, rec.i)
        for x in equal_to(found, rec.i):
            if x.sort() != el.sort():
                x = some_of(el.sort(), x)
                if x is None:
                    continue
            if self.check(list(rec.entry_pc) + rec.guard + [found != (el == x)], 1000) == z3.unsat:
                rec.search.append(z3.Contains(src, z3.Unit(x)))
                return

    def some(self, rec, p):
        """the proposition that p holds for some index the loop goes over: the same for two loops over equal lists
        with the same p, and the negation of it says that p holds for none"""
        n = rec.length
        table = self.w.some
        if z3.is_app_of(n, z3.Z3_OP_SEQ_LENGTH) and not z3.is_string(n.arg(0)):
            src = n.arg(0)
            x = z3.Const('elem', seq_at(src, rec.i).sort())
            q = z3.simplify(z3.substitute(p, (seq_at(src, rec.i), x)))
            if not contains_const(q, rec.i) and not contains_const(q, src):
                f = table.get(('elem', q.get_id(), src.sort().get_id()))
                if f is None:
                    f = (q, z3.Function('some_%d' % len(table), src.sort(), z3.BoolSort()))
                    table[('elem', q.get_id(), src.sort().get_id())] = f
                return f[1](src)
        i = z3.Int('idx')
        q = z3.simplify(z3.substitute(p, (rec.i, i)))
        f = table.get((q.get_id(), n.get_id()))
        if f is None:
            f = table[(q.get_id(), n.get_id())] = (q, n, z3.Bool('some_%d' % len(table)))
        return f[2]

    def note_some(self, rec, start, final):
        """left early iff the condition to leave holds for some index; a list made of the elements with p is empty iff
        p holds for none and as long as the list iff not p holds for none"""
        if rec.length is None:
            return

        def plain(p):
            return not any(m > start for m in fresh_consts(p, rec.i))
        exits = [s for s in rec.steps if s['kind'] != 'normal']
        if exits:
            p = z3.Or(*[z3.And(*s['cond']) for s in exits])
            if plain(p) and not any(s['folds'] for s in rec.steps):
                rec.search.append(self.some(rec, p))
            return
        for k, ty in rec.keys.items():
            if k[0] == 'heap' or ty[0] != 'list' or ty[1] == BOT or not is_empty_seq(rec.init[k]):
                continue
            some = []
            for s in rec.steps:
                e = s['new'][k]
                if e.eq(rec.head[k]):
                    continue
                if not (z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT) and e.num_args() == 2 and e.arg(0).eq(rec.head[k])
                        and z3.is_app_of(e.arg(1), z3.Z3_OP_SEQ_UNIT)):
                    some = None
                    break
                some.append(z3.And(*s['cond']))
            if not some or len(some) == len(rec.steps):
                continue
            p = z3.Or(*some)
            if plain(p):
                n = z3.Length(rec.final[k])
                final.pc.append(fact(z3.And(
                    (n == 0) == z3.Not(self.some(rec, p)),
                    (n == rec.length) == z3.Not(self.some(rec, z3.Not(p))))))

    def note_first_exit(self, rec, start, final):
        """a while loop that is left in its first iteration leaves with what that iteration does to the initial state"""
        if rec.length is not None:
            return
        sub = [(rec.i, z3.IntVal(0))] + [(rec.head[k], rec.init[k]) for k in rec.keys]
        heads = {rec.head[k].get_id() for k in rec.keys}
        for s in rec.steps:
            if s['kind'] == 'normal' or s['folds']:
                continue
            es = list(s['cond']) + [s['new'][k] for k in rec.keys]
            if 'payload' in s:
                es.append(s['payload'])
            if any(n > start for e in es for n in fresh_consts(e, rec.i, heads)):
                continue
            then = [rec.ek == rec.kinds.index(s['kind']) + 1]
            then += [rec.final[k] == s['new'][k] for k in rec.keys]
            if 'payload' in s:
                then.append(rec.payload[s['kind']] == s['payload'])
            f = z3.substitute(z3.Implies(z3.And(*s['cond']), z3.And(*then)), *sub)
            final.pc.append(fact(f))

    def note_identity(self, rec, made, e, final):
        """a list made of f(s[i]) for all i is s, or there is an element with f(s[i]) != s[i]"""
        n = rec.length
        if n is None or not z3.is_app_of(n, z3.Z3_OP_SEQ_LENGTH) or n.arg(0).sort() != made.sort():
            return
        src = n.arg(0)
        w = z3.Int(self.w.fresh('w'))
        differs = z3.And(w >= 0, w < n, z3.substitute(e, (rec.i, w)) != seq_at(src, w))
        if e.eq(seq_at(src, rec.i)):
            differs = z3.BoolVal(False)
        elif not z3.is_app(e) or e.decl().kind() != z3.Z3_OP_DT_CONSTRUCTOR:
            return
        done = z3.BoolVal(True) if rec.ek is None else rec.ek == 0
        final.pc.append(fact(z3.Implies(done, z3.Or(differs, made == src))))

    def indexable(self, it):
        """(length, element function) if the elements can be accessed by index"""
        it = self.narrow(it)
        if isinstance(it, Tup):
            return None
        c = self.container(it)
        if c is not None and c.ty[0] == 'list' and c.ty[1] != BOT:
            return z3.Length(c.term), lambda i: self.wrap(c.ty[1], self.at(c.term, i))
        if c is not None and c.ty[0] == 'str':
            return z3.Length(c.term), lambda i: T(STR, z3.SubString(c.term, i, 1))
        if isinstance(it, It):
            if it.kind == 'range':
                a, b = it.parts
                return z3.If(b > a, b - a, z3.IntVal(0)), lambda i: T(INT, a + i)
            if it.kind == 'enumerate':
                x = self.indexable(it.parts[0])
                if x is not None:
                    return x[0], lambda i: Tup([T(INT, it.parts[1] + i), x[1](i)])
            if it.kind == 'zip':
                xs = [self.indexable(p) for p in it.parts]
                if all(x is not None for x in xs):
                    n = xs[0][0]
                    for x in xs[1:]:
                        n = z3.If(x[0] < n, x[0], n)
                    return n, lambda i: Tup([x[1](i) for x in xs])
            if it.kind == 'reversed':
                x = self.indexable(it.parts[0])
                if x is not None:
                    return x[0], lambda i: x[1](x[0] - 1 - i)
            if it.kind == 'items':
                d = it.parts[0]
                s = sort(d.ty).items(d.term)
                et = ('tuple', d.ty[1], d.ty[2])
                sel = it.parts[1]

                def el(i):
                    t = self.wrap(et, self.at(s, i))
                    return t if sel is None else t.items[sel]
                return z3.Length(s), el
        return None

    def iterate_lazy(self, it, cb):
        x = self.indexable(it)
        if x is not None:
            self.run_loop(x[0], lambda i: cb(x[1](i)))
            return
        k = it.kind
        if k == 'iter':
            return self.iterate(it.parts[0], cb)
        if k == 'comp':
            node, fid = it.parts
            self.run_comp(node, fid, cb)
            return
        if k == 'gen':
            fn, env = it.parts
            self.run_generator(fn, env, cb)
            return
        if k == 'enumerate':
            h = self.hidden('n', T(INT, it.parts[1]))

            def f(v):
                n = self.hget(h)
                self.hset(h, T(INT, n.term + 1))
                cb(Tup([n, v]))
            self.iterate(it.parts[0], f)
            return
        if k == 'chain':
            for p in it.parts:
                self.iterate(p, cb)
            return
        if k == 'flatten':
            self.iterate(it.parts[0], lambda v: self.iterate(v, cb))
            return
        if k == 'map':
            fn, src = it.parts
            self.iterate(src, lambda v: cb(self.call(fn, [v], {})))
            return
        if k == 'filter':
            fn, src = it.parts

            def g(v):
                r = v if fn is NONE_V else self.call(fn, [v], {})
                if self.decide(self.truth(r)):
                    cb(v)
            self.iterate(src, g)
            return
        if k in ('zip', 'reversed'):
            parts = [p if isinstance(p, Tup) or self.indexable(p) is not None else self.to_list(p)
                     for p in it.parts]
            if all(isinstance(p, Tup) for p in parts):
                for vs in (zip(*[p.items for p in parts]) if k == 'zip' else
                           [(v,) for v in reversed(parts[0].items)]):
                    cb(Tup(vs) if k == 'zip' else vs[0])
                return
            parts = [self.new_list(p.items) if isinstance(p, Tup) else p for p in parts]
            self.iterate(It(k, *parts), cb)
            return
        raise Unsupported('iteration over %s' % k)

    def run_comp(self, node, fid, cb):
        saved = self.fid
        # comprehension variables live in a frame of their own
        self.w.counter += 1
        cf = 'f%d' % self.w.counter
        self.st.frames[cf] = {}
        self.fn_of_frame[cf] = Fn(node, self.fn_of_frame[fid].module, fid)

        def level(n):
            if n == len(node.generators):
                self.fid = cf
                if isinstance(node, ast.DictComp):
                    v = Tup([self.ev(node.key), self.ev(node.value)])
                else:
                    v = self.ev(node.elt)
                self.fid = saved
                cb(v)
                return
            g = node.generators[n]
            self.fid = cf
            src = self.ev(g.iter)

            def each(v):
                self.fid = cf
                self.assign(g.target, v)
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c))):
                        return
                level(n + 1)
            self.iterate(src, each)
        level(0)
        self.fid = saved

    def run_generator(self, fn, env, cb):
        saved = self.fid
        self.w.counter += 1
        fid = 'f%d' % self.w.counter
        self.st.frames[fid] = dict(env)
        self.fn_of_frame[fid] = fn

        def on_yield(v):
            s = self.fid
            self.fid = saved
            cb(v)
            self.fid = s
        self.yield_cb[fid] = on_yield
        self.fid = fid
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('recursion')
        try:
            self.block(fn.node.body)
        except ReturnSig as r:
            if r.fid != fid:
                raise
        finally:
            self.depth -= 1
            self.fid = saved

    def state_view(self, st):
        """all pieces of a state: key -> value"""
        d = {}
        for fid, env in st.frames.items():
            for n, v in env.items():
                if n != '#loop':
                    d[('var', fid, n)] = v
        for cid, c in st.cells.items():
            d[('cell', cid)] = c
        for k, h in st.heap.items():
            d[('heap',) + k] = h
        return d

    def run_loop(self, length, bodyfn, iterated=None):
        """a loop with the given number of iterations (None: until left)"""
        if self.no_loops:
            raise Unsupported('loop in an invariant')
        self.seq += 1
        mkey = ('loop', tuple(self.trace[:self.pos]), self.seq)
        if mkey in self.memo:
            final, rec, kinds, self.w.counter = self.memo[mkey]
            self.st = final.copy()
            return self.after_loop(rec, kinds, length)
        w = self.w
        st0 = self.st
        fid0 = self.fid
        rec = FoldRec()
        rec.search = []
        rec.length = length
        counter0 = w.counter
        rec.i = z3.Int(w.fresh('i'))
        view0 = self.state_view(st0)
        keys = {}      # key -> type
        frozen_keys = set()
        guard = [rec.i >= 0] + ([rec.i < length] if length is not None else [])
        for _ in range(12):
            head = st0.copy()
            head.folds = []
            consts = {}
            for k, ty in keys.items():
                self.havoc(head, k, ty, consts, k in frozen_keys, 'h')
            head.pc.extend(guard)
            rec.head = consts
            n_pc = len(head.pc)

            def run():
                bodyfn(rec.i)
                return None
            self.st = head
            outs = self.explore(run, head)
            self.st = st0
            self.fid = fid0
            changed = False
            hv = self.state_view(head)
            for o in outs:
                ov = self.state_view(o.st)
                for k, v in ov.items():
                    if k not in hv:
                        if k[0] == 'heap' and k not in view0:
                            # first read inside of the loop: the initial heap
                            ty = v.ty
                            init = self.initial_heap(k[1], k[2], ty)
                            st0.heap[(k[1], k[2])] = init
                            view0[k] = init
                            changed = True
                        continue
                    if v is None:
                        if hv[k] is not None:
                            raise Unsupported('variable deleted')
                        continue
                    if v is hv[k] and k[0] != 'var':
                        continue
                    if self.unchanged(o.st, v, head, hv[k], k) and not (
                            k in keys and k[0] == 'var' and self.content_changed(o.st, v, head)):
                        continue
                    if k not in view0:
                        continue
                    ty = self.key_type(o.st, k, v, st0, view0[k])
                    if k in keys:
                        ty = join_ty(keys[k], ty) if ty != 'any' else ty
                    if keys.get(k) != ty:
                        keys[k] = ty
                        changed = True
                refs = {}
                for k in ov:
                    if k in view0 and k[0] == 'var' and isinstance(ov[k], Ref) and ov[k].loc[0] == 'cell':
                        refs[ov[k].loc[1]] = refs.get(ov[k].loc[1], 0) + 1
                for k in keys:
                    if k[0] == 'var' and k in ov and isinstance(ov[k], Ref) and k not in frozen_keys and (
                            ov[k].loc[0] != 'cell' or refs.get(ov[k].loc[1], 0) > 1):
                        # another way to reach the container: it must not be changed under this name
                        frozen_keys.add(k)
                        changed = True
                    if k[0] == 'var' and k in ov and isinstance(ov[k], Ref) and ov[k].loc[0] == 'cell' \
                            and ov[k].loc[1] in o.st.frozen and k not in frozen_keys:
                        frozen_keys.add(k)
                        changed = True
                    if k[0] == 'cell' and k[1] in o.st.frozen and k[1] not in st0.frozen \
                            and k not in frozen_keys:
                        frozen_keys.add(k)
                        changed = True
            if not changed:
                break
        else:
            raise Unsupported('the state of a loop does not stabilise')
        if iterated is not None and iterated.loc[0] == 'cell' and ('cell', iterated.loc[1]) in keys:
            raise Unsupported('the list iterated over is changed')
        self.check_alias(st0, keys)
        # the record
        self.st = st0
        rec.keys = dict(keys)
        rec.init = {k: self.key_term(st0, k, view0[k], ty) for k, ty in keys.items()}
        rec.steps = []
        kinds = []
        for o in outs:
            kind = o.kind
            if kind == 'normal' or kind[0] == 'continue':
                if kind != 'normal':
                    raise Unsupported('continue of an outer loop')
                kind = 'normal'
            elif kind not in kinds:
                kinds.append(kind)
            new = {k: self.key_term(o.st, k, self.state_view(o.st)[k], ty) for k, ty in keys.items()}
            rec.steps.append({'cond': o.st.pc[n_pc:], 'new': new, 'kind': kind, 'val': o.val,
                              'st': o.st, 'folds': o.st.folds})
        rec.kinds = kinds
        rec.guard = guard
        # return values
        rec.payload_ty = {}
        for kind in kinds:
            if kind[0] == 'return':
                ty = BOT
                for s in rec.steps:
                    if s['kind'] == kind:
                        self.st = s['st']
                        ty = join_ty(ty, self.tyof(s['val']))
                self.st = st0
                rec.payload_ty[kind] = ty
        for s in rec.steps:
            if s['kind'] in rec.payload_ty:
                self.st = s['st']
                s['payload'] = self.term(s['val'], rec.payload_ty[s['kind']])
        self.st = st0
        rec.entry_pc = list(st0.pc)
        rec.entry_heap = dict(st0.heap)
        rec.entry_folds = list(st0.folds)
        # final state
        rec_st0 = st0.copy()
        rec.final = {}
        rec.ek = z3.Int(w.fresh('ek')) if kinds else None
        final = st0
        for o in outs:
            final.poison = final.poison | {c for c in o.st.poison if c in final.cells}
            for k, n in o.st.gen.items():
                final.gen[k] = max(n, final.gen.get(k, 0))
        for k, ty in keys.items():
            self.havoc(final, k, ty, rec.final, k in frozen_keys, 'e')
        rec.payload = {kind: w.const(ty, 'ret') for kind, ty in rec.payload_ty.items()}
        if length is not None and keys:
            same = [rec.final[k] == rec.init[k] for k in keys]
            if rec.ek is not None:
                same.append(rec.ek == 0)
            final.pc.append(fact(z3.Implies(length <= 0, z3.And(*same))))
        if rec.ek is not None:
            lo = 0 if length is not None else 1
            final.pc.append(fact(z3.And(rec.ek >= lo, rec.ek <= len(kinds))))
        for n, kind in enumerate(kinds):
            ps = [s['payload'] for s in rec.steps if s['kind'] == kind and 'payload' in s]
            if kind in rec.payload and ps and all(p.eq(ps[0]) for p in ps) \
                    and not any(m > counter0 for m in fresh_consts(ps[0], z3.IntVal(0))):
                # the same value is returned whenever the loop is left
                final.pc.append(fact(z3.Implies(rec.ek == n + 1, rec.payload[kind] == ps[0])))
            # a variable is returned
            for k, ty in keys.items():
                if kind in rec.payload and rec.payload_ty[kind] == ty and all(
                        s['payload'].eq(s['new'][k]) for s in rec.steps if s['kind'] == kind):
                    final.pc.append(fact(z3.Implies(rec.ek == n + 1, rec.payload[kind] == rec.final[k])))
        rec.unary = unary_invariants(self, rec, head, final, rec_st0)
        for inv in rec.unary:
            final.pc.append(fact(inv['final']))
        final.folds.append(rec)
        self.note_map(rec, counter0, final)
        self.note_first_exit(rec, counter0, final)
        self.note_search(rec, counter0, final)
        self.note_some(rec, counter0, final)
        # variables first assigned in the loop are undefined after it
        self.st = final
        self.memo[mkey] = (final.copy(), rec, kinds, self.w.counter)
        return self.after_loop(rec, kinds, length)

    def after_loop(self, rec, kinds, length):
        if rec.ek is None:
            if length is None:
                raise DeadPath()    # never left
            return
        if length is not None and self.decide(rec.ek == 0):
            for x in rec.search:
                self.st.pc.append(fact(z3.Not(x)))
            return
        for x in rec.search:
            self.st.pc.append(fact(x))
        for n, kind in enumerate(kinds):
            last = n == len(kinds) - 1
            if last or self.decide(rec.ek == n + 1):
                if last:
                    self.st.pc.append(rec.ek == n + 1)
                if kind[0] == 'break':
                    raise BreakSig(kind[1])
                if kind[0] == 'return':
                    raise ReturnSig(kind[1], self.wrap(rec.payload_ty[kind], rec.payload[kind]))
                raise RaiseSig(kind[1])

    def initial_heap(self, cls, field, ty):
        return T(ty, z3.Const('H_%s_%s' % (cls, field), z3.ArraySort(sort(('obj', cls)), sort(ty))))

    def check_alias(self, st, keys):
        seen = {}
        for fid, env in st.frames.items():
            for n, v in env.items():
                if isinstance(v, Ref) and v.loc[0] == 'cell':
                    if ('var', fid, n) in keys:
                        seen.setdefault(v.loc[1], []).append((fid, n))
        for fid, env in st.frames.items():
            for n, v in env.items():
                if isinstance(v, Ref) and v.loc[0] == 'cell' and v.loc[1] in seen:
                    if (fid, n) not in seen[v.loc[1]] or len(seen[v.loc[1]]) > 1:
                        if ('cell', v.loc[1]) in keys:
                            raise Unsupported('two names for a container that changes in a loop')

    def content_changed(self, st, v, hst):
        return isinstance(v, Ref) and v.loc[0] == 'cell' and st.cells[v.loc[1]] is not hst.cells.get(v.loc[1])

    def unchanged(self, st, v, hst, hv, k):
        if isinstance(v, T) and isinstance(hv, T):
            return v.ty == hv.ty and v.term.eq(hv.term)
        if isinstance(v, Ref) and isinstance(hv, Ref):
            return same_loc(v.loc, hv.loc)
        if isinstance(v, Tup) and isinstance(hv, Tup):
            return len(v.items) == len(hv.items) and all(
                self.unchanged(st, a, hst, b, k) for a, b in zip(v.items, hv.items))
        if isinstance(v, RecCell) and isinstance(hv, RecCell):
            return v.keys() == hv.keys() and all(
                (a == hv[f] if f[0] == '#' else self.unchanged(st, a, hst, hv[f], k)) for f, a in v.items())
        if isinstance(v, Fn) and isinstance(hv, Fn):
            return v.node is hv.node and v.fid == hv.fid
        return v is hv

    def key_type(self, st, k, v, st0, v0):
        saved = self.st
        try:
            if k[0] == 'heap':
                return v.ty
            if isinstance(v, RecCell) or isinstance(v0, RecCell):
                self.st = st
                a = self.rec_type(v)
                self.st = st0
                return join_ty(a, self.rec_type(v0))
            if isinstance(v, (Fn, Builtin, Cls, Mod, It, SymFn, Partial)) or \
                    isinstance(v0, (Fn, Builtin, Cls, Mod, It, SymFn, Partial)):
                raise Unsupported('a function or iterator changes in a loop')
            self.st = st
            a = self.tyof(v)
            self.st = st0
            return join_ty(a, self.tyof(v0))
        finally:
            self.st = saved

    def rec_type(self, c):
        return ('rec', c['#cls'], tuple((f, self.tyof(x)) for f, x in sorted(c.items()) if f[0] != '#'))

    def key_term(self, st, k, v, ty):
        saved = self.st
        self.st = st
        fz = st.frozen
        try:
            if k[0] == 'heap':
                return v.term
            if isinstance(v, RecCell):
                a = self.rec_type(v)
                return coerce_term(sort(a).mk(*[self.term(v[f], x) for f, x in a[2]]), a, ty)
            return self.term(v, ty)
        finally:
            st.frozen = fz
            self.st = saved

    def havoc(self, st, k, ty, consts, frozen, base):
        if k[0] == 'heap':
            c = z3.Const(self.w.fresh(base + '_' + k[2]), z3.ArraySort(sort(('obj', k[1])), sort(ty)))
            consts[k] = c
            st.heap[(k[1], k[2])] = T(ty, c)
            return
        c = self.w.const(ty, base + '_' + str(k[-1]).replace('#', ''))
        consts[k] = c
        if k[0] == 'cell':
            old = st.cells[k[1]]
            if isinstance(old, RecCell):
                s = sort(ty)
                n = RecCell({f: x for f, x in old.items() if f[0] == '#'})
                for j, (f, x) in enumerate(ty[2]):
                    n[f] = from_term(x, s.accessor(0, j)(c))
                st.cells[k[1]] = n
            else:
                st.cells[k[1]] = T(ty, c)
            if frozen:
                st.frozen = st.frozen | {k[1]}
            return
        if ty[0] in ('list', 'dict', 'set', 'map'):
            self.w.counter += 1
            cid = self.w.counter
            st.cells[cid] = T(ty, c)
            st.frames[k[1]][k[2]] = Ref(('cell', cid))
            if frozen:
                st.frozen = st.frozen | {cid}
            return
        if ty[0] == 'rec':
            self.w.counter += 1
            cid = self.w.counter
            s = sort(ty)
            n = RecCell({'#cls': ty[1], '#node': self.rec_nodes[ty[1]]})
            for j, (f, x) in enumerate(ty[2]):
                n[f] = from_term(x, s.accessor(0, j)(c))
            st.cells[cid] = n
            st.frames[k[1]][k[2]] = Ref(('cell', cid))
            return
        if ty[0] == 'opt' and ty[1][0] in ('list', 'dict', 'set', 'map') and not frozen:
            st.frames[k[1]][k[2]] = OwnedOpt(ty, c)
            return
        st.frames[k[1]][k[2]] = from_term(ty, c)

    rec_nodes = {}

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %s)' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE_V
        if isinstance(v, bool):
            return T(BOOL, z3.BoolVal(v))
        if isinstance(v, int):
            return T(INT, z3.IntVal(v))
        if isinstance(v, str):
            return T(STR, sval(v))
        if isinstance(v, float):
            return T(REAL, z3.RealVal(repr(v)))
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.narrow(self.ev(x.value))
                if not isinstance(v, Tup):
                    raise Unsupported('starred')
                items.extend(v.items)
            else:
                items.append(self.ev(x))
        return Tup(items)

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = self.new_list([])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.list_extend(r, self.ev(x.value))
                else:
                    self.list_append(r, self.ev(x))
            return r
        return self.new_list([self.ev(x) for x in e.elts])

    def e_Set(self, e):
        vs = [self.ev(x) for x in e.elts]
        ty = BOT
        for v in vs:
            ty = join_ty(ty, self.tyof(v))
        t = z3.K(sort(ty), z3.BoolVal(False))
        for v in vs:
            t = z3.Store(t, self.term(v, ty), z3.BoolVal(True))
        return self.new_cell(T(('set', ty), t))

    def e_Dict(self, e):
        if None not in e.keys:
            kt, vt, items = BOT, BOT, []
            for k, v in zip(e.keys, e.values):
                k = self.refine(self.ev(k))
                items.append((k, self.refine(self.ev(v))))
                kt, vt = join_ty(kt, self.tyof(k)), join_ty(vt, self.tyof(items[-1][1]))
            r = self.new_cell(T(('dict', kt, vt), empty_dict(('dict', kt, vt))))
            for k, v in items:
                self.dict_set(r, k, v)
            return r
        r = self.new_cell(T(('dict', BOT, BOT), empty_dict(('dict', BOT, BOT))))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.ev(v))
            else:
                self.dict_set(r, self.ev(k), self.ev(v))
        return r

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        c = z3.simplify(c)
        if z3.is_true(c):
            return self.ev(e.body)
        if z3.is_false(c):
            return self.ev(e.orelse)
        return self.branch_merge(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def branch_merge(self, c, f, g):
        def run():
            if self.decide(c):
                return f()
            return g()
        outs = self.explore(run)
        return self.merge(outs)

    def merge(self, outs):
        """one merged outcome if nothing but the value differs, otherwise branch"""
        if len(outs) == 1:
            return self.adopt(outs[0])
        normal = [o for o in outs if o.kind == 'normal']
        if len(normal) >= 2 and self.mergeable(normal):
            try:
                m = self.merge_states(normal)
            except Unsupported:
                m = None
            if m is not None:
                rest = [o for o in outs if o.kind != 'normal']
                for o in rest:
                    if self.decide(o.cond()):
                        return self.adopt(o)
                st, val = m
                self.st.cells = st.cells
                self.st.heap = st.heap
                self.st.frames = st.frames
                self.st.frozen = st.frozen
                self.st.gen = st.gen
                self.st.poison = st.poison
                for o in normal:
                    for f in o.facts():
                        self.st.pc.append(fact(z3.Implies(o.cond(), f)))
                if any(o.facts() for o in normal):
                    # paths left out contradict the facts
                    self.st.pc.append(fact(z3.Or(*[o.cond() for o in normal])))
                return val
        return self.select_outcome(outs)

    def mergeable(self, outs):
        n = len(self.st.folds)
        return all(len(o.st.folds) == n for o in outs)

    def merge_states(self, outs):
        res = outs[-1].st.copy()
        val = outs[-1].val
        views = [self.state_view(o.st) for o in outs]
        allkeys = set()
        for v in views:
            allkeys |= set(v)
        base = self.state_view(self.st)
        cells = {}
        for k in allkeys:
            vs = [v.get(k) for v in views]
            if k[0] == 'heap' and any(v is None for v in vs):
                ty = [v.ty for v in vs if v is not None][0]
                vs = [v if v is not None else self.initial_heap(k[1], k[2], ty) for v in vs]
            if k not in base and k[0] != 'heap':
                # new cells and frames (the numbers are shared by the outcomes)
                have = [v for v in vs if v is not None]
                if not all(v is have[0] or self.unchanged(None, v, None, have[0], k) for v in have):
                    if k[0] == 'var' and any(v is None for v in vs):
                        res.frames.setdefault(k[1], {})[k[2]] = None
                        continue
                    if any(v is None for v in vs):
                        return None
                else:
                    if k[0] == 'cell':
                        res.cells[k[1]] = have[0]
                    else:
                        res.frames.setdefault(k[1], {})[k[2]] = have[0] if len(have) == len(vs) else None
                    continue
            if all(v is vs[0] for v in vs):
                continue
            if any(v is None for v in vs):
                if k[0] == 'var':
                    res.frames[k[1]][k[2]] = None
                    continue
                return None
            if all(self.unchanged(None, v, None, vs[0], k) for v in vs):
                continue
            cur = vs[-1]
            for o, v in zip(reversed(outs[:-1]), reversed(vs[:-1])):
                if k[0] == 'heap':
                    cur = T(v.ty, z3.If(o.cond(), v.term, cur.term))
                else:
                    if isinstance(v, RecCell) or isinstance(cur, RecCell):
                        return None
                    cur = self.merge_val(o.cond(), v, o.st, cur, outs[-1].st, res)
            cells[k] = cur
        for k, v in cells.items():
            if k[0] == 'heap':
                res.heap[(k[1], k[2])] = v
            elif k[0] == 'cell':
                res.cells[k[1]] = v
            else:
                res.frames[k[1]][k[2]] = v
        cur = outs[-1].val
        for o in reversed(outs[:-1]):
            cur = self.merge_val(o.cond(), o.val, o.st, cur, outs[-1].st, res)
        for o in outs:
            res.frozen = res.frozen | o.st.frozen
            res.poison = res.poison | o.st.poison
            for k, n in o.st.gen.items():
                res.gen[k] = max(n, res.gen.get(k, 0))
        del val
        return res, cur

    def merge_val(self, c, a, sta, b, stb, res):
        if a is b or (a is NONE_V and b is NONE_V):
            return a
        if a is None or b is None:
            raise Unsupported('merge')
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, sta, y, stb, res) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and same_loc(a.loc, b.loc):
            return a
        if isinstance(a, (Ref, It, Fn, Builtin, Cls, Mod, SymFn, Partial)) or \
                isinstance(b, (Ref, It, Fn, Builtin, Cls, Mod, SymFn, Partial)):
            raise Unsupported('merge')
        ty = join_ty(self.tyof(a), self.tyof(b))
        t = z3.If(c, self.term(a, ty), self.term(b, ty))
        return from_term(ty, t)

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def run(n):
            v = self.ev(e.values[n])
            if n == len(e.values) - 1:
                return v
            c = self.truth(v)
            cs = z3.simplify(c)
            if z3.is_true(cs):
                return run(n + 1) if is_and else v
            if z3.is_false(cs):
                return v if is_and else run(n + 1)
            if is_and:
                return self.branch_merge(c, lambda: run(n + 1), lambda: self.falsy(v))
            return self.branch_merge(c, lambda: self.truthy(v), lambda: run(n + 1))
        return run(0)

    def truthy(self, v):
        """v, known to be true"""
        if is_opt(v):
            o = opt_val(v)
            return self.wrap(o.ty, o.term)
        if isinstance(v, T) and v.ty == BOOL:
            return T(BOOL, z3.BoolVal(True))
        return v

    def falsy(self, v):
        if isinstance(v, T) and v.ty == BOOL:
            return T(BOOL, z3.BoolVal(False))
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return T(BOOL, z3.Not(self.truth(v)))
        v = self.narrow(v)
        if isinstance(e.op, ast.USub) and isinstance(v, T) and v.ty in (INT, REAL):
            return T(v.ty, z3.simplify(-v.term))
        raise Unsupported('unary operator')

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def num(self, v):
        v = self.narrow(v)
        if isinstance(v, T) and v.ty == BOOL:
            return T(INT, z3.If(v.term, z3.IntVal(1), z3.IntVal(0)))
        return v

    def binop(self, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, T) and a.ty == STR:
            return self.str_format(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        a, b = self.num(a), self.num(b)
        ca, cb = self.container(a), self.container(b)
        if ca is not None and cb is not None:
            if isinstance(op, ast.Add) and ca.ty[0] == cb.ty[0] == 'str':
                return T(STR, z3.simplify(z3.Concat(ca.term, cb.term)))
            if isinstance(op, ast.Add) and ca.ty[0] == cb.ty[0] == 'list':
                ty = join_ty(ca.ty, cb.ty)
                x, y = coerce_term(ca.term, ca.ty, ty), coerce_term(cb.term, cb.ty, ty)
                if ty[1] == BOT:
                    return self.new_cell(T(ty, x))
                return self.new_cell(T(ty, seq_concat(ty, x, y)))
            if ca.ty[0] == cb.ty[0] == 'set':
                ty = join_ty(ca.ty, cb.ty)
                x, y = coerce_term(ca.term, ca.ty, ty), coerce_term(cb.term, cb.ty, ty)
                f = {ast.BitOr: z3.SetUnion, ast.BitAnd: z3.SetIntersect, ast.Sub: z3.SetDifference}.get(type(op))
                if f is not None:
                    return self.new_cell(T(ty, f(x, y)))
            raise Unsupported('operator on containers')
        if isinstance(op, ast.Mult) and (ca is not None) != (cb is not None):
            c, n = (ca, b) if ca is not None else (cb, a)
            return self.repeat(c, n)
        if not (isinstance(a, T) and isinstance(b, T)) or a.ty not in (INT, REAL) or b.ty not in (INT, REAL):
            if isinstance(a, Tup) or isinstance(b, Tup) or ca is not None or cb is not None:
                if isinstance(op, ast.Add):
                    raise RaiseSig('TypeError')
            raise Unsupported('operator %s on %r, %r' % (type(op).__name__, a, b))
        if isinstance(op, ast.Div):
            x, y = coerce_term(a.term, a.ty, REAL), coerce_term(b.term, b.ty, REAL)
            if self.decide(y == 0):
                raise RaiseSig('ZeroDivisionError')
            return T(REAL, x / y)
        ty = join_ty(a.ty, b.ty)
        x, y = coerce_term(a.term, a.ty, ty), coerce_term(b.term, b.ty, ty)
        if isinstance(op, ast.Add):
            return T(ty, x + y)
        if isinstance(op, ast.Sub):
            return T(ty, x - y)
        if isinstance(op, ast.Mult):
            return T(ty, x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and ty == INT:
            n = const_int(b)
            if n is None or n <= 0:
                raise Unsupported('division by a variable')
            return T(INT, x / y if isinstance(op, ast.FloorDiv) else x % y)
        raise Unsupported('operator %s' % type(op).__name__)

    def repeat(self, c, n):
        units = seq_units(c.term) if c.ty[0] == 'list' else None
        k = const_int(n)
        if c.ty[0] == 'list' and k is not None and units is not None and 0 <= k <= 8:
            return self.new_cell(T(c.ty, mk_seq(c.ty, units * k)))
        if c.ty[0] == 'list' and units is not None and len(units) == 1:
            # [x] * n: a sequence of n times x
            ln = self.uf('repeat_' + tyname(c.ty), [T(c.ty[1], units[0]), n], c.ty)
            i = z3.Int('ri')
            self.st.pc.append(fact(z3.Length(ln.term) == z3.If(n.term > 0, n.term, z3.IntVal(0))))
            self.w.map_facts[ln.term.get_id()] = (ln.term, i, units[0])
            return self.new_cell(ln)
        if c.ty[0] == 'str':
            return self.uf('str_repeat', [c, n], STR)
        raise Unsupported('repetition of a list')

    def str_format(self, a, b):
        f = const_str(a)
        args = list(b.items) if isinstance(b, Tup) else [b]
        if f is None:
            raise Unsupported('format')
        out, i, n = [], 0, 0
        while i < len(f):
            if f[i] == '%':
                s = f[i + 1:i + 2]
                if s == '%':
                    out.append(sval('%'))
                elif s in 'sdr' and n < len(args):
                    out.append(self.to_str(args[n], s).term)
                    n += 1
                else:
                    raise Unsupported('format %s' % s)
                i += 2
            else:
                j = f.find('%', i)
                j = len(f) if j < 0 else j
                out.append(sval(f[i:j]))
                i = j
        if not out:
            return T(STR, sval(''))
        return T(STR, out[0] if len(out) == 1 else z3.Concat(*out))

    def to_str(self, v, mode='s'):
        if isinstance(v, T) and v.ty == STR and mode == 's':
            return v
        if is_opt(v) and v.ty[1] == STR and mode == 's':
            return T(STR, z3.If(is_none_term(v), sval('None'), opt_val(v).term))
        if isinstance(v, T) and v.ty == BOOL:
            return T(STR, z3.If(v.term, sval('True'), sval('False')))
        if isinstance(v, T) and v.ty == INT:
            return T(STR, z3.If(v.term >= 0, z3.IntToStr(v.term), z3.Concat(sval('-'), z3.IntToStr(-v.term))))
        if is_opt(v) and v.ty[1] == INT:
            o = opt_val(v)
            return T(STR, z3.If(is_none_term(v), sval('None'), self.to_str(o).term))
        if isinstance(v, (T, Tup)):
            ty = self.tyof(v)
            m = self.find_method(v, '__repr__' if mode == 'r' else '__str__')
            if m is not None:
                return self.call(m, [], {})
            return self.uf('str_of_%s_%s' % (mode, tyname(ty)), [v], STR)
        if v is NONE_V:
            return T(STR, sval('None'))
        m = self.find_method(v, '__repr__' if mode == 'r' else '__str__')
        if m is not None:
            return self.call(m, [], {})
        raise Unsupported('str of %r' % (v,))

    def e_JoinedStr(self, e):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(sval(p.value))
            else:
                if p.format_spec is not None or p.conversion not in (-1, None):
                    raise Unsupported('format specification')
                out.append(self.to_str(self.ev(p.value)).term)
        if not out:
            return T(STR, sval(''))
        return T(STR, out[0] if len(out) == 1 else z3.Concat(*out))

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            res.append(self.compare(op, left, right))
            left = right
        return T(BOOL, res[0] if len(res) == 1 else z3.And(*res))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.same(a, b)
        if isinstance(op, ast.IsNot):
            return z3.Not(self.same(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return z3.Not(self.contains(b, a))
        a, b = self.num(a), self.num(b)
        if isinstance(a, T) and isinstance(b, T) and a.ty in (INT, REAL) and b.ty in (INT, REAL):
            ty = join_ty(a.ty, b.ty)
            x, y = coerce_term(a.term, a.ty, ty), coerce_term(b.term, b.ty, ty)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y,
                    ast.GtE: lambda: x >= y}[type(op)]()
        if isinstance(a, T) and isinstance(b, T) and a.ty == b.ty == STR:
            return {ast.Lt: lambda: a.term < b.term, ast.LtE: lambda: a.term <= b.term,
                    ast.Gt: lambda: b.term < a.term, ast.GtE: lambda: b.term <= a.term}[type(op)]()
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.items:
            strict = isinstance(op, (ast.Lt, ast.Gt))
            res = z3.BoolVal(not strict)
            so = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
            for x, y in reversed(list(zip(a.items, b.items))):
                res = z3.Or(self.compare(so, x, y), z3.And(self.eq(x, y), res))
            return res
        raise Unsupported('comparison of %r and %r' % (a, b))

    def contains(self, c, x):
        c = self.narrow(c)
        if isinstance(c, Tup):
            return z3.Or(*[self.eq(x, y) for y in c.items]) if c.items else z3.BoolVal(False)
        t = self.container(c)
        if t is not None:
            k = t.ty[0]
            if k == 'str':
                x = self.narrow(x)
                return z3.Contains(t.term, x.term)
            if k == 'list':
                if t.ty[1] == BOT:
                    return z3.BoolVal(False)
                units = seq_units(t.term)
                if units is not None:
                    return z3.Or(*[self.eq(x, from_term(t.ty[1], u)) for u in units]) \
                        if units else z3.BoolVal(False)
                xt = self.tyof(x)
                if join_ty(xt, t.ty[1]) == t.ty[1]:
                    return z3.Contains(t.term, z3.Unit(self.term(x, t.ty[1])))
                if xt[0] == 'opt' and xt[1] == t.ty[1]:
                    return z3.And(z3.Not(is_none_term(x)), z3.Contains(t.term, z3.Unit(opt_val(x).term)))
                if x is NONE_V:
                    return z3.BoolVal(False)
            if k in ('set', 'map', 'dict'):
                if t.ty[1] == BOT:
                    return z3.BoolVal(False)
                return self.key_test(x, t.ty[1], lambda key: (
                    z3.Select(t.term, key) if k == 'set' else
                    z3.Not(sort(('opt', t.ty[2])).is_none(z3.Select(self.as_map(t), key)))))
        if isinstance(c, Ref):
            m = self.find_method(c, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [x], {}))
        if isinstance(c, It):
            h = self.to_list(c)
            return self.contains(h, x)
        raise Unsupported('in %r' % (c,))

    def as_map(self, t):
        return sort(t.ty).map(t.term) if t.ty[0] == 'dict' else t.term

    def key_test(self, x, kt, f):
        if x is NONE_V:
            return f(opt_none(kt)) if kt[0] == 'opt' else z3.BoolVal(False)
        if is_opt(x) and kt[0] != 'opt':
            return z3.And(z3.Not(is_none_term(x)), f(coerce_term(opt_val(x).term, x.ty[1], kt)))
        try:
            return f(self.term(x, kt))
        except Unsupported:
            return z3.BoolVal(False)

    # ---- subscripts
    def e_Subscript(self, e):
        v = self.ev(e.value)
        if isinstance(v, (Mod, Builtin, Cls)):
            return v        # generic types
        v = self.narrow(v)
        if isinstance(e.slice, ast.Slice):
            return self.slice(v, e.slice)
        return self.index(v, self.ev(e.slice))

    def index(self, v, i):
        if isinstance(v, Tup):
            n = const_int(i)
            if n is None:
                i = self.num(i)
                m = len(v.items)
                for k, x in enumerate(v.items):
                    if self.decide(z3.Or(i.term == k, i.term == k - m)):
                        return x
                raise RaiseSig('IndexError')
            if not -len(v.items) <= n < len(v.items):
                raise RaiseSig('IndexError')
            return v.items[n]
        c = self.container(v)
        if c is None:
            m = self.find_method(v, '__getitem__')
            if m is not None:
                return self.call(m, [i], {})
        if c is not None and c.ty[0] in ('list', 'str'):
            i = self.num(i)
            if c.ty == ('list', BOT):
                raise RaiseSig('IndexError')
            n = z3.Length(c.term)
            it = z3.simplify(i.term)
            if z3.is_int_value(it):
                if self.decide(n <= it if it.as_long() >= 0 else n < -it):
                    raise RaiseSig('IndexError')
                k = it if it.as_long() >= 0 else z3.simplify(n + it)
            elif self.feasible(it < 0):
                if self.decide(z3.Or(it >= n, it < -n)):
                    raise RaiseSig('IndexError')
                k = z3.If(it < 0, it + n, it)
            else:
                if self.decide(n <= it):
                    raise RaiseSig('IndexError')
                k = it
            units = seq_units(c.term) if c.ty[0] == 'list' else None
            k = z3.simplify(k)
            if isinstance(v, Ref) and c.ty[0] == 'list' and c.ty[1][0] in ('list', 'dict', 'set', 'map'):
                return self.element(v, c, k)
            if units is not None and z3.is_int_value(k):
                return self.wrap(c.ty[1], units[k.as_long()])
            if c.ty[0] == 'str':
                return T(STR, z3.SubString(c.term, k, 1))
            return self.wrap(c.ty[1], self.at(c.term, k))
        if c is not None and c.ty[0] in ('map', 'dict'):
            r = self.map_get(c, i, None, True)
            if isinstance(v, Ref) and c.ty[2][0] in ('list', 'dict', 'set', 'map') and not is_opt(i):
                return Ref(('val', v, self.term(i, c.ty[1]), self.st.gen.get(self.loc_key(v), 0)))
            return r
        raise Unsupported('index of %r' % (v,))

    def map_get(self, c, key, default, strict):
        if c.ty[1] == BOT:
            if strict:
                raise RaiseSig('KeyError')
            return default
        ot = ('opt', c.ty[2])
        s = sort(ot)
        m = self.as_map(c)
        if key is NONE_V and c.ty[1][0] != 'opt':
            if strict:
                raise RaiseSig('KeyError')
            return default
        if is_opt(key) and c.ty[1][0] != 'opt':
            isn = is_none_term(key)
            sel = z3.If(isn, opt_none(ot), z3.Select(m, coerce_term(opt_val(key).term, key.ty[1], c.ty[1])))
        else:
            sel = z3.Select(m, self.term(key, c.ty[1]))
        if strict:
            if self.decide(s.is_none(sel)):
                raise RaiseSig('KeyError')
            return self.wrap(c.ty[2], s.val(sel))
        if default is NONE_V:
            if c.ty[2][0] == 'opt':
                return self.wrap(c.ty[2], z3.If(s.is_none(sel), opt_none(c.ty[2]), s.val(sel)))
            return T(ot, sel)
        return self.branch_merge(s.is_none(sel), lambda: default, lambda: self.wrap(c.ty[2], s.val(sel)))

    def slice(self, v, sl):
        if sl.step is not None:
            raise Unsupported('slice step')
        lo = self.ev(sl.lower) if sl.lower is not None else NONE_V
        hi = self.ev(sl.upper) if sl.upper is not None else NONE_V
        if isinstance(v, Tup):
            a, b = const_int(lo) if lo is not NONE_V else None, const_int(hi) if hi is not NONE_V else None
            if (a is None and lo is not NONE_V) or (b is None and hi is not NONE_V):
                raise Unsupported('slice of a tuple')
            return Tup(v.items[a:b])
        c = self.container(v)
        if c is None or c.ty[0] not in ('list', 'str'):
            raise Unsupported('slice of %r' % (v,))
        if c.ty == ('list', BOT):
            return self.new_cell(c)
        n = z3.Length(c.term)

        def norm(x, default):
            while is_opt(x):
                if self.decide(is_none_term(x)):
                    x = NONE_V
                else:
                    x = opt_val(x)
            if x is NONE_V:
                return default
            x = self.num(x)
            t = z3.simplify(x.term)
            if z3.is_int_value(t):
                if t.as_long() >= 0:
                    return t
                return z3.If(n + t < 0, z3.IntVal(0), n + t)
            if self.check(self.st.pc + [t < 0]) == z3.unsat:
                return t
            return z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), t)
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        units = seq_units(c.term) if c.ty[0] == 'list' else None
        if units is not None:
            a2, b2 = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(a2) and (hi is NONE_V or z3.is_int_value(b2)):
                return self.new_cell(T(c.ty, mk_seq(c.ty, units[a2.as_long():None if hi is NONE_V else b2.as_long()])))
        if c.ty[0] == 'str':
            return T(STR, z3.simplify(z3.SubString(c.term, a, b - a)))
        return self.new_cell(T(c.ty, z3.simplify(z3.Extract(c.term, a, b - a))))

    def set_item(self, v, sl, val):
        v = self.narrow(v)
        if isinstance(sl, ast.Slice):
            raise Unsupported('slice assignment')
        i = self.ev(sl)
        c = self.container(v)
        if c is None:
            m = self.find_method(v, '__setitem__')
            if m is not None:
                self.call(m, [i, val], {})
                return
        if not isinstance(v, Ref) or c is None:
            raise Unsupported('assignment to an element of %r' % (v,))
        if c.ty[0] == 'list':
            i = self.num(i)
            n = z3.Length(c.term)
            it = i.term
            if self.decide(z3.Or(it >= n, it < -n)):
                raise RaiseSig('IndexError')
            k = z3.simplify(z3.If(it < 0, it + n, it))
            ty = ('list', join_ty(c.ty[1], self.tyof(val)))
            seq = coerce_term(c.term, c.ty, ty)
            x = z3.Unit(self.term(val, ty[1]))
            units = seq_units(seq)
            if units is not None and z3.is_int_value(k):
                units[k.as_long()] = self.term(val, ty[1])
                self.save(v, T(ty, mk_seq(ty, units)))
                return
            self.save(v, T(ty, z3.Concat(z3.Extract(seq, 0, k), x, z3.Extract(seq, k + 1, n - k - 1))))
            return
        if c.ty[0] in ('map', 'dict'):
            self.dict_set(v, i, val)
            return
        raise Unsupported('item assignment')

    def dict_set(self, r, k, v, structural=True):
        c = self.load(r)
        if c.ty[1][0] != 'opt':
            k = self.refine(k)
        if c.ty[2][0] != 'opt':
            v = self.refine(v)
        kt, vt = join_ty(c.ty[1], self.tyof(k)), join_ty(c.ty[2], self.tyof(v))
        ty = (c.ty[0], kt, vt)
        t = coerce_term(c.term, c.ty, ty)
        kk, vv = self.term(k, kt), self.term(v, vt)
        ot = ('opt', vt)
        if ty[0] == 'map':
            self.save(r, T(ty, z3.Store(t, kk, opt_some(ot, vv))), structural)
            return
        s = sort(ty)
        items = s.items(t)
        pt = ('tuple', kt, vt)
        new = z3.Unit(sort(pt).mk(kk, vv))
        present = z3.Not(sort(ot).is_none(z3.Select(s.map(t), kk)))
        lit = z3.simplify(present)
        app = seq_concat(('list', pt), z3.simplify(items), new)
        if z3.is_false(lit) or self.check(self.st.pc + [present]) == z3.unsat:
            it2 = app
        else:
            upd = self.uf('dict_items_set_' + tyname(ty), [T(('list', pt), items), T(kt, kk), T(vt, vv)],
                          ('list', pt)).term
            it2 = z3.If(present, upd, app)
        self.save(r, T(ty, s.mk(it2, z3.Store(s.map(t), kk, opt_some(ot, vv)))), structural)

    def dict_update(self, r, other):
        if other is NONE_V:
            raise RaiseSig('TypeError')
        other = self.narrow(other)
        o = self.container(other)
        if o is None or o.ty[0] != 'dict':
            raise Unsupported('update of a dict by %r' % (other,))
        c = self.load(r)
        if c.ty[1] == BOT:
            self.save(r, T(o.ty, o.term))
            return
        if o.ty[1] == BOT:
            return
        units = seq_units(z3.simplify(sort(o.ty).items(o.term)))
        if units is not None:
            for u in units:
                p = from_term(('tuple', o.ty[1], o.ty[2]), u)
                self.dict_set(r, p.items[0], p.items[1])
            return
        ty = join_ty(c.ty, o.ty)
        u = self.uf('dict_update_' + tyname(ty), [T(ty, coerce_term(c.term, c.ty, ty)),
                                                  T(ty, coerce_term(o.term, o.ty, ty))], ty)
        self.save(r, u)

    # ---- uninterpreted functions
    def uf(self, name, args, ret):
        sorts, terms = [], []
        for a in args:
            t = self.tyof(a)
            if isinstance(a, Ref):
                fz = self.st.frozen
                terms.append(self.term(a))
                self.st.frozen = fz
            else:
                terms.append(self.term(a))
            sorts.append(sort(t))
        full = 'uf_%s__%s' % (name, '_'.join(str(s).replace(' ', '') for s in sorts))
        if not terms:
            return from_term(ret, z3.Const(full, sort(ret)))
        f = z3.Function(full, *(sorts + [sort(ret)]))
        return from_term(ret, f(*terms))

    # ---- attributes
    def find_method(self, v, name):
        node = mod = None
        if isinstance(v, Ref) and v.loc[0] == 'cell':
            c = self.st.cells[v.loc[1]]
            if isinstance(c, RecCell):
                mod, node = c['#node']
        elif isinstance(v, T) and v.ty[0] == 'obj':
            d = self.w.classes.get(v.ty[1])
            if d and d.get('path'):
                mn, cn = d['path'].split(':')
                mod, node, _ = self.w.find(mn, cn)
        elif isinstance(v, T) and v.ty[0] == 'rec':
            mod, node = self.rec_nodes[v.ty[1]]
        if node is None:
            return None
        r = self.w.lookup_method(mod, node, name)
        if r is None or not isinstance(r[1], ast.FunctionDef):
            return None
        return Fn(r[1], r[0], None, v, node.name + '.' + name, cls=(mod, node))

    def e_Attribute(self, e):
        v = self.ev(e.value)
        return self.attr(v, e.attr)

    def attr(self, v, name):
        if is_opt(v):
            v = self.narrow(v, 'AttributeError')
        if v is NONE_V:
            raise RaiseSig('AttributeError')
        if isinstance(v, Mod):
            full = v.name + '.' + name
            if v.name == PKG or v.name.startswith(PKG + '.'):
                return self.global_name_of(v.name[len(PKG) + 1:], name)
            return Builtin(full)
        if isinstance(v, Builtin):
            return Builtin(v.name + '.' + name)
        if isinstance(v, Cls):
            r = self.w.lookup_method(v.module, v.node, name)
            if r is None:
                raise Unsupported('attribute %s of class %s' % (name, v.name))
            if isinstance(r[1], ast.FunctionDef):
                deco = [ast.unparse(d) for d in r[1].decorator_list]
                f = Fn(r[1], r[0], None, None, v.name + '.' + name, cls=(v.module, v.node))
                if 'classmethod' in deco:
                    return f.bind(v)
                return f
            return self.const_in_module(r[0], r[1])
        if isinstance(v, T) and v.ty[0] == 'obj':
            d = self.w.classes.get(v.ty[1])
            if d is None:
                raise Unsupported('class %s' % v.ty[1])
            if name in d['fields']:
                ty = d['fields'][name]
                if ty[0] in ('list', 'dict', 'map', 'set'):
                    return Ref(('field', v.ty[1], name, v.term))
                if ty[0] == 'fn':
                    return SymFn('%s_%s' % (v.ty[1], name), [v], ty)
                h = self.heap_array(v.ty[1], name, ty)
                return self.wrap(ty, z3.Select(h.term, v.term))
            if self.extern_here('%s.%s' % (v.ty[1], name)):
                return Partial(Builtin('%s.%s' % (v.ty[1], name)), [v], {})
            return self.method_or_property(v, name)
        if isinstance(v, Ref):
            c = self.load(v)
            if isinstance(c, RecCell):
                if name in c:
                    return c[name]
                return self.method_or_property(v, name)
            return Builtin(name, v)
        if isinstance(v, T) and v.ty[0] == 'rec':
            for j, (f, x) in enumerate(v.ty[2]):
                if f == name:
                    return self.wrap(x, sort(v.ty).accessor(0, j)(v.term))
            return self.method_or_property(v, name)
        if isinstance(v, T) and v.ty[0] in ('str', 'list', 'dict', 'map', 'set', 'int'):
            return Builtin(name, v)
        if isinstance(v, (It, SymFn)):
            return Builtin(name, v)
        raise Unsupported('attribute %s of %r' % (name, v))

    def const_in_module(self, m, expr):
        saved = self.fid
        self.w.counter += 1
        fid = 'g%d' % self.w.counter
        self.st.frames[fid] = {}
        self.fn_of_frame[fid] = Fn(expr, m, None)
        self.fid = fid
        try:
            return self.ev(expr)
        finally:
            self.fid = saved
            self.st.frames.pop(fid, None)

    def method_or_property(self, v, name):
        f = self.find_method(v, name)
        if f is None:
            # class attribute
            raise Unsupported('attribute %s' % name)
        deco = [ast.unparse(d) for d in f.node.decorator_list]
        if 'property' in deco:
            return self.call(f, [], {})
        if 'staticmethod' in deco:
            return Fn(f.node, f.module, None, None, f.name, f.cls)
        if 'abstractmethod' in deco:
            raise Unsupported('abstract method %s' % name)
        return f

    def set_attr(self, o, name, v):
        o = self.narrow(o, 'AttributeError')
        if isinstance(o, T) and o.ty[0] == 'obj':
            d = self.w.classes.get(o.ty[1])
            if d is None or name not in d['fields']:
                raise Unsupported('field %s' % name)
            ty = d['fields'][name]
            if ty[0] == 'fn':
                raise Unsupported('function field')
            if ty[0] != 'opt':
                v = self.refine(v)
            h = self.heap_array(o.ty[1], name, ty)
            self.st.heap[(o.ty[1], name)] = T(ty, z3.Store(h.term, o.term, self.term(v, ty)))
            return
        if isinstance(o, Ref):
            c = self.load(o)
            if isinstance(c, RecCell):
                if o.loc[1] in self.st.frozen:
                    raise Unsupported('an object is changed after it was stored')
                n = RecCell(c)
                n[name] = v
                self.st.cells[o.loc[1]] = n
                return
        raise Unsupported('attribute assignment to %r' % (o,))

    # ---- lambdas, comprehensions, yield
    def e_Lambda(self, e):
        return Fn(e, self.fn_of_frame[self.fid].module, self.fid)

    def e_GeneratorExp(self, e):
        return It('comp', e, self.fid)

    def e_ListComp(self, e):
        return self.to_list(It('comp', e, self.fid))

    def e_SetComp(self, e):
        return self.to_set(It('comp', e, self.fid))

    def e_DictComp(self, e):
        return self.to_dict(It('comp', e, self.fid))

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE_V
        cb = self.yield_cb.get(self.fid)
        if cb is None:
            raise Unsupported('yield')
        f = self.fid
        cb(v)
        self.fid = f
        return NONE_V

    def e_YieldFrom(self, e):
        it = self.ev(e.value)
        cb = self.yield_cb.get(self.fid)
        if cb is None:
            raise Unsupported('yield from')
        f = self.fid

        def each(v):
            s, self.fid = self.fid, f
            cb(v)
            self.fid = s
        self.iterate(it, each)
        self.fid = f
        return NONE_V

    def e_Starred(self, e):
        raise Unsupported('starred expression')

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    # ---- lists
    def list_append(self, r, v):
        c = self.load(r)
        if isinstance(v, Ref) and v.loc[0] in ('elem', 'val'):
            raise Unsupported('a container is stored twice')
        if c.ty[1][0] != 'opt':
            v = self.refine(v)
        ty = ('list', join_ty(c.ty[1], self.tyof(v)))
        self.save(r, T(ty, seq_concat(ty, coerce_term(c.term, c.ty, ty), z3.Unit(self.term(v, ty[1])))), False)

    def list_extend(self, r, v):
        v = self.narrow(v)
        o = self.container(v)
        if isinstance(v, Tup):
            for x in v.items:
                self.list_append(r, x)
            return
        if o is not None and o.ty[0] == 'list':
            c = self.load(r)
            if o.ty[1] == BOT:
                return
            ty = join_ty(c.ty, o.ty)
            self.save(r, T(ty, seq_concat(ty, coerce_term(c.term, c.ty, ty), coerce_term(o.term, o.ty, ty))), False)
            return
        h = self.hidden('x', r)
        self.iterate(v, lambda x: self.list_append(self.hget(h), x))

    def to_list(self, v):
        v = self.narrow(v)
        if isinstance(v, Tup):
            return self.new_list(v.items)
        c = self.container(v)
        if c is not None and c.ty[0] == 'list':
            return self.new_cell(T(c.ty, c.term))
        r = self.new_list([])
        self.iterate(v, lambda x: self.list_append(r, x))
        return r

    def to_set(self, v):
        v = self.narrow(v)
        c = self.container(v)
        if c is not None and c.ty[0] == 'set':
            return self.new_cell(c)
        if isinstance(v, Tup):
            ty = BOT
            for x in v.items:
                ty = join_ty(ty, self.tyof(x))
            t = z3.K(sort(ty), z3.BoolVal(False))
            for x in v.items:
                t = z3.Store(t, self.term(x, ty), z3.BoolVal(True))
            return self.new_cell(T(('set', ty), t))
        r = self.new_cell(T(('set', BOT), z3.K(sort(BOT), z3.BoolVal(False))))
        self.iterate(v, lambda x: self.set_add(r, x))
        return r

    def set_add(self, r, x):
        c = self.load(r)
        if c.ty[1][0] != 'opt':
            x = self.refine(x)
        ty = ('set', join_ty(c.ty[1], self.tyof(x)))
        self.save(r, T(ty, z3.Store(coerce_term(c.term, c.ty, ty), self.term(x, ty[1]), z3.BoolVal(True))))

    def to_dict(self, v):
        r = self.new_cell(T(('dict', BOT, BOT), empty_dict(('dict', BOT, BOT))))

        def each(x):
            k, val = self.unpack(x, 2)
            self.dict_set(r, k, val)
        self.iterate(v, each)
        return r

    # ---- calls
    def e_Call(self, e):
        if self.is_logging(e):
            self.w.dropped.add('logging calls')
            return NONE_V
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'isEnabledFor':
            return T(BOOL, z3.Bool('logging_enabled'))
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return Builtin('#super', self.st.frames[self.fid].get('self'))
        f = self.ev(e.func)
        if isinstance(f, Builtin) and f.name.endswith('typing.cast'):
            return self.ev(e.args[1])
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, Tup):
                    args.extend(v.items)
                elif isinstance(f, Builtin) and f.name in ('itertools.chain',):
                    args.append(It('flatten', v))
                elif isinstance(f, Builtin) and f.name == 'zip' and len(e.args) == 1 and not e.keywords:
                    return self.unzip(v)
                else:
                    raise Unsupported('argument *%s' % ast.unparse(a.value))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if isinstance(v, Builtin) and v.name == '#kwargs':
                    kwargs.update(v.self_val)
                    continue
                raise Unsupported('argument **%s' % ast.unparse(k.value))
            kwargs[k.arg] = self.ev(k.value)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Cls):
            return self.construct(f, args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, SymFn):
            return self.call_symfn(f, args, kwargs)
        if isinstance(f, Builtin):
            return self.call_builtin(f, args, kwargs)
        if isinstance(f, T) and f.ty[0] == 'obj' and f.ty[1] + '.__call__' in self.w.externs:
            import builtin_models
            return builtin_models.extern(self, f.ty[1] + '.__call__', [f] + list(args), kwargs)
        if is_opt(f):
            raise Unsupported('call of an optional function')
        if f is NONE_V:
            raise RaiseSig('TypeError')
        raise Unsupported('call of %r' % (f,))

    def unzip(self, v):
        """zip(*list of tuples)"""
        lst = self.to_list(v)
        c = self.load(lst)
        if c.ty[1] == BOT or self.decide(z3.Length(c.term) == 0):
            return Tup([])
        if c.ty[1][0] != 'tuple':
            raise Unsupported('zip(*...)')
        cols = [self.new_list([]) for _ in c.ty[1][1:]]

        def each(x):
            for col, y in zip(cols, x.items):
                self.list_append(col, y)
        self.iterate(lst, each)
        return Tup(cols)

    def call_symfn(self, f, args, kwargs):
        ty = f.ret_ty
        if isinstance(ty, tuple) and ty and ty[0] == 'fn':
            ats, rt = ty[1:-1], ty[-1]
            pre = list(f.arg_tys)
        else:
            raise Unsupported('function parameter')
        if kwargs or len(args) != len(ats):
            raise Unsupported('arguments of a function parameter')
        conv = [from_term(t, self.term(self.refine(a) if t[0] != 'opt' else a, t)) for a, t in zip(args, ats)]
        return self.uf('fn_' + f.name, pre + conv, rt)

    def bind_args(self, f, args, kwargs):
        node = f.node
        a = node.args
        env = {}
        pos = list(a.posonlyargs) + list(a.args)
        if f.self_val is not None:
            args = [f.self_val] + list(args)
        names = [x.arg for x in pos]
        if len(args) > len(names):
            if a.vararg is None:
                raise self.bad_call(f)
            env[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup([])
        for n, v in zip(names, args):
            env[n] = v
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    raise self.bad_call(f)
                env[n] = kw.pop(n)
        if kw:
            if a.kwarg is None:
                raise self.bad_call(f)
        if a.kwarg is not None:
            env[a.kwarg.arg] = Builtin('#kwargs', kw)
        dflt = {}
        for x, d in zip(reversed(pos), reversed(a.defaults)):
            dflt[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dflt[x.arg] = d
        missing = [n for n in names + [x.arg for x in a.kwonlyargs] if n not in env]
        for n in missing:
            if n not in dflt:
                raise self.bad_call(f)
            env[n] = self.default_value(f, dflt[n])
        return env

    def bad_call(self, f):
        if f.module.name.startswith('contracts'):
            raise Unsupported('arguments of %s' % f.name)
        return RaiseSig('TypeError')

    def default_value(self, f, expr):
        if isinstance(expr, ast.Constant):
            return self.e_Constant(expr)
        if isinstance(expr, (ast.List, ast.Dict)) and (getattr(expr, 'elts', None) or getattr(expr, 'keys', None)):
            pass
        return self.const_in_module(f.module, expr)

    def is_generator(self, node):
        if isinstance(node, ast.Lambda):
            return False
        if not hasattr(node, '_is_gen'):
            node._is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        return node._is_gen

    def call_fn(self, f, args, kwargs):
        c = self.contract_of(f)
        ext = getattr(self.w, 'extern_by_node', {}).get(id(f.node))
        if ext and (self.top is not None and self.top.name in self.w.externs[ext]['within']
                    if self.w.externs[ext].get('within') else c is None):
            import builtin_models
            args = ([f.self_val] if f.self_val is not None else []) + list(args)
            return builtin_models.extern(self, ext, args, kwargs)
        if c is not None and not (self.top is c and self.depth == 0):
            f2 = c.spec_fn(self, f)
            self.w.used_models.add(c.key_str())
            args, kwargs = c.normalise_args(self, f, args, kwargs)
            for v, t in zip(args, c.param_types()):
                # a contract says nothing about other arguments than those of the declared types
                if t[0] not in ('opt', 'none', 'fn') and (v is NONE_V or is_opt(v)):
                    if v is NONE_V or self.decide(is_none_term(v)):
                        raise RaiseSig('#precondition of ' + c.key_str())
            if c.requires_node is not None:
                r = Fn(c.requires_node, c.spec_module, None)
                if not self.decide(self.truth(self.call_fn(r, args, kwargs))):
                    raise RaiseSig('#precondition of ' + c.key_str())
            if c.opts.get('opaque') and not (self.top is not None and c.name in self.top.opts.get('reveal', '').split()):
                fz = self.st.frozen
                vals, fns = [], ''
                for v, t in zip(args, c.param_types()):
                    more, f = self.opaque_arg(v, t)
                    vals += more
                    fns += f
                self.st.frozen = fz     # the callee does not keep its arguments
                recs = {t[1] for v, t in zip(args, c.param_types())
                        if t[0] == 'obj' and isinstance(v, Ref) and isinstance(self.load(v), RecCell)}
                # a new object whose fields are passed as values: the only one of its class within reach
                recs -= {k for k in recs if sum(str(t).count("'%s'" % k) for t in c.param_types()) != 1
                         or any("'%s'" % k in str(self.w.classes[fl[0]]['fields'][fl[1]]) for fl in c.reads())
                         or any(fl[0] == k for fl in c.modifies())}
                arrs = [self.heap_array(*fl, self.w.classes[fl[0]]['fields'][fl[1]]).term for fl in c.reads()
                        if fl[0] not in recs]
                import builtin_models
                for fl in c.modifies():
                    ty = self.w.classes[fl[0]]['fields'][fl[1]]
                    srt = z3.ArraySort(sort(('obj', fl[0])), sort(ty))
                    self.st.heap[fl] = T(ty, builtin_models.app(
                        self, 'op_%s_writes_%s_%s' % ((c.name + fns,) + fl), vals, arrs, srt))
                for exc in c.may_raise():
                    if self.decide(builtin_models.app(self, 'op_%s_raises_%s' % (c.name + fns, exc), vals, arrs, BOOL).term):
                        raise RaiseSig(exc)
                if c.opts['returns'].startswith('='):
                    return args[c.param_names().index(c.opts['returns'][1:])]
                r = builtin_models.app(self, 'op_' + c.name + fns, vals, arrs, parse_type(c.opts['returns']))
                return self.new_cell(r) if isinstance(r, T) and r.ty[0] in ('list', 'dict', 'set', 'map') else r
            f = f2
        elif not f.module.name.startswith(('contracts', 'prelude')) and isinstance(f.node, ast.FunctionDef):
            if self.depth > 0:
                self.w.inlined.add('%s.%s' % (f.module.name, f.name))
        deco = [ast.unparse(d) for d in getattr(f.node, 'decorator_list', [])]
        for d in deco:
            if d not in ('staticmethod', 'classmethod', 'property', 'abstractmethod') and \
                    not d.startswith(('contract', 'lemma', 'inline')):
                raise Unsupported('decorator %s' % d)
        if 'abstractmethod' in deco:
            raise Unsupported('abstract method %s' % f.name)
        env = self.bind_args(f, args, kwargs)
        if self.is_generator(f.node):
            return It('gen', f, env)
        outs = self.explore(lambda: self.run_body(f, env))
        return self.merge(outs)

    def opaque_arg(self, v, t):
        """argument of an opaque function: values, and the names of functions"""
        if isinstance(v, SymFn):
            return list(v.arg_tys), '__' + v.name
        if self.plain_fn(v):
            return [], '__fn_%s_%s' % (v.module.name, v.name)
        if t[0] == 'obj' and isinstance(v, Ref):
            c = self.load(v)
            if isinstance(c, RecCell):
                vals, fns = [], '__rec'
                internal = self.w.classes.get(t[1], {}).get('internal', ())
                for f, x in sorted(c.items()):
                    if f[0] != '#' and f not in internal:
                        more, n = self.opaque_arg(x, BOT)
                        vals += more
                        fns += n
                return vals, fns
        if t == BOT:
            t = self.tyof(v)
        return [from_term(t, self.term(self.refine(v) if t[0] != 'opt' else v, t))], ''

    def run_body(self, f, env):
        self.depth += 1
        if self.depth > 30:
            self.depth = 0
            raise Unsupported('recursion in %s' % f.name)
        self.w.counter += 1
        fid = 'f%d' % self.w.counter
        self.st.frames[fid] = dict(env)
        self.fn_of_frame[fid] = f
        saved, self.fid = self.fid, fid
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body)
            else:
                try:
                    self.block(f.node.body)
                    r = NONE_V
                except ReturnSig as s:
                    if s.fid != fid:
                        raise
                    r = s.val
            # the frame is needed by closures and lazy iterables that are returned
            if not self.escapes(r) and not getattr(f.node, '_has_nested', None):
                if not hasattr(f.node, '_has_nested'):
                    f.node._has_nested = any(
                        isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp))
                        for n in ast.walk(f.node) if n is not f.node)
                if not f.node._has_nested:
                    self.st.frames.pop(fid, None)
            return r
        finally:
            self.fid = saved
            self.depth -= 1

    def escapes(self, r):
        return isinstance(r, (It, Fn, Partial)) or (isinstance(r, Tup) and any(self.escapes(x) for x in r.items))

    def contract_of(self, f):
        if f.module is None or f.module.name.startswith('contracts') or not isinstance(f.node, ast.FunctionDef):
            return None
        key = (f.module.name, f.node)
        return self.w.contract_by_node.get(id(f.node)) if hasattr(self.w, 'contract_by_node') else None

    def extern_here(self, name):
        d = self.w.externs.get(name)
        return d is not None and (not d.get('within') or (self.top is not None and self.top.name in d['within']))

    def construct(self, c, args, kwargs):
        ext = getattr(self.w, 'extern_by_node', {}).get(id(c.node))
        if ext and self.extern_here(ext):
            import builtin_models
            return builtin_models.extern(self, ext, args, kwargs)
        base = [ast.unparse(b) for b in c.node.bases]
        if 'Enum' in base:
            raise Unsupported('class %s' % c.name)
        if 'NamedTuple' in base:
            return self.named_tuple(c, args, kwargs)
        r = self.allocate(c)
        if r is not None:
            m = self.w.lookup_method(c.module, c.node, '__init__')
            if m is not None:
                self.call_fn(Fn(m[1], m[0], None, r, c.name + '.__init__', cls=(c.module, c.node)), args, kwargs)
            return r
        r = self.new_cell(RecCell({'#cls': c.name, '#node': (c.module, c.node)}))
        self.rec_nodes[c.name] = (c.module, c.node)
        m = self.w.lookup_method(c.module, c.node, '__init__')
        if m is not None:
            self.call_fn(Fn(m[1], m[0], None, r, c.name + '.__init__', cls=(c.module, c.node)), args, kwargs)
        elif args or kwargs:
            raise Unsupported('construction of %s' % c.name)
        return r

    def named_tuple(self, c, args, kwargs):
        fields = [n for n in c.node.body if isinstance(n, ast.AnnAssign)]
        names = [n.target.id for n in fields]
        if len(args) > len(names) or set(kwargs) - set(names[len(args):]):
            raise RaiseSig('TypeError')
        vals = dict(zip(names, args), **kwargs)
        for n in fields:
            if n.target.id not in vals:
                if n.value is None:
                    raise RaiseSig('TypeError')
                vals[n.target.id] = self.const_in_module(c.module, n.value)
        self.rec_nodes[c.name] = (c.module, c.node)
        return self.new_cell(RecCell({'#cls': c.name, '#node': (c.module, c.node), **vals}))

    def allocate(self, c):
        """a new object of a declared class: the n-th object allocated (nothing is assumed about its identity)"""
        d = getattr(self.w, 'class_of_node', {}).get(id(c.node))
        if d is None:
            return None
        name, sub = d
        dummy = z3.Const('alloc_of_' + name, sort(('obj', name)))
        h = self.heap_array(name, '#alloc', INT)
        n = z3.Select(h.term, dummy)
        o = z3.Function('new_' + name, z3.IntSort(), sort(('obj', name)))(n)
        self.st.heap[(name, '#alloc')] = T(INT, z3.Store(h.term, dummy, n + 1))
        for s in self.w.classes[name]['subclasses']:
            f = z3.Function('isinst_' + s, sort(('obj', name)), z3.BoolSort())
            self.st.pc.append(fact(f(o) if s == sub else z3.Not(f(o))))
        return T(('obj', name), o)

    def call_method(self, v, name, args, kwargs):
        return self.call(self.attr(v, name), args, kwargs)

    def call_builtin(self, f, args, kwargs):
        import builtin_models
        return builtin_models.call(self, f, args, kwargs)


def same_loc(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'cell':
        return a[1] == b[1]
    if a[0] == 'field':
        return a[1] == b[1] and a[2] == b[2] and a[3].eq(b[3])
    return same_loc(a[1].loc, b[1].loc) and a[2].eq(b[2]) and a[3] == b[3]


def walk_own(fn):
    """nodes of a function without nested functions"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def seq_concat(ty, a, b):
    ka, kb = a.decl().kind(), b.decl().kind()
    if ka == z3.Z3_OP_SEQ_EMPTY:
        return b
    if kb == z3.Z3_OP_SEQ_EMPTY:
        return a
    return z3.Concat(a, b)


BUILTINS = {'len', 'min', 'max', 'sorted', 'sum', 'any', 'all', 'enumerate', 'zip', 'range', 'isinstance',
            'str', 'int', 'list', 'tuple', 'set', 'dict', 'reversed', 'getattr', 'abs', 'bool', 'float',
            'next', 'iter', 'map', 'filter', 'repr', 'hasattr', 'print', 'type', 'frozenset', 'ord', 'chr',
            'callable', 'id', 'round', 'property', 'staticmethod', 'super', 'object', 'open', 'vars', 'implies'}
EXCEPTIONS = {'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError',
              'RuntimeError', 'AssertionError', 'NotImplementedError', 'StopIteration', 'FileNotFoundError',
              'BaseException', 'ZeroDivisionError', 'OSError', 'IOError'}


def is_empty_seq(t):
    return z3.is_app_of(t, z3.Z3_OP_SEQ_EMPTY)


def equal_to(e, i):
    """what terms with i are compared to, in a condition"""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x):
            for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if contains_const(a, i) and not contains_const(b, i) and not z3.is_bool(b):
                    out.append(b)
        todo.extend(x.children())
    return out


def some_of(srt, x):
    """x as a value of an optional type"""
    if srt.kind() != z3.Z3_DATATYPE_SORT:
        return None
    for k in range(srt.num_constructors()):
        c = srt.constructor(k)
        if c.arity() == 1 and c.domain(0) == x.sort() and srt.num_constructors() == 2:
            return c(x)
    return None


def contains_const(e, c):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.eq(c):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


def fresh_consts(e, but, others=()):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(but) \
                    and x.get_id() not in others:
                n = x.decl().name()
                if '!' in n:
                    out.append(int(n.split('!')[-1]))
            todo.extend(x.children())
    return out


def eval_inv(ip, f, st):
    """truth of a user invariant (a function without arguments) in a state"""
    saved = (ip.st, ip.fid)
    ip.st = st.copy()
    n = len(ip.st.pc)
    try:
        ip.no_loops += 1
        r = ip.truth(ip.call(f, [], {}))
        return r, ip.st.pc[n:]
    finally:
        ip.no_loops -= 1
        ip.st, ip.fid = saved


def closed(t):
    """no variables"""
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return False
        todo.extend(x.children())
    return True


def unary_invariants(ip, rec, head_st, final_st, st0):
    """inductive facts about a single loop: greatest inductive subset of candidates (Houdini)"""
    cands = []
    i = rec.i
    zero = z3.IntVal(0)
    nrm = [s for s in rec.steps if s['kind'] == 'normal']

    def add(fn, init=None):
        cands.append({'head': fn(rec.head, i), 'init': fn(rec.init, zero),
                      'new': [fn(s['new'], i + 1) for s in nrm],
                      'exit': None, 'fn': fn})
    for k, ty in rec.keys.items():
        if k[0] == 'heap':
            continue
        init = rec.init[k]
        if ty == INT:
            add(lambda v, n, k=k, init=init: v[k] == init + n)
            add(lambda v, n, k=k, init=init: v[k] >= init)
            if rec.length is not None:
                add(lambda v, n, k=k, init=init: z3.Or(v[k] <= n, v[k] == init))
        elif ty[0] == 'list':
            add(lambda v, n, k=k, init=init: z3.Length(v[k]) == z3.Length(init) + n)
            add(lambda v, n, k=k, init=init: z3.Length(v[k]) >= z3.Length(init))
            add(lambda v, n, k=k, init=init: z3.Length(v[k]) <= z3.Length(init) + n)
        if nrm and all(s['new'][k].eq(nrm[0]['new'][k]) for s in nrm) and closed(nrm[0]['new'][k]):
            # every iteration assigns the same constant
            add(lambda v, n, k=k, init=init, c=nrm[0]['new'][k]: z3.If(n == 0, v[k] == init, v[k] == c))
    if rec.keys:
        for f in st0.user_invs:
            try:
                h, hx = eval_inv(ip, f, head_st)
                i0, ix = eval_inv(ip, f, st0)
                new = [eval_inv(ip, f, s['st']) for s in nrm]
                ex = [(s, eval_inv(ip, f, s['st'])) for s in rec.steps if s['kind'] != 'normal']
                fin, fx = eval_inv(ip, f, final_st)
            except (Sig, DeadPath) as e:
                raise Unsupported('invariant: %r' % (e,))
            cands.append({'head': z3.And(h, *hx), 'init': z3.And(i0, *ix),
                          'new': [z3.And(a, *x) for a, x in new],
                          'exit': [(s, z3.And(a, *x)) for s, (a, x) in ex],
                          'final': z3.And(fin, *fx), 'fn': None})
    if not cands:
        return []
    base = list(rec.entry_pc)
    alive = [c for c in cands if ip.check(base + [z3.Not(c['init'])], 2000) == z3.unsat]
    while alive:
        assum = base + rec.guard + [c['head'] for c in alive]
        bad = None
        for n, s in enumerate(nrm):
            for c in alive:
                if ip.check(assum + s['cond'] + [z3.Not(c['new'][n])], 2000) != z3.unsat:
                    bad = c
                    break
            if bad:
                break
        if bad is None:
            break
        alive = [c for c in alive if c is not bad]
    out = []
    assum = base + rec.guard + [c['head'] for c in alive]
    for c in alive:
        if c['fn'] is not None:
            # after a full run n == length; nothing is said about a loop that is left earlier
            fin = z3.BoolVal(True)
            if rec.length is not None:
                n = z3.If(rec.length > 0, rec.length, zero)
                fin = c['fn'](rec.final, n)
                if rec.ek is not None:
                    fin = z3.Implies(rec.ek == 0, fin)
        else:
            # a user invariant holds at the end, and at the exits where the leaving step keeps it
            fin = c['final']
            if rec.ek is not None:
                ok = all(ip.check(assum + s['cond'] + [z3.Not(e)], 2000) == z3.unsat for s, e in c['exit'])
                if not ok:
                    fin = z3.Implies(rec.ek == 0, fin) if rec.length is not None else z3.BoolVal(True)
        out.append({'head': c['head'], 'final': fin})
    return out
