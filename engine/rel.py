"""Relational proof obligations: two symbolic executions (code and contract) from the same state.

Loops of the two sides are related by invariants found as the greatest inductive set of candidate
equalities between their states (Houdini): every fact used has been proved initially and inductively by
the solver, for an arbitrary iteration from an arbitrary state satisfying the facts.
"""
import time
import z3
from vals import *  # noqa
import sym
from builtin_models import joined

QMS = 4000


class Limit(Exception):
    pass


class Prover:
    def __init__(self, ip, deadline=None):
        self.ip, self.w = ip, ip.w
        self.deadline = deadline
        self.cache = {}
        self.log = []
        self.full = False
        self.norm = {}
        self.simple = False    # only equalities of whole variables are tried

    def solver(self, assumptions, ms=QMS):
        s = z3.SimpleSolver()
        s.set('timeout', ms)
        s.add(*assumptions)
        s.add(*[f for _, f in COERCE_FACTS.values()])
        return s

    def check(self, assumptions, ms=QMS):
        """-> (result, model)"""
        if self.deadline and time.time() > self.deadline:
            raise Limit('time limit of the proof')
        t0 = time.time()
        if self.contradictory(assumptions):
            self.w.solver_time += time.time() - t0
            self.w.queries += 1
            return z3.unsat, None
        s = self.solver(assumptions, ms)
        r = s.check()
        self.w.solver_time += time.time() - t0
        self.w.queries += 1
        return r, (s.model() if r == z3.sat else None)

    def contradictory(self, assumptions):
        """a cheap sufficient test: equalities of constants are applied, then a literal and its negation are looked
        for"""
        lits = []
        todo = list(reversed(assumptions))
        while todo:
            x = todo.pop()
            if z3.is_and(x):
                todo.extend(reversed(x.children()))
            else:
                lits.append(x)
        parent = {}

        def find(x):
            while x.get_id() in parent:
                x = parent[x.get_id()][1]
            return x
        for x in lits:
            if z3.is_eq(x):
                a, b = x.children()
                if is_const(a) and is_const(b):
                    a, b = find(a), find(b)
                    if not a.eq(b):
                        if a.get_id() > b.get_id():
                            a, b = b, a
                        parent[b.get_id()] = (b, a)
        sub = [(x, find(x)) for x, _ in parent.values()]
        key = tuple(sorted((x.get_id(), y.get_id()) for x, y in sub))
        pos, neg = set(), set()
        for x in lits:
            ck = (key, x.get_id())
            if ck not in self.norm:
                y = z3.substitute(x, *sub) if sub else x
                self.norm[ck] = (z3.simplify(y), x, sub)
            todo = [self.norm[ck][0]]
            while todo:
                y = todo.pop()
                if z3.is_and(y):
                    todo.extend(y.children())
                elif z3.is_not(y):
                    if z3.is_or(y.arg(0)):
                        todo.extend(z3.simplify(z3.Not(c)) for c in y.arg(0).children())
                    else:
                        neg.add(y.arg(0).get_id())
                elif z3.is_false(y):
                    return True
                else:
                    pos.add(y.get_id())
        return bool(pos & neg)

    def valid(self, assumptions, goal, ms=QMS):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        return self.check(list(assumptions) + [z3.Not(goal)], ms)[0] == z3.unsat

    # ------------------------------------------------------------ observables
    def observables(self, ty, term, depth=0):
        """(sort name, guard, term) of the parts of a state component that may be compared"""
        out = [(str(sort(ty)), None, term)]
        k = ty[0]
        if k == 'opt':
            s = sort(ty)
            out.append(('#opt', None, s.is_none(term)))
            if depth < 2:
                for so, g, t in self.observables(ty[1], s.val(term), depth + 1):
                    ng = z3.Not(s.is_none(term))
                    out.append((so, ng if g is None else z3.And(ng, g), t))
        elif k == 'list' and ty[1] != BOT:
            n = z3.Length(term)
            out.append(('#len', None, n))
            out.append(('#opt', None, n == 0))
            if depth == 0 and ty[1] == STR and getattr(self.w, 'uses_join', False):
                out.append((str(sort(STR)), None, joined(term)))
            if depth < 1:
                for so, g, t in self.observables(ty[1], term[n - 1], depth + 1):
                    if so.startswith('#'):
                        continue
                    out.append((so, n > 0 if g is None else z3.And(n > 0, g), t))
        elif k == 'tuple':
            s = sort(ty)
            for i, x in enumerate(ty[1:]):
                out.extend(self.observables(x, s.accessor(0, i)(term), depth + 1))
        elif k == 'rec':
            s = sort(ty)
            for i, (_, x) in enumerate(ty[2]):
                out.extend(self.observables(x, s.accessor(0, i)(term), depth + 1))
        elif k == 'str':
            out.append(('#opt', None, term == sval('')))
        elif k == 'bool':
            out.append(('#opt', None, term))
            out.append(('#opt', None, z3.Not(term)))
        elif k == 'int':
            out.append(('#len', None, term))
            out.append(('#opt', None, term == 0))
        return out

    def candidates(self, a, b):
        """functions (vals_a, vals_b, n) -> z3 Bool; vals map keys to terms"""
        c = []
        ka = [(k, t) for k, t in a.keys.items()]
        kb = [(k, t) for k, t in b.keys.items()]
        heaps = {k for k, _ in ka + kb if k[0] == 'heap'}
        for k in heaps:
            c.append(lambda va, vb, k=k: self.heap_of(a, va, k) == self.heap_of(b, vb, k))
        oa = [(k, ty, j, o[0], o[1] is None) for k, ty in ka if k[0] != 'heap'
              for j, o in enumerate(self.observables(ty, a.head[k]))]
        ob = [(k, ty, j, o[0], o[1] is None) for k, ty in kb if k[0] != 'heap'
              for j, o in enumerate(self.observables(ty, b.head[k]))]
        for k1, t1, j1, s1, g1 in oa:
            for k2, t2, j2, s2, g2 in ob:
                if s1 != s2 or (self.simple and (j1 or j2)):
                    continue
                if t1[0] in ('list', 'tuple', 'rec') and t2[0] == t1[0] and t1 != t2 and j1 == 0:
                    continue

                def f(va, vb, k1=k1, t1=t1, j1=j1, k2=k2, t2=t2, j2=j2):
                    _, ga, xa = self.observables(t1, va[k1])[j1]
                    _, gb, xb = self.observables(t2, vb[k2])[j2]
                    g = [x for x in (ga, gb) if x is not None]
                    e = xa == xb
                    return z3.Implies(z3.And(*g), e) if g else e
                c.append(f)
        # constants of one side (variables that change only on the other side) are not needed so far
        return c

    def heap_of(self, rec, vals, k):
        if k in vals:
            return vals[k]
        h = rec.entry_heap.get((k[1], k[2]))
        if h is None:
            ty = self.w.classes[k[1]]['fields'][k[2]]
            h = self.ip.initial_heap(k[1], k[2], ty)
        return h.term

    # ------------------------------------------------------------ loops
    def relate(self, a, b, ctx):
        """facts (z3 Bool) about the final states of the two loops, or None"""
        ck = (self.full, self.simple, id(a), id(b), tuple(c.get_id() for c in ctx))
        if ck in self.cache:
            return self.cache[ck][0]
        r = self.relate_(a, b, ctx)
        self.cache[ck] = (r, a, b, ctx)
        return r

    def relate_(self, a, b, ctx):
        ent = list(ctx) + list(a.entry_pc) + list(b.entry_pc)
        # both sides run in step: same index, and the same number of iterations
        if (a.length is None) != (b.length is None):
            return None
        if a.length is not None and not self.valid(ent, z3.If(a.length > 0, a.length, 0) ==
                                                   z3.If(b.length > 0, b.length, 0)):
            return None
        i = a.i
        sub = [(b.i, i)]

        def sb(t):
            return z3.substitute(t, *sub)
        cands = self.candidates(a, b)
        alive = []
        for c in cands:
            g = c(a.init, b.init)
            if self.valid(ent, g, 1500):
                alive.append(c)
        unary = [u['head'] for u in a.unary] + [sb(u['head']) for u in b.unary]
        guard = list(a.guard) + [sb(g) for g in b.guard]
        exits = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                return None
            base = ent + guard + unary + [c(a.head, b.head) for c in alive]
            bad = []
            exits = {}
            mixed = False
            b_conds = [[sb(x) for x in s['cond']] for s in b.steps]
            quick = self.solver(base, 60)
            for sa in a.steps:
                if len(a.steps) * len(b.steps) > 3:
                    quick.push()
                    quick.add(*sa['cond'])
                for nb_, sb_ in enumerate(b.steps):
                    conds = list(sa['cond']) + b_conds[nb_]
                    if len(a.steps) * len(b.steps) > 3:
                        quick.push()
                        quick.add(*b_conds[nb_])
                        t0 = time.time()
                        r = quick.check()
                        quick.pop()
                        self.w.solver_time += time.time() - t0
                        self.w.queries += 1
                        if r == z3.unsat:
                            continue
                        if self.deadline and time.time() > self.deadline:
                            raise Limit('time limit of the proof')
                    if self.simple:
                        # what can be said about the inner loops without the conditions of the paths
                        conds = conds + self.inner_facts(sa, sb_, base, sub)
                    r, _ = self.check(base + conds, 1500)
                    if r == z3.unsat:
                        continue
                    inner = [] if self.simple else self.inner_facts(sa, sb_, base + conds, sub)
                    assume = base + conds + inner
                    if inner:
                        r, _ = self.check(assume, 1500)
                        if r == z3.unsat:
                            continue
                    na, nb = sa['new'], {k: sb(t) for k, t in sb_['new'].items()}
                    if sa['kind'] == 'normal' and sb_['kind'] == 'normal':
                        bad = self.falsified(assume, alive, na, nb)
                        if bad:
                            break
                    elif sa['kind'] != 'normal' and sb_['kind'] != 'normal':
                        exits.setdefault((sa['kind'], sb_['kind']), []).append((sa, sb_, assume, na, nb))
                    else:
                        mixed = True
                if len(a.steps) * len(b.steps) > 3:
                    quick.pop()
                if bad:
                    break
            if bad:
                alive = [c for c in alive if c not in bad]
                continue
            break
        if mixed:
            return None
        # final facts
        cases = []
        normal = [c(a.final, b.final) for c in alive]
        if a.length is not None:
            pre = []
            if a.ek is not None:
                pre.append(a.ek == 0)
            if b.ek is not None:
                pre.append(b.ek == 0)
            cases.append(z3.And(*(pre + normal)) if pre + normal else z3.BoolVal(True))
        for (ka, kb), insts in exits.items():
            ok = list(cands)
            pay = ka in a.payload and kb in b.payload and a.payload_ty[ka] == b.payload_ty[kb]
            for sa, sb_, assume, na, nb in insts:
                while ok:
                    f = self.falsified(assume, ok, na, nb)
                    if not f:
                        break
                    ok = [c for c in ok if c not in f]
                if pay and not self.valid(assume, sa['payload'] == sb(sb_['payload'])):
                    pay = False
            fs = [a.ek == 1 + a.kinds.index(ka), b.ek == 1 + b.kinds.index(kb)]
            fs += [c(a.final, b.final) for c in ok]
            if pay:
                fs.append(a.payload[ka] == b.payload[kb])
            cases.append(z3.And(*fs))
        if not cases:
            return [z3.BoolVal(False)]
        self.log.append((a, b, len(alive)))
        return [cases[0] if len(cases) == 1 else z3.Or(*cases)]

    def inner_facts(self, sa, sb_, assume, sub):
        fa, fb = sa['folds'], sb_['folds']
        if not fa or not fb:
            return []
        return self.relate_all(fa, [sub_rec(f, sub) for f in fb], assume, len(fa) != len(fb) or self.full)

    def relate_all(self, fa, fb, ctx, full=True, path=None):
        """facts about the final states of the loops of both sides, in order of execution (path: the conditions of
        the two paths; if they contradict the facts, the rest is not needed)"""
        facts = []
        if not full:
            for x, y in zip(fa, fb):
                r = self.relate(x, y, ctx + facts)
                if r:
                    facts = facts + r
                    if path is not None and self.check(path + facts, 300)[0] == z3.unsat:
                        return facts
            return facts
        for x in fa:
            for y in fb:
                r = self.relate(x, y, ctx + facts)
                if r:
                    facts = facts + r
        return facts

    def falsified(self, assume, alive, na, nb):
        """candidates that may be false after the step"""
        goals = [(c, z3.simplify(c(na, nb))) for c in alive]
        goals = [(c, g) for c, g in goals if not z3.is_true(g)]
        bad = []
        while goals:
            r, m = self.check(assume + [z3.Or(*[z3.Not(g) for _, g in goals])], 2000)
            if r == z3.unsat:
                return bad
            hit = []
            if r == z3.sat:
                for c, g in goals:
                    if z3.is_false(m.eval(g, model_completion=True)):
                        hit.append((c, g))
            if not hit:
                # one by one
                for c, g in goals:
                    if not self.valid(assume, g, 2000):
                        bad.append(c)
                return bad
            bad.extend(c for c, _ in hit)
            goals = [x for x in goals if x not in hit]
        return bad


def is_const(x):
    return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED


_subs = {}


def sub_rec(rec, sub):
    """the loop with the index of the enclosing loop renamed"""
    key = (id(rec), tuple((x.get_id(), y.get_id()) for x, y in sub))
    if key in _subs:
        return _subs[key][0]

    def t(x):
        return z3.substitute(x, *sub) if z3.is_expr(x) else x
    n = sym.FoldRec()
    n.keys, n.kinds, n.payload_ty = rec.keys, rec.kinds, rec.payload_ty
    n.length = t(rec.length) if rec.length is not None else None
    n.i = rec.i
    n.init = {k: t(v) for k, v in rec.init.items()}
    n.head, n.final, n.ek, n.payload = rec.head, rec.final, rec.ek, rec.payload
    n.guard = [t(g) for g in rec.guard]
    n.entry_pc = [t(g) for g in rec.entry_pc]
    n.entry_heap = {k: T(v.ty, t(v.term)) for k, v in rec.entry_heap.items()}
    n.unary = [dict(u, head=t(u['head']), final=t(u['final'])) for u in rec.unary]
    n.steps = []
    for s in rec.steps:
        d = dict(s)
        d['cond'] = [t(c) for c in s['cond']]
        d['new'] = {k: t(v) for k, v in s['new'].items()}
        if 'payload' in d:
            d['payload'] = t(d['payload'])
        d['folds'] = [sub_rec(f, sub) for f in s['folds']]
        n.steps.append(d)
    _subs[key] = (n, rec, sub)
    return n
