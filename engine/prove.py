"""python3-vt engine/prove.py C03 [--tier quick|thorough] [--out FILE] [--only NAME] [-v]

Discharges the contracts of a property on the current source of /repo."""
import argparse
import ast
import glob
import json
import multiprocessing
import os
import re
import sys
import time
import traceback
import z3
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vals import *  # noqa
import sym
import rel
from sym import Interp, World, Outcome, State

FN_SECONDS = 60


class Contract:
    """specification of a function: the result and all effects are those of the spec function"""
    def __init__(self, kind, name, module, qualname, props, params, node, spec_module, requires, opts):
        self.kind, self.name, self.module, self.qualname = kind, name, module, qualname
        self.props, self.params, self.node, self.spec_module = props, params, node, spec_module
        self.requires_node, self.opts = requires, opts

    def key_str(self):
        return '%s.%s' % (self.module, self.qualname) if self.kind == 'contract' else 'lemma ' + self.name

    def reads(self):
        out = set(self.modifies()) | self.fields_of(self.opts.get('reads', ''))
        # fields that hold functions are fixed: a function of the object itself
        return sorted(x for x in out if not str(self.world.classes[x[0]]['fields'][x[1]]).startswith(("('fn'", 'fn[')))

    def modifies(self):
        return sorted(self.fields_of(self.opts.get('modifies', ''), True))

    def fields_of(self, names, alloc=False):
        out = set()
        for x in names.split():
            cls, f = x.split('.')
            fs = self.world.classes[cls]['fields']
            out |= {(cls, g) for g in fs if g != '#alloc' or alloc} if f == '*' else {(cls, f)}
        return out

    def param_names(self):
        return [x.arg for x in self.node.args.args]

    def may_raise(self):
        return self.opts.get('may_raise', '').split()

    def param_types(self):
        return [parse_type(self.params[x.arg]) for x in self.node.args.args]

    def spec_fn(self, ip, f):
        return Fn(self.node, self.spec_module, None, None, self.name)

    def normalise_args(self, ip, f, args, kwargs):
        """arguments of the code as positional arguments of the spec function"""
        env = ip.bind_args(f, args, kwargs)
        a = f.node.args
        names = [x.arg for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs)]
        own = [x.arg for x in self.node.args.args]
        npos = len(a.posonlyargs) + len(a.args)
        out = []
        kw = {}
        for v in env.values():
            if isinstance(v, Builtin) and v.name == '#kwargs':
                kw = v.self_val
        dflt = dict(zip(reversed(own), reversed(self.node.args.defaults)))
        for n in kw:
            if n not in own:
                raise Unsupported('argument %s of %s' % (n, self.key_str()))
        for i, n in enumerate(own):
            if n in kw:
                out.append(kw[n])
            elif n in env:
                out.append(env[n])
            elif a.vararg is not None and npos <= i < npos + len(env[a.vararg.arg].items):
                out.append(env[a.vararg.arg].items[i - npos])
            elif (a.kwarg is not None or a.vararg is not None) and n in dflt:
                out.append(ip.const_in_module(self.spec_module, dflt[n]))
            elif i < len(names) and names[i] in env:
                out.append(env[names[i]])
            else:
                raise Unsupported('parameter %s of %s' % (n, self.key_str()))
        return out, {}


def literal(node):
    return ast.literal_eval(node)


def load_contracts(world):
    world.contract_list = []
    world.contract_by_node = {}
    for p in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.py'))):
        name = 'contracts.' + os.path.basename(p)[:-3]
        m = world.module(name)
        if 'CLASSES' in m.assigns:
            for n, d in literal(m.assigns['CLASSES']).items():
                if d.get('value'):
                    try:
                        cm, cn, _ = world.find(*d['path'].split(':'))
                    except (Unsupported, SyntaxError):
                        continue
                    VALUE_TYPES[n] = ('rec', cn.name, tuple(
                        (f, parse_type(t)) for f, t in sorted(d['fields'].items())))
                    Interp.rec_nodes[cn.name] = (cm, cn)
            for c, d in literal(m.assigns['CLASSES']).items():
                world.classes[c] = {'path': d.get('path'), 'fields': {
                    f: parse_type(t) for f, t in d.get('fields', {}).items()},
                    'subclasses': d.get('subclasses', {}), 'noalloc': d.get('noalloc'),
                    'internal': d.get('internal', []), 'sequence': d.get('sequence')}
                world.classes[c]['fields']['#alloc'] = INT
        if 'EXTERNS' in m.assigns:
            for n, d in literal(m.assigns['EXTERNS']).items():
                world.externs[n] = dict(d, ret=parse_type(d['ret']),
                                        args=[parse_type(t) if t != 'any' else ('any',) for t in d['args']]
                                        if 'args' in d else None)
        for n in m.defs.values():
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                if not (isinstance(d, ast.Call) and isinstance(d.func, ast.Name)
                        and d.func.id in ('contract', 'lemma')):
                    continue
                pos = [literal(x) for x in d.args]
                kw = {}
                opts = {}
                req = None
                for k in d.keywords:
                    v = literal(k.value)
                    if k.arg == 'requires':
                        req = pred(world, m, v)
                    elif k.arg == 'ensures':
                        opts['ensures'] = pred(world, m, v)
                    elif k.arg in ('assumed', 'returns', 'seconds', 'note', 'opaque', 'reveal', 'fuse', 'reads',
                                   'may_raise', 'modifies', 'terminates'):
                        opts[k.arg] = v
                    else:
                        kw[k.arg] = v
                kind = d.func.id
                if kind == 'contract':
                    mod, qn, props = pos
                else:
                    mod, qn, props = None, n.name, pos[0]
                c = Contract(kind, n.name, mod, qn, props.split(), kw, n, m, req, opts)
                c.world = world
                world.contract_list.append(c)
    world.extern_by_node = {}
    for n in world.externs:
        if ':' in n:
            try:
                _, node, _ = world.find(*n.split(':'))
                world.extern_by_node[id(node)] = n
            except (Unsupported, SyntaxError):
                pass
    world.class_of_node = {}
    for n, d in world.classes.items():
        for sub, path in [(None, d.get('path'))] + list(d['subclasses'].items()):
            if path and not d.get('noalloc'):
                try:
                    _, node, _ = world.find(*path.split(':'))
                    world.class_of_node[id(node)] = (n, sub)
                except (Unsupported, SyntaxError):
                    pass
    for c in world.contract_list:
        if c.kind == 'contract':
            try:
                _, node, _ = world.find(c.module, c.qualname)
                world.contract_by_node[id(node)] = c
                c.missing = None
            except (Unsupported, SyntaxError) as e:
                c.missing = str(e)


def pred(world, m, name):
    """a predicate of the module or of another one it imports it from"""
    if name in m.defs:
        return m.defs[name]
    mod, nm, _ = m.imports[name]
    return world.module(mod).defs[nm]


def make_param(ip, name, ty, world):
    ty = parse_type(ty)
    if ty[0] == 'fn':
        return SymFn('p_' + name, [], ty)
    c = z3.Const('p_' + name, sort(ty)) if ty != NONE else None
    if ty[0] in ('list', 'dict', 'set', 'map'):
        if ty[0] == 'dict':
            # a well formed dict: the items are those of the map
            pass
        return ip.new_cell(T(ty, c))
    return from_term(ty, c)


def materialise(ip, v):
    if isinstance(v, It):
        return ip.to_list(v)
    return v


def run_side(ip, fn, args, st0, is_code, contract):
    ip.st = st0.copy()
    ip.fid = None
    ip.depth = 0
    ip.top = contract

    def go():
        r = materialise(ip, ip.call_fn(fn, args, {}))
        if contract.opts.get('ensures') is not None:
            r = Tup([r, T(BOOL, z3.BoolVal(True))])
        return r
    return ip.explore(go, ip.st)


def result_term(ip, o, ty=None):
    ip.st = o.st
    return ip.tyof(o.val), (lambda t: ip.term(o.val, t))


class Obligations:
    def __init__(self):
        self.items = []

    def add(self, name, ok, detail=None):
        self.items.append((name, ok, detail))


def prove_contract(world, c, limit):
    """-> dict with the obligations of one contract"""
    t0 = time.time()
    err = r = None
    for fuse in ([True] if c.opts.get('fuse') else [False, True]):
        try:
            r2 = prove_contract_(world, c, limit - (time.time() - t0), fuse)
        except (Unsupported, rel.Limit) as e:
            err = err or e
        else:
            if r is None or len(r2['failed']) < len(r['failed']):
                r = r2
            if not r['failed']:
                break
        if time.time() - t0 > 0.6 * limit:
            break
    if r is None:
        raise err
    return r


def prove_contract_(world, c, limit, fuse):
    t0 = time.time()
    ip = Interp(world)
    ip.fuse = fuse
    ip.deadline = t0 + limit
    obl = Obligations()
    prover = rel.Prover(ip, t0 + limit)
    ip.st = State()
    ip.fid = 'top'
    ip.st.frames['top'] = {}
    ip.fn_of_frame['top'] = Fn(c.node, c.spec_module, None)
    own = [x.arg for x in c.node.args.args]
    args = [make_param(ip, n, c.params[n], world) for n in own]
    if c.requires_node is not None:
        r = ip.call_fn(Fn(c.requires_node, c.spec_module), args, {})
        ip.st.pc.append(ip.truth(r))
    st0 = ip.st
    # vacuity: the precondition can be met
    r, _ = prover.check(st0.pc)
    if r == z3.unsat:
        raise RuntimeError('%s: contradictory precondition' % c.key_str())
    spec = Fn(c.node, c.spec_module, None, None, c.name)
    if c.kind == 'lemma':
        outs = run_side(ip, spec, args, st0, False, c)
        reach = 0
        for n, o in enumerate(outs):
            r, _ = prover.check(o.st.pc)
            if r == z3.unsat:
                continue
            reach += 1
            name = 'lemma %s, path %d' % (c.name, n + 1)
            if o.kind != 'normal':
                obl.add(name + ': no exception', False, 'raises %s' % (o.kind,))
                continue
            ip.st = o.st
            facts = prover.relate_all(o.st.folds, o.st.folds, []) if len(o.st.folds) > 1 else []
            g = ip.truth(o.val)
            ok, m = decide_goal(prover, o.st.pc + facts, g)
            obl.add(name, ok, None if ok else describe(m, own, c))
        return finish(obl, reach, t0, ip)
    if c.missing:
        raise Unsupported('not found: %s' % c.missing)
    m, node, cls = world.find(c.module, c.qualname)
    if isinstance(node, ast.ClassDef):
        raise Unsupported('is a class now')
    deco = [ast.unparse(d) for d in node.decorator_list]
    code = Fn(node, m, None, None, c.qualname, cls=(m, cls) if cls is not None else None)
    code_args = args
    if cls is not None and 'staticmethod' not in deco and 'classmethod' not in deco:
        d = c.params[own[0]]
        tyd = parse_type(d)
        if tyd[0] == 'obj' and world.classes.get(tyd[1], {}).get('path'):
            mn, cn = world.classes[tyd[1]]['path'].split(':')
            cm, cnode, _ = world.find(mn, cn)
            code.cls = (cm, cnode)
    # arguments by position; keyword-only parameters by name
    a = node.args
    npos = len(a.posonlyargs) + len(a.args)
    kwonly = [x.arg for x in a.kwonlyargs]
    ip_args, ip_kw = list(code_args[:npos]), {}
    if a.vararg is not None and not kwonly:
        npos = max(npos, len(own) - (len(c.node.args.defaults) if a.kwarg is not None else 0))
        ip_args = list(code_args[:npos])
    for n, v in list(zip(own, code_args))[npos:]:
        if n not in kwonly and a.kwarg is None:
            raise Unsupported('parameters of the function changed')
        ip_kw[n] = v

    def run_code():
        ip.st = st0.copy()
        ip.fid, ip.depth, ip.top = None, 0, c

        def go():
            r = materialise(ip, ip.call_fn(code, ip_args, ip_kw))
            if c.opts.get('ensures') is not None:
                r = Tup([r, T(BOOL, ip.truth(ip.call_fn(Fn(c.opts['ensures'], c.spec_module), args, {})))])
            return r
        return ip.explore(go, ip.st)
    couts = run_code()
    souts = run_side(ip, spec, args, st0, False, c)
    if c.opts.get('opaque'):
        check_opaque(ip, c, souts, args)
    reach = 0
    for n, co in enumerate(couts):
        if prover.check(co.st.pc)[0] == z3.unsat:
            continue
        for k, so in enumerate(souts):
            pre = list(co.st.pc) + list(so.st.pc[len(st0.pc):])
            if prover.check(pre)[0] == z3.unsat:
                continue
            name = '%s: path %d / contract case %d' % (c.key_str(), n + 1, k + 1)
            n_loops = (len(co.st.folds), len(so.st.folds))
            # loops are matched in order first, in all combinations if that is not enough
            modes = [(False, True), (False, False), (True, False)] if n_loops[0] and n_loops[1] else [(False, True)]
            for full, simple in modes:
                prover.full, prover.simple = full, simple
                sub = Obligations()
                facts = prover.relate_all(co.st.folds, so.st.folds, [], full or n_loops[0] != n_loops[1], pre)
                pre2 = pre + facts
                if facts and prover.check(pre2)[0] == z3.unsat:
                    sub = None
                    break
                if co.kind != so.kind or '#precondition' in str(co.kind):
                    sub.add(name + ': outcome', False,
                            ('code: %s, contract: %s' % (kind_str(co.kind), kind_str(so.kind)),
                             describe(prover.check(pre2)[1], own, c)))
                else:
                    if co.kind == 'normal':
                        compare_values(ip, prover, sub, name, co, so, pre2, own, c)
                    compare_effects(ip, prover, sub, name, co, so, pre2, own, c, args)
                if all(x[1] for x in sub.items):
                    break
            prover.full = prover.simple = False
            if sub is not None:
                reach += 1
                obl.items.extend(sub.items)
            if sum(1 for x in obl.items if not x[1]) >= 4:
                # enough to report
                return finish(obl, reach, t0, ip)
    return finish(obl, reach, t0, ip)


def check_opaque(ip, c, souts, args):
    """an opaque contract is a function of its arguments and of the fields it is declared to read"""
    for so in souts:
        for k, v in so.st.heap.items():
            if (k not in c.modifies()
                    and not v.term.eq(ip.initial_heap(k[0], k[1], v.ty).term)):
                raise RuntimeError('%s: an opaque contract must not change the heap (%s)' % (c.key_str(), k))
            if k not in c.reads():
                raise RuntimeError('%s: reads %s.%s' % (c.key_str(), k[0], k[1]))
        if so.kind != 'normal' and so.kind[1] not in c.may_raise():
            raise RuntimeError('%s: may raise %s' % (c.key_str(), so.kind))
        if so.kind == 'normal' and c.opts['returns'].startswith('='):
            ip.st = so.st
            a = args[c.param_names().index(c.opts['returns'][1:])]
            if not ip.term(so.val).eq(ip.term(a)):
                raise RuntimeError('%s: does not return %s' % (c.key_str(), c.opts['returns'][1:]))
        for v in args:
            if isinstance(v, Ref) and v.loc[0] == 'cell':
                t = so.st.cells[v.loc[1]].term
                if t.num_args() or not t.decl().name().startswith('p_'):
                    raise RuntimeError('%s: changes an argument' % c.key_str())


def kind_str(k):
    return k if isinstance(k, str) else ' '.join(str(x) for x in k)


def finish(obl, reach, t0, ip):
    if not obl.items or not reach:
        raise RuntimeError('no obligation generated')
    return {'obligations': len(obl.items), 'discharged': sum(1 for x in obl.items if x[1]),
            'failed': [{'obligation': n, 'detail': d} for n, ok, d in obl.items if not ok],
            'seconds': round(time.time() - t0, 2)}


def decide_goal(prover, pre, goal):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True, None
    r, m = prover.check(pre + [z3.Not(goal)], 8000)
    if r == z3.unknown:
        # another solver configuration
        s = z3.Tactic('default').solver()
        s.set('timeout', 8000)
        s.add(*pre)
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            return True, None
    return r == z3.unsat, m


def compare_values(ip, prover, obl, name, co, so, pre, own, c):
    ip.st = co.st
    try:
        tc = ip.tyof(co.val)
        ip.st = so.st
        ts = ip.tyof(so.val)
        j = join_ty(tc, ts)
    except Unsupported as e:
        if co.val is so.val:
            return
        raise
    ip.st = co.st
    a = ip.term(co.val, j)
    ip.st = so.st
    b = ip.term(so.val, j)
    ok, m = decide_goal(prover, pre, a == b)
    obl.add(name + ': result', ok, None if ok else describe(m, own, c))


def compare_effects(ip, prover, obl, name, co, so, pre, own, c, args):
    for k in sorted(set(co.st.heap) | set(so.st.heap)):
        if k[1] == '#alloc' or k[1] in ip.w.classes[k[0]].get('internal', ()):
            # caches: what matters is the invariant (requires) that the contracts of their readers have
            continue
        ty = ip.w.classes[k[0]]['fields'][k[1]]
        a = co.st.heap.get(k) or ip.initial_heap(k[0], k[1], ty)
        b = so.st.heap.get(k) or ip.initial_heap(k[0], k[1], ty)
        if a.term.eq(b.term):
            continue
        ok, m = decide_goal(prover, pre, a.term == b.term)
        obl.add('%s: effect on %s.%s' % (name, k[0], k[1]), ok, None if ok else describe(m, own, c))
    for n, v in zip(own, args):
        if isinstance(v, Ref) and v.loc[0] == 'cell':
            a, b = co.st.cells[v.loc[1]], so.st.cells[v.loc[1]]
            if a.ty == b.ty and a.term.eq(b.term):
                continue
            j = join_ty(a.ty, b.ty)
            ok, m = decide_goal(prover, pre, coerce_term(a.term, a.ty, j) == coerce_term(b.term, b.ty, j))
            obl.add('%s: effect on argument %s' % (name, n), ok, None if ok else describe(m, own, c))


def describe(m, own, c):
    if m is None:
        return 'solver: unknown'
    out = {}
    for d in m.decls():
        if d.name().startswith('p_') and d.arity() == 0:
            out[d.name()[2:]] = str(m[d])[:200]
    return out


def hints_of(failed):
    ints, strs = set(), set()
    for f in failed:
        t = json.dumps(f, default=str)
        for x in re.findall(r'(?<![\w!])-?\d{1,4}(?![\w!])', t)[:40]:
            ints.add(int(x))
        for x in re.findall(r'\\"([^"\\]{0,40})\\"', t)[:40]:
            strs.add(x)
    return {'ints': sorted(ints)[:20], 'strs': sorted(strs)[:20]}


def work(job):
    pid, idx, limit, overrides, verbose = job
    z3.set_param('smt.random_seed', 0)
    world = World(os.environ.get('VERIF_REPO', '/repo'), VERIF, overrides)
    load_contracts(world)
    c = world.contract_list[idx]
    r = {'name': c.key_str(), 'kind': c.kind}
    t0 = time.time()
    try:
        r.update(prove_contract(world, c, limit))
    except (Unsupported, rel.Limit, RecursionError) as e:
        r['unsupported'] = '%s: %s' % (type(e).__name__, e)
        if verbose:
            r['trace'] = '\n'.join(traceback.format_exc().splitlines()[-24:])
    except z3.Z3Exception as e:
        r['unsupported'] = 'z3: %s' % e
        if verbose:
            r['trace'] = traceback.format_exc()
    except sym.Sig as e:
        r['unsupported'] = 'signal %r' % (e,)
    except Exception as e:     # pylint: disable=broad-except
        r['unsupported'] = 'internal: %s: %s' % (type(e).__name__, e)
        r['trace'] = traceback.format_exc()
    r['seconds'] = round(time.time() - t0, 2)
    r['solver_seconds'] = round(world.solver_time, 2)
    r['queries'] = world.queries
    r['models'] = sorted(world.used_models)
    r['inlined'] = sorted(world.inlined)
    r['externs'] = sorted(world.used_externs)
    r['dropped'] = sorted(world.dropped)
    return r


def run(pid, limit=FN_SECONDS, overrides=None, only=None, procs=4, verbose=False):
    world = World(os.environ.get('VERIF_REPO', '/repo'), VERIF, overrides)
    load_contracts(world)
    jobs = [(pid, i, c.opts.get('seconds', limit), overrides, verbose) for i, c in enumerate(world.contract_list)
            if pid in c.props and (only is None or only in c.key_str()) and not c.opts.get('assumed')]
    if procs > 1 and len(jobs) > 1:
        with multiprocessing.get_context('fork').Pool(min(procs, len(jobs))) as pool:
            res = pool.map(work, jobs, chunksize=1)
    else:
        res = [work(j) for j in jobs]
    return world, res


def extern_text(world, name):
    d = world.externs.get(name, {})
    t = 'external function treated as an unknown %s function: %s' % (
        'pure total' if not d.get('modifies') and not d.get('may_raise') else 'deterministic', name)
    if d.get('modifies'):
        t += ', which may change ' + ', '.join(d['modifies'])
    if d.get('may_raise'):
        t += ', which may raise ' + ', '.join(d['may_raise'])
    if 'same_len' in d:
        t += ', whose result has as many elements as argument %d' % d['same_len']
    if ('any',) in (d.get('args') or ()):
        t += ' (one argument of it is not part of the contract)'
    return t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--procs', type=int, default=4)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    world, res = run(a.property, only=a.only, procs=a.procs, verbose=a.v,
                     limit=FN_SECONDS if a.tier == 'quick' else 3 * FN_SECONDS)
    out = {'functions': [], 'obligations': 0, 'discharged': 0, 'failed': [], 'demoted': [],
           'lemmas': [], 'solvers': 'z3 %s (python API)' % z3.get_version_string(),
           'solver_seconds': 0, 'queries': 0}
    models, externs, inlined, dropped = set(), set(), set(), set()
    for r in res:
        if a.v or not a.out:
            print('%-70s %s' % (r['name'], 'UNSUPPORTED ' + r['unsupported'] if 'unsupported' in r else
                                '%d/%d' % (r['discharged'], r['obligations'])), r['seconds'], 's')
            for f in r.get('failed', []):
                print('     FAILED', f['obligation'], f['detail'])
            if a.v and r.get('trace'):
                print(r['trace'])
        out['solver_seconds'] = round(out['solver_seconds'] + r['solver_seconds'], 2)
        out['queries'] += r['queries']
        if 'unsupported' in r:
            out['demoted'].append({'function': r['name'], 'reason': r['unsupported']})
            continue
        (out['lemmas'] if r['kind'] == 'lemma' else out['functions']).append(r['name'])
        out['obligations'] += r['obligations']
        out['discharged'] += r['discharged']
        models |= set(r['models'])
        externs |= set(r['externs'])
        inlined |= set(r['inlined'])
        dropped |= set(r['dropped'])
        for f in r['failed']:
            out['failed'].append({'function': r['name'], 'obligation': f['obligation'],
                                  'verifier_output': f['detail'], 'hints': hints_of([f])})
    own = set(out['functions'])
    assumed = sorted(c.key_str() for c in world.contract_list if c.opts.get('assumed'))
    out['callee_contracts_used'] = sorted(models)
    out['inlined'] = sorted(inlined)
    out['trusted_base'] = ['engine/ (generator of the obligations and models of the builtins)', 'z3',
                           'CPython parser (ast)']
    out['assumptions'] = (
        ['assumed contract: ' + x for x in assumed if x in models] +
        [extern_text(world, x) for x in sorted(externs)] +
        ['dropped by the extraction: ' + x for x in sorted(dropped)])
    del own
    if a.out:
        json.dump(out, open(a.out, 'w'), indent=1, default=str)
    return 0


if __name__ == '__main__':
    sys.exit(main())
