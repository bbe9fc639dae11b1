"""Run-time side of the contracts: executes the real functions of /repo on generated inputs and
evaluates the contracts on them.  Runs with the repository's own Python (/opt/venv/bin/python).

Used (1) to look for a concrete failing input when an obligation fails, and (2) as the bounded
stand-in (labelled bounded, never counted as proved) for code outside the verifier's reach.
"""
import ast
import hashlib
import importlib
import inspect
import json
import logging
import os
import random
import signal
import re
import sys
import time
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PKG = 'sciencebeam_trainer_grobid_tools'
sys.path.insert(0, REPO)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


class Skip(Exception):
    """The function a sub check is about cannot be found or called: reported as not covered."""


def R(module, name=None):
    """resolve a module (relative to the package) or a (dotted) name in it"""
    try:
        m = importlib.import_module(PKG + ('.' + module if module else ''))
    except ImportError as e:
        if isinstance(e, ModuleNotFoundError) and e.name and e.name.startswith(PKG):
            raise Skip('module %s not found' % module)
        raise
    if name is None:
        return m
    o = m
    for part in name.split('.'):
        if not hasattr(o, part):
            raise Skip('%s.%s not found' % (module, name))
        o = getattr(o, part)
    return o


def call(fn, *args, **kwargs):
    """call fn, Skip if the arguments no longer fit its signature"""
    try:
        inspect.signature(fn).bind(*args, **kwargs)
    except TypeError as e:
        raise Skip('signature of %s changed: %s' % (getattr(fn, '__name__', fn), e))
    except ValueError:
        pass
    return fn(*args, **kwargs)


class Sub:
    def __init__(self, name, gen, check, quick, thorough=None, weight=1.0, exhaustive=False,
                 bound='', nontrivial=None):
        self.name, self.gen, self.check = name, gen, check
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20
        self.weight = weight
        self.exhaustive = exhaustive
        self.bound = bound
        self.nontrivial = nontrivial


# ---------------------------------------------------------------- constants found in the code

def _constants(tree):
    ints, strs = set(), set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool) or v is None:
                continue
            if isinstance(v, int) and -5000 <= v <= 5000:
                ints.add(v)
            elif isinstance(v, str) and 0 < len(v) <= 24 and '%' not in v:
                strs.add(v)
    return ints, strs


def mine(files):
    """constants of the current source; the second pair: those not in the recorded baseline"""
    ints, strs = set(), set()
    for f in files:
        p = os.path.join(REPO, f)
        if not os.path.exists(p):
            continue
        try:
            i, s = _constants(ast.parse(open(p, encoding='utf-8').read()))
        except SyntaxError:
            continue
        ints |= i
        strs |= s
    base_i, base_s = set(), set()
    bp = os.path.join(HERE, 'baseline_constants.json')
    if os.path.exists(bp):
        b = json.load(open(bp))
        for f in files:
            base_i |= set(b.get(f, {}).get('ints', []))
            base_s |= set(b.get(f, {}).get('strs', []))
    return sorted(ints), sorted(strs), sorted(ints - base_i), sorted(strs - base_s)


class Gen:
    """random source with a few weighted helpers"""
    def __init__(self, rng, ints=(), strs=(), new_ints=(), new_strs=()):
        self.r = rng
        self.new_ints = [i for i in new_ints]
        self.new_strs = [s for s in new_strs]
        self.ints, self.strs = list(ints), list(strs)

    def p(self, x):
        return self.r.random() < x

    def choice(self, a):
        return self.r.choice(a)

    def size(self, n, hard=60):
        """a size, usually small, sometimes near a constant of the code"""
        if self.new_ints and self.p(.15):
            v = abs(self.choice(self.new_ints)) + self.r.randrange(-1, 2)
            return max(0, min(v, 400))
        if self.p(.03):
            return self.r.randrange(hard + 1)
        return self.r.randrange(n + 1)

    def int(self, lo, hi):
        if self.new_ints and self.p(.15):
            v = self.choice(self.new_ints) + self.r.randrange(-1, 2)
            if lo <= v:
                return v
        return self.r.randrange(lo, hi + 1)

    def str(self, pool, p_new=.12):
        if self.new_strs and self.p(p_new):
            s = self.choice(self.new_strs)
            if self.p(.3):
                s = s + self.choice(pool)
            return s
        return self.choice(pool)


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:16]


class NotEnding(BaseException):
    """not an Exception: the code under test must not swallow it"""


CASE_SECONDS = 60


def guarded(check, x, seconds=CASE_SECONDS):
    """the check of one input, ended after that much processor time"""
    def stop(*_):
        raise NotEnding()
    old = signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        return check(x)
    except NotEnding:
        return 'does not end (stopped after %d s of processor time)' % seconds
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def run_property(mod, seed, tier, time_limit, only=None, extra_ints=(), extra_strs=()):
    """-> result dict; stops at the first failure of each sub check"""
    files = getattr(mod, 'FILES', [])
    ints, strs, new_ints, new_strs = mine(files)
    new_ints = list(new_ints) + list(extra_ints)
    new_strs = list(new_strs) + list(extra_strs)
    import difft
    hints = {'ints': new_ints, 'strs': new_strs}
    subs = [s for s in mod.subs() + difft.subs(mod.ID, hints) if only is None or s.name in only]
    total_w = sum(s.weight for s in subs) or 1
    out = {'subs': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failures': [],
           'new_constants': {'ints': new_ints[:20], 'strs': new_strs[:20]}}
    for s in subs:
        n = s.quick if tier == 'quick' else s.thorough
        limit = time_limit * s.weight / total_w
        t0 = time.time()
        g = Gen(random.Random('%s/%s/%s' % (mod.ID, s.name, seed)), ints, strs, new_ints, new_strs)
        cnt, seen, nontriv, fail, skip, sample = 0, set(), 0, None, None, None
        it = iter(s.gen(g)) if s.exhaustive else None
        complete = False
        while cnt < n or s.exhaustive:
            if time.time() - t0 > limit:
                break
            if it is not None:
                try:
                    x = next(it)
                except StopIteration:
                    complete = True
                    break
            else:
                x = s.gen(g)
            cnt += 1
            try:
                msg = guarded(s.check, x)
            except Skip as e:
                skip = str(e)
                break
            except RecursionError:
                msg = 'RecursionError'
            except Exception as e:  # pylint: disable=broad-except
                if harness_problem(e):
                    skip = 'not evaluated: %r' % e
                    break
                msg = 'unexpected exception: ' + traceback.format_exc()[-1500:]
            d = digest(x)
            if d not in seen:
                seen.add(d)
                if s.nontrivial is None or s.nontrivial(x):
                    nontriv += 1
                    if sample is None or cnt == 7:
                        sample = x
            if msg is not None:
                fail = {'sub': s.name, 'input': x, 'message': str(msg)[:3000]}
                break
        if fail is not None:
            fail = shrink(s, fail, min(5.0, limit))
            out['failures'].append(fail)
        out['subs'].append({
            'name': s.name, 'evaluations': cnt, 'distinct_nontrivial': nontriv,
            'exhaustive': bool(s.exhaustive and complete), 'bound': s.bound, 'skipped': skip,
            'seconds': round(time.time() - t0, 2)})
        out['evaluations'] += cnt
        out['distinct_nontrivial'] += nontriv
        if sample is not None:
            out['samples'].append({'sub': s.name, 'input': sample})
    return out


def harness_problem(e):
    """an attribute or name the harness relies on is not there any more: not a violation"""
    tb = e.__traceback__
    in_repo = False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + '/') and '/rt/' not in f:
            in_repo = True
        tb = tb.tb_next
    return not in_repo and isinstance(e, (AttributeError, ImportError)) and 'NoneType' not in str(e)


def _smaller(x):
    if isinstance(x, list):
        for i in range(len(x)):
            yield x[:i] + x[i + 1:]
        for i, v in enumerate(x):
            for w in _smaller(v):
                yield x[:i] + [w] + x[i + 1:]
    elif isinstance(x, dict):
        for k, v in x.items():
            for w in _smaller(v):
                yield {**x, k: w}
    elif isinstance(x, str):
        if len(x) > 1 and '<' not in x:
            yield x[:len(x) // 2]
            yield x[1:]


def shrink(s, fail, limit):
    """greedy, keeps only inputs of the same shape that still fail with a contract message"""
    if not getattr(s, 'shrinkable', True):
        return fail
    t0 = time.time()
    best = fail
    progress = True
    if 'unexpected exception' in fail['message'] or 'does not end' in fail['message']:
        return fail
    while progress and time.time() - t0 < limit:
        progress = False
        for y in _smaller(best['input']):
            if time.time() - t0 > limit:
                break
            try:
                msg = guarded(s.check, y, 5)
            except Exception:  # pylint: disable=broad-except
                continue
            if msg is not None and 'does not end' not in str(msg):
                best = {'sub': s.name, 'input': y, 'message': str(msg)[:3000]}
                progress = True
                break
    return best
