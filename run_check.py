#!/usr/bin/env python3
"""Decides one property: the verifier on the current source of /repo, and the bounded run-time
checks of the same contracts for the code outside its reach.

    python3-vt run_check.py C03 [--tier quick|thorough] [--seed N]

exit 0: held; exit 1 with a VIOLATION line: broken; exit 2: the check itself failed."""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
RT_PYTHON = '/opt/venv/bin/python'
VT_PYTHON = sys.executable if 'pyvenv' in sys.executable else 'python3-vt'


def load_levels():
    p = os.path.join(HERE, 'levels.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def start_shards(pid, tier, seed, n, limit, work, tag, only=None, hints=None):
    procs = []
    env = dict(os.environ, OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', TMPDIR=work)
    for i in range(n):
        out = os.path.join(work, '%s-%d.json' % (tag, i))
        cmd = [RT_PYTHON, os.path.join(HERE, 'rt', 'main.py'), pid, '--tier', tier,
               '--seed', str(seed * 1000 + i), '--limit', str(limit), '--out', out]
        if only:
            cmd += ['--only', ','.join(only)]
        if hints:
            cmd += ['--hints', json.dumps(hints)]
        err = open(os.path.join(work, '%s-%d.err' % (tag, i)), 'w')
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env,
                                            cwd=work), err.name))
    return procs


def collect(procs, limit):
    res, errors = [], []
    t_end = time.time() + limit
    for out, p, err in procs:
        try:
            rc = p.wait(timeout=max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append('shard did not end in time')
            continue
        if rc != 0 or not os.path.exists(out):
            errors.append('shard ended with %s: %s' % (rc, open(err).read()[-1500:]))
            continue
        res.append(json.load(open(out)))
    return res, errors


def merge(res):
    m = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failures': [], 'subs': {}}
    for r in res:
        m['evaluations'] += r['evaluations']
        m['distinct_nontrivial'] += r['distinct_nontrivial']
        for s in r['samples']:
            if len(m['samples']) < 6 and s['sub'] not in [x['sub'] for x in m['samples']]:
                m['samples'].append(s)
        m['failures'].extend(r['failures'])
        for s in r['subs']:
            d = m['subs'].setdefault(s['name'], {
                'evaluations': 0, 'distinct_nontrivial': 0, 'bound': s['bound'],
                'exhaustive': s['exhaustive'], 'skipped': s['skipped']})
            d['evaluations'] += s['evaluations']
            d['distinct_nontrivial'] += s['distinct_nontrivial']
    return m


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) sub=(\S+) match=(.*)', line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def prove(pid, tier, work, limit):
    """-> result of the verifier, or None if there is nothing under contract for the property"""
    script = os.path.join(HERE, 'engine', 'prove.py')
    if not os.path.exists(script):
        return None, None
    out = os.path.join(work, 'proof.json')
    p = subprocess.Popen([VT_PYTHON, script, pid, '--tier', tier, '--out', out],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO))
    return p, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier, a.seed
    t0 = time.time()
    thorough = tier == 'thorough'
    levels = load_levels().get(pid, {})
    os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    try:
        return run(pid, tier, seed, thorough, levels, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, seed, thorough, levels, work, t0):
    proof_p, proof_out = prove(pid, tier, work, 0)
    shard_limit = 500 if thorough else 60
    n = 8 if thorough else 6
    procs = start_shards(pid, tier, seed, n, shard_limit, work, 'rt')
    res, errors = collect(procs, shard_limit + 200)
    proof = None
    if proof_p is not None:
        try:
            text, _ = proof_p.communicate(timeout=800 if thorough else 420)
        except subprocess.TimeoutExpired:
            proof_p.kill()
            text, _ = proof_p.communicate()
            errors.append('the verifier did not end in time')
        if os.path.exists(proof_out):
            proof = json.load(open(proof_out))
        elif not errors:
            errors.append('the verifier failed: %s' % text.decode(errors='replace')[-3000:])
    m = merge(res)
    failures = m['failures']
    failed_obl = (proof or {}).get('failed', [])
    if failed_obl and not failures and not errors:
        # an obligation failed: look for a concrete input
        hints = {'ints': [], 'strs': []}
        for f in failed_obl:
            for k in hints:
                hints[k].extend(f.get('hints', {}).get(k, []))
        rest = 330 if thorough else max(60, min(240, 600 - (time.time() - t0)))
        procs = start_shards(pid, 'thorough', seed + 77, 8, rest, work, 'search', hints=hints)
        res2, errors2 = collect(procs, rest + 150)
        m2 = merge(res2)
        failures = m2['failures']
        m['evaluations'] += m2['evaluations']
        m['distinct_nontrivial'] += m2['distinct_nontrivial']
    violations, known = [], []
    kf = known_findings(pid)
    seen = set()
    for f in failures:
        hit = [k for k in kf if k[0] == f['sub'] and re.search(k[1], f['message'])]
        if hit:
            known.append(hit[0])
            continue
        if f['sub'] in seen:
            continue
        seen.add(f['sub'])
        if f['sub'].startswith('contract:internal:') and any(
                not x['sub'].startswith('contract:internal:') for x in failures):
            continue
        violations.append({'kind': 'input', 'sub': f['sub'], 'input': f['input'],
                           'message': f['message'], 'property': pid, 'seed': seed,
                           'replay_cmd': '%s %s %s --replay <this file>' % (
                               RT_PYTHON, os.path.join(HERE, 'rt', 'main.py'), pid),
                           'failed_obligations': failed_obl[:5]})
    if failed_obl and not violations:
        for f in failed_obl[:3]:
            v = {'kind': 'obligation', 'property': pid, 'obligation': f}
            if f.get('replayed'):
                v['kind'] = 'replayed-model'
            violations.append(v)
    explained = []
    for i, v in enumerate(violations):
        p = os.path.join(HERE, 'out', 'replay-%s-%d.json' % (pid, i))
        json.dump(v, open(p, 'w'), indent=1, default=repr)
        # an input on which an internal function differs from its contract need not be a failing input of the system
        internal = v.get('sub', '').startswith('contract:internal:')
        suffix = ' no-failing-input-found' if v['kind'] == 'obligation' or internal else ''
        explained.append('VIOLATION property=%s replay=%s%s' % (pid, p, suffix))
    evidence(pid, tier, seed, levels, m, proof, violations, errors, t0)
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k[0], k[1]))
    print('%s: bounded: %d evaluations, %d distinct non-trivial%s' % (
        pid, m['evaluations'], m['distinct_nontrivial'],
        '; proof: %d functions, %d/%d obligations discharged, %d demoted to bounded' % (
            len(proof['functions']), proof['discharged'], proof['obligations'],
            len(proof.get('demoted', []))) if proof else ''))
    for name, s in m['subs'].items():
        if s['skipped']:
            print('  not covered: %s: %s' % (name, s['skipped']))
    for d in (proof or {}).get('demoted', []):
        print('  demoted to bounded: %s: %s' % (d['function'], d['reason'][:300]))
    if violations:
        for v, line in zip(violations, explained):
            if v['kind'] == 'input':
                print('  %s fails on %s' % (v['sub'], json.dumps(v['input'], default=repr)[:600]))
                print('    %s' % v['message'][:800])
            else:
                print('  obligation %s' % json.dumps(v['obligation'], default=repr)[:800])
            print(line)
        return 1
    if errors:
        print('CHECK ERROR: %s' % '\n'.join(errors)[:3000], file=sys.stderr)
        return 2
    return 0


def evidence(pid, tier, seed, levels, m, proof, violations, errors, t0):
    level = levels.get('level', 'exploration')
    cov = {
        'evaluations': m['evaluations'], 'distinct_nontrivial': m['distinct_nontrivial'],
        'rule': 'bounded stand-in: inputs generated from the contracts\' preconditions by rt/%s.py, distinct '
                'by content, non-trivial as that module defines per sub check (by default: every distinct input)'
                % pid.lower(),
        'samples': [json.loads(json.dumps(s, default=repr)) for s in m['samples'][:4]] or ['none'],
        'bounded_subs': m['subs'],
    }
    assumptions = list(levels.get('assumptions', []))
    if proof:
        cov.update({
            'obligations': proof['obligations'], 'discharged': proof['discharged'],
            'checker_cmd': 'python3-vt engine/prove.py %s' % pid,
            'trusted_base': proof['trusted_base'], 'functions_under_contract': proof['functions'],
            'solvers': proof.get('solvers'), 'solver_seconds': proof.get('solver_seconds'),
            'demoted_to_bounded': proof.get('demoted', []),
            'vacuity': proof.get('vacuity'),
        })
        assumptions += proof.get('assumptions', [])
    if level == 'other':
        cov['explanation'] = levels.get('note', 'deductive proof of part, bounded checks of the rest')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': len(violations)}
    if errors:
        ev['coverage']['errors'] = errors
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=repr)


if __name__ == '__main__':
    sys.exit(main())
