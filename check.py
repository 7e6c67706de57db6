#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--replay FILE]

Decides one property by generated-input search.  exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the harness itself failed (no verdict).
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'TF_CPP_MIN_LOG_LEVEL': '3', 'CUDA_VISIBLE_DEVICES': '-1',
       'OMP_NUM_THREADS': '1', 'PYTHONPATH': ROOT, 'TF_ENABLE_ONEDNN_OPTS': '0', 'LC_ALL': 'C.UTF-8'}


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d['property'] == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def run_jobs(prop, plans, budget, seed, scratch, hard):
    """plans: list of job dicts; at most ncpu processes at once."""
    ncpu = int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1))
    pending = list(enumerate(plans))
    running, outs = {}, {}
    t0 = time.time()
    while pending or running:
        while pending and len(running) < ncpu:
            i, plan = pending.pop(0)
            jf, of = f'{scratch}/job{i}.json', f'{scratch}/out{i}.json'
            json.dump({**plan, 'budget_s': budget, 'seed': seed}, open(jf, 'w'))
            log = open(f'{scratch}/log{i}.txt', 'w')
            wd = f'{scratch}/wd{i}'
            os.makedirs(wd)
            running[i] = subprocess.Popen([PY, '-m', 'vf.worker', prop, jf, of], cwd=wd, env={**os.environ, **ENV, 'TMPDIR': wd, 'VF_SCRATCH': wd},
                                          stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        time.sleep(0.1)
        for i, p in list(running.items()):
            if p.poll() is None and time.time() - t0 < hard:
                continue
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
            del running[i]
            of = f'{scratch}/out{i}.json'
            if os.path.exists(of):
                outs[i] = json.load(open(of))
            else:
                outs[i] = {'results': [], 'error': f'worker {i} died (rc={p.returncode}): ' + open(f'{scratch}/log{i}.txt').read()[-3000:]}
            if any(r['violation'] for r in outs[i]['results']):
                # a shrunk counterexample is in hand: stop the rest
                for q in running.values():
                    try:
                        os.killpg(q.pid, 9)
                    except ProcessLookupError:
                        pass
                for q in running.values():
                    q.wait()
                return outs
    return outs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    if a.selftest:
        return subprocess.call([PY, '-c', 'import sys; sys.path.insert(0, "vendor"); import hypothesis; from vf import env; env.load(); print("ok")'],
                               env={**os.environ, **ENV}, cwd=ROOT, stderr=subprocess.DEVNULL)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path[:0] = [ROOT, os.path.join(ROOT, 'vendor')]
    sys.dont_write_bytecode = True
    t0 = time.time()

    if a.replay:
        return subprocess.call([PY, '-m', 'vf.replay', prop, os.path.abspath(a.replay)], env={**os.environ, **ENV}, cwd=ROOT)

    from vf import meta
    m = meta.PROPS[prop]
    subs = [s for s in m['subs'] if not a.sub or s['name'] == a.sub]
    nshard = 8
    budget = float(os.environ.get('VERIF_BUDGET') or m.get('budget', {}).get(tier, 60 if tier == 'quick' else 1500))
    plans = {}
    for s in subs:
        n = s[tier] if tier in s else s['quick'] * 12
        n = max(1, int(n * a.scale))
        clean = s.get('clean', True)
        k = min(nshard, n, s.get('shards', nshard))
        for sh in range(k):
            cnt = n // k + (1 if sh < n % k else 0)
            slot = (sh + s.get('offset', 0)) % nshard
            plans.setdefault((slot, clean), {'clean': clean, 'jobs': []})['jobs'].append([s['name'], sh, cnt])
    plans = [plans[k] for k in sorted(plans)]
    scratch = tempfile.mkdtemp(prefix=f'vf_{prop}_')
    try:
        outs = run_jobs(prop, plans, budget, seed, scratch, hard=max(budget * 2 + 120, 240) if tier == 'quick' else budget * 2 + 600)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    results = [r for i in sorted(outs) for r in outs[i]['results']]
    errors = [o['error'] for o in outs.values() if o['error']] + [r['error'] for r in results if r['error']]
    violations = [r['violation'] for r in results if r['violation']]
    nontriv = {}
    labels, persub = {}, {}
    for r in results:
        nontriv.setdefault(r['sub'], set()).update(r['nontrivial'])
        ps = persub.setdefault(r['sub'], dict(evaluations=0, discarded=0, over_budget=0))
        for k in ps:
            ps[k] += r[k]
        for k, v in r['labels'].items():
            key = f"{r['sub']}:{k}"
            labels[key] = labels.get(key, 0) + v
    samples, seen = [], set()
    for r in results:
        if r['sub'] not in seen and r['samples']:
            seen.add(r['sub'])
            samples.append({'sub': r['sub'], 'case': r['samples'][0]})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(p['evaluations'] for p in persub.values()),
            'distinct_nontrivial': sum(len(v) for v in nontriv.values()),
            'rule': m['rule'], 'samples': samples,
            'discarded_outside_domain': sum(p['discarded'] for p in persub.values()),
            'not_run_time_budget': sum(p['over_budget'] for p in persub.values()),
            'per_sub': {k: {**v, 'distinct_nontrivial': len(nontriv[k])} for k, v in persub.items()},
            'labels': dict(sorted(labels.items())),
        },
        'assumptions': m.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    with open(f'{ROOT}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for d in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    print(f"{prop} [{tier}] seed={seed}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{ev['coverage']['discarded_outside_domain']} outside domain, {ev['coverage']['not_run_time_budget']} not run, {ev['wall_s']}s")
    if violations:
        os.makedirs(f'{ROOT}/replays', exist_ok=True)
        v = min(violations, key=lambda v: len(json.dumps(v['spec'])))
        from vf.core import digest
        path = f"{ROOT}/replays/{prop}-{v['sub']}-{digest(v['spec'])}.json"
        with open(path, 'w') as f:
            json.dump({'property': prop, **v}, f, indent=1)
        print(v['message'])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        print('HARNESS ERROR\n' + '\n---\n'.join(e[-1800:] for e in errors[:2]), file=sys.stderr)
        return 2
    if ev['coverage']['evaluations'] == 0:
        print('HARNESS ERROR: nothing was run', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
