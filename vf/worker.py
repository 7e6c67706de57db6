"""python -m vf.worker PROP JOBS.json OUT.json : run a list of (sub, shard, n) jobs of one property in this process."""
import importlib
import json
import os
import sys
import time
import traceback

from . import core


def main():
    prop, jobs_f, out_f = sys.argv[1:4]
    jobs = json.load(open(jobs_f))
    out = {'results': [], 'error': None}
    try:
        mod = importlib.import_module(f'vf.props.{prop.lower()}')
        from . import env
        if getattr(mod, 'NEEDS_TF', True):
            env.load(clean=jobs.get('clean', True), eager=True)
        if hasattr(mod, 'setup'):
            mod.setup()
        subs = {s.name: s for s in mod.SUBS}
        t0 = time.time()
        total = jobs['budget_s']
        for k, (name, shard, n) in enumerate(jobs['jobs']):
            left = total - (time.time() - t0)
            deadline = time.time() + max(left / (len(jobs['jobs']) - k) * 1.3, 5)
            deadline = min(deadline, t0 + total)
            ts = time.time()
            r = core.drive(prop, subs[name], shard, n, jobs['seed'], deadline)
            r['t'] = round(time.time() - ts, 1)
            out['results'].append(r)
            if r['violation']:
                break
    except BaseException as e:  # noqa: BLE001
        out['error'] = ''.join(traceback.format_exception(e))[-6000:]
    finally:
        try:
            mod.teardown()
        except Exception:
            pass
    with open(out_f + '.tmp', 'w') as f:
        json.dump(out, f, default=core._np_default)
    os.replace(out_f + '.tmp', out_f)
    os._exit(0)


if __name__ == '__main__':
    main()
