"""python -m vf.replay PROP FILE: re-run one saved case without Hypothesis. exit 1 if it still violates."""
import importlib
import json
import sys
import traceback

from . import core, env, meta


def main():
    prop, path = sys.argv[1:3]
    d = json.load(open(path))
    mod = importlib.import_module(f'vf.props.{prop.lower()}')
    clean = next((s.get('clean', True) for s in meta.PROPS[prop]['subs'] if s['name'] == d['sub']), True)
    if getattr(mod, 'NEEDS_TF', True):
        env.load(clean=clean)
    if hasattr(mod, 'setup'):
        mod.setup()
    sub = {s.name: s for s in mod.SUBS}[d['sub']]
    try:
        info = sub.check(d['spec'])
        print('held:', info)
        return 0
    except core.Discard as e:
        print('outside domain:', e)
        return 0
    except Exception as e:
        if not isinstance(e, core.Violation):
            traceback.print_exc()
        print(e)
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    finally:
        if hasattr(mod, 'teardown'):
            mod.teardown()


if __name__ == '__main__':
    sys.exit(main())
