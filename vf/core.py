"""Shared machinery: Violation / sut() / case bookkeeping / Hypothesis driver.  Imports neither TF nor HGQ."""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + os.sep
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vendor'))


class Violation(Exception):
    """The property is broken by the code under test."""


class Discard(Exception):
    """The case left the property's domain (e.g. beyond float32 mantissa); it says nothing."""


@contextlib.contextmanager
def sut(what):
    """Run code under test.  Every generated case is inside the documented domain, so an exception is a violation."""
    try:
        yield
    except (Violation, Discard):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{f.filename[len(REPO):]}:{f.lineno}' for f in tb if f.filename.startswith(REPO)]
        raise Violation(f'{what} raised {type(e).__name__}: {str(e)[:500]} (at {where[-1:] or "?"})') from e


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(',', ':'), default=_np_default)


def _np_default(o):
    if hasattr(o, 'tolist'):
        return o.tolist()
    raise TypeError(type(o))


def digest(spec):
    return hashlib.sha256(canon(spec).encode()).hexdigest()[:16]


class Sub:
    """One generated check of a property.

    strategy: () -> hypothesis strategy of JSON-able specs
    check:    spec -> info; raises Violation/Discard.  info: dict(nontrivial=bool, labels=[...])
    """

    def __init__(self, name, strategy, check):
        self.name, self.strategy, self.check = name, strategy, check


def shard_seed(seed, prop, sub, shard):
    return int.from_bytes(hashlib.sha256(f'{seed}/{prop}/{sub}/{shard}'.encode()).digest()[:6], 'big')


def drive(prop, sub, shard, n, seed, deadline, shrink_s=45.0):
    """Run n hypothesis-generated cases of `sub`. Returns a result dict."""
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    # Near-duplicate mutations of earlier examples cost as much as fresh ones here; spend the budget on fresh draws.
    ConjectureRunner.generate_mutations_from = lambda self, data: None

    res = dict(sub=sub.name, shard=shard, evaluations=0, discarded=0, over_budget=0, nontrivial=[], samples=[], labels={}, violation=None, error=None)
    best = {}
    state = {'shrink_until': None}
    nontriv = set()

    @hseed(shard_seed(seed, prop, sub.name, shard))
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False)
    @given(sub.strategy())
    def test(spec):
        now = time.time()
        if state['shrink_until'] is None:
            if now > deadline:
                res['over_budget'] += 1
                return
        elif now > state['shrink_until']:
            return
        first = state['shrink_until'] is None
        if first:
            res['evaluations'] += 1
        try:
            info = sub.check(spec) or {}
        except Discard as d:
            if first:
                res['discarded'] += 1
                k = f'discard:{d}'
                res['labels'][k] = res['labels'].get(k, 0) + 1
            return
        except Exception as v:
            if not isinstance(v, Violation):
                frames = [f for f in traceback.extract_tb(v.__traceback__) if f.filename.startswith(REPO)]
                if frames:
                    v = Violation(f'{type(v).__name__}: {str(v)[:500]} (at {frames[-1].filename[len(REPO):]}:{frames[-1].lineno})')
                elif isinstance(v, (ValueError, TypeError, IndexError, ArithmeticError)):
                    # The oracle takes every result of the right form; what the code returned has another shape or type.
                    v = Violation(f'a result has an unexpected form: {type(v).__name__}: {str(v)[:500]}')
                else:
                    raise  # a fault of the harness (a name that is gone, ...): no verdict
            size = len(canon(spec))
            if not best or size <= best['size']:
                best.update(size=size, spec=spec, message=str(v))
            if first:
                state['shrink_until'] = time.time() + shrink_s
            raise v
        if not first:
            return
        for lab in info.get('labels', ()):
            res['labels'][lab] = res['labels'].get(lab, 0) + 1
        if info.get('nontrivial', True):
            h = digest(spec)
            if h not in nontriv:
                nontriv.add(h)
                if len(res['samples']) < 2:
                    res['samples'].append(spec)

    try:
        test()
    except BaseException as e:  # noqa: BLE001  (hypothesis re-raises / wraps as Flaky)
        if isinstance(e, KeyboardInterrupt):
            raise
        if not best:
            res['error'] = ''.join(traceback.format_exception(e.exceptions[0] if isinstance(e, BaseExceptionGroup) else e))[-4000:]
    if best:
        res['violation'] = dict(sub=sub.name, spec=best['spec'], message=best['message'])
    res['nontrivial'] = sorted(nontriv)
    return res
