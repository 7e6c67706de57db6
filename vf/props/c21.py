"""C21: inference answers each sample on its own, and the same way however it is asked."""
import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from ..core import Discard, Sub, require, sut
from . import c19

ACTS = ('relu', 'linear', 'tanh', 'sigmoid', 'square', 'absneg', 'softmax')
WAYS = ['single', 'single', 'perm', 'split', 'dup', 'mixed', 'mixed', 'predict', 'predict', 'generator', 'none', 'tensor', 'float64', 'function', 'traced']


@st.composite
def spec(draw, nodes=3, ways=tuple(WAYS)):
    acts = draw(st.sampled_from([ACTS, tuple(c19.EX_ACT)]))
    m = draw(mg.model_spec(max_nodes=nodes, acts=acts, n=(2, 10), groups=True))
    return {'m': m, 'wrap': draw(st.sampled_from([0, 0, 1, 2])), 'side': draw(mg.side_spec(m)), 'which': draw(st.sampled_from(['model', 'model', 'wrap', 'sat'])),
            'lut': draw(st.sampled_from([-1, 1024])), 'ways': draw(st.lists(st.tuples(st.sampled_from(ways), st.integers(0, 5)), min_size=1, max_size=4)),
            'gain': draw(st.sampled_from([1.0, 2.0, 8.0])), 'far': draw(st.booleans())}


def check(s):
    import HGQ
    import tensorflow as tf
    m = s['m']
    B = mg.build(m)
    model = mg.nest(B, s['wrap'], s.get('side', ())) if s['wrap'] else B.model
    proxied = s['which'] != 'model'
    xs, other = B.data, [mg.data_for(m, j, 5, 'other', s['gain']) for j in range(len(B.data))]
    both = [np.concatenate([a, b]) for a, b in zip(xs, other)]
    mix = True
    with sut('trace_minmax'):
        HGQ.trace_minmax(model, mg.as_input(xs), verbose=False)
    R = mg.RefRun(B, xs)
    if not R.exact:
        raise Discard('beyond float32 mantissa')
    lut = s['lut']
    if any(nd['t'] == 'HActivation' and (not R.vals[k].any() or not R.vals[nd['in'][0]].any()) for k, nd in enumerate(B.nds)):
        lut = -1  # tables for constant zero are rejected by design
    if proxied:
        with sut('to_proxy_model'):
            net = HGQ.to_proxy_model(model, aggressive=s['which'] == 'wrap', unary_lut_max_table_size=lut)
        # what else may be in the batch: samples beyond the calibrated ranges, where the reference is exact as well
        mix = all(nd['t'] != 'HActivation' or nd['act'] in c19.EX_ACT for nd in B.nds) and all(nd['t'] in c19.KINDS + ('Signature',) for nd in B.nds) \
            and c19.CastRun(B, both, 'WRAP' if s['which'] == 'wrap' else 'SAT').exact
    else:
        net = model
        mix = mg.RefRun(B, both).exact
    n0, rows = len(xs[0]), np.arange(len(xs[0]))
    if mix and s.get('far'):   # the samples themselves are beyond the calibrated ranges
        rows = np.r_[n0 - 1, n0:len(both[0])]
        xs = [x[rows] for x in both]
    n = len(xs[0])
    where = {int(r): i for i, r in enumerate(rows)}

    def run(d, **kw):
        return mg.outs_np(net(mg.as_input(d), **kw))
    with sut('inference'):
        base = run(xs, training=False)
    require(all(len(o) == n for o in base), f'{n} samples in, {[o.shape for o in base]} out')
    rng = mg.rng_for(m, 'c21')
    labs = []
    before = [w.numpy().copy() for w in net.weights] if not proxied else []
    for way, arg in s['ways']:
        idx = np.arange(n)
        with sut(f'inference ({way})'):
            if way == 'single':
                parts = [run([x[r:r + 1] for x in xs], training=False) for r in range(n)]
                got = [np.concatenate(p) for p in zip(*parts)]
            elif way == 'perm':
                idx = rng.permutation(n)
                got = run([x[idx] for x in xs], training=False)
            elif way == 'split':
                c = 1 + arg % (n - 1)
                got = [np.concatenate(p) for p in zip(run([x[:c] for x in xs], training=False), run([x[c:] for x in xs], training=False))]
            elif way == 'dup':
                idx = rng.integers(0, n, n + arg)
                got = run([x[idx] for x in xs], training=False)
            elif way == 'mixed':
                if not mix:
                    continue
                p = rng.permutation(len(both[0]))
                got = run([x[p] for x in both], training=False)
                keep = np.isin(p, rows)
                idx = np.array([where[int(r)] for r in p[keep]])
                got = [g[keep] for g in got]
            elif way == 'predict':
                got = mg.outs_np(net.predict(mg.as_input(xs), batch_size=1 + arg, verbose=0))
            elif way == 'generator':
                ds = tf.data.Dataset.from_tensor_slices((tuple(xs) if len(xs) > 1 else xs[0],)).batch(1 + arg)
                got = mg.outs_np(net.predict(ds, verbose=0))
            elif way == 'none':
                got = run(xs)
            elif way == 'tensor':
                got = run([tf.constant(x) for x in xs], training=False)
            elif way == 'float64':
                got = run([x.astype(np.float64) for x in xs], training=False)
            elif way == 'function':
                eager = tf.config.functions_run_eagerly()
                tf.config.run_functions_eagerly(False)
                try:
                    fn = tf.function(lambda *d: net(mg.as_input(list(d)), training=False))
                    got = mg.outs_np(fn(*[tf.constant(x) for x in xs]))
                finally:
                    tf.config.run_functions_eagerly(eager)
            else:  # tracing again on the same data in between
                if proxied:
                    continue
                HGQ.trace_minmax(model, mg.as_input(B.data), bsz=1 + arg, verbose=False)
                got = run(xs, training=False)
        for j, (a, b) in enumerate(zip(got, base)):
            b = b[idx]
            require(a.shape == b.shape and np.array_equal(a, b), lambda: f'{s["which"]} output {j}: {way} ({arg}) gives {a[a != b][:3] if a.shape == b.shape else a.shape}, one batch of {n} gives {b[a != b][:3] if a.shape == b.shape else b.shape}')
        labs.append(way)
    if not proxied and 'traced' not in labs:
        for w, v in zip(net.weights, before):
            require('bops' in w.name or np.array_equal(w.numpy(), v), f'inference changed {w.name}')
    return dict(nontrivial=bool(labs) and any(np.ptp(o) > 0 for o in base if o.size), labels=labs + [s['which']] + (['lut'] if proxied and s['lut'] > 0 else []) + mg.labels_of(m))


SUBS = [Sub('models', spec, check)]
