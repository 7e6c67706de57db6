"""C08: trace_minmax: ranges == ranges of the whole data set, whatever the batching/order/splitting; predictions; BOPs; cover factor; clamps."""
import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from .. import refs
from ..core import Discard, Sub, require, sut

KINDS = ('HDense', 'HQuantize', 'HActivation', 'PFlatten', 'PReshape', 'HConv1D', 'HConv2D', 'HAdd', 'PConcatenate', 'HDenseBatchNorm', 'PDropout',
         'PMaxPool1D', 'PPermute')


@st.composite
def spec(draw, kinds=KINDS, stales=(None, None, 'train', 'trace', 'infer', 'predict'), nodes=3, cfs=(None, None, 1.25, 1.5, 2.0, 3.0, 0.5, 0.75, 8.0)):
    m = draw(mg.model_spec(max_nodes=nodes, kinds=kinds, acts=('relu', 'linear', 'tanh', 'sigmoid', 'softmax', 'tanh', 'sigmoid', 'square'), shifts=False, n=(1, 14)))
    var = st.fixed_dictionaries({'bsz': st.sampled_from([1, 2, 3, 5, 7, 100, 16384]), 'perm': st.booleans(), 'cuts': st.lists(st.integers(1, 13), max_size=2),
                                 'pred': st.booleans(), 'stale': st.sampled_from(stales), 'tensor': st.booleans(), 'done': st.booleans()})
    return {'m': m, 'vars': draw(st.lists(var, min_size=1, max_size=3)), 'cf': draw(st.sampled_from(cfs)),
            'wrap': draw(st.sampled_from([0, 0, 1, 2])), 'cb': draw(st.booleans()),
            'side': draw(mg.side_spec(m))}


def expected(B, R, cf):
    """Ranges per layer index after tracing everything."""
    out = {}
    for k, lay in enumerate(B.layers):
        if k not in R.rec:
            continue
        nd = B.nds[k]
        lo, hi = mg.group_minmax(R.rec[k], tuple(lay.paq.fbw.shape))
        f, rnd = mg.eff_f(lay.paq), mg.eff_rnd(lay, nd)

        def q(v):
            return refs.rq(v, f, rnd)
        if cf is not None:
            c, d = (lo + hi) / 2, (hi - lo) / 2
            lo, hi = q(c - d * cf), q(c + d * cf)
        act = nd.get('act') if nd['t'] == 'HActivation' else None
        if act == 'softmax':
            lo, hi = np.zeros_like(lo), np.ones_like(hi)
        elif act == 'sigmoid':
            lo, hi = np.maximum(lo, 0), np.minimum(hi, q(np.ones_like(hi)))
        elif act == 'tanh':
            lo, hi = np.maximum(lo, q(-np.ones_like(lo))), np.minimum(hi, q(np.ones_like(hi)))
        out[k] = (lo, hi)
    return out


def compare(B, exp, what):
    for k, (lo, hi) in exp.items():
        lay = B.layers[k]
        gl, gh = lay.paq._min.numpy().astype(np.float64), lay.paq._max.numpy().astype(np.float64)
        require(gl.shape == lo.shape and np.array_equal(gl, lo), lambda: f'{what}: layer {k} ({B.nds[k]["t"]} {B.nds[k].get("act")}): traced min {gl.ravel()[:6]} expected {lo.ravel()[:6]}')
        require(gh.shape == hi.shape and np.array_equal(gh, hi), lambda: f'{what}: layer {k} ({B.nds[k]["t"]} {B.nds[k].get("act")}): traced max {gh.ravel()[:6]} expected {hi.ravel()[:6]}')
        require(np.all(gl <= gh), lambda: f'{what}: layer {k}: min > max')


def check_jit(s):
    """The same with tf.functions compiled, where a model may have been used through compiled predict before."""
    import tensorflow as tf
    tf.config.run_functions_eagerly(False)
    try:
        return check(s)
    finally:
        tf.config.run_functions_eagerly(True)


def check(s):
    import HGQ
    import tensorflow as tf
    B = mg.build(s['m'])
    model = mg.nest(B, s['wrap'], s.get('side', ()))
    xs = B.data
    n = len(xs[0])
    R = mg.RefRun(B, xs)
    if not R.exact or R.bits_max > 19:
        raise Discard('beyond float32 mantissa')
    exp = expected(B, R, None)
    want = [o.astype(np.float64) for o in R.outs]
    hl = [lay for lay in B.layers if hasattr(lay, 'paq')]
    labs = [f"wrap={s['wrap']}"]
    rng = mg.rng_for(s['m'], 'perm')
    other = [mg.data_for(s['m'], j, 3, 'other', 4.0) for j in range(len(xs))]
    bops0 = None
    for v in s['vars']:
        if v['stale'] and not (v['stale'] == 'train' and any('BatchNorm' in nd['t'] for nd in B.nds)):
            with sut('earlier use of the model'):
                if v['stale'] == 'trace':
                    HGQ.trace_minmax(model, mg.as_input(other), verbose=False)
                elif v['stale'] == 'predict':
                    model.predict(mg.as_input([o[:1] for o in other]), verbose=0)
                else:
                    model(mg.as_input(other), training=v['stale'] == 'train')
            labs.append('stale=' + v['stale'])
        p = rng.permutation(n) if v['perm'] else np.arange(n)
        d = [x[p] for x in xs]
        cuts = sorted({c for c in v['cuts'] if c < n})
        parts = [[x[a:b] for x in d] for a, b in zip([0] + cuts, cuts + [n])]
        if v['tensor']:
            parts = [[tf.constant(x) for x in part] for part in parts]
        what = f'bsz={v["bsz"]}, {len(parts)} call(s){", each complete" if v["done"] else ""}, permuted={v["perm"]}'
        ret = None
        with sut(f'trace_minmax ({what})'):
            for j, part in enumerate(parts):
                last = j == len(parts) - 1
                ret = HGQ.trace_minmax(model, mg.as_input(part), bsz=v['bsz'], verbose=False, rst=j == 0, no_bops_computation=not last and not v['done'],
                                       return_predictions=v['pred'] and last)
        compare(B, exp, what)
        require(not any(lay.record_minmax for lay in hl), f'{what}: recording left on after tracing')
        bops = ret
        if v['pred']:
            bops, pred = ret
            single = len(want) == 1
            require(isinstance(pred, np.ndarray) if single else isinstance(pred, (list, tuple)) and len(pred) == len(want), f'{what}: predictions have the wrong structure')
            for a, b in zip([pred] if single else pred, want):
                b = b[p][cuts[-1]:] if cuts else b[p]
                require(a.shape == b.shape and np.array_equal(a.astype(np.float64), b), f'{what}: returned predictions are not the model outputs in data order')
            labs.append('predictions')
        with sut('exact BOPs'):
            tot = float(sum(float(lay.compute_exact_bops) for lay in hl))
        require(abs(float(bops) - tot) <= 1e-6 * max(1, tot), f'{what}: returned BOPs {float(bops)} != sum over layers {tot}')
        require(bops0 is None or bops0 == float(bops), f'{what}: BOPs {float(bops)} depend on batching or order (before: {bops0})')
        bops0 = float(bops)
        labs += [f"bsz={v['bsz']}", f'calls={len(parts)}', f"perm={v['perm']}"]
    if s['cb']:
        with sut('CalibratedBOPs'):
            cb = HGQ.CalibratedBOPs(mg.as_input(xs), bsz=s['vars'][0]['bsz'])
            cb.set_model(model)
            logs = {}
            cb.on_epoch_end(0, logs)
        require(abs(float(logs['bops']) - bops0) <= 1e-6 * max(1, bops0), f"CalibratedBOPs reports {logs['bops']}, trace_minmax {bops0}")
        compare(B, exp, 'CalibratedBOPs')
        labs.append('callback')
    if s['cf'] is not None:
        with sut('trace_minmax(cover_factor)'):
            HGQ.trace_minmax(model, mg.as_input(xs), verbose=False, cover_factor=s['cf'], bsz=s['vars'][0]['bsz'])
        compare(B, expected(B, R, s['cf']), f"cover_factor={s['cf']}")
        labs.append(f"cf={s['cf']}")
    labs += [f"act={nd['act']}" for nd in B.nds if nd['t'] == 'HActivation']
    return dict(nontrivial=n > 1 and any(np.any(a != b) for a, b in exp.values()), labels=labs)


SUBS = [Sub('models', spec, check), Sub('activations', lambda: spec(('HActivation', 'HQuantize'), cfs=(None, 1.5, 1.25, 2.0, 3.0, 0.5, 8.0)), check),
        Sub('jit', lambda: spec(stales=('predict', 'predict', None, 'train'), nodes=1), check_jit)]
