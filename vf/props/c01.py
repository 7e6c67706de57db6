"""C01: proxy == HGQ model == exact reference, bit for bit, on everything inside the calibrated ranges."""
import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from ..core import Sub, require, sut

ACTS = ('relu', 'linear', 'tanh', 'sigmoid', 'square', 'absneg', 'sinx', 'softmax')


def in_range(B, cal, run):
    """Boolean per sample of `run`: no recorded range of the calibration run is exceeded anywhere."""
    ok = np.ones(len(run.vals[0]), bool)
    for k, v in run.rec.items():
        fs = tuple(B.layers[k].paq.fbw.shape)
        lo, hi = mg.group_minmax(cal.rec[k], fs)
        ok &= ((v >= lo) & (v <= hi)).reshape(len(v), -1).all(axis=1)
    return ok


def fresh_inputs(spec, data, n=24):
    """Element-wise resampling of the calibration data (keeps input ranges), plus a few brand-new samples."""
    out = []
    for j, x in enumerate(data):
        rng = mg.rng_for(spec, 'fresh', j)
        idx = rng.integers(0, len(x), (n,) + x.shape[1:])
        out.append(np.concatenate([np.take_along_axis(x, idx, 0), mg.data_for(spec, j, 8, 'fresh2')], 0))
    return out


def check(spec, jit=False):
    import tensorflow as tf
    m = spec['model']
    tf.config.run_functions_eagerly(not jit)
    try:
        B = mg.build(m)
        res = one(spec, m, B, jit)
        for st_ in range(spec.get('again', 0)):  # the same model object with other weights, bitwidths and data
            mg.restage(B, st_)
            r = one(spec, m, B, jit, f'stage {st_ + 2}: ')
            res = dict(nontrivial=res['nontrivial'] or r['nontrivial'], labels=sorted(set(res['labels'] + r['labels'] + ['restaged'])))
    finally:
        tf.config.run_functions_eagerly(True)
    return res


def one(spec, m, B, jit, pre=''):
    from HGQ import to_proxy_model, trace_minmax
    cal = mg.RefRun(B, B.data)
    x = mg.as_input(B.data)
    with sut('trace_minmax'):
        trace_minmax(B.model, x, bsz=spec['bsz'], verbose=False)
    with sut('inference'):
        got = mg.outs_np(B.model(x, training=False))
    with sut('to_proxy_model'):
        proxy = to_proxy_model(B.model, aggressive=spec['aggressive'])
    with sut('proxy inference'):
        pout = mg.outs_np(proxy(x, training=False))
    compare(got, pout, cal if cal.exact else None, pre + 'calibration data')
    nfresh = 0
    if cal.exact and not jit:
        xs = fresh_inputs(m, B.data)
        run = mg.RefRun(B, xs, cal.wcache)
        keep = in_range(B, cal, run)
        if run.exact and keep.any():
            xs = [a[keep] for a in xs]
            nfresh = int(keep.sum())
            with sut('inference on fresh in-range data'):
                g2 = mg.outs_np(B.model(mg.as_input(xs), training=False))
                p2 = mg.outs_np(proxy(mg.as_input(xs), training=False))
            run.outs = [o[keep] for o in run.outs]
            compare(g2, p2, run, pre + 'fresh in-range data')
    nz = any(np.ptp(o) > 0 for o in got if o.size)
    return dict(nontrivial=nz and bool(m['nodes']), labels=mg.labels_of(m) + ['fresh' if nfresh else 'nofresh', 'exact' if cal.exact else 'beyond-f32',
                                                                          'wrap' if spec['aggressive'] else 'sat'])


def compare(got, pout, ref, what):
    require(len(got) == len(pout), f'{what}: model has {len(got)} outputs, proxy {len(pout)}')
    for j, (g, p) in enumerate(zip(got, pout)):
        require(g.shape == p.shape, f'{what}: output {j} shape {g.shape} vs proxy {p.shape}')
        require(np.array_equal(g, p), lambda: f'{what}: output {j}: proxy differs from model: {diff(g, p)}')
        if ref is not None:
            require(np.array_equal(g, ref.outs[j]), lambda: f'{what}: output {j}: model differs from exact reference: {diff(g, ref.outs[j])}')


def diff(a, b):
    bad = np.argwhere(a != b)
    i = tuple(bad[0])
    return f'{len(bad)}/{a.size} elements, first at {list(map(int, i))}: {a[i]!r} vs {b[i]!r}'


def strat(**kw):
    return lambda: st.fixed_dictionaries({'model': mg.model_spec(groups=True, **kw), 'aggressive': st.booleans(), 'bsz': st.sampled_from([1, 3, 7, 16384]), 'again': st.sampled_from([0, 0, 0, 1])})


SUBS = [
    Sub('models', strat(acts=ACTS), check),
    Sub('relu', strat(acts=('relu', 'linear'), kacts=('relu',), max_inputs=1, max_nodes=3,
                      kinds=('HDense', 'HConv1D', 'HConv2D', 'HDenseBatchNorm', 'HConv1DBatchNorm', 'HConv2DBatchNorm', 'PFlatten', 'PPermute')), check),
    Sub('jit', strat(max_nodes=3), lambda s: check(s, jit=True)),
]
