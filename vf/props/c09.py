"""C09: exact BOPs == brute-force count; totals; estimate >= exact; loss terms."""
import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from .. import refs
from ..core import Discard, Sub, require, sut

KINDS = ('HDense', 'HQuantize', 'HActivation', 'PFlatten', 'PReshape', 'HConv1D', 'HConv2D', 'HAdd', 'PConcatenate', 'HDenseBatchNorm', 'HConv1DBatchNorm',
         'HConv2DBatchNorm', 'PDropout', 'PMaxPool1D', 'PMaxPool2D', 'PPermute')


@st.composite
def spec(draw):
    m = draw(mg.model_spec(max_nodes=4, kinds=KINDS, acts=('relu', 'linear', 'tanh', 'square'), n=(1, 10), shifts=False, groups=True))
    m['sx'] = draw(st.sampled_from([0, 0, 0, 3, -10, 10]))
    return {'m': m, 'wrap': draw(st.sampled_from([0, 0, 1, 2])), 'beta': draw(st.sampled_from([0.0, 1e-3, 0.5, 1.0])), 'reg': draw(st.sampled_from([None, None, 0.25, 1e-2])),
            'again': draw(st.sampled_from([0, 0, 1])), 'bsz': draw(st.sampled_from([[], [], [1], [2], [3], [7], [64]])), 'calls': draw(st.lists(st.booleans(), min_size=1, max_size=3)),
            'side': draw(mg.side_spec(m))}


def check(s):
    import HGQ
    import tensorflow as tf
    rng = mg.rng_for(s['m'], 'beta')
    tf.random.set_seed(s['m']['seed'])
    old_p, old_k = mg.mk_paq, mg.mk_kq
    MonoL1 = HGQ.utils.MonoL1 if hasattr(HGQ.utils, 'MonoL1') else HGQ.MonoL1
    if s['reg'] is not None:
        mg.mk_paq = lambda q, H: {**old_p(q, H), 'regularizer': MonoL1(s['reg'])}
        mg.mk_kq = lambda q, H: {**old_k(q, H), 'regularizer': MonoL1(s['reg'] * 2)}
    try:
        B = mg.build(s['m'], extra={t: {'beta': s['beta']} for t in mg.ALL_KINDS if t[0] == 'H'} | {'first': {}})
        model = mg.nest(B, s['wrap'], s.get('side', ()))
    finally:
        mg.mk_paq, mg.mk_kq = old_p, old_k
    for lay in B.layers:
        if hasattr(lay, 'beta') and rng.random() < 0.3:
            lay.beta.assign(np.float32(rng.choice([0.0, 0.125, 2.0])))
    x = mg.as_input(B.data)
    with sut('trace_minmax'):
        total = float(HGQ.trace_minmax(model, x, verbose=False))
    hl = [(k, lay) for k, lay in enumerate(B.layers) if hasattr(lay, 'paq')]
    bits = mg.bit_maps(B, mg.own_bits)
    want = {}
    for k, lay in hl:
        nd = B.nds[k]
        if 'k' in nd:
            w, _ = mg.ref_weights(lay, nd)
            kk, ii, ff = refs.weight_bits(w)
            want[k] = mg.count_bops(nd, bits[nd['in'][0]], (ii + ff).astype(float))
        else:
            want[k] = 0.0
    if max(want.values(), default=0) >= 2**23:
        raise Discard('count beyond float32')
    tol = lambda v: 1e-6 * max(1.0, abs(v))  # noqa: E731
    for k, lay in hl:
        with sut('compute_exact_bops'):
            got = float(lay.compute_exact_bops)
        what = f'layer {k} {B.nds[k]["t"]}'
        require(abs(got - want[k]) <= tol(got), lambda: f'{what}: exact BOPs {got}, brute force {want[k]}')
        require(abs(float(lay.bops.numpy()) - want[k]) <= tol(got), lambda: f'{what}: bops variable {lay.bops.numpy()} after tracing, brute force {want[k]}')
    exp_total = sum(want.values())
    require(abs(total - exp_total) <= tol(exp_total), f'traced BOPs {total}, brute force {exp_total}')

    def free():
        cb = HGQ.FreeBOPs()
        cb.set_model(model)
        logs = {}
        with sut('FreeBOPs'):
            cb.on_epoch_end(0, logs)
        return float(logs['bops'])
    require(abs(free() - exp_total) <= tol(exp_total), lambda: f'FreeBOPs {free()} after tracing, brute force {exp_total}')
    cb = HGQ.CalibratedBOPs(x, *s['bsz'])
    cb.set_model(model)
    logs = {}
    with sut('CalibratedBOPs'):
        cb.on_epoch_end(0, logs)
    require(abs(float(logs['bops']) - exp_total) <= tol(exp_total), f"CalibratedBOPs {logs['bops']}, brute force {exp_total}")
    # estimates refer to the traced ranges in inference
    with sut('inference'):
        model(x, training=False)
    for k, lay in hl:
        est = float(lay.bops.numpy()) if 'k' in B.nds[k] else 0.0
        require(est >= want[k] - tol(want[k]), lambda: f'layer {k} {B.nds[k]["t"]}: estimate {est} below the exact {want[k]}')
    for tr in [False] + s['calls']:
        with sut(f'call(training={tr})'):
            model(x, training=tr)
            losses = float(sum(float(v) for v in model.losses))
        exp = sum(float(lay.beta.numpy()) * float(lay.bops.numpy()) for k, lay in hl if 'k' in B.nds[k])
        rp, rk = (1e-6, 1e-6) if s['reg'] is None else (s['reg'], 2 * s['reg'])  # 1e-6: documented default
        for k, lay in hl:
            exp += rp * float(lay.paq.fbw.numpy().astype(np.float64).sum())
            if 'k' in B.nds[k]:
                exp += rk * float(lay.kq.fbw.numpy().astype(np.float64).sum())
        if not np.isfinite(exp):
            raise Discard('infinite estimate')
        require(abs(losses - exp) <= 1e-4 * max(1, abs(exp)), lambda: f'call(training={tr}): losses {losses}, beta*BOPs + regularisation {exp}')
        f, e = free(), sum(float(lay.bops.numpy()) for _, lay in hl)
        require(abs(f - e) <= tol(e), f'FreeBOPs {f}, sum of the layers {e}')
    if s['again']:  # other weights, bitwidths and data for the same model
        mg.restage(B, 0)
        with sut('trace_minmax'):
            total = float(HGQ.trace_minmax(model, mg.as_input(B.data), verbose=False))
        bits = mg.bit_maps(B, mg.own_bits)
        exp2 = sum(mg.count_bops(B.nds[k], bits[B.nds[k]['in'][0]], sum(refs.weight_bits(mg.ref_weights(lay, B.nds[k])[0])[1:]).astype(float)) for k, lay in hl if 'k' in B.nds[k])
        if exp2 < 2**23:
            require(abs(total - exp2) <= tol(exp2), f'traced BOPs {total} after the weights changed, brute force {exp2}')
    labs = mg.labels_of(s['m']) + [f"wrap={s['wrap']}", f"beta={s['beta']}", f"reg={s['reg']}"]
    return dict(nontrivial=exp_total > 0, labels=labs)


SUBS = [Sub('models', spec, check)]
