"""C22: the gradient of the BOPs penalty with respect to every bitwidth."""
import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from ..core import Discard, Sub, require, sut

KINDS = ('HDense', 'HQuantize', 'HActivation', 'PFlatten', 'PReshape', 'HConv1D', 'HConv2D', 'HAdd', 'PConcatenate', 'HDenseBatchNorm', 'HConv1DBatchNorm',
         'HConv2DBatchNorm', 'PDropout', 'PPermute')


@st.composite
def spec(draw):
    m = draw(mg.model_spec(max_nodes=4, kinds=KINDS, acts=('relu', 'linear', 'tanh', 'square'), n=(1, 6), min_nodes=1, shifts=False))
    m['sx'] = draw(st.sampled_from([0, 0, 0, 3, -10, 10]))
    return {'m': m, 'training': draw(st.booleans()), 'beta': draw(st.sampled_from([1e-3, 0.5, 1.0, 1.0])), 'reg': draw(st.sampled_from([None, None, 0.25])),
            'graph': draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 1])), 'stale': draw(st.booleans())}


def check(s):
    import HGQ
    import tensorflow as tf
    rng = mg.rng_for(s['m'], 'c22')
    tf.random.set_seed(s['m']['seed'])
    bn = any('bn' in nd for nd in s['m']['nodes'])
    training = s['training'] and not bn  # the batch's kernel is not visible from outside
    old_p, old_k = mg.mk_paq, mg.mk_kq
    MonoL1 = HGQ.utils.MonoL1
    l1 = 1e-6 if s['reg'] is None else s['reg']
    mg.mk_paq = lambda q, H: {**old_p(q, H), 'regularizer': MonoL1(l1)}
    # in training the kernel's rounding has to be reproducible
    mg.mk_kq = lambda q, H: {**old_k(q, H), 'regularizer': MonoL1(2 * l1), **({'rnd_strategy': 'standard_round'} if training and q['rnd'] == 'stochastic_round' else {})}
    try:
        B = mg.build(s['m'], extra={t: {'beta': s['beta']} for t in mg.ALL_KINDS if t[0] == 'H'} | {'first': {}})
    finally:
        mg.mk_paq, mg.mk_kq = old_p, old_k
    model = B.model
    for lay in B.layers:
        if hasattr(lay, 'beta') and rng.random() < 0.3:
            lay.beta.assign(np.float32(rng.choice([0.0, 0.125, 2.0])))
    if training:  # weights on their grid: off it float32 leaves the training-mode kernel an ulp beside the grid, and powers of two a bit narrower
        for k, lay in enumerate(B.layers):
            if 'k' in B.nds[k]:
                lay.kernel.assign(lay.fused_qkernel)
    x = mg.as_input(B.data)
    with sut('trace_minmax'):
        HGQ.trace_minmax(model, x, verbose=False)
    hl = [(k, lay) for k, lay in enumerate(B.layers) if hasattr(lay, 'paq')]
    if training and not s['stale']:
        for _, lay in hl:
            lay.reset_minmax()

    def grads():
        with tf.GradientTape() as tape:
            model(x, training=training)
            loss = tf.add_n([tf.zeros(()), *model.losses])
        return tape.gradient(loss, model.trainable_variables)
    with sut('gradient of the losses'):
        gs = (tf.function(grads) if s['graph'] else grads)()
    got = {v.ref(): (np.zeros(v.shape) if g is None else np.asarray(tf.convert_to_tensor(g), np.float64)) for v, g in zip(model.trainable_variables, gs)}
    # bits the penalty was computed from: the layers' estimates (C09, C15), after the call
    act = {k: np.asarray(lay.act_bw, np.float64) for k, lay in hl}
    ker = {k: np.asarray(lay.kernel_bw, np.float64) for k, lay in hl if 'k' in B.nds[k]}
    if not all(np.isfinite(v).all() for v in [*act.values(), *ker.values()]):
        raise Discard('infinite bits')
    beta = {k: float(lay.beta.numpy()) for k, lay in hl}
    pos = {id(lay): k for k, lay in hl}

    def count(act, ker):
        maps = mg.bit_maps(B, lambda lay, nd: act[pos[id(lay)]])
        return sum(beta[k] * mg.count_bops(B.nds[k], maps[B.nds[k]['in'][0]], w) for k, w in ker.items())
    base = count(act, ker)
    if base >= 2**22:
        raise Discard('count beyond float32')
    seen = 0
    for k, lay in hl:
        what = f'layer {k} {B.nds[k]["t"]}'
        for name, q, bits, reg in (('activation', lay.paq, act[k], l1), ('kernel', getattr(lay, 'kq', None), ker.get(k), 2 * l1)):
            if q is None or bits is None:
                continue
            fshape = tuple(q.fbw.shape)
            share = bits.size / np.prod(fshape)
            if name == 'kernel' and 'pf' in B.nds[k]:
                share *= B.nds[k]['pf']
            require(q.fbw.ref() in got, f'{what}: the {name} bitwidths are not trainable')
            g = got[q.fbw.ref()]
            require(np.isfinite(g).all(), f'{what}: the gradient of the {name} bitwidths is not finite')
            used = bits > 0
            # training-mode values may lie beside the grid and take exactly no bits: the penalty has a kink there
            smooth = mg.group_minmax(used.astype(float), fshape)[0] if training else np.ones(fshape)
            for t in range(3):
                d = np.ones(fshape) if t == 0 else rng.choice([-1.0, 0.0, 1.0], fshape)
                d = d * smooth
                db = np.broadcast_to(d, bits.shape) * used
                new = count({**act, k: bits + db}, ker) if name == 'activation' else count(act, {**ker, k: bits + db})
                want = (new - base) / np.sqrt(share) + reg * d.sum()
                have = float((g * d).sum())
                scale = max(1e-3, np.abs(g).sum(), abs(want), 1e-5 * base)
                require(abs(have - want) <= 1e-4 * scale, lambda: f'{what}: along direction {d.ravel()[:8].tolist()} of the {name} bitwidths the losses rise by {have}, the count calls for {want}')
                seen += new != base
        for name in ('kernel', 'bias', 'bn_gamma', 'bn_beta'):
            v = getattr(lay, name, None)
            if hasattr(v, 'ref') and v.ref() in got:
                require(not np.any(got[v.ref()]), f'{what}: the losses have a gradient with respect to {name}')
    return dict(nontrivial=seen > 0, labels=mg.labels_of(s['m']) + [f'training={training}', f"graph={s['graph']}", f"beta={s['beta']}"])


SUBS = [Sub('models', spec, check)]
