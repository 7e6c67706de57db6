"""C20: only training changes a model, and only what is trainable; everything else leaves weights, bitwidths and ranges as they were."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from ..core import Sub, require, sut

KINDS = ('HDense', 'HDenseBatchNorm', 'HQuantize', 'HActivation', 'PDropout', 'PFlatten', 'PReshape', 'HConv1D', 'HConv1DBatchNorm', 'PMaxPool1D', 'PPermute',
         'HConv2D', 'PMaxPool2D', 'HAdd', 'PConcatenate')
QUIET = ['infer', 'infer', 'infer_none', 'predict', 'bits', 'bops', 'config', 'save', 'proxy', 'proxy_reg', 'losses']
ALL = QUIET + ['train', 'train', 'train_fwd', 'fit', 'trace', 'freeze', 'thaw', 'freeze_one']


@st.composite
def spec(draw, max_ops=6, nodes=3):
    m = draw(mg.model_spec(max_nodes=nodes, kinds=KINDS, acts=('relu', 'linear', 'tanh'), n=(2, 6), f=(0, 4), shifts=False))
    ops = draw(st.lists(st.tuples(st.sampled_from(ALL), st.integers(0, 5)), min_size=2, max_size=max_ops))
    return {'m': m, 'ops': [list(o) for o in ops], 'wrap': draw(st.sampled_from([0, 0, 1])),
            'adapt': draw(st.sampled_from([False, False, True])), 'kt': draw(st.booleans()), 'at': draw(st.booleans()), 'lt': draw(st.sampled_from([True, True, False])), 'pick': draw(st.integers(0, 3)),
            'beta': draw(st.sampled_from([0.0, 1e-3])), 'l1': draw(st.sampled_from([0.0, 0.125])), 'clip': draw(st.sampled_from([(-23, 23), (-23, 23), (1, 3)])), 'lr': 0.25}


def roles(layers):
    """{(layer no, role): (variable, trainable by configuration)}"""
    out = {}
    for j, lay in enumerate(layers):
        if getattr(lay, 'kernel', None) is not None:
            out[j, 'kernel'] = (lay.kernel, True)
            out[j, 'kernel_bw'] = (lay.kq.fbw, lay.kq.trainable)
        if getattr(lay, 'use_bias', False):
            out[j, 'bias'] = (lay.bias, True)
        if 'BatchNorm' in type(lay).__name__:
            if lay.center:
                out[j, 'bn_beta'] = (lay.bn_beta, True)
                out[j, 'moving_mean'] = (lay.moving_mean, False)
            if lay.scale:
                out[j, 'bn_gamma'] = (lay.bn_gamma, True)
                out[j, 'moving_variance'] = (lay.moving_variance, False)
        if hasattr(lay, 'paq'):
            out[j, 'activation_bw'] = (lay.paq.fbw, lay.paq.trainable)
            out[j, 'min'] = (lay.paq._min, False)
            out[j, 'max'] = (lay.paq._max, False)
            out[j, 'beta'] = (lay.beta, False)
    return out


def make(s):
    import HGQ
    m = s['m']
    old = mg.mk_paq, mg.mk_kq

    def with_opts(mk, t):
        def f(q, H):
            c = mk(q, H)
            c.update(trainable=t, bw_clip=tuple(s['clip']), regularizer=HGQ.utils.utils.MonoL1(s['l1']))
            return c
        return f
    mg.mk_paq, mg.mk_kq = with_opts(old[0], s['at']), with_opts(old[1], s['kt'])
    try:
        ext = {}
        for t in mg.ALL_KINDS:
            if t[0] == 'H':
                ext[t] = {'beta': s['beta'], 'do_adapt_kernel_bits': s['adapt']}
        hs = sorted({nd['t'] for nd in m['nodes'] if nd['t'][0] == 'H'})
        if not s['lt'] and hs:
            ext[hs[s['pick'] % len(hs)]]['trainable'] = False
        B = mg.build(m, extra=dict(ext, first={}))
    finally:
        mg.mk_paq, mg.mk_kq = old
    model = mg.nest(B, s['wrap']) if s['wrap'] else B.model
    n0, n1 = len(m['inputs']), len(m['inputs']) + len(m['nodes'])
    return B, model, {k: bool(not s['lt'] and hs and n0 <= k < n1 and nd['t'] == hs[s['pick'] % len(hs)]) for k, nd in enumerate(B.nds)}


def check(s):
    import HGQ
    import keras
    import tensorflow as tf
    from HGQ.proxy import to_proxy_model
    with sut('building the model'):
        B, model, frozen0 = make(s)
    lo, hi = s['clip']
    x = mg.as_input(B.data)
    hgq = [lay for lay in B.layers if hasattr(lay, 'paq')]
    R = roles(B.layers)
    frozen = {j: bool(frozen0.get(j)) for j in range(len(B.layers))}  # at creation: bitwidths of frozen layers are made non-trainable for good
    every = False
    traced = False
    thawed = False

    def snap():
        return {k: v.numpy().copy() for k, (v, _) in R.items()}

    def same(a, b, what, keys):
        for k in keys:
            u, v = a[k], b[k]
            ok = np.array_equal(u, v, equal_nan=True)
            if not ok and k[1].endswith('_bw'):
                ok = np.array_equal(np.clip(u, lo, hi), v, equal_nan=True)  # bitwidths outside the allowed range are clipped on first use
            require(ok, lambda: f'{what} changed {k[1]} of layer {k[0]} ({type(B.layers[k[0]]).__name__}): {u.ravel()[:4]} -> {v.ravel()[:4]}')

    def movable(k):
        j, role = k
        v, t = R[k]
        if not t or every or frozen[j] or live.get(j):
            return False
        return True
    live = {}  # layers frozen by hand
    seen = set()
    for n, (op, arg) in enumerate(s['ops']):
        before = snap()
        what = f'op {n} {op}'
        with sut(what):
            if op == 'infer':
                model(x, training=False)
            elif op == 'infer_none':
                model(x)
            elif op == 'predict':
                model.predict(x, verbose=0, batch_size=2)
            elif op == 'bits':
                if traced:
                    for lay in B.layers:
                        lay.act_bw, lay.act_bw_exact
                        if getattr(lay, 'kernel', None) is not None:
                            lay.kernel_bw, lay.kernel_bw_exact, lay.fused_qkernel
            elif op == 'bops':
                if traced:
                    for lay in hgq:
                        lay.compute_exact_bops
            elif op == 'config':
                model.get_config()
            elif op == 'save':
                p = os.path.join(tempfile.gettempdir(), 'c20.weights.h5')
                model.save_weights(p)
                os.unlink(p)
            elif op in ('proxy', 'proxy_reg'):
                if traced:
                    to_proxy_model(model, aggressive=bool(arg % 2), skip_precision_reg=op == 'proxy' or any(nd.get('act') == 'softmax' for nd in B.nds))(x)
            elif op == 'losses':
                model(x, training=False)
                model.losses
            elif op == 'trace':
                HGQ.trace_minmax(model, x, verbose=False, bsz=[1, 2, 3, 16384][arg % 4], cover_factor=[1.0, 1.0, 1.25, 1.5, 2.0][arg % 5])
                traced = True
            elif op == 'train_fwd':
                model(x, training=True)
            elif op == 'train':
                with tf.GradientTape() as tape:
                    o = mg.outs_np_tf(model(x, training=True))
                    loss = sum(tf.reduce_mean((v - 0.3)**2) for v in o) + sum(model.losses)
                tv = model.trainable_variables
                g = tape.gradient(loss, tv)
                keras.optimizers.SGD(s['lr'], clipvalue=1.0).apply_gradients([(a, v) for a, v in zip(g, tv) if a is not None])
            elif op == 'fit':
                y = [np.zeros_like(v) for v in mg.outs_np(model(x, training=False))]
                cbs = [HGQ.ResetMinMax()] + [[], [HGQ.FreeBOPs()], [HGQ.CalibratedBOPs(x, 4)]][arg % 3]
                model.compile(optimizer=keras.optimizers.SGD(s['lr'], clipvalue=1.0), loss='mse')
                model.fit(x, y if len(y) > 1 else y[0], epochs=1 + arg % 2, batch_size=4, verbose=0, callbacks=cbs)
                traced = arg % 3 == 2
            elif op == 'freeze':
                model.trainable = False
                every = True
            elif op == 'thaw':
                model.trainable = True
                every, thawed = False, True
                live.clear()
                for j in frozen:
                    frozen[j] = False
            elif op == 'freeze_one' and hgq:
                lay = hgq[arg % len(hgq)]
                j = next(i for i, v in enumerate(B.layers) if v is lay)
                if not every:
                    lay.trainable = False
                    live[j] = True
            after = snap()
        seen.add(op)
        if s['adapt'] and op in ('train', 'train_fwd', 'fit'):  # the one-off adaptation of dense batch-norm kernels
            for j, lay in enumerate(B.layers):
                if (j, 'kernel_bw') in before and type(lay).__name__ == 'HDenseBatchNorm':
                    before[j, 'kernel_bw'] = after[j, 'kernel_bw']
        # what training may and may not move
        tvars = {id(v) for v in model.trainable_variables}
        for k, (v, t) in R.items():
            if thawed and frozen0.get(k[0]) and k[1].endswith('_bw'):
                continue  # created frozen, then thawed: not specified
            can = movable(k)
            require((id(v) in tvars) == can, lambda: f'{what}: {k[1]} of layer {k[0]} ({type(B.layers[k[0]]).__name__}) is {"" if id(v) in tvars else "not "}trainable')
        if op in ('train', 'fit'):
            still = [k for k in R if not movable(k) and k[1] not in ('min', 'max', 'moving_mean', 'moving_variance')]
            same(before, after, what, still)
            traced = traced and op == 'fit'
        elif op == 'train_fwd':
            same(before, after, what, [k for k in R if k[1] not in ('min', 'max', 'moving_mean', 'moving_variance')])
        elif op == 'trace':
            same(before, after, what, [k for k in R if k[1] not in ('min', 'max')])
        else:
            same(before, after, what, list(R))
    return dict(nontrivial=len(seen) > 1 and len(hgq) > 1, labels=sorted(seen) + mg.labels_of(s['m'])[:0])


def check_jit(s):
    import tensorflow as tf
    tf.config.run_functions_eagerly(False)
    try:
        return check(s)
    finally:
        tf.config.run_functions_eagerly(True)


SUBS = [Sub('histories', spec, check), Sub('jit', lambda: spec(3, 2), check_jit)]
