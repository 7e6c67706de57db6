"""C18: adaptation of kernel bitwidths."""
import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Sub, require, sut

SKIPS = {'HDense': [None, 'all', 'except_last', [0], [1]], 'HConv1D': [None, 'all', 'except_last', [0], [2], [0, 1], 'except_1st'],
         'HConv2D': [None, 'all', 'except_last', [0], [3], [0, 1], [2, 3]]}


@st.composite
def weights(draw):
    return {'seed': draw(st.integers(0, 2**31)), 'style': draw(st.sampled_from(['normal', 'loguniform', 'pow2', 'zeros', 'near'])), 'exp': draw(st.integers(-4, 3))}


def mk_w(shape, w):
    rng = np.random.default_rng(w['seed'])
    v = rng.normal(0, 1, shape)
    if w['style'] == 'loguniform':
        v = np.sign(v) * np.exp2(rng.uniform(-6, 4, shape))
    elif w['style'] == 'pow2':
        v = np.sign(v) * np.exp2(rng.integers(-6, 5, shape).astype(np.float64))
    elif w['style'] == 'near':
        v = np.sign(v) * np.exp2(rng.integers(-6, 5, shape).astype(np.float64)) * (1 + rng.choice([-1, 1], shape) * 2.0**-8)
    elif w['style'] == 'zeros':
        v = v * (rng.random(shape) < 0.6)
    else:
        v = np.where(np.abs(v) < 2.0**-8, 2.0**-8, v)
    return (v * 2.0**w['exp']).astype(np.float32)


def expect(ref, init, skip, f_shape):
    """init - log2|ref|, smallest over every shared group; +inf where the whole group is zero."""
    with np.errstate(divide='ignore'):
        f = init - np.log2(np.abs(np.asarray(ref, np.float64)))
    ax = tuple(d for d in range(f.ndim) if f_shape[d] == 1 and f.shape[d] != 1)
    return f.min(axis=ax, keepdims=True) if ax else f


def close(got, want, hi, tol=2e-3):
    w = np.where(np.isinf(want), np.inf, want)
    got = np.asarray(got, np.float64)
    return got.shape == w.shape and np.all(np.where(np.isinf(w), got >= hi, np.abs(got - np.where(np.isinf(w), 0, w)) <= tol))


@st.composite
def spec(draw):
    t = draw(st.sampled_from(['HDense', 'HConv1D', 'HConv2D']))
    bn = draw(st.booleans())
    s = {'t': t, 'bn': bn, 'skip': draw(st.sampled_from(SKIPS[t])), 'init': draw(st.sampled_from([0, 1, 2, 3, 2.5, 6])), 'adapt': draw(st.sampled_from([True, True, True, False])),
         'w': draw(weights()), 'out': draw(st.integers(1, 4)), 'bias': draw(st.booleans()), 'shift': draw(st.integers(-3, 3)),
         'padding': draw(st.sampled_from(['valid', 'same'])), 'stride': draw(st.sampled_from([1, 1, 2]))}
    # shape so that skipping works whatever the sizes
    s['in'] = {'HDense': [draw(st.integers(1, 5))], 'HConv1D': [draw(st.integers(3, 5)), draw(st.integers(1, 3))],
               'HConv2D': [draw(st.integers(3, 4)), draw(st.integers(3, 4)), draw(st.integers(1, 2))]}[t]
    s['ks'] = [draw(st.integers(1, 2)) for _ in range(len(s['in']) - 1)]
    if bn:
        s['center'], s['scale'] = draw(st.booleans()), draw(st.sampled_from([True, True, False]))
        s['eps'] = draw(st.sampled_from([1e-3, 0.5, 1e-5]))
    s['frozen'] = draw(st.sampled_from([False, False, True]))
    s['act'] = draw(st.sampled_from(['linear', 'linear', 'relu']))
    s['ops'] = draw(st.lists(st.sampled_from(['train', 'infer', 'record', 'train']), min_size=1, max_size=6))
    return s


def make(s, w):
    import HGQ
    import HGQ.layers as L
    import keras
    kq, paq = HGQ.get_default_kq_conf(), HGQ.get_default_paq_conf()
    kq['skip_dims'] = tuple(s['skip']) if isinstance(s['skip'], list) else s['skip']
    kq['init_bw'] = s['init']
    paq['init_bw'] = 10
    kw = dict(kq_conf=kq, paq_conf=paq, use_bias=s['bias'], kernel_initializer=lambda shape, dtype=None, **k: w, activation=s['act'])
    if s.get('frozen'):
        kw['trainable'] = False
    if not s['adapt']:
        kw['do_adapt_kernel_bits'] = False
    if s['bn']:
        kw.update(center=s['center'], scale=s['scale'], epsilon=s['eps'])
    name = s['t'] + ('BatchNorm' if s['bn'] else '')
    with sut(f'building {name}'):
        if s['t'] == 'HDense':
            lay = getattr(L, name)(s['out'], **kw)
        else:
            ks = tuple(s['ks']) if len(s['ks']) > 1 else s['ks'][0]
            lay = getattr(L, name)(s['out'], ks, padding=s['padding'], strides=s['stride'], **kw)
        x = keras.Input(tuple(s['in']))
        model = keras.Model(x, lay(L.HQuantize(paq_conf=dict(paq))(x)))  # exact for the data used
    return lay, model


def check(s):
    import keras
    keras.backend.clear_session()
    wshape = tuple(s['ks']) + (s['in'][-1], s['out'])
    w = mk_w(wshape, s['w'])
    lay, model = make(s, w)
    clip = lay.kq.bw_clip
    lo, hi = clip
    f0 = lay.kq.fbw.numpy().astype(np.float64)
    late = s['bn'] and s['t'] == 'HDense'  # fused dense layers wait for the first training step
    delayed = late and s['adapt']
    base = np.full(f0.shape, float(s['init']))
    want = expect(w, s['init'], s['skip'], f0.shape) if s['adapt'] and not late else base
    require(close(f0, want, hi), lambda: f'after building: bitwidths {f0.ravel()[:4]}, expected {want.ravel()[:4]} (weights {w.ravel()[:4]})')
    cur = np.clip(want, lo, hi)
    rng = np.random.default_rng(s['w']['seed'] + 1)
    scaled = None
    labels = [s['t'] + ('BN' if s['bn'] else ''), f"skip={s['skip']}", s['w']['style']]
    if not s['adapt']:
        labels.append('disabled')
    if s['frozen']:
        labels.append('frozen layer')
    for n, op in enumerate(s['ops']):
        x = (np.round(rng.normal(0, 1, (6,) + tuple(s['in'])) * 64) / 64).astype(np.float32)
        with sut(f'{op} call'):
            if op == 'train':
                model(x, training=True)
            elif op == 'infer':
                model(x, training=False)
            else:
                model.layers[1](x, training=False, record_minmax=True)
                lay(x, training=False, record_minmax=True)
        f = lay.kq.fbw.numpy().astype(np.float64)
        if op == 'train' and delayed:
            delayed = False
            if not s['scale']:
                want = expect(w, s['init'], s['skip'], f0.shape)
                require(close(f, np.clip(want, lo, hi), hi), lambda: f'first training step: bitwidths {f.ravel()[:4]}, expected {want.ravel()[:4]}')
            else:
                # kernel scaled per output channel: fbw + log2|kernel| depends on the channel only (for the variance: see below)
                z = np.matmul(x.astype(np.float64), w) if s['t'] == 'HDense' else refs.conv_nd(x.astype(np.float64), w.astype(np.float64), lay.strides, s['padding'], lay.dilation_rate)
                var = z.var(axis=tuple(range(z.ndim - 1)))
                sc = 1 / np.sqrt(var + s['eps'])
                if s['act'] == 'linear' and s['eps'] <= 1e-3 and np.all(np.isfinite(f)):
                    want = np.clip(expect(w * sc, s['init'], s['skip'], f0.shape), lo, hi)
                    ok = var.min() > 1e-2
                    labels.append('variance checked' if ok else 'variance too small')
                    require(not ok or close(f, want, hi, 2e-2), lambda: f'first training step: bitwidths {f.ravel()[:4]}, expected {want.ravel()[:4]} (from batch variances {var[:4]})')
                if f.shape == w.shape:
                    with np.errstate(divide='ignore'):
                        c = f + np.log2(np.abs(w.astype(np.float64)))
                    inner = np.isfinite(c) & (f > lo) & (f < hi)
                    for ch in range(w.shape[-1]):
                        v = c[..., ch][inner[..., ch]]
                        require(v.size < 2 or np.ptp(v) < 5e-3, lambda: f'first training step: relative precision differs inside output channel {ch}: {v[:4]}')
                        labels.append('channels compared')
            cur = np.clip(f, lo, hi)
        else:
            require(close(f, cur, hi) or close(np.clip(f, lo, hi), cur, hi), lambda: f'call {n} ({op}) changed the bitwidths: {cur.ravel()[:4]} -> {f.ravel()[:4]}')
    # scaling the weights by a power of two shifts the bitwidths and scales the quantised kernel
    if s['adapt'] and not late:
        k = s['shift']
        lay2, _ = make(s, (w * np.float32(2.0**k)))
        f2 = np.clip(lay2.kq.fbw.numpy().astype(np.float64), -1e9, 1e9)
        f1 = np.clip(f0, -1e9, 1e9)
        fin = np.isfinite(f0)
        require(np.array_equal(fin, np.isfinite(lay2.kq.fbw.numpy())) and np.all(np.abs(f2 + k - f1)[fin] < 2e-3), lambda: f'weights scaled by 2^{k}: bitwidths {f1.ravel()[:4]} -> {f2.ravel()[:4]}')
        q1, q2 = (np.asarray(v.kq(v.kernel, training=False), np.float64) for v in (lay, lay2))
        safe = fin & (np.abs(f1 - np.floor(f1) - 0.5) > 5e-3) & (f1 > lo + 4) & (f1 < hi - 4)
        safe = np.broadcast_to(safe, w.shape)
        require(np.array_equal((q1 * 2.0**k)[safe], q2[safe]), lambda: f'weights scaled by 2^{k}: quantised kernels are not scaled')
        if not s['skip']:
            # the same relative precision for every weight
            err = np.abs(q1 - w)[safe] / np.abs(w[safe])
            bound = 2.0**(-s['init'] + 0.5) / 2 * 1.01
            require(err.size == 0 or err.max() <= bound, lambda: f'relative error {err.max()} above {bound} after adaptation')
    return dict(nontrivial=s['adapt'] and np.unique(np.abs(w)).size > 1, labels=labels)


# ------------------------------------------------------------------------------------------ under a compiled training loop
@st.composite
def fit_spec(draw):
    return {'t': draw(st.sampled_from(['HDense', 'HDense', 'HConv1D'])), 'bn': True, 'skip': draw(st.sampled_from([None, 'all', [0]])), 'init': draw(st.sampled_from([1, 2, 3])),
            'adapt': draw(st.sampled_from([True, True, False])), 'w': {'seed': draw(st.integers(0, 2**31)), 'style': 'loguniform', 'exp': -1}, 'out': draw(st.integers(1, 3)), 'bias': True,
            'padding': 'valid', 'stride': 1, 'in': draw(st.sampled_from([[4, 2]])), 'ks': [2], 'center': draw(st.booleans()), 'scale': draw(st.booleans()), 'eps': 1e-3, 'act': 'linear',
            'opt': draw(st.sampled_from(['sgd', 'adam', 'momentum'])), 'prebuilt': draw(st.booleans()), 'steps': draw(st.integers(1, 4)), 'epochs': draw(st.integers(1, 2)), 'eval': draw(st.booleans())}


def check_fit(s):
    import keras
    import tensorflow as tf
    s = dict(s)
    if s['t'] == 'HDense':
        s['in'], s['ks'] = s['in'][-1:], []
    tf.config.run_functions_eagerly(False)
    try:
        keras.backend.clear_session()
        w = mk_w(tuple(s['ks']) + (s['in'][-1], s['out']), s['w'])
        lay, model = make(s, w)
        lo, hi = lay.kq.bw_clip
        rng = np.random.default_rng(s['w']['seed'] + 1)
        n = 8
        x = (np.round(rng.normal(0, 1, (n * s['steps'],) + tuple(s['in'])) * 64) / 64).astype(np.float32)
        with sut('fit'):
            opt = {'sgd': lambda: keras.optimizers.SGD(0.0), 'adam': lambda: keras.optimizers.Adam(0.0), 'momentum': lambda: keras.optimizers.SGD(0.0, momentum=0.9)}[s['opt']]()
            model.compile(opt, 'mse')
            if s['prebuilt']:
                opt.build(model.trainable_variables)
            y = np.zeros((len(x),) + tuple(model.output_shape[1:]), np.float32)
            if s['eval']:
                model.evaluate(x[:n], y[:n], verbose=0)
                f = lay.kq.fbw.numpy()
                require(s['t'] != 'HDense' or np.all(f == s['init']), lambda: f'evaluation adapted the bitwidths: {f.ravel()[:4]}')
            model.fit(x, y, batch_size=n, epochs=s['epochs'], shuffle=False, verbose=0)
        f = lay.kq.fbw.numpy().astype(np.float64)
    finally:
        tf.config.run_functions_eagerly(True)
    if not s['adapt']:
        want = np.full(f.shape, float(s['init']))
    elif not s['scale'] or s['t'] != 'HDense':
        want = expect(w, s['init'], s['skip'], f.shape)
    else:
        x0 = x[:n].astype(np.float64)
        z = np.matmul(x0, w) if s['t'] == 'HDense' else refs.conv_nd(x0, w.astype(np.float64), lay.strides, 'valid', lay.dilation_rate)
        var = z.var(axis=tuple(range(z.ndim - 1)))
        want = expect(w / np.sqrt(var + s['eps']), s['init'], s['skip'], f.shape)
        if var.min() < 1e-2:
            return dict(nontrivial=False, labels=['variance too small'])
    want = np.clip(want, lo, hi)
    require(close(f, want, hi, 3e-2), lambda: f"after {s['epochs']}x{s['steps']} compiled training steps: bitwidths {f.ravel()[:4]}, one adaptation gives {want.ravel()[:4]}")
    return dict(nontrivial=s['adapt'], labels=[s['opt'], 'prebuilt optimiser' if s['prebuilt'] else 'fresh optimiser', f"{s['epochs'] * s['steps']} steps"])


SUBS = [Sub('eager', spec, check), Sub('fit', fit_spec, check_fit)]
