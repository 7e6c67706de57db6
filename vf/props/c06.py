"""C06: recorded min/max == min/max of what was quantised while recording since the last reset, over call histories."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, require, sut
from ..modelgen import rng_for
from .c04 import make, quant_spec


# ---------------------------------------------------------------- quantiser level
@st.composite
def q_hist(draw):
    s = draw(quant_spec())
    s['exact'] = True
    op = st.one_of(st.tuples(st.just('call'), st.sampled_from([True, False, None]), st.sampled_from([True, True, False, None]), st.integers(0, 99), st.integers(1, 5)),
                   st.tuples(st.just('reset')), st.tuples(st.just('bias'), st.booleans()))
    s['ops'] = [list(o) for o in draw(st.lists(op, min_size=1, max_size=8))]
    return s


def check_q(s):
    import tensorflow as tf
    q, f = make(s)
    fs = tuple(q.fbw.shape)
    ax = tuple(d for d in range(len(fs)) if fs[d] == 1)
    vary = s['shape'][0] > 1 and fs[0] == 1  # the batch axis is shared: any batch size may follow
    lo, hi = np.full(fs, np.inf), np.full(fs, -np.inf)
    tf.random.set_seed(s['seed'])
    nrec = 0

    def group(y, red):
        # axes of size 1 in the bitwidth map are shared (or trivially of size one)
        return red(y, axis=ax, keepdims=True) if ax else y
    for n, op in enumerate(s['ops']):
        if op[0] == 'call':
            shape = list(s['shape'])
            if vary:
                shape[0] = op[4]
            rng = rng_for(s, 'x', op[3])
            x = (rng.integers(-200, 200, shape) / 16).astype(np.float32) * np.float32(2.0**rng.integers(-2, 3))
            with sut('quantiser call'):
                y = np.asarray(q(tf.constant(x), training=op[1], record_minmax=op[2]))
            if op[2]:
                lo, hi = np.minimum(lo, group(y, np.min)), np.maximum(hi, group(y, np.max))
                nrec += 1
        elif op[0] == 'bias':
            if len(fs) < 2:
                continue
            with sut('bias_forward'):
                q.bias_forward(tf.constant(np.ones(s['shape'][-1], np.float32) * 1000), op[1], -1)
        else:
            with sut('minmax reset'):
                q.minmax_reg_reset()
            lo[...], hi[...] = np.inf, -np.inf
        gl, gh = q._min.numpy(), q._max.numpy()
        require(gl.shape == fs and np.array_equal(gl, lo), lambda: f'after op {n} {op}: recorded min {gl.tolist()}, quantised min {lo.tolist()}')
        require(gh.shape == fs and np.array_equal(gh, hi), lambda: f'after op {n} {op}: recorded max {gh.tolist()}, quantised max {hi.tolist()}')
    return dict(nontrivial=nrec >= 1 and len(s['ops']) > 1, labels=['recorded' if nrec else 'none'] + [o[0] for o in s['ops']])


# ---------------------------------------------------------------- model level
@st.composite
def m_hist(draw, nmax=4):
    kinds = st.sampled_from(['HQuantize', 'HDense', 'HDenseRelu', 'HActivation', 'HConv', 'HConv', 'HConvBatchNorm', 'HAdd', 'PFlatten', 'HDenseBatchNorm'])
    batch = st.integers(1, 6)
    op = st.one_of(
        st.tuples(st.just('train'), st.integers(0, 99), batch), st.tuples(st.just('infer'), st.integers(0, 99), batch), st.tuples(st.just('infer'), st.integers(0, 99), batch),
        st.tuples(st.just('predict'), st.integers(0, 99), batch), st.tuples(st.just('reset')), st.tuples(st.just('trace'), st.integers(0, 99), batch, st.integers(1, 4)),
        st.tuples(st.just('trace_begin'), st.integers(0, 99), batch), st.tuples(st.just('trace_more'), st.integers(0, 99), batch),
        st.tuples(st.just('trace_end'), st.integers(0, 99), batch), st.tuples(st.just('epoch_end')), st.tuples(st.just('fit')), st.tuples(st.just('explicit'), st.integers(0, 99), batch))
    return {'seed': draw(st.integers(0, 2**20)), 'shape': draw(st.sampled_from([[4, 2], [4, 2], [2, 2, 2]])), 'layers': draw(st.lists(kinds, min_size=1, max_size=nmax)), 'nest': draw(st.integers(0, 2)), 'tail': draw(st.lists(kinds, max_size=1)) if nmax > 2 else [],
            'rnd': draw(st.sampled_from(['standard_round', 'floor', 'stochastic_round', 'auto', 'fast_uniform_noise_injection'])),
            'skip': draw(st.sampled_from(['batch', 'all', 'except_last', 'except_1st'])), 'freeze': draw(st.lists(st.sampled_from([None, None, None, 'paq', 'layer']), min_size=1, max_size=5)), 'ops': [list(o) for o in draw(st.lists(op, min_size=2, max_size=7))]}


def build_model(s):
    """A chain that outputs every intermediate tensor, so what each layer returned is observable; optionally split into nested models."""
    import HGQ
    import HGQ.layers as L
    import keras
    keras.backend.clear_session()
    conf0 = dict(HGQ.get_default_paq_conf(), rnd_strategy=s['rnd'], skip_dims=s['skip'])
    rng = rng_for(s, 'w')
    relu = set()
    layers = []

    def add(x, kind):
        fz = s.get('freeze', [None])[len(layers) % len(s.get('freeze', [None]))]
        conf = dict(conf0, trainable=fz != 'paq')
        if kind == 'HQuantize':
            lay = L.HQuantize(paq_conf=conf)
        elif kind in ('HDense', 'HDenseRelu'):
            lay = L.HDense(3, activation='relu' if kind == 'HDenseRelu' else None, paq_conf=conf)
        elif kind == 'HDenseBatchNorm':
            lay = L.HDenseBatchNorm(3, paq_conf=conf)
        elif kind == 'HActivation':
            lay = L.HActivation('tanh', paq_conf=conf)
        elif kind in ('HConv', 'HConvBatchNorm') and len(x.shape) in (3, 4):
            lay = getattr(L, kind.replace('HConv', f'HConv{len(x.shape) - 2}D'))(2, 2, padding='same', paq_conf=conf)
        elif kind == 'HAdd':
            lay = L.HAdd(paq_conf=conf)
            y = lay([x, x])
            layers.append(lay)
            return y
        elif kind == 'PFlatten':
            lay = L.PFlatten()
        else:
            lay = L.HQuantize(paq_conf=conf)
        if kind == 'HDenseRelu':
            relu.add(id(lay))
        layers.append(lay)
        return lay(x)

    def chain(x, kinds, outs):
        for k in kinds:
            x = add(x, k)
            outs.append(x)
        return x
    inp = keras.Input(tuple(s['shape']))
    outs, ks = [], ['HQuantize'] + s['layers']
    cut = len(ks) // 2 if s['nest'] else len(ks)
    x = chain(inp, ks[:cut], outs)
    if cut < len(ks):
        ni = keras.Input(tuple(x.shape[1:]))
        nouts = []
        chain(ni, ['HQuantize'] + ks[cut:], nouts)
        nm = keras.Model(ni, nouts)
        if s['nest'] == 2:
            ni2 = keras.Input(tuple(x.shape[1:]))
            nm = keras.Model(ni2, nm(ni2))
        r = nm(x)
        outs.extend(r if isinstance(r, (list, tuple)) else [r])
        if s.get('tail'):  # layers after the nested model
            chain(outs[-1], ['HQuantize'] + s['tail'], outs)
    model = keras.Model(inp, outs)
    for j, lay in enumerate(layers):
        if s.get('freeze', [None])[j % len(s.get('freeze', [None]))] == 'layer' and hasattr(lay, 'paq'):
            lay.trainable = False
        if hasattr(lay, 'paq'):
            lay.paq.fbw.assign(rng.integers(0, 5, lay.paq.fbw.shape).astype(np.float32))
    return model, layers, relu


def check_jit(s):
    import tensorflow as tf
    tf.config.run_functions_eagerly(False)
    try:
        return check_m(s)
    finally:
        tf.config.run_functions_eagerly(True)


def check_m(s):
    import HGQ
    import keras
    with sut('building the model'):
        model, layers, relu = build_model(s)
    exp = {}

    def reset():
        for j, lay in enumerate(layers):
            if hasattr(lay, 'paq'):
                exp[j] = [np.full(lay.paq.fbw.shape, np.inf), np.full(lay.paq.fbw.shape, -np.inf)]

    def note(ys):
        for j, (lay, y) in enumerate(zip(layers, ys)):
            if j in exp:
                fs = exp[j][0].shape
                ax = tuple(d for d in range(len(fs)) if fs[d] == 1)
                y = np.asarray(y)
                exp[j][0] = np.minimum(exp[j][0], y.min(axis=ax, keepdims=True))
                exp[j][1] = np.maximum(exp[j][1], y.max(axis=ax, keepdims=True))
    reset()

    def data(tag, n):
        r = rng_for(s, 'd', tag)
        return (r.integers(-64, 65, [n] + s['shape']) / 16 * 2.0**r.integers(-1, 3)).astype(np.float32)

    def outs(y):
        return list(y) if isinstance(y, (list, tuple)) else [y]
    tracing = False
    nrec = 0
    for n, op in enumerate(s['ops']):
        kind = op[0]
        with sut(f'op {kind}'):
            if kind == 'train':
                note(outs(model(data(op[1], op[2]), training=True)))
                nrec += 1
            elif kind == 'infer':
                y = outs(model(data(op[1], op[2]), training=False))
                if tracing:
                    note(y)
            elif kind == 'predict':
                y = outs(model.predict(data(op[1], op[2]), verbose=0))
                if tracing:
                    note(y)
            elif kind == 'explicit':
                x = data(op[1], op[2])
                note([layers[0](x, training=False, record_minmax=True)])
                nrec += 1
            elif kind == 'reset':
                HGQ.ResetMinMax.reset_minmax(model)
                reset()
            elif kind == 'epoch_end':
                cb = HGQ.ResetMinMax()
                cb.set_model(model)
                cb.on_epoch_end(0, {})
                reset()
            elif kind == 'fit':
                if tracing:
                    continue
                model.compile(optimizer=keras.optimizers.SGD(0.0), loss='mse')
                x = data(7, 3)
                model.fit(x, outs(model(x)), epochs=1, verbose=0, callbacks=[HGQ.ResetMinMax()])
                reset()
            elif kind == 'trace' or kind == 'trace_begin':
                x = data(op[1], op[2])
                reset()
                HGQ.trace_minmax(model, x, bsz=op[3] if kind == 'trace' else 16384, verbose=False, no_bops_computation=kind == 'trace_begin')
                tracing = kind == 'trace_begin'
            elif kind in ('trace_more', 'trace_end'):  # goes on from the ranges there are, whether a trace is going on or not
                x = data(op[1], op[2])
                HGQ.trace_minmax(model, x, verbose=False, no_bops_computation=kind == 'trace_more', rst=False)
                tracing = kind == 'trace_more'
        if kind.startswith('trace'):
            with sut('inference'):
                flags = [getattr(lay, 'record_minmax', None) for lay in layers]
                for lay in layers:
                    if hasattr(lay, 'record_minmax'):
                        lay.record_minmax = False
                note(outs(model(x, training=False)))
                for lay, fl in zip(layers, flags):
                    if fl is not None:
                        lay.record_minmax = fl
            nrec += 1
            for j, lay in enumerate(layers):
                if type(lay).__name__ == 'HActivation':  # noise may have taken tanh beyond +-1 in training: a trace confines it again
                    exp[j] = [np.maximum(exp[j][0], -1), np.minimum(exp[j][1], 1)]
        for j, (lo, hi) in exp.items():
            gl, gh = layers[j].paq._min.numpy(), layers[j].paq._max.numpy()
            what = f'after op {n} {op}: layer {j} {type(layers[j]).__name__}'
            if id(layers[j]) in relu:  # only the positive part of what was recorded is visible downstream
                vis = hi > 0
                require(np.array_equal(gh[vis], hi[vis]) and np.all(gh[~vis] <= 0), lambda: f'{what}: recorded max {gh.tolist()}, seen max {hi.tolist()}')
                require(np.all(np.isinf(gl) == np.isinf(lo)), lambda: f'{what}: recorded min {gl.tolist()}')
                continue
            require(np.array_equal(gl, lo), lambda: f'{what}: recorded min {gl.tolist()}, quantised min {lo.tolist()}')
            require(np.array_equal(gh, hi), lambda: f'{what}: recorded max {gh.tolist()}, quantised max {hi.tolist()}')
    return dict(nontrivial=nrec > 0 and len({o[0] for o in s['ops']}) > 1, labels=[o[0] for o in s['ops']] + [f"nest={s['nest']}"])


SUBS = [Sub('quantiser', q_hist, check_q), Sub('model', m_hist, check_m), Sub('jit', lambda: m_hist(2), check_jit)]
