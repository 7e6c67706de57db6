"""C10: layers compute the Keras operation on quantised weights; batch-norm variants are the published formula."""
import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from .. import refs
from ..core import Discard, Sub, require, sut

HK = ('HDense', 'HDenseBatchNorm', 'HConv1D', 'HConv1DBatchNorm', 'HConv2D', 'HConv2DBatchNorm', 'HQuantize', 'HActivation', 'HAdd')


@st.composite
def spec(draw):
    return draw(mg.model_spec(max_nodes=2, kinds=HK, acts=('relu', 'linear', 'tanh', 'sigmoid', 'square', 'absneg'), n=(1, 8)))


def check(s):
    B = mg.build(s)
    import keras
    R = mg.RefRun(B, B.data)
    if not R.exact:
        raise Discard('beyond float32 mantissa')
    m = keras.Model(B.model.inputs, [lay.output for lay in B.layers])
    with sut('inference'):
        got = mg.outs_np(m(mg.as_input(B.data), training=None if s['seed'] % 4 == 1 else False))
    for k, nd in enumerate(B.nds):
        w = R.vals[k]
        require(got[k].shape == w.shape, lambda: f'layer {k} {nd["t"]}: shape {got[k].shape}, expected {w.shape}')
        require(np.array_equal(got[k].astype(np.float64), w), lambda: f'layer {k} {nd["t"]}: {got[k][got[k] != w][:3]}, expected {w[got[k] != w][:3]}')
    return dict(nontrivial=any(np.ptp(v) > 0 for v in R.vals if v.size), labels=mg.labels_of(s))


# ------------------------------------------------------------------------------------------ training
@st.composite
def train_spec(draw):
    t = draw(st.sampled_from(['HDense', 'HConv1D', 'HConv2D']))
    s = {'t': t, 'bn': draw(st.sampled_from([True, True, True, False])), 'seed': draw(st.integers(0, 2**31)), 'out': draw(st.integers(1, 4)), 'bias': draw(st.sampled_from([True, True, False])),
         'act': draw(st.sampled_from(['linear', 'linear', 'relu'])), 'padding': draw(st.sampled_from(['valid', 'same'])), 'stride': draw(st.sampled_from([1, 1, 2])), 'dil': draw(st.sampled_from([1, 1, 2])),
         'n': draw(st.integers(2, 8)), 'amp': draw(st.sampled_from([0.25, 1.0, 4.0])), 'steps': draw(st.integers(1, 3)), 'rnd': draw(st.sampled_from(['standard_round', 'floor'])),
         'skip': draw(st.sampled_from(['batch', 'all', 'except_last'])), 'exact': draw(st.booleans())}
    s['in'] = {'HDense': draw(st.sampled_from([[3], [4], [2, 3], [2, 2, 2]])), 'HConv1D': [draw(st.integers(3, 5)), draw(st.integers(1, 3))],
               'HConv2D': [draw(st.integers(3, 4)), draw(st.integers(3, 4)), draw(st.integers(1, 2))]}[t]
    s['ks'] = [] if t == 'HDense' else [draw(st.integers(1, 2)) for _ in range(len(s['in']) - 1)]
    if s['stride'] > 1:
        s['dil'] = 1
    if s['bn']:
        s.update(center=draw(st.booleans()), scale=draw(st.booleans()), eps=draw(st.sampled_from([1e-3, 1e-2, 0.5, 2.0])), mom=draw(st.sampled_from([0.0, 0.0, 0.5, 0.9, 0.99])))
    return s


def op(x, w, s):
    if s['t'] == 'HDense':
        return np.matmul(x, w)
    r = len(s['ks'])
    return refs.conv_nd(x, w, (s['stride'],) * r, s['padding'], (s['dil'],) * r)


def check_train(s):
    import HGQ
    import HGQ.layers as L
    import keras
    keras.backend.clear_session()
    rng = np.random.default_rng(s['seed'])
    kq, paq, iq = HGQ.get_default_kq_conf(), HGQ.get_default_paq_conf(), HGQ.get_default_paq_conf()
    F = 13
    kq['init_bw'] = paq['init_bw'] = F
    kq['rnd_strategy'] = paq['rnd_strategy'] = s['rnd']
    kq['exact_q_value'] = paq['exact_q_value'] = s['exact']
    paq['skip_dims'] = s['skip']
    iq['init_bw'] = 8
    kw = dict(kq_conf=kq, paq_conf=paq, use_bias=s['bias'], activation=s['act'], do_adapt_kernel_bits=False)
    if s['bn']:
        kw.update(center=s['center'], scale=s['scale'], epsilon=s['eps'], momentum=s['mom'])
    name = s['t'] + ('BatchNorm' if s['bn'] else '')
    with sut(f'building {name}'):
        if s['t'] == 'HDense':
            lay = getattr(L, name)(s['out'], **kw)
        else:
            lay = getattr(L, name)(s['out'], tuple(s['ks']) if len(s['ks']) > 1 else s['ks'][0], padding=s['padding'], strides=s['stride'], dilation_rate=s['dil'], **kw)
        xi = keras.Input(tuple(s['in']))
        model = keras.Model(xi, lay(L.HQuantize(paq_conf=iq)(xi)))
    w = rng.normal(0, s['amp'], lay.kernel.shape)
    w = w.astype(np.float32)
    lay.kernel.assign(w)
    w = w.astype(np.float64)
    b = np.zeros(s['out'])
    if s['bias']:
        b = rng.normal(0, 1, s['out']).astype(np.float32)
        lay.bias.assign(b)
        b = b.astype(np.float64)
    center = s['bn'] and s['center'] and s['bias']
    scale = s['bn'] and s['scale']
    g, be = np.ones(s['out']), np.zeros(s['out'])
    mm, mv = np.zeros(s['out']), np.ones(s['out'])
    if scale:
        g = rng.choice([1.0, 0.5, -1.5, 2.0], s['out'])
        mv = rng.uniform(0.5, 2, s['out']).astype(np.float32).astype(np.float64)
        lay.bn_gamma.assign(g.astype(np.float32))
        lay.moving_variance.assign(mv.astype(np.float32))
    if center:
        be = rng.normal(0, 1, s['out']).astype(np.float32).astype(np.float64)
        mm = rng.normal(0, 1, s['out']).astype(np.float32).astype(np.float64)
        lay.bn_beta.assign(be.astype(np.float32))
        lay.moving_mean.assign(mm.astype(np.float32))
    labels = [name, s['act'], f"center={center}", f"scale={scale}"]
    act = (lambda v: np.maximum(v, 0)) if s['act'] == 'relu' else (lambda v: v)
    step = 2.0**-F

    def tol(x, sc):
        # kernel step times the inputs of one sum + bias step + output step, in floor mode a full step each, plus float32
        fan = op(np.abs(x), np.ones_like(w), s).max()
        mag = op(np.abs(x), np.abs(w) * np.abs(sc), s).max() + np.abs(b).max() + 4
        return step * (fan + 3) + mag * 2e-6 * np.maximum(1, np.abs(sc).max())

    def formula(x, mean, var):
        sc = g / np.sqrt(var + s['eps']) if scale else np.ones(s['out'])
        z = op(x, w * sc, s) + b
        if center:
            z = z - mean * sc + be
        return act(z), sc

    for n in range(s['steps']):
        x = np.round(rng.normal(0, 1, (s['n'],) + tuple(s['in'])) * 16) / 16
        z = op(x, w, s)
        ax = tuple(range(z.ndim - 1))
        if s['bn']:
            bm, bv = z.mean(axis=ax) + b, z.var(axis=ax)
            want, sc = formula(x, bm, bv)
            if scale and (bv + s['eps']).min() < 5e-3:
                raise Discard('degenerate variance')
        else:
            want, sc = act(z + b), np.ones(s['out'])
        t = tol(x, sc)
        if s['bn']:
            t = t + (np.abs(bm).max() * 4e-6 * np.abs(sc).max() + (0 if scale else step * op(np.abs(x), np.ones_like(w), s).max()))
        with sut('training call'):
            got = np.asarray(model(x.astype(np.float32), training=True), np.float64)
        require(got.shape == want.shape, lambda: f'{name}: training output of shape {got.shape}, expected {want.shape}')
        d = np.abs(got - want)
        require(d.max() <= t, lambda: f'{name} step {n}: training output off by {d.max()} (allowed {t}): {got.ravel()[d.argmax()]} vs {want.ravel()[d.argmax()]}')
        if s['bn']:
            if center:
                mm = s['mom'] * mm + (1 - s['mom']) * bm
                got_m = lay.moving_mean.numpy().astype(np.float64)
                tm = 1e-5 * (1 + np.abs(mm)) + (0 if scale else 2 * step * np.abs(x).max() * np.prod(w.shape[:-1]))
                require(got_m.shape == mm.shape and np.all(np.abs(got_m - mm) <= tm), lambda: f'{name} step {n}: moving mean {got_m}, expected {mm}')
                mm = got_m
            if scale:
                mv = s['mom'] * mv + (1 - s['mom']) * bv
                got_v = lay.moving_variance.numpy().astype(np.float64)
                require(got_v.shape == mv.shape and np.all(np.abs(got_v - mv) <= 1e-5 * (1 + mv)), lambda: f'{name} step {n}: moving variance {got_v}, expected {mv}')
                mv = got_v
        # inference with the moving statistics as they are now
        with sut('inference call'):
            ev = np.asarray(model(x.astype(np.float32), training=False), np.float64)
        want_e, sce = formula(x, mm, mv) if s['bn'] else (want, sc)
        te = tol(x, sce) + np.abs(mm).max() * 4e-6 * np.abs(sce).max()
        d = np.abs(ev - want_e)
        require(d.max() <= te, lambda: f'{name} step {n}: inference output off by {d.max()} (allowed {te})')
        if s['bn']:
            for v, e in ((lay.moving_mean, mm), (lay.moving_variance, mv)):
                require(np.all(v.numpy() == np.float32(e)) or not (center and v is lay.moving_mean or scale and v is lay.moving_variance), f'{name}: inference changed the moving statistics')
        if s['bn'] and s['mom'] == 0.0 and (center or scale):
            d = np.abs(ev - got)
            require(d.max() <= t + te, lambda: f'{name} step {n}: moving statistics equal the batch, yet training and inference differ by {d.max()}')
            labels.append('train=inference')
    return dict(nontrivial=np.ptp(want) > 0, labels=labels)


# ------------------------------------------------------------------------------------------ passive layers
@st.composite
def passive_spec(draw):
    t = draw(st.sampled_from(['PReshape', 'PFlatten', 'PPermute', 'PConcatenate', 'PDropout', 'PMaxPool1D', 'PAvgPool1D', 'PMaxPool2D', 'PAvgPool2D', 'Signature', 'HAdd']))
    s = {'t': t, 'seed': draw(st.integers(0, 2**31)), 'n': draw(st.integers(1, 4)), 'style': draw(st.sampled_from(['normal', 'big', 'tiny', 'int', 'mixed']))}
    rank = 2 if '1D' in t else 3 if '2D' in t else draw(st.integers(1, 3))
    s['shape'] = [draw(st.integers(1, 5)) for _ in range(rank)]
    if t == 'PReshape':
        n = int(np.prod(s['shape']))
        s['to'] = mg.factorize(draw, n, draw(st.integers(1, 3)))
        if draw(st.booleans()):
            s['to'][draw(st.integers(0, len(s['to']) - 1))] = -1
    elif t == 'PPermute':
        s['dims'] = draw(st.permutations(list(range(1, rank + 1))))
    elif t == 'PConcatenate':
        ax = draw(st.integers(1, rank))
        s['k'] = draw(st.integers(2, 4))
        s['sizes'] = [draw(st.integers(1, 4)) for _ in range(s['k'])]
        s['axis'] = ax if draw(st.booleans()) else ax - rank - 1
        s['ax'] = ax
    elif t == 'HAdd':
        s['k'] = draw(st.integers(2, 4))
    elif 'Pool' in t:
        dims = s['shape'][:-1]
        s['padding'] = draw(st.sampled_from(['valid', 'same']))
        s['size'] = [draw(st.integers(1, d)) for d in dims]
        s['strides'] = draw(st.sampled_from([None, 'own']))
        if s['strides']:
            s['strides'] = [draw(st.integers(1, 3)) for _ in dims]
    elif t == 'PDropout':
        s['rate'] = draw(st.sampled_from([0.0, 0.25, 0.5, 0.75]))
    return s


def check_passive(s):
    import HGQ
    import HGQ.layers as L
    import keras
    import tensorflow as tf
    K = keras.layers
    keras.backend.clear_session()
    rng = np.random.default_rng(s['seed'])

    def data(shape):
        x = rng.normal(0, 1, shape)
        return {'normal': x, 'big': x * 1e20, 'tiny': x * 1e-20, 'int': np.round(x * 4), 'mixed': x * 10.0**rng.integers(-10, 10, shape)}[s['style']].astype(np.float32)
    t = s['t']
    xs = [data((s['n'], *s['shape']))]
    tup = lambda v: None if v is None else tuple(v) if len(v) > 1 else v[0]
    exact = True
    with sut(f'building {t}'):
        if t == 'PReshape':
            a, b = L.PReshape(tuple(s['to'])), K.Reshape(tuple(s['to']))
        elif t == 'PFlatten':
            a, b = L.PFlatten(), K.Flatten()
        elif t == 'PPermute':
            a, b = L.PPermute(tuple(s['dims'])), K.Permute(tuple(s['dims']))
        elif t == 'PConcatenate':
            xs = []
            for z in s['sizes']:
                shp = list(s['shape'])
                shp[s['ax'] - 1] = z
                xs.append(data((s['n'], *shp)))
            a, b = L.PConcatenate(axis=s['axis']), K.Concatenate(axis=s['axis'])
        elif t == 'HAdd':
            xs = [np.clip(data((s['n'], *s['shape'])), -2.0**12, 2.0**12) for _ in range(s['k'])]
            xs = [(np.round(x * 4) / 4).astype(np.float32) for x in xs]
            c = HGQ.get_default_paq_conf()
            a, b = L.HAdd(paq_conf=c), K.Add()
        elif 'Pool' in t:
            a, b = (getattr(m, n)(tup(s['size']), strides=tup(s['strides']), padding=s['padding'])
                    for m, n in ((L, t), (K, t[1:].replace('MaxPool', 'MaxPooling').replace('AvgPool', 'AveragePooling'))))
        elif t == 'PDropout':
            a, b = L.PDropout(s['rate']), K.Dropout(s['rate'])
        else:
            a, b = L.Signature(1, 8, 4), K.Layer()
        ins = [keras.Input(x.shape[1:]) for x in xs]
        pre = [L.Signature(1, 32, 16)(i) for i in ins]
        ma = keras.Model(mg.as_input(ins), a(mg.as_input(pre)))
    ins = [keras.Input(x.shape[1:]) for x in xs]
    mb = keras.Model(mg.as_input(ins), b(mg.as_input(ins)))
    for training in ((False,) if t == 'PDropout' else (False, True)):
        with sut(f'{t} call'):
            u = np.asarray(ma(mg.as_input(xs), training=training))
        v = np.asarray(mb(mg.as_input(xs), training=training))
        require(u.shape == v.shape and u.dtype == v.dtype, lambda: f'{t}: {u.dtype}{u.shape}, Keras gives {v.dtype}{v.shape}')
        require(np.array_equal(u, v), lambda: f'{t}: {u[u != v][:3]}, Keras gives {v[u != v][:3]}')
    if t == 'PDropout':
        with sut('training call'):
            u = np.asarray(ma(xs[0], training=True))
        x = xs[0]
        kept = x / np.float32(1 - s['rate'])
        require(np.all((u == 0) | np.isclose(u, kept, rtol=1e-6)) and (s['rate'] > 0 or np.array_equal(u, x)), lambda: f'dropout({s["rate"]}) in training gives values neither dropped nor scaled')
    return dict(nontrivial=xs[0].size > 1, labels=[t, s['style']])


SUBS = [Sub('inference', spec, check), Sub('training', train_spec, check_train), Sub('passive', passive_spec, check_passive)]
