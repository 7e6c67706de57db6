"""C16: QKeras models and the proxies made from them."""
import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Discard, Sub, require, sut
from ..modelgen import conv_out, factorize, outs_np, pick, rng_for


@st.composite
def qbits(draw, weight=False):
    k = pick(draw, [1, 1, 1, 0]) if not weight else 1
    b = draw(st.integers(1 + k, 8))
    return {'t': 'bits', 'k': k, 'b': b, 'i': draw(st.integers(0, min(b + 1, 5))), 'sym': draw(st.booleans())}


@st.composite
def qrelu(draw):
    b = draw(st.integers(1, 8))
    return {'t': 'relu', 'b': b, 'i': draw(st.integers(0, min(b + 1, 5)))}


@st.composite
def qact(draw):
    return draw(st.one_of(qbits(), qrelu()))


@st.composite
def spec(draw):
    n_in = pick(draw, [1, 1, 2])
    ins, shapes, marked = [], [], []
    for _ in range(n_in):
        r = pick(draw, [1, 2, 3])
        shp = [draw(st.integers(1, 6))] if r == 1 else [draw(st.integers(1, 5)), draw(st.integers(1, 3))] if r == 2 else [draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 2))]
        if shapes and draw(st.booleans()):
            shp = shapes[0]
        ins.append({'shape': shp, 'q': draw(qbits()), 'fx': draw(st.integers(0, 7)), 'amp': draw(st.integers(-2, 5))})
        shapes.append(shp)
        marked.append(True)   # the tensor comes out of a quantiser (possibly reshaped)
    nodes = []
    for _ in range(draw(st.integers(1, 5))):
        cand = [j for j in range(len(shapes)) if marked[j]]
        src = pick(draw, cand) if pick(draw, [True, False, False]) else cand[-1]
        shp = shapes[src]
        r = len(shp)
        kinds = ['QDense'] * 3 + ['QActivation', 'relu', 'Reshape', 'Flatten', 'Add', 'Concatenate']
        kinds += {1: [], 2: ['QConv1D'] * 4 + ['QSeparableConv1D', 'MaxPool', 'AvgPool'], 3: ['QConv2D'] * 4 + ['QSeparableConv2D', 'MaxPool', 'AvgPool']}[r]
        prev = [j for j, nd in enumerate(nodes) if nd['t'] == 'QDense' and nd['ishape'] == shp]
        if prev:
            kinds += ['Share'] * 2
        t = pick(draw, kinds)
        nd = {'t': t, 'in': [src]}
        out = list(shp)
        if t == 'Share':
            nd['of'] = pick(draw, prev)
            out[-1] = nodes[nd['of']]['units']
        elif t == 'QDense' or 'Conv' in t:
            nd['kq'] = draw(st.one_of(st.none(), qbits(True), qbits(True), qbits(True)))
            nd['bias'] = pick(draw, [True, True, False])
            nd['bq'] = draw(st.one_of(st.none(), qbits(True), qbits(True))) if nd['bias'] else None
            nd['act'] = draw(qact()) if pick(draw, [True, True, False]) else None
            nd['amp'] = draw(st.integers(-2, 2))
            if t == 'QDense':
                nd['units'] = draw(st.integers(1, 4))
                nd['ishape'] = shp
                out[-1] = nd['units']
            else:
                rank = r - 1
                nd['filters'] = draw(st.integers(1, 3))
                nd['padding'] = pick(draw, ['same', 'valid'])
                nd['ks'] = [draw(st.integers(1, min(3, shp[d]))) for d in range(rank)]
                nd['strides'] = [pick(draw, [1, 1, 2])] * rank
                nd['dil'] = [1] * rank
                if 'Separable' in t:
                    nd['pq'] = draw(st.one_of(st.none(), qbits(True), qbits(True)))
                    nd['mult'] = draw(st.integers(1, 2))
                elif pick(draw, [False, False, True]):   # unequal strides, or dilation
                    if draw(st.booleans()):
                        nd['strides'] = [draw(st.integers(1, 3)) for _ in range(rank)]
                    else:
                        nd['strides'] = [1] * rank
                        nd['dil'] = [pick(draw, [v for v in (1, 2, 3) if (nd['ks'][d] - 1) * v < shp[d]]) for d in range(rank)]
                out = [conv_out(shp[d], nd['ks'][d], nd['strides'][d], nd['padding'], nd['dil'][d]) for d in range(rank)] + [nd['filters']]
        elif t == 'QActivation':
            nd['act'] = draw(qact())
            nd['form'] = pick(draw, ['obj', 'str'])
        elif t == 'Reshape':
            nd['shape'] = out = factorize(draw, int(np.prod(shp)), draw(st.integers(1, 3)))
        elif t == 'Flatten':
            out = [int(np.prod(shp))]
        elif t in ('Add', 'Concatenate'):
            same = [j for j in cand if shapes[j] == shp]
            nd['in'] = [src, pick(draw, same)]
            if t == 'Add':
                nd['act'] = draw(qact())
            else:
                out[-1] *= 2
        elif 'Pool' in t:
            nd['size'] = [pick(draw, [s for s in (1, 2) if s <= shp[d]]) for d in range(r - 1)]
            out = [shp[d] // nd['size'][d] for d in range(r - 1)] + [shp[-1]]
            if t == 'AvgPool':
                nd['act'] = draw(qact())
        # a dense / conv layer without activation is always followed by an explicit quantiser, or is an output
        if nd.get('act', 0) is None:
            nd['then'] = draw(qact()) if pick(draw, [True, True, False]) else None
            if nd['then']:
                nd['relu'] = draw(st.booleans())
        if int(np.prod(out)) > 64:
            continue
        nodes.append(nd)
        shapes.append(out)
        k = nd if t != 'Share' else nodes[nd['of']]
        marked.append(not (k.get('act', 0) is None and not k.get('then')))
        if t == 'Share' and k.get('act', 0) is None and k.get('then'):
            nd['then'], nd['relu'] = k['then'], k['relu']
    return {'seed': draw(st.integers(0, 2**20)), 'ins': ins, 'nodes': nodes, 'n': draw(st.integers(1, 24)), 'nest': pick(draw, [False, False, True])}


def mkq(q):
    from qkeras import quantizers as Q
    if q is None:
        return None
    if q['t'] == 'relu':
        return Q.quantized_relu(q['b'], q['i'])
    return Q.quantized_bits(q['b'], q['i'], symmetric=int(q['sym']), keep_negative=bool(q['k']), alpha=1)


def mkqs(q):
    if q['t'] == 'relu':
        return f"quantized_relu({q['b']}, {q['i']})"
    return f"quantized_bits({q['b']}, {q['i']}, {int(q['sym'])}, {bool(q['k'])}, alpha=1)"


class Ref:
    """Exact evaluation from the documented meaning of the quantisers (round half to even, clip)."""
    exact, over = True, 0

    def need(self, mag, f):
        if np.log2(max(float(mag), 1e-30)) + f > 22:
            self.exact = False

    def q(self, z, q, count=True):
        if q is None:
            return z
        if q['t'] == 'relu':
            z = np.maximum(z, 0)
            k, i, sat = 0, q['i'], 'SAT'
        else:
            k, i, sat = q['k'], q['i'] + q['k'], 'SAT_SYM' if q['sym'] else 'SAT'
        self.need(np.abs(z).max(initial=0), q['b'] - i + 1)
        self.need(np.abs(z).max(initial=0), int(refs.frac_bits(z).max(initial=0)))
        y = refs.ap_fixed(z, k, q['b'], i, 'RND_CONV', sat)
        ideal = np.round(z * 2.0**(q['b'] - i)) / 2.0**(q['b'] - i)
        if count and q['t'] != 'relu':
            self.over += int((ideal != y).sum())
        return y


def build(s):
    """-> (model, data, layers per node)"""
    import keras
    import qkeras
    import tensorflow as tf
    keras.backend.clear_session()
    KL = keras.layers
    ins, ts, lays = [], [], []

    def make(nd, name):
        t = nd['t']
        if t == 'QDense':
            return qkeras.QDense(nd['units'], kernel_quantizer=mkq(nd['kq']), bias_quantizer=mkq(nd['bq']), activation=mkq(nd['act']), use_bias=nd['bias'])
        if 'Conv' in t:
            cls = getattr(qkeras, t)
            sz = tuple(nd['ks']) if len(nd['ks']) > 1 else nd['ks'][0]
            stv = tuple(nd['strides']) if len(nd['ks']) > 1 else nd['strides'][0]
            dl = tuple(nd['dil']) if len(nd['ks']) > 1 else nd['dil'][0]
            kw = dict(kernel_quantizer=mkq(nd['kq'])) if 'pq' not in nd else dict(depthwise_quantizer=mkq(nd['kq']), pointwise_quantizer=mkq(nd['pq']), depth_multiplier=nd['mult'])
            return cls(nd['filters'], sz, strides=stv, padding=nd['padding'], dilation_rate=dl, bias_quantizer=mkq(nd['bq']), activation=mkq(nd['act']), use_bias=nd['bias'], **kw)
        if t == 'QActivation':
            return qkeras.QActivation(mkq(nd['act']) if nd['form'] == 'obj' else mkqs(nd['act']))
        return {'relu': lambda: KL.Activation('relu'), 'Reshape': lambda: KL.Reshape(nd['shape']), 'Flatten': KL.Flatten, 'Add': KL.Add, 'Concatenate': KL.Concatenate,
                'MaxPool': lambda: (KL.MaxPooling1D if len(nd['size']) == 1 else KL.MaxPooling2D)(nd['size'] if len(nd['size']) > 1 else nd['size'][0]),
                'AvgPool': lambda: (KL.AveragePooling1D if len(nd['size']) == 1 else KL.AveragePooling2D)(nd['size'] if len(nd['size']) > 1 else nd['size'][0])}[t]()

    for inp in s['ins']:
        i = KL.Input(tuple(inp['shape']))
        ins.append(i)
        ts.append(qkeras.QActivation(mkq(inp['q']))(i))
    for j, nd in enumerate(s['nodes']):
        args = [ts[t] for t in nd['in']]
        lay = lays[nd['of']] if nd['t'] == 'Share' else make(nd, j)
        lays.append(lay)
        if s['nest'] and nd['t'] in ('QDense', 'QActivation', 'Reshape'):
            ni = KL.Input(args[0].shape[1:])
            h = keras.Model(ni, lay(ni))(args[0])
        else:
            h = lay(args if len(args) > 1 else args[0])
        if nd.get('then'):
            if nd['relu']:
                h = KL.Activation('relu')(h)
            h = qkeras.QActivation(mkq(nd['then']))(h)
        elif nd['t'] in ('Add', 'AvgPool'):
            h = qkeras.QActivation(mkq(nd['act']))(h)
        ts.append(h)
    used = {t for nd in s['nodes'] for t in nd['in']}
    oi = [t for t in range(len(ts)) if t not in used]
    outs = [ts[t] for t in oi]
    m = keras.Model(ins if len(ins) > 1 else ins[0], outs if len(outs) > 1 else outs[0])
    for j, (nd, lay) in enumerate(zip(s['nodes'], lays)):
        if 'kq' in nd:
            rng = rng_for(s, 'w', j)
            for name, q in [('kernel', 'kq')] if 'pq' not in nd else [('depthwise_kernel', 'kq'), ('pointwise_kernel', 'pq')]:
                v = getattr(lay, name)
                w = np.round(rng.normal(0, 2.0**nd['amp'], v.shape) * 64) / 64
                if nd[q] is None:
                    w = np.clip(w, -8, 8)
                v.assign(w)
            if nd['bias']:
                lay.bias.assign(np.round(rng.normal(0, 2.0**nd['amp'], lay.bias.shape) * 64) / 64)
    return m, lays, oi


def reference(s, lays, oi, xs):
    R = Ref()
    ts = [R.q(np.asarray(x, np.float64), inp['q']) for x, inp in zip(xs, s['ins'])]
    for nd, lay in zip(s['nodes'], lays):
        a = [ts[t] for t in nd['in']]
        k = s['nodes'][nd['of']] if nd['t'] == 'Share' else nd
        x = a[0]
        if 'kq' in k:
            w = R.q((lay.depthwise_kernel if 'pq' in k else lay.kernel).numpy().astype(np.float64), k['kq'], False)
            if 'pq' in k:   # depthwise, then pointwise, as one kernel
                pw = R.q(lay.pointwise_kernel.numpy().astype(np.float64), k['pq'], False).reshape(w.shape[-2], w.shape[-1], -1)
                R.need(np.einsum('...cm,cmo->...co', np.abs(w), np.abs(pw)).max(), int(refs.frac_bits(w).max()) + int(refs.frac_bits(pw).max()))
                w = np.einsum('...cm,cmo->...co', w, pw)
            b = R.q(lay.bias.numpy().astype(np.float64), k['bq'], False) if k['bias'] else 0.0

            def op(u, v):
                return np.matmul(u, v) if 'Dense' in k['t'] else refs.conv_nd(u, v, k['strides'], k['padding'], k['dil'])
            z = op(x, w) + b
            R.need((op(np.abs(x), np.abs(w)) + np.abs(b)).max(), max(int(refs.frac_bits(x).max()) + int(refs.frac_bits(w).max()), int(refs.frac_bits(b).max()) if k['bias'] else 0))
            z = R.q(z, k['act'])
        elif k['t'] == 'QActivation':
            z = R.q(x, k['act'])
        elif k['t'] == 'relu':
            z = np.maximum(x, 0)
        elif k['t'] in ('Reshape', 'Flatten'):
            z = x.reshape(len(x), *(k.get('shape') or [-1]))
        elif k['t'] == 'Add':
            z = R.q(a[0] + a[1], k['act'])
        elif k['t'] == 'Concatenate':
            z = np.concatenate(a, -1)
        else:
            z = refs.pool_nd(x, k['size'], k['size'], 'valid', 'max' if k['t'] == 'MaxPool' else 'avg')
            if k['t'] == 'AvgPool':
                z = R.q(z, k['act'])
        if nd.get('then'):
            z = R.q(np.maximum(z, 0) if nd['relu'] else z, nd['then'])
        ts.append(z)
    return R, [ts[t] for t in oi]


def data(s, tag, gain):
    xs = []
    for j, inp in enumerate(s['ins']):
        rng = rng_for(s, tag, j)
        A = int(2.0**(inp['amp'] + inp['fx'])) + 1
        xs.append((rng.integers(-A, A + 1, (s['n'], *inp['shape'])) * 2.0**-inp['fx'] * gain).astype(np.float32))
    return xs


def check(s):
    from HGQ.proxy import to_proxy_model
    m, lays, oi = build(s)
    w0 = [w.numpy() for w in m.weights]
    # the saturating proxy on arbitrary data, the wrapping one where nothing overflows
    with sut('to_proxy_model(aggressive=False)'):
        sat = to_proxy_model(m, aggressive=False)
        sat_p = to_proxy_model(m, aggressive=False, skip_precision_reg=False) if not any('pq' in nd for nd in s['nodes']) else sat
    with sut('to_proxy_model(aggressive=True)'):
        wrap = to_proxy_model(m, aggressive=True)
    require(all(np.array_equal(a, b.numpy()) for a, b in zip(w0, m.weights)), 'conversion changed the weights of the QKeras model')
    labs = set()
    done = 0
    for gain in (1.0, 0.125, 8.0):
        xs = data(s, f'd{gain}', gain)
        R, want = reference(s, lays, oi, xs)
        if not R.exact:
            continue
        done += 1
        x = xs if len(xs) > 1 else xs[0]
        base = outs_np(m(x, training=False))
        for a, b in zip(base, want):
            if not np.array_equal(a.astype(np.float64), b):
                raise Discard('QKeras departs from its documented arithmetic')
        ps = [('saturating', sat), ('saturating, precisions registered', sat_p)] + ([('wrapping, nothing overflows', wrap)] if not R.over else [])
        labs |= {'overflow' if R.over else 'no overflow'}
        for name, p in ps:
            with sut(f'proxy inference ({name})'):
                got = outs_np(p(x, training=False))
            require(len(got) == len(want), 'number of outputs')
            for j, (a, b) in enumerate(zip(got, want)):
                require(a.shape == b.shape and np.array_equal(a.astype(np.float64), b),
                        lambda: f'output {j}, {name} proxy, gain {gain}: {[(float(u), float(v)) for u, v in zip(a[a != b][:4], b[a != b][:4])]} (proxy, QKeras)' if a.shape == b.shape else f'shape {a.shape} {b.shape}')
    if not done:
        raise Discard('beyond float32 mantissa')
    return dict(nontrivial=bool(s['nodes']) and any(np.ptp(o) > 0 for o in want if o.size), labels=sorted(labs | {nd['t'] for nd in s['nodes']} | ({'nested'} if s['nest'] else set())))


@st.composite
def qspec(draw):
    q = draw(qact())
    return {'q': q, 'g': draw(st.integers(1, 3)), 'agg': draw(st.booleans())}


def check_q(s):
    """One quantiser over every position, sub-step ties included, far beyond its range."""
    import keras
    import qkeras
    from HGQ.proxy import to_proxy_model
    q = s['q']
    keras.backend.clear_session()
    k = q.get('k', 0)
    step = 2.0**(q['i'] + k - q['b'])
    hi = 2.0**q['i']
    x = np.arange(-3 * hi, 3 * hi, step / 2**s['g'])
    inp = keras.layers.Input((1,))
    wide = qkeras.quantizers.quantized_bits(20, 8, alpha=1)
    m = keras.Model(inp, qkeras.QActivation(mkq(q))(qkeras.QActivation(wide)(inp)))
    want = m(x.reshape(-1, 1).astype(np.float32)).numpy()
    with sut('to_proxy_model'):
        got = to_proxy_model(m, aggressive=s['agg'])(x.reshape(-1, 1).astype(np.float32)).numpy()
    if s['agg']:
        y = np.round(x / step) * step
        inr = (y < hi - step / 2) & (y >= (-hi * k if not q.get('sym') else -hi * k + step / 2)) if q['t'] == 'bits' else np.ones(x.shape, bool)
        want, got, x = want[inr], got[inr], x[inr]
    bad = got != want
    require(not bad.any(), lambda: f'{mkqs(q)} at {x[bad[:, 0]][:4]}: proxy {got[bad][:4]}, QKeras {want[bad][:4]}')
    return dict(nontrivial=len(x) > 2, labels=[q['t'], 'wrap' if s['agg'] else 'sat'])


OPTS = ['quantized_relu({b}, {i}, negative_slope={slope})', 'quantized_relu({b}, {i}, use_sigmoid=1)', 'quantized_relu({b}, {i}, relu_upper_bound={bound}, is_quantized_clip={flag})',
        'quantized_relu({b}, {i}, is_quantized_clip={flag})', 'quantized_relu({b}, {i}, use_stochastic_rounding=True)', 'quantized_bits({b}, {i}, alpha=1, use_stochastic_rounding=True)',
        'quantized_bits({b}, {i}, alpha={bound})', "quantized_bits({b}, {i}, alpha='auto')", "quantized_bits({b}, {i}, alpha='auto_po2')", 'quantized_bits({b}, {i})', 'quantized_tanh({b})',
        'quantized_sigmoid({b})', 'ternary()', 'stochastic_ternary(alpha=1)', 'quantized_po2({b})', 'quantized_relu_po2({b})', 'quantized_hswish({b}, {i}, alpha=1)']
LAYS = ['QSeparableConv1D', 'QSeparableConv2D', 'QDepthwiseConv2D', 'QConv2DTranspose', 'QMobileNetSeparableConv2D', 'QConv2DBatchnorm', 'QDepthwiseConv2DBatchnorm',
        'QBatchNormalization', 'QSimpleRNN', 'QLSTM', 'QGRU', 'QAveragePooling2D', 'QGlobalAveragePooling2D', 'QOctaveConv2D', 'QDense', 'QConv1D', 'QConv2D']


@st.composite
def ospec(draw):
    return {'opt': pick(draw, OPTS).format(b=draw(st.integers(2, 7)), i=draw(st.integers(0, 3)), slope=pick(draw, [0.25, 0.5]), bound=pick(draw, [0.5, 1.5, 2.0, 3.25]), flag=draw(st.booleans()))
            if draw(st.booleans()) else None, 'lay': pick(draw, LAYS), 'as': pick(draw, ['QActivation', 'dense']), 'seed': draw(st.integers(0, 2**16)), 'bias': draw(st.booleans())}


def check_opt(s):
    """Whatever is not supported must be refused, not turned into something else."""
    import keras
    import qkeras
    from qkeras import quantizers as Q
    from HGQ.proxy import to_proxy_model
    keras.backend.clear_session()
    KL = keras.layers
    wq = dict(kernel_quantizer=mkq({'t': 'bits', 'k': 1, 'b': 5, 'i': 1, 'sym': 0}))
    try:
        if s['opt']:
            what, shp = s['opt'], (3,)
            act = eval(s['opt'], vars(Q))
            lay = qkeras.QActivation(act) if s['as'] == 'QActivation' else qkeras.QDense(2, activation=act, **wq)
        else:
            what = c = s['lay']
            cls = getattr(qkeras, c)
            shp = (5, 3) if '1D' in c or c in ('QSimpleRNN', 'QLSTM', 'QGRU') else (3,) if c in ('QDense', 'QBatchNormalization') else (4, 4, 3)
            q = wq['kernel_quantizer']
            lay = {'QDense': lambda: cls(2, use_bias=s['bias'], **wq), 'QBatchNormalization': lambda: cls(), 'QAveragePooling2D': lambda: cls(2), 'QGlobalAveragePooling2D': lambda: cls(),
                   'QDepthwiseConv2D': lambda: cls(2, depthwise_quantizer=q, use_bias=s['bias']), 'QDepthwiseConv2DBatchnorm': lambda: cls(2, depthwise_quantizer=q),
                   'QSimpleRNN': lambda: cls(2, **wq), 'QLSTM': lambda: cls(2, **wq), 'QGRU': lambda: cls(2, **wq)}.get(
                c, lambda: cls(2, 2, use_bias=s['bias'], **(dict(depthwise_quantizer=q, pointwise_quantizer=q) if 'Separable' in c else wq)))()
        inp = KL.Input(shp)
        h = lay(qkeras.QActivation(mkq({'t': 'bits', 'k': 1, 'b': 8, 'i': 3, 'sym': 0}))(inp))
        m = keras.Model(inp, h)
        for j, w in enumerate(m.weights):
            if any(n in w.name for n in ('kernel', 'bias', 'beta', 'gamma')):
                w.assign(np.round(rng_for(s, 'w', j).normal(0, 1, w.shape) * 16) / 16)
        x = (np.round(rng_for(s, 'x').normal(0, 2, (40, *shp)) * 32) / 32).astype(np.float32)
        want, again = m(x, training=False).numpy(), m(x, training=False).numpy()
    except Exception as e:
        raise Discard(f'QKeras itself fails: {type(e).__name__}')
    if not np.array_equal(want, again):
        raise Discard('random in inference')
    try:
        p = to_proxy_model(m, aggressive=False)
    except Exception as e:
        require(not s['opt'] or not any(k in s['opt'] for k in ('use_stochastic_rounding',)) , lambda: f'{what}: {type(e).__name__} {e}')
        require(s['lay'] not in ('QDense', 'QConv1D', 'QConv2D', 'QSeparableConv1D', 'QSeparableConv2D') or s['opt'], lambda: f'{what}: {type(e).__name__} {e}')
        return dict(nontrivial=True, labels=['refused', what.split('(')[0]])
    got = p(x, training=False).numpy()
    tol = 0 if any(k in what for k in ('quantized_', 'ternary', 'binary', 'QDense', 'QConv1D', 'QConv2D', 'Separable')) else 1e-5
    require(got.shape == want.shape and np.all(np.abs(got - want) <= tol), lambda: f'{what} ({s["as"] if s["opt"] else ""}) is converted to something else: {got[got != want][:4]}, QKeras {want[got != want][:4]}')
    return dict(nontrivial=float(np.ptp(want)) > 0, labels=['converted', what.split('(')[0]])


SUBS = [Sub('models', spec, check), Sub('quantizers', qspec, check_q), Sub('unsupported', ospec, check_opt)]
