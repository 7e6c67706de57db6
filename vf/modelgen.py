"""Generated HGQ models: Hypothesis strategies of JSON specs, a builder, and an exact float64 reference interpreter."""
import numpy as np
from hypothesis import strategies as st

from . import refs
from .core import sut

RNDS = ['standard_round', 'floor', 'auto', 'stochastic_round', 'fast_uniform_noise_injection']
ACTS = ['relu', 'linear', 'tanh', 'sigmoid', 'square', 'absneg', 'sinx']


# ------------------------------------------------------------------------------------------------ strategies
def pick(draw, seq):
    return draw(st.sampled_from(list(seq)))


@st.composite
def paq_conf(draw, rank, lo=-1, hi=5, rnds=RNDS, skips=None):
    """rank: number of dims incl. batch."""
    if skips is None:
        skips = ['batch', 'batch', 'all', 'except_last', [0]]
        if rank >= 3:
            skips += ['except_1st', list(range(rank - 1)), [0, rank - 1], [0, 1]]
    a = draw(st.integers(lo, hi))
    b = draw(st.integers(a, hi))
    return {'skip': pick(draw, skips), 'rnd': pick(draw, rnds), 'f': [a, b], 'fm': pick(draw, ['int', 'int', 'half', 'any'])}


@st.composite
def kq_conf(draw, rank, lo=-1, hi=5):
    skips = [None, None, None, 'all', 'except_last', 'none', list(range(rank - 1))]
    skips += [[0], [1], 'batch', 'except_1st']
    a = draw(st.integers(lo, hi))
    b = draw(st.integers(a, hi))
    return {'skip': pick(draw, skips), 'rnd': pick(draw, ['standard_round', 'floor', 'stochastic_round', 'standard_round']), 'f': [a, b],
            'fm': pick(draw, ['int', 'int', 'half', 'any']), 'style': pick(draw, ['normal', 'grid', 'sparse', 'pow2', 'pruned', 'pos', 'ext']),
            'amp': pick(draw, [0, 0, 1, -1])}


def factorize(draw, n, parts):
    out = []
    for _ in range(parts - 1):
        d = pick(draw, [k for k in range(1, n + 1) if n % k == 0])
        out.append(d)
        n //= d
    out.append(n)
    return out


def conv_out(n, k, s, p, d=1):
    return -(-n // s) if p == 'same' else (n - ((k - 1) * d + 1)) // s + 1


@st.composite
def node_for(draw, shapes, opts):
    """Return (node, out_shape) for one more layer on top of `shapes` (list of tensor shapes without batch)."""
    nt = len(shapes)
    kinds = []
    allow = opts['kinds']
    src = draw(st.integers(0, nt - 1)) if pick(draw, [False, True, False]) else nt - 1
    shp = shapes[src]
    r = len(shp)

    def k(name, w=1):
        if name in allow:
            kinds.extend([name] * w)
    k('HDense', 4 if r == 1 else 2)
    k('HDenseBatchNorm', 1)
    k('HQuantize')
    k('HActivation', 2)
    k('PDropout')
    k('PFlatten')
    k('PReshape', 2)
    if r == 2:
        k('HConv1D', 5), k('HConv1DBatchNorm'), k('PMaxPool1D'), k('PAvgPool1D'), k('PPermute')
    if r == 3:
        k('HConv2D', 5), k('HConv2DBatchNorm'), k('PMaxPool2D'), k('PAvgPool2D'), k('PPermute')
    same = [j for j in range(nt) if shapes[j] == shp]
    k('HAdd')
    k('PConcatenate')
    t = pick(draw, kinds)
    nd = {'t': t, 'in': [src]}
    lo, hi = opts['f']
    rnds = opts['rnds']
    pskips = opts.get('pskips')
    out = list(shp)

    def kern(rank):
        nd['k'] = draw(kq_conf(rank, lo=min(lo, 0), hi=min(hi, 5)))
        nd['act'] = pick(draw, opts['kacts'])
        nd['actf'] = pick(draw, ['str', 'str', 'fn', 'tfnn'])
        nd['bias'] = pick(draw, [True, True, False])
        if 'BatchNorm' in t:
            nd['bn'] = {'center': pick(draw, [True, True, False]), 'scale': pick(draw, [True, True, False]), 'eps': pick(draw, [1e-3, 1e-3, 0.25, 0.1])}
        nd['bstyle'] = pick(draw, ['zero', 'grid', 'normal', 'grid'])

    if t in ('HDense', 'HDenseBatchNorm'):
        nd['units'] = draw(st.integers(1, 5))
        kern(2)
        out[-1] = nd['units']
    elif 'Conv' in t:
        rank = 1 if '1D' in t else 2
        nd['filters'] = draw(st.integers(1, 3))
        nd['padding'] = pick(draw, ['same', 'valid'])
        nd['ks'] = [draw(st.integers(1, min(3, shp[d]))) for d in range(rank)]
        nd['strides'] = [pick(draw, [1, 1, 2])] * rank
        nd['dil'] = [1] * rank
        if nd['strides'][0] == 1 and pick(draw, [False, False, True]) and not opts.get('nodil'):
            d = [2 if (nd['ks'][q] - 1) * 2 + 1 <= shp[q] else 1 for q in range(rank)]
            nd['dil'] = d if rank == 1 or d[0] == d[1] else [1] * rank
        elif rank == 2 and pick(draw, [False, False, True]):
            nd['strides'] = [1, 2] if nd['strides'][0] == 1 else [2, 1]
        nd['pf'] = draw(st.integers(1, 4))
        if opts.get('groups') and max(nd['dil']) == 1:
            g = pick(draw, [1, 1, 1] + [v for v in (2, 3, 4) if shp[-1] % v == 0] * 2)
            if g > 1:  # forward only: TF has no gradient of a grouped convolution on the CPU outside XLA
                nd['groups'] = g
                nd['filters'] = g * min(nd['filters'], 2)
        kern(rank + 2)
        out = [conv_out(shp[d], nd['ks'][d], nd['strides'][d], nd['padding'], nd['dil'][d]) for d in range(rank)] + [nd['filters']]
    elif t == 'HActivation':
        nd['act'] = pick(draw, [a for a in opts['acts'] if a != 'softmax' or len(shp) >= 1 and shp[-1] > 1])
    elif t == 'PReshape':
        parts = draw(st.integers(1, 3))
        out = factorize(draw, int(np.prod(shp)), parts)
        nd['shape'] = out
    elif t == 'PFlatten':
        out = [int(np.prod(shp))]
    elif 'Pool' in t:
        rank = 1 if '1D' in t else 2
        nd['padding'] = pick(draw, ['same', 'valid'])
        sizes = [1, 2, 3] if 'Max' in t else [1, 2]
        if 'Avg' in t:
            nd['padding'] = 'valid'
        nd['size'] = [pick(draw, [s for s in sizes if s <= shp[d]]) for d in range(rank)]
        nd['strides'] = pick(draw, [None, [1] * rank, [2] * rank])
        ss = nd['strides'] or nd['size']
        out = [conv_out(shp[d], nd['size'][d], ss[d], nd['padding']) for d in range(rank)] + [shp[-1]]
    elif t == 'PPermute':
        perm = draw(st.permutations(list(range(1, r + 1))))
        nd['dims'] = list(perm)
        out = [shp[p - 1] for p in perm]
    elif t == 'HAdd':
        nd['in'] = [src, pick(draw, same)] + ([pick(draw, same)] if pick(draw, [False, True, False]) else [])
    elif t == 'PConcatenate':
        other = pick(draw, same)
        ax = pick(draw, [-1] + list(range(1, r + 1)))
        nd['in'] = [src, other] + ([pick(draw, same)] if pick(draw, [False, True, False]) else [])
        nd['axis'] = ax
        out[ax - 1 if ax > 0 else -1] *= len(nd['in'])
    if t.startswith('H'):
        nd['q'] = draw(paq_conf(len(out) + 1, lo, hi, rnds, pskips))
    return nd, out


ALL_KINDS = ['HDense', 'HDenseBatchNorm', 'HQuantize', 'HActivation', 'PDropout', 'PFlatten', 'PReshape', 'HConv1D', 'HConv1DBatchNorm',
             'PMaxPool1D', 'PAvgPool1D', 'PPermute', 'HConv2D', 'HConv2DBatchNorm', 'PMaxPool2D', 'PAvgPool2D', 'HAdd', 'PConcatenate']


@st.composite
def model_spec(draw, max_nodes=4, kinds=tuple(ALL_KINDS), acts=('relu', 'linear'), kacts=('linear', 'relu'), f=(-1, 5), rnds=tuple(RNDS),
               max_inputs=2, first=('HQuantize', 'HQuantize', 'HQuantize', 'Signature'), pskips=None, shifts=True, nodil=False, ranks=(1, 2, 3),
               min_nodes=1, n=(1, 24), last=None, groups=False):
    opts = dict(groups=groups, kinds=kinds, acts=acts, kacts=kacts, f=f, rnds=rnds, pskips=pskips, nodil=nodil)
    n_in = draw(st.integers(1, max_inputs)) if pick(draw, [False, False, True]) else 1
    inputs, shapes = [], []
    for _ in range(n_in):
        r = pick(draw, ranks)
        if inputs and pick(draw, [True, False]):
            shp = shapes[0]
        else:
            shp = [draw(st.integers(1, 8))] if r == 1 else [draw(st.integers(1, 5)), draw(st.integers(1, 3))] if r == 2 else \
                [draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 2))]
        t = pick(draw, first)
        if t == 'HQuantize':
            fl = {'t': t, 'q': draw(paq_conf(len(shp) + 1, f[0], f[1], rnds, pskips))}
        else:
            k = draw(st.integers(0, 1))
            b = draw(st.integers(k + 1, 7))
            fl = {'t': t, 'kn': k, 'b': b, 'i': draw(st.integers(k - 1, b))}
        inputs.append({'shape': shp, 'first': fl, 'style': pick(draw, ['grid', 'grid', 'pos', 'neg', 'pow2', 'sparse', 'const', 'hetero', 'ext']),
                       'amp': draw(st.integers(-1, 4)), 'fx': draw(st.integers(0, 7))})
        shapes.append(shp)
    nodes = []
    for _ in range(draw(st.integers(min_nodes, max_nodes))):
        nd, out = draw(node_for(shapes, opts))
        if int(np.prod(out)) > 64:
            continue
        nodes.append(nd)
        shapes.append(out)
    if last:
        nd, out = draw(node_for(shapes, dict(opts, kinds=last)))
        nodes.append(nd)
    spec = {'seed': draw(st.integers(0, 2**20)), 'n': draw(st.integers(*n)), 'inputs': inputs, 'nodes': nodes}
    spec['sx'] = pick(draw, [0, 0, 0, 0, 1, -3, 6, 9, 12, -6, -12]) if shifts else 0
    if is_chain(spec):
        spec['seq'] = pick(draw, [None, None, 'input', 'deferred'])
    return spec


def is_chain(spec):
    return len(spec['inputs']) == 1 and all(nd['in'] == [k] for k, nd in enumerate(spec['nodes']))


# ------------------------------------------------------------------------------------------------ builder
def rng_for(spec, *tag):
    import zlib
    return np.random.default_rng([spec['seed'], zlib.crc32(repr(tag).encode())])


def draw_f(rng, shape, q, sx):
    lo, hi = q['f']
    if q['fm'] == 'int':
        v = rng.integers(lo, hi + 1, shape).astype(float)
    elif q['fm'] == 'half':
        v = rng.integers(2 * lo, 2 * hi + 1, shape) / 2.
    else:
        v = rng.uniform(lo - 0.49, hi + 0.49, shape)
    return (v + sx).astype(np.float32)


def extremes(rng, x, lo, hi):
    """Samples that are all hi, all lo, or a random mixture of both."""
    m = rng.integers(0, 3, (len(x),) + (1,) * (x.ndim - 1))
    return np.where(m == 0, hi, np.where(m == 1, lo, np.where(x > (lo + hi) / 2, hi, lo)))


def data_for(spec, j, n=None, tag='data', gain=1.0):
    inp = spec['inputs'][j]
    n = n or spec['n']
    rng = rng_for(spec, tag, j)
    shp = (n, *inp['shape'])
    fx, amp = inp['fx'], inp['amp']
    fl = inp['first']
    if fl['t'] == 'Signature':
        fr = fl['b'] - fl['i']
        hi = 2**(fl['b'] - fl['kn']) - 1
        lo = -(hi + 1) * fl['kn']
        x = rng.integers(lo, hi + 1, shp)
        if inp['style'] == 'ext':
            x = extremes(rng, x, lo, hi)
        return (x * 2.0**(-fr - spec['sx']) * gain).astype(np.float32)
    A = int(2.0**(amp + fx)) + 1
    x = rng.integers(-A, A + 1, shp).astype(float)
    stl = inp['style']
    if stl == 'pos':
        x = np.abs(x)
    elif stl == 'neg':
        x = -np.abs(x)
    elif stl == 'pow2':
        x = np.sign(x) * 2.0**rng.integers(0, max(amp + fx, 0) + 1, shp)
    elif stl == 'sparse':
        x = x * (rng.random(shp) < 0.4)
    elif stl == 'const':
        x = np.broadcast_to(x[:1], shp).copy()
    elif stl == 'ext':
        x = extremes(rng, x, -max(A - 1, 1), max(A - 2, 1))
    elif stl == 'hetero':
        x = np.trunc(x * 2.0**-rng.integers(0, 6, (1, *inp['shape'])))
    return (x * 2.0**(-fx - spec['sx']) * gain).astype(np.float32)


SMOOTH = ('softplus', 'softsign', 'elu', 'swish', 'gelu', 'selu', 'exponential')


def act_fn(name):
    import keras
    import tensorflow as tf
    if name in ('relu', 'linear', 'tanh', 'sigmoid', 'softmax') + SMOOTH:
        return getattr(keras.activations, name)
    return CUSTOM[name](tf)


def _mk_square(tf):
    def square(x):
        return x * x
    return square


def _mk_absneg(tf):
    def absneg(x):
        return 1.5 - tf.abs(x)
    return absneg


def _mk_sinx(tf):
    def sinx(x):
        return tf.sin(x)**2. - x
    return sinx


def _mk_step(tf):
    def step(x):
        return tf.where(x >= 0.75, 2. * tf.ones_like(x), -0.5 * tf.ones_like(x))
    return step


CUSTOM = {'square': _mk_square, 'absneg': _mk_absneg, 'sinx': _mk_sinx, 'step': _mk_step}


def mk_paq(q, HGQ):
    c = HGQ.get_default_paq_conf()
    s = q['skip']
    c['skip_dims'] = tuple(s) if isinstance(s, list) else s
    c['rnd_strategy'] = q['rnd']
    return c


def mk_kq(q, HGQ):
    c = HGQ.get_default_kq_conf()
    s = q['skip']
    c['skip_dims'] = tuple(s) if isinstance(s, list) else s
    c['rnd_strategy'] = q['rnd']
    return c


class Built:
    pass


def kernel_act(nd):
    import tensorflow as tf
    import keras
    f = nd.get('actf', 'str')
    if nd['act'] == 'linear':
        return {'str': None, 'fn': keras.activations.linear, 'tfnn': 'linear'}[f]
    return {'str': 'relu', 'fn': keras.activations.relu, 'tfnn': tf.nn.relu}[f]


def make_layer(nd, HGQ, L, extra=None):
    import keras
    t = nd['t']
    kw = dict(extra or {})
    if 'q' in nd:
        kw['paq_conf'] = mk_paq(nd['q'], HGQ)
    if 'k' in nd:
        kw['kq_conf'] = mk_kq(nd['k'], HGQ)
        kw['use_bias'] = nd['bias']
        kw['activation'] = kernel_act(nd)
    if 'bn' in nd:
        kw.update(center=nd['bn']['center'], scale=nd['bn']['scale'], epsilon=nd['bn']['eps'])
    if t.startswith('HDense'):
        return getattr(L, t)(nd['units'], **kw)
    if 'Conv' in t:
        return getattr(L, t)(nd['filters'], tuple(nd['ks']) if len(nd['ks']) > 1 else nd['ks'][0], strides=tuple(nd['strides']), padding=nd['padding'],
                             dilation_rate=tuple(nd['dil']), parallel_factor=nd['pf'], **({'groups': nd['groups']} if 'groups' in nd else {}), **kw)
    if t == 'HActivation':
        return L.HActivation(act_fn(nd['act']), **kw)
    if t in ('HQuantize', 'HAdd'):
        return getattr(L, t)(**kw)
    if t == 'PReshape':
        return L.PReshape(tuple(nd['shape']), **kw)
    if t == 'PFlatten':
        return L.PFlatten(**kw)
    if t == 'PDropout':
        return L.PDropout(0.5, **kw)
    if 'Pool' in t:
        size = tuple(nd['size']) if len(nd['size']) > 1 else nd['size'][0]
        ss = nd['strides']
        ss = None if ss is None else tuple(ss) if len(ss) > 1 else ss[0]
        return getattr(L, t)(size, strides=ss, padding=nd['padding'], **kw)
    if t == 'PPermute':
        return L.PPermute(tuple(nd['dims']), **kw)
    if t == 'PConcatenate':
        return L.PConcatenate(axis=nd['axis'], **kw)
    if t == 'Signature':
        return L.Signature(nd['kn'], nd['b'], nd['i'], **kw)
    raise KeyError(t)


def init_layer(layer, nd, spec, tag, sx):
    """Randomise weights and bitwidths of one built layer (pure function of spec)."""
    rng = rng_for(spec, 'w', tag)
    if 'q' in nd:
        layer.paq.fbw.assign(draw_f(rng, tuple(layer.paq.fbw.shape), nd['q'], sx))
    if 'k' in nd:
        k = nd['k']
        layer.kq.fbw.assign(draw_f(rng, tuple(layer.kq.fbw.shape), k, 0))
        shp = tuple(layer.kernel.shape)
        fan = max(1, int(np.prod(shp[:-1])))
        amp = 2.0**k['amp'] / max(1.0, np.sqrt(fan) / 2)
        w = rng.normal(0, 1, shp) * amp
        if k['style'] == 'grid':
            w = np.round(w * 32) / 32
        elif k['style'] == 'sparse':
            w = np.round(w * 32) / 32 * (rng.random(shp) < 0.4)
        elif k['style'] == 'pow2':
            w = np.sign(w) * 2.0**np.round(np.log2(np.abs(w) + 1e-3))
        elif k['style'] == 'pos':
            w = np.abs(w)
        elif k['style'] == 'ext':  # one magnitude per output, the largest or the most negative value of a format
            j = 2.0**(rng.integers(-1, 2, shp[-1]) + k['amp'])
            w = rng.choice([-1., 1., 1.], shp[-1])
            w = np.where(w < 0, -j, j - 2.0**-k['f'][1]) * np.where(rng.random(shp[-1]) < 0.3, np.sign(rng.normal(0, 1, shp)), np.ones(shp))
        elif k['style'] == 'pruned':
            w = np.round(w * 16) / 16
            w[..., rng.random(shp[-1]) < 0.5] = 0
        w = np.round(w * 2**10) / 2**10
        layer.kernel.assign(w.astype(np.float32))
        if nd['bias']:
            b = rng.normal(0, 1, layer.bias.shape) * 2
            b = {'zero': b * 0, 'grid': np.round(b * 8) / 8, 'normal': np.round(b * 2**9) / 2**9,
                 'big': np.sign(b) * (2.0**np.round(rng.uniform(0, 5, b.shape)) - 2.0**-np.round(rng.uniform(0, 4, b.shape)))}[nd['bstyle']]
            if nd['bstyle'] == 'grid':
                b *= rng.random(b.shape) < 0.7
            layer.bias.assign((b * 2.0**-sx).astype(np.float32))
        if 'BatchNorm' in nd['t']:
            sh = (layer.kernel.shape[-1],)
            if nd['bn']['scale']:
                layer.bn_gamma.assign(rng.choice([0.5, 1., -1., 1.5, 0.75], sh).astype(np.float32))
                layer.moving_variance.assign(rng.choice([0.25, 1., 2., 4., 0.7], sh).astype(np.float32))
            if nd['bn']['center'] and nd['bias']:
                layer.moving_mean.assign((np.round(rng.normal(0, 1, sh) * 16) / 16 * 2.0**-sx).astype(np.float32))
                layer.bn_beta.assign((np.round(rng.normal(0, 1, sh) * 16) / 16 * 2.0**-sx).astype(np.float32))


def build(spec, HGQ=None, extra=None, wrap=None):
    """Build the keras model of a spec.  wrap: optional fn(model-building tensors) for nesting (unused here)."""
    import HGQ as _H
    import HGQ.layers as L
    import keras
    keras.backend.clear_session()
    HGQ = HGQ or _H
    B = Built()
    B.spec = spec
    B.layers, B.nds, tensors = [], [], []
    ins = []
    if spec.get('seq') and is_chain(spec):
        with sut('building the Sequential model'):
            first = spec['inputs'][0]['first']
            if first['t'] == 'Signature':
                first = dict(first, i=first['i'] - spec['sx'])
            B.nds = [dict(first, **{'in': [-1]})] + spec['nodes']
            B.layers = [make_layer(nd, HGQ, L, (extra or {}).get(nd['t'] if k else 'first')) for k, nd in enumerate(B.nds)]
            shape = tuple(spec['inputs'][0]['shape'])
            B.model = keras.Sequential(([keras.Input(shape)] if spec['seq'] == 'input' else []) + B.layers)
            if spec['seq'] == 'deferred':
                B.model.build((None, *shape))
            B.out_idx = [len(B.layers) - 1]
            for k, (lay, nd) in enumerate(zip(B.layers, B.nds)):
                init_layer(lay, nd, spec, k, spec['sx'])
        B.data = [data_for(spec, 0)]
        return B
    with sut('building the model'):
        for j, inp in enumerate(spec['inputs']):
            i = keras.Input(shape=tuple(inp['shape']))
            ins.append(i)
            nd = inp['first']
            if nd['t'] == 'Signature':
                nd = dict(nd, i=nd['i'] - spec['sx'])
            lay = make_layer(nd, HGQ, L, (extra or {}).get('first'))
            B.layers.append(lay)
            B.nds.append(dict(nd, **{'in': [-1 - j]}))
            tensors.append(lay(i))
        for nd in spec['nodes']:
            lay = make_layer(nd, HGQ, L, (extra or {}).get(nd['t']))
            B.layers.append(lay)
            B.nds.append(nd)
            args = [tensors[t] for t in nd['in']]
            tensors.append(lay(args if len(args) > 1 else args[0]))
        used = {t for nd in spec['nodes'] for t in nd['in']}
        B.out_idx = [t for t in range(len(tensors)) if t not in used]
        outs = [tensors[t] for t in B.out_idx]
        B.model = keras.Model(ins if len(ins) > 1 else ins[0], outs if len(outs) > 1 else outs[0])
        for k, (lay, nd) in enumerate(zip(B.layers, B.nds)):
            init_layer(lay, nd, spec, k, spec['sx'])
    B.data = [data_for(spec, j) for j in range(len(spec['inputs']))]
    return B


def restage(B, stage, gain=None):
    """Give the built model other weights, bitwidths and data, as further training would."""
    for k, (lay, nd) in enumerate(zip(B.layers, B.nds)):
        init_layer(lay, nd, B.spec, ('stage', stage, k), B.spec['sx'])
    g = gain or [1.0, 0.5, 2.0][B.spec['seed'] % 3]
    B.data = [data_for(B.spec, j, None, f'stage{stage}', g if B.spec['inputs'][j]['first']['t'] != 'Signature' else 1.0) for j in range(len(B.spec['inputs']))]


def worst_rows(B, limit=8):
    """Samples at the extremes of the data with signs that drive single output elements as far up and down as possible (straight-through gradient)."""
    import tensorflow as tf
    xs = [tf.constant(x[:1]) for x in B.data]
    rng = rng_for(B.spec, 'worst')
    with tf.GradientTape(persistent=True) as tape:
        tape.watch(xs)
        outs = B.model(as_input(xs), training=True)
        flat = tf.concat([tf.reshape(o, [-1]) for o in (outs if isinstance(outs, (list, tuple)) else [outs])], 0)
        picks = [flat[int(k)] for k in rng.permutation(int(flat.shape[0]))[:limit]]
    rows = [[] for _ in xs]
    for p in picks:
        g = tape.gradient(p, xs, unconnected_gradients='zero')
        for j, x in enumerate(B.data):
            lo, hi = x.min(), x.max()
            rows[j] += [np.where(g[j].numpy() > 0, hi, lo), np.where(g[j].numpy() > 0, lo, hi)]
    return [np.concatenate([x] + r).astype(np.float32) for x, r in zip(B.data, rows)]


@st.composite
def side_spec(draw, m):
    """Extra quantiser + dense blocks on the first input, living next to a nested model (directly or in a nested model of their own)."""
    out = []
    rank = len(m['inputs'][0]['shape']) + 1
    for _ in range(pick(draw, [0, 1, 1, 2])):
        out.append({'nested': draw(st.booleans()), 'before': draw(st.booleans()), 'q': draw(paq_conf(rank, 0, 4)),
                    'dense': {'t': 'HDense', 'units': draw(st.integers(1, 3)), 'k': draw(kq_conf(2, 0, 4)), 'act': pick(draw, ['linear', 'relu']), 'bias': draw(st.booleans()),
                              'bstyle': 'grid', 'q': draw(paq_conf(rank, 0, 4))}})
    return out


def nest(B, wrap, side=()):
    """B.model inside `wrap` levels of models; the outermost also gets the side blocks.  Extends B.layers/nds/out_idx accordingly."""
    import HGQ
    import HGQ.layers as L
    import keras
    spec = B.spec
    model = B.model
    with sut('nesting the model'):
        for lvl in range(wrap):
            ins = [keras.Input(tuple(i['shape'])) for i in spec['inputs']]
            last = lvl == wrap - 1
            outs, idx, new = [], [], []

            def block(sd):
                first = {'t': 'HQuantize', 'q': sd['q'], 'in': [-1]}
                lq, ld = make_layer(first, HGQ, L), make_layer(sd['dense'], HGQ, L)
                if sd['nested']:
                    i = keras.Input(tuple(spec['inputs'][0]['shape']))
                    o = keras.Model(i, ld(lq(i)))(ins[0])
                else:
                    o = ld(lq(ins[0]))
                B.layers += [lq, ld]
                B.nds += [first, dict(sd['dense'], **{'in': [len(B.layers) - 2]})]
                new.extend([len(B.layers) - 2, len(B.layers) - 1])
                outs.append(o)
                idx.append(len(B.layers) - 1)
            for sd in side if last else ():
                if sd['before']:
                    block(sd)
            o = model(as_input(ins))
            outs += list(o) if isinstance(o, (list, tuple)) else [o]
            idx += B.out_idx
            for sd in side if last else ():
                if not sd['before']:
                    block(sd)
            model = keras.Model(as_input(ins), outs if len(outs) > 1 else outs[0])
            B.out_idx = idx
            for k in new:
                init_layer(B.layers[k], B.nds[k], spec, k, spec['sx'])
    return model


def as_input(xs):
    return xs if len(xs) > 1 else xs[0]


def outs_np_tf(o):
    return list(o) if isinstance(o, (list, tuple)) else [o]


def outs_np(o):
    return [np.asarray(v) for v in (o if isinstance(o, (list, tuple)) else [o])]


# ------------------------------------------------------------------------------------------------ reference
def group_minmax(vals, fshape):
    """min/max of vals per quantiser group; fshape: shape of the bitwidth map (1 = shared)."""
    ax = tuple(d for d in range(vals.ndim) if fshape[d] == 1)
    return vals.min(axis=ax, keepdims=True), vals.max(axis=ax, keepdims=True)


NP_ACT = {'relu': lambda x: np.maximum(x, 0), 'linear': lambda x: x}


def eff_f(q):
    f = q.fbw.numpy().astype(np.float64)
    if q.bw_clip:
        f = np.clip(f, *q.bw_clip)
    return np.round(f)


def eff_rnd(layer, nd):
    r = nd['q']['rnd']
    if r == 'auto':
        return 'floor' if layer.paq.rnd_strategy == 3 else 'standard_round'
    return r


def ref_weights(layer, nd):
    """(quantised kernel, quantised bias or None) the layer must deploy, in float64."""
    k = layer.kernel.numpy().astype(np.float64)
    b = layer.bias.numpy().astype(np.float64) if nd['bias'] else None
    kf = eff_f(layer.kq)
    near = None
    if 'BatchNorm' in nd['t']:
        bn = nd['bn']
        if bn['scale']:
            s = layer.bn_gamma.numpy().astype(np.float64) / np.sqrt(layer.moving_variance.numpy().astype(np.float64) + float(np.float32(bn['eps'])))
        else:
            s = 1.0
        k = k * s
        if b is not None and bn['center']:
            b = b - layer.moving_mean.numpy().astype(np.float64) * s + layer.bn_beta.numpy().astype(np.float64)
        near = True
    qk = refs.rq(k, kf, nd['k']['rnd'])
    if near:
        qk = settle(qk, k, kf, nd['k']['rnd'], layer.fused_qkernel)
    if b is not None:
        fb = eff_f(layer.paq)
        fb = fb.max(axis=tuple(range(fb.ndim - 1)))
        rnd = eff_rnd(layer, nd)
        qb = refs.rq(b, fb, rnd)
        if near:
            import tensorflow as tf
            got = layer.paq.bias_forward(layer.fused_bias, False, layer.channel_loc)
            qb = settle(qb, b, fb, rnd, got)
        b = qb
    return qk, b


def settle(want, raw, f, rnd, got):
    """Where float32 rounding of a fused weight may legitimately flip a tie, accept the implementation's neighbour."""
    s = np.exp2(f)
    y = raw * s + (0 if refs.is_floor(rnd) else 0.5)
    amb = np.abs(y - np.round(y)) < 1e-5 * np.maximum(1, np.abs(y))
    got = np.asarray(got, np.float64)
    ok = amb & (np.abs(got - want) <= 1 / s)
    return np.where(ok, got, want)


class RefRun:
    """Exact evaluation of a Built on inputs xs (list of arrays)."""

    def __init__(self, B, xs, weights=None):
        self.vals, self.rec, self.exact = [], {}, True
        self.bits_max = 0
        self.wcache = weights if weights is not None else {}
        for k, (lay, nd) in enumerate(zip(B.layers, B.nds)):
            args = [np.asarray(xs[-1 - t], np.float64) if t < 0 else self.vals[t] for t in nd['in']]
            self.vals.append(self.step(k, lay, nd, args))
        self.outs = [self.vals[t] for t in B.out_idx]

    def _need(self, mag, f):
        bits = np.log2(max(mag, 1e-30)) + f
        self.bits_max = max(self.bits_max, bits)
        if bits > 23:
            self.exact = False

    def quant(self, k, lay, nd, z):
        f = eff_f(lay.paq)
        if z.size:
            self._need(np.abs(z).max(), max(int(refs.frac_bits(z).max()), int(f.max())) + 1)
        r = refs.rq(z, f, eff_rnd(lay, nd))
        self.rec[k] = r
        return r

    def step(self, k, lay, nd, args):
        t = nd['t']
        x = args[0]
        if t in ('Signature', 'PDropout'):
            return x
        if t == 'HQuantize':
            return self.quant(k, lay, nd, x)
        if t == 'HAdd':
            z = sum(args)
            self._need(sum(np.abs(a) for a in args).max(), int(refs.frac_bits(np.stack(args)).max()))
            return self.quant(k, lay, nd, z)
        if t == 'PConcatenate':
            return np.concatenate(args, axis=nd['axis'])
        if t == 'PReshape':
            return x.reshape(len(x), *nd['shape'])
        if t == 'PFlatten':
            return x.reshape(len(x), -1)
        if t == 'PPermute':
            return x.transpose(0, *nd['dims'])
        if 'Pool' in t:
            return refs.pool_nd(x, nd['size'], nd['strides'] or nd['size'], nd['padding'], 'max' if 'Max' in t else 'avg')
        if t == 'HActivation':
            if nd['act'] in NP_ACT:
                z = NP_ACT[nd['act']](x)
            else:
                import tensorflow as tf
                z = np.asarray(act_fn(nd['act'])(tf.constant(x.astype(np.float32)))).astype(np.float64)
                f = eff_f(lay.paq)
                y = z * np.exp2(f) + (0 if refs.is_floor(eff_rnd(lay, nd)) else 0.5)
                amb = np.abs(y - np.round(y)) < 1e-4
                if nd['act'] in ('square', 'absneg', 'step'):
                    amb = np.zeros(1, bool)
                    self._need(np.abs(z).max(initial=0) + 2, 2 * max(0, int(refs.frac_bits(x).max(initial=-99))) + 1)
                elif nd['act'] in ('tanh', 'sigmoid', 'sinx'):
                    amb &= x != 0
                elif nd['act'] in ('softsign', 'swish', 'gelu', 'selu', 'elu'):
                    amb &= (x < 0) if nd['act'] == 'elu' else (x != 0)
                if np.any(amb):
                    self.exact = False  # a float32 transcendental on a rounding boundary decides nothing
                r = refs.rq(z, f, eff_rnd(lay, nd))
                self.rec[k] = r
                return r
            return self.quant(k, lay, nd, z)
        if k not in self.wcache:
            self.wcache[k] = ref_weights(lay, nd)
        w, b = self.wcache[k]
        if 'Dense' in t:
            op = np.matmul
        else:
            def op(a, ww):
                return refs.conv_nd(a, ww, nd['strides'], nd['padding'], nd['dil'])
        z = op(x, w)
        mag = op(np.abs(x), np.abs(w))
        f = int(refs.frac_bits(x).max(initial=-99)) + int(refs.frac_bits(w).max(initial=-99))
        if b is not None:
            z = z + b
            mag = mag + np.abs(b)
            f = max(f, int(refs.frac_bits(b).max(initial=-99)), int(eff_f(lay.paq).max()) + 1)
        self._need(mag.max(initial=0), f)
        z = self.quant(k, lay, nd, z)
        return NP_ACT[nd['act']](z)


def labels_of(spec):
    labs = {nd['t'] for nd in spec['nodes']} | {i['first']['t'] for i in spec['inputs']}
    labs |= {f"rnd={nd['q']['rnd']}" for nd in spec['nodes'] if 'q' in nd}
    labs |= {f"skip={nd['q']['skip']}" for nd in spec['nodes'] if 'q' in nd}
    if any(nd.get('act') == 'relu' for nd in spec['nodes']):
        labs.add('relu')
    if any('groups' in nd for nd in spec['nodes']):
        labs.add('grouped')
    if len(spec['inputs']) > 1:
        labs.add('multi-input')
    if spec.get('sx'):
        labs.add('scaled')
    if spec.get('seq') and is_chain(spec):
        labs.add('sequential')
    return sorted(labs)


# ------------------------------------------------------------------------------------------------ bit maps
def own_bits(lay, nd):
    """Exact bits per group a quantising layer's records call for (sign + integer + fraction)."""
    lo, hi = lay.paq._min.numpy().astype(np.float64), lay.paq._max.numpy().astype(np.float64)
    k, i, f = refs.kif_minmax(lo, hi, eff_f(lay.paq), pos_only=nd.get('act') == 'relu' and 'k' in nd or nd['t'] == 'HActivation' and nd['act'] == 'relu')
    return k + i + f


def bit_maps(B, leaf):
    """Bits of every element of every tensor, shape (1, *shape).  leaf(lay, nd) -> bits of quantising layers (group shape)."""
    out, shapes = [], []
    for lay, nd in zip(B.layers, B.nds):
        t = nd['t']
        args = [out[j] for j in nd['in'] if j >= 0]
        if t == 'Signature':
            v = np.full((1, *B.spec['inputs'][-1 - nd['in'][0]]['shape']), float(nd['b']))
        elif 'q' in nd:
            v = np.broadcast_to(leaf(lay, nd), (1, *lay.output_shape[1:])).astype(float)
        elif t == 'PConcatenate':
            v = np.concatenate(args, axis=nd['axis'])
        elif t == 'PReshape':
            v = args[0].reshape(1, *nd['shape'])
        elif t == 'PFlatten':
            v = args[0].reshape(1, -1)
        elif t == 'PPermute':
            v = args[0].transpose(0, *nd['dims'])
        elif 'MaxPool' in t:
            v = refs.pool_nd(args[0], nd['size'], nd['strides'] or nd['size'], nd['padding'], 'max')
        elif t == 'PDropout':
            v = args[0]
        else:
            raise KeyError(t)
        out.append(v)
    return out


def count_bops(nd, xb, wb):
    """Brute-force sum over scalar multiplications."""
    if 'Dense' in nd['t']:
        return float(np.matmul(xb, wb).sum())
    z = refs.conv_nd(xb, wb, nd['strides'], nd['padding'], nd['dil'])
    return float(z.sum()) * nd['pf'] / int(np.prod(z.shape[1:-1]))
