"""C13: unary LUTs."""
import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from .. import refs
from ..core import Discard, Sub, require, sut

RNDS = ['TRN', 'RND', 'RND_CONV', 'TRN_ZERO', 'RND_ZERO', 'RND_INF', 'RND_MIN_INF']
SATS = ['WRAP', 'SAT', 'SAT_ZERO', 'SAT_SYM', 'WRAP_SM']
FNS = ['tanh', 'sigmoid', 'square', 'absneg', 'sinx', 'step', 'softplus', 'exp']


def fn_of(name):
    import keras
    if name in ('tanh', 'sigmoid', 'softplus'):
        return getattr(keras.activations, name)
    if name == 'exp':
        return keras.activations.exponential
    return mg.act_fn(name)


@st.composite
def direct(draw):
    k = draw(st.integers(0, 1))
    n = draw(st.integers(1, 9))
    i = draw(st.integers(-4, 5))
    ko = draw(st.integers(0, 1))
    bo = draw(st.integers(ko + 1, 12))
    io = draw(st.integers(-3, 6))
    return {'seed': draw(st.integers(0, 999)), 'kif': [k, i, n - k - i], 'out': [ko, io, bo - ko - io], 'R': draw(st.sampled_from(RNDS)), 'S': draw(st.sampled_from(SATS)),
            'fn': draw(st.sampled_from(FNS)), 'layer': draw(st.booleans()), 'via': draw(st.sampled_from(['call', 'model']))}


def check_direct(s):
    import keras
    from HGQ.proxy import UnaryLUT
    k, i, f = s['kif']
    fn = fn_of(s['fn'])
    codes = np.arange(-2**(k + i + f - 1) if k else 0, 2**(k + i + f - k))
    x = codes * 2.0**-f
    if s['S'] == 'WRAP_SM' and s['out'][0] == 0 or (s['S'] == 'SAT_SYM' and sum(s['out']) == 1):
        raise Discard('format combination without ap_fixed meaning')
    act = keras.layers.Activation(fn) if s['layer'] else fn
    raw = np.asarray(fn(np.asarray(x, np.float32 if s['layer'] else np.float64))).astype(np.float32).astype(np.float64)
    ko, io, fo = s['out']
    if np.abs(raw).max(initial=0) * 2.0**fo > 2**20:
        raise Discard('far overflow beyond float32')
    want = refs.ap_fixed(raw, ko, ko + io + fo, ko + io, s['R'], s['S'])
    with sut('UnaryLUT.from_activation'):
        lut = UnaryLUT.from_activation(act, kif_in=(k, i, f), kifRS_out=(ko, io, fo, s['R'], s['S']))
        rng = mg.rng_for(s, 'p')
        p = rng.permutation(len(x))
        xx = np.concatenate([x[p], x, x[::-1]]).reshape(1, -1, 1).astype(np.float32)
        ref = np.concatenate([want[p], want, want[::-1]])
        rr = np.concatenate([raw[p], raw, raw[::-1]])
        if s['via'] == 'model':
            inp = keras.Input(xx.shape[1:])
            got = np.asarray(keras.Model(inp, lut(inp))(xx))
        else:
            got = np.asarray(lut(xx))
    require(got.shape == xx.shape, f'LUT output shape {got.shape} for input {xx.shape}')
    got = got.ravel().astype(np.float64)
    y = rr * 2.0**fo * 2
    amb = (np.abs(y - np.round(y)) < 1e-4) & (y != np.round(y))  # a last-digit difference of a transcendental may fall on either side
    bad = (got != ref) & ~amb
    require(not bad.any(), lambda: f'LUT({xx.ravel()[bad][:3]}) = {got[bad][:3]}, quantised function value {ref[bad][:3]}')
    return dict(nontrivial=len(np.unique(want)) > 1, labels=[s['fn'], s['R'], s['S']])


@st.composite
def spec(draw):
    acts = draw(st.sampled_from([('square', 'absneg', 'step', 'relu', 'linear'), ('tanh', 'sigmoid', 'sinx', 'softmax', 'square'), mg.SMOOTH]))
    kinds = draw(st.sampled_from([('HActivation',), ('HActivation', 'HQuantize', 'PReshape', 'PFlatten'), ('HActivation', 'HDense', 'HConv1D', 'HAdd', 'PConcatenate', 'PPermute', 'PMaxPool1D')]))
    m = draw(mg.model_spec(max_nodes=2, min_nodes=0, last=('HActivation',), kinds=kinds, acts=acts, f=(-1, 3), shifts=False, n=(2, 16), pskips=draw(st.sampled_from([None, ['all', 'all', 'except_last']]))))
    return {'m': m, 'aggressive': draw(st.booleans()), 'size': draw(st.sampled_from([64, 1024, 4096, 'eq', 'eq-1', 16, 2, -1])), 'gain': draw(st.sampled_from([1.0, 2.0, 8.0]))}


def fmt_max(B, j):
    """(k, i, f) holding everything tensor j's producer may send, read through passive layers."""
    nd = B.nds[j]
    if nd['t'] == 'Signature':
        return nd['kn'], nd['i'] - nd['kn'], nd['b'] - nd['i']
    if 'q' in nd:
        lay = B.layers[j]
        k, i, f = refs.kif_minmax(lay.paq._min.numpy(), lay.paq._max.numpy(), mg.eff_f(lay.paq), pos_only='k' in nd and nd['act'] == 'relu')
        return int(k.max()), int(i.max()), int(f.max())
    fs = [fmt_max(B, t) for t in nd['in']]
    return tuple(max(v) for v in zip(*fs))


def check_model(s):
    import HGQ
    from HGQ.proxy import UnaryLUT, to_proxy_model
    B = mg.build(s['m'])
    acts = [k for k, nd in enumerate(B.nds) if nd['t'] == 'HActivation']
    if not acts:
        raise Discard('no activation')
    with sut('trace_minmax'):
        HGQ.trace_minmax(B.model, mg.as_input(B.data), verbose=False)
    R = mg.RefRun(B, B.data)
    if not R.exact:
        raise Discard('rounding decided by the last digit of a transcendental')
    if any(B.nds[k]['act'] == 'softmax' and mg.eff_f(B.layers[k].paq).min() < 0 for k in acts):
        raise Discard('softmax on a grid coarser than one')
    tab, bits = [], {}
    for k in acts:
        if B.nds[k]['act'] in ('relu', 'linear', 'softmax'):
            continue
        src = B.nds[k]['in'][0]
        bits[k] = sum(fmt_max(B, src))
        out = refs.kif_minmax(B.layers[k].paq._min.numpy(), B.layers[k].paq._max.numpy(), mg.eff_f(B.layers[k].paq))
        if bits[k] <= 0 or sum(int(v.max()) for v in out) <= 0:
            raise Discard('activation of constant zero')
        tab.append(k)
    size = s['size']
    if isinstance(size, str):
        b = min(bits.values(), default=3)
        if b > 12:
            raise Discard('table too large')
        size = 2**b - (1 if size == 'eq-1' else 0)
    with sut('to_proxy_model'):
        p0 = to_proxy_model(B.model, aggressive=s['aggressive'])
        p1 = to_proxy_model(B.model, aggressive=s['aggressive'], unary_lut_max_table_size=size)
    nl = sum(isinstance(lay, UnaryLUT) for lay in p1.layers)
    must = [k for k in tab if 2**bits[k] <= size]
    first = [k for k in tab if B.nds[k]['in'][0] < len(s['m']['inputs'])]
    never = [k for k in first if 2**bits[k] > size]
    require(nl >= len(must), f'{nl} tables for limit {size}, activations with 2^{[bits[k] for k in must]} entries must be replaced')
    require(nl <= len(tab) - len(never), f'{nl} tables for limit {size}, but only {len(tab) - len(never)} activations qualify (bits {bits})')
    cmp(p0, p1, mg.as_input(B.data), 'calibration data')
    want = mg.outs_np(B.model(mg.as_input(B.data), training=False))
    for a, b in zip(want, mg.outs_np(p1(mg.as_input(B.data)))):
        require(np.array_equal(a, b), 'proxy with tables differs from the model on the calibration data')
    exact_fns = all(B.nds[k]['act'] in ('square', 'absneg', 'step', 'relu', 'linear') for k in acts)
    if exact_fns:
        xs = [mg.data_for(s['m'], j, 48, 'any', s['gain']) for j in range(len(B.data))]
        cmp(p0, p1, mg.as_input(xs), 'other data')
        # every code of the first quantisers
        if len(B.data) == 1:
            k, i, f = fmt_max(B, 0)
            if 0 < k + i + f <= 11:
                codes = np.arange(-2**(k + i + f - 1) if k else 0, 2**(i + f)) * 2.0**-f
                x = np.broadcast_to(codes.reshape(-1, *[1] * len(s['m']['inputs'][0]['shape'])), (len(codes), *s['m']['inputs'][0]['shape'])).astype(np.float32)
                cmp(p0, p1, x, 'all codes')
    return dict(nontrivial=nl > 0, labels=[f'tables={nl}', f"size={s['size']}", 'exact' if exact_fns else 'transcendental'] + [f"act={B.nds[k]['act']}" for k in acts])


def cmp(p0, p1, x, what):
    with sut('proxy inference'):
        a, b = mg.outs_np(p0(x)), mg.outs_np(p1(x))
    for u, v in zip(a, b):
        require(u.shape == v.shape and np.array_equal(u, v), lambda: f'{what}: proxy with tables {v[u != v][:4]} differs from proxy without {u[u != v][:4]}')


SUBS = [Sub('direct', direct, check_direct), Sub('models', spec, check_model)]
