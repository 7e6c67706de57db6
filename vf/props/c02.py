"""C02: fixed-point quantiser == ap_fixed / ap_ufixed casts."""
import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Sub, require, sut

RND = ['TRN', 'TRN_ZERO', 'RND', 'RND_ZERO', 'RND_INF', 'RND_MIN_INF', 'RND_CONV']
SAT = ['WRAP', 'SAT', 'SAT_ZERO', 'SAT_SYM', 'WRAP_SM']


@st.composite
def spec(draw, nmax=5):
    n = draw(st.integers(1, nmax))
    RN, SA = draw(st.sampled_from(RND)), draw(st.sampled_from(SAT))
    form = draw(st.sampled_from(['gfixed_quantizer', 'gfixed', 'layer', 'layer', 'wrapper', 'layer_int']))
    fmts, m = [], (n if form in ('gfixed_quantizer', 'gfixed', 'layer') else 1)
    for _ in range(m):
        k = draw(st.integers(0, 1))
        b = draw(st.integers(0, 16)) if draw(st.sampled_from([True, True, True, False])) else draw(st.integers(17, 22))
        if SA == 'SAT_SYM' and b == k:
            b += 1  # a one-bit signed symmetric type does not exist in hardware
        i = draw(st.integers(-8, 20)) if draw(st.booleans()) else draw(st.integers(0, max(b, 1)))
        fmts.append([k, b, i])
    e = draw(st.integers(0, 3))
    codes = draw(st.lists(st.integers(-2**18, 2**18), min_size=1, max_size=12))
    shape = draw(st.sampled_from(['1n', 'n', '11n']))
    return {'fmts': fmts, 'n': n, 'RND': RN, 'SAT': SA, 'form': form, 'e': e, 'codes': codes, 'shape': shape}


def inputs(s):
    """(m, n) inputs: for every element's format, its boundaries and 0 with all sub-step positions, and the drawn codes."""
    cols = []
    for j in range(s['n']):
        k, b, i = s['fmts'][j % len(s['fmts'])]
        e = s['e']
        hi = 2**(b - k) if b else 0
        lo = -hi * k
        near = [c * 2**e + d for c in (lo - 1, lo, lo + 1, 0, hi - 1, hi, 2 * hi, 3 * lo, -hi) for d in range(-2**e, 2**e + 1)]
        near += [c % 2**(b + e + 2) - 2**(b + e + 1) for c in s['codes']] + s['codes']
        near = np.array([c for c in near if abs(c) < 2**22], dtype=np.float64)
        # just beside steps and half-steps, as close as float32 allows with a bit to spare
        fine = [c + h + sg * 2.0**-(22 - int(abs(c) + 2).bit_length()) for c in (lo - 1, lo, -2, -1, 0, 1, hi - 1, hi) if abs(c) < 2**18 for h in (0, 0.5) for sg in (-1, 1)]
        near = np.concatenate([near, np.array(fine) * 2.0**e])
        cols.append(near * 2.0**(-(b - i) - e))
    m = max(len(c) for c in cols)
    return np.stack([np.resize(c, m) for c in cols], 1).astype(np.float32)


def check(s, jit=False):
    import tensorflow as tf
    from HGQ.proxy import FixedPointQuantizer, fixed, gfixed, gfixed_quantizer, ufixed
    x = inputs(s)
    n = s['n']
    k, b, i = (np.array([f[q] for f in s['fmts']]) for q in range(3))
    if s['shape'] == '11n':
        x = x[:, None, :]
    shp = {'1n': (1, -1), 'n': (-1,), '11n': (1, 1, -1)}[s['shape']]
    kk, bb, ii = (np.int8(v).reshape(shp) for v in (k, b, i))
    tf.config.run_functions_eagerly(not jit)
    try:
        with sut(f"{s['form']} quantiser"):
            if s['form'] == 'gfixed_quantizer':
                y = gfixed_quantizer(tf.constant(x), tf.constant(kk), tf.constant(bb), tf.constant(ii), s['RND'], s['SAT'])
            elif s['form'] == 'gfixed':
                y = gfixed(tf.constant(kk), tf.constant(bb), tf.constant(ii), s['RND'], s['SAT'])(tf.constant(x))
            elif s['form'] == 'layer':
                y = FixedPointQuantizer(kk, bb, ii, s['RND'], s['SAT'])(tf.constant(x))
            elif s['form'] == 'layer_int':
                y = FixedPointQuantizer(int(k[0]), int(b[0]), int(i[0]), s['RND'], s['SAT'])(tf.constant(x))
            else:
                y = (fixed if k[0] else ufixed)(int(b[0]), int(i[0]), s['RND'], s['SAT'])(tf.constant(x))
            y = np.asarray(y)
    finally:
        tf.config.run_functions_eagerly(True)
    want = refs.ap_fixed(x, k, b, i, s['RND'], s['SAT'])
    require(y.shape == x.shape, f'shape {y.shape} != {x.shape}')
    bad = np.argwhere(y != want)
    if len(bad):
        j = tuple(bad[0])
        f = s['fmts'][j[-1] % len(s['fmts'])]
        require(False, f"{s['form']} {s['RND']} {s['SAT']} fmt(k,b,i)={f}: x={x[j]!r} -> {y[j]!r}, ap_fixed gives {want[j]!r}")
    over = bool((want != refs.ap_fixed(x, 1, 40, 30, s['RND'], 'SAT')).any())
    return dict(nontrivial=bool(any(f[1] for f in s['fmts'])), labels=[s['RND'], s['SAT'], s['form'], 'overflow' if over else 'in-range',
                                                                       'zero-width' if any(f[1] == 0 for f in s['fmts']) else 'nz', 'hetero' if len(s['fmts']) > 1 else 'homo'])


SUBS = [Sub('cast', spec, check), Sub('jit', lambda: spec(3), lambda s: check(s, True))]
