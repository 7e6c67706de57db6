"""C05: training-mode quantisation values and surrogate gradients."""
import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Sub, require, sut
from ..modelgen import rng_for
from .c04 import clipped, data, make, quant_spec

NAMES = {0: 'standard_round', 1: 'stochastic_round', 2: 'fast_uniform_noise_injection', 3: 'floor'}
LN2 = float(np.log(2))


def values_ok(s, x, y, f, what):
    """y must be a legal training-mode quantisation of x for (clipped) bitwidth map f."""
    x, y = x.astype(np.float64), y.astype(np.float64)
    fe = np.broadcast_to(np.round(f) if s['exact'] else f, x.shape)
    sc = np.exp2(fe)
    t, z = x * sc, y * sc
    tol = 1e-5 * (1 + np.abs(fe)) + 3e-7 * np.abs(t)
    r = NAMES.get(s['rnd'], s['rnd'])
    d = z - t
    if r == 'standard_round':
        ok = (np.abs(d) <= 0.5 + tol) & (np.abs(z - np.round(z)) <= tol)
        if s['exact']:  # ties go up
            ok &= np.abs(z - np.floor(t + 0.5)) <= tol
    elif r == 'floor':
        ok = (np.abs(z - np.round(z)) <= tol) & (d <= tol) & (d >= -1 - tol)
        if s['exact']:
            ok &= np.abs(z - np.floor(t)) <= tol
    elif r == 'stochastic_round':
        ok = (np.abs(z - np.round(z)) <= tol) & (np.abs(d) <= 1 + tol)
        if s['exact']:
            ok &= (np.abs(z - np.floor(t)) <= tol) | ((np.abs(z - np.floor(t) - 1) <= tol) & (t != np.floor(t)))
    else:
        ok = np.abs(d) <= 0.5 + tol
        ok &= (np.abs(t) > 0.5) | (np.abs(z) <= tol)
    bad = np.argwhere(~ok)
    require(not len(bad), lambda: f"{what}: {r} (exact_q_value={s['exact']}) x={x[tuple(bad[0])]!r} f={np.broadcast_to(f, x.shape)[tuple(bad[0])]} -> {y[tuple(bad[0])]!r}")


def group_sum(v, shape):
    ax = tuple(d for d in range(v.ndim) if shape[d] == 1)
    return v.sum(axis=ax, keepdims=True)


def close(g, w, scale, what):
    tol = 1e-4 * scale + 1e-9
    bad = np.argwhere(~(np.abs(g - w) <= tol))
    require(not len(bad), lambda: f'{what}: got {g[tuple(bad[0])]!r}, expected {w[tuple(bad[0])]!r}')


def check(s):
    import tensorflow as tf
    q, f0 = make(s)
    f = clipped(f0, s['clip'])
    x = data(s, f)
    up = rng_for(s, 'up').integers(-4, 5, x.shape).astype(np.float32)
    tf.random.set_seed(s['seed'])
    xt = tf.constant(x)
    with sut('training forward/backward'):
        if s['clip']:
            q.fbw.assign(f.astype(np.float32))
        with tf.GradientTape() as tape:
            tape.watch(xt)
            y = q(xt, training=True, record_minmax=bool(s['seed'] & 1))
            loss = tf.reduce_sum(y * up)
        gx, gf = tape.gradient(loss, [xt, q.fbw])
    y = np.asarray(y)
    values_ok(s, x, y, f, 'training value')
    require(gx is not None and gf is not None, 'no gradient to the input or to the bitwidth')
    require(np.array_equal(np.asarray(gx), up), 'gradient w.r.t. the input is not the identity')
    delta = y.astype(np.float64) - x
    step = np.exp2(-np.broadcast_to(f, x.shape))
    want = group_sum(-LN2 * delta * up, q.fbw.shape)
    # delta is reconstructed from float32 y - x: allow for cancellation
    scale = group_sum(np.abs(up) * (step + np.abs(x) * 2e-3), q.fbw.shape)
    close(np.asarray(gf), want, scale, 'gradient w.r.t. the bitwidth')
    return dict(nontrivial=bool((np.abs(delta) > 1e-6).any() and up.any()), labels=[f"rnd={NAMES.get(s['rnd'], s['rnd'])}", f"exact={s['exact']}", f"skip={s['skip']}"])


def check_bias(s):
    import tensorflow as tf
    q, f0 = make(s)
    f = clipped(f0, s['clip'])
    C = s['shape'][-1]
    fb = f.max(axis=tuple(range(f.ndim - 1)))
    b = data(s, fb, 'b', [C])
    up = rng_for(s, 'up').integers(-4, 5, b.shape).astype(np.float32)
    bt = tf.constant(b)
    with sut('bias training forward/backward'):
        q.fbw.assign(f.astype(np.float32))
        with tf.GradientTape() as tape:
            tape.watch(bt)
            y = q.bias_forward(bt, True, -1)
            loss = tf.reduce_sum(y * up)
        gb, gf = tape.gradient(loss, [bt, q.fbw])
    y = np.asarray(y)
    values_ok(s, b, y, np.broadcast_to(fb, b.shape), 'training bias')
    require(gb is not None and gf is not None, 'no gradient to the bias or to the bitwidth')
    require(np.array_equal(np.asarray(gb), up), 'gradient w.r.t. the bias is not the identity')
    delta = y.astype(np.float64) - b
    want = -LN2 * delta * up
    g = np.asarray(gf).sum(axis=tuple(range(f.ndim - 1)))
    scale = np.abs(up) * (np.exp2(-np.broadcast_to(fb, b.shape)) + np.abs(b) * 2e-3)
    if g.shape[0] == 1:
        want, scale = want.sum(keepdims=True), scale.sum(keepdims=True)
    inside = True
    if s['clip']:  # at the clip limit the derivative of the clipping is convention, not contract
        inside = (fb > s['clip'][0]) & (fb < s['clip'][1])
    if np.all(inside):
        close(g, want, scale, 'gradient of the bias w.r.t. the bitwidth')
        low = f < f.max(axis=tuple(range(f.ndim - 1)), keepdims=True) - 1e-4
        require(not np.any(np.asarray(gf)[low]), 'the bias has a gradient w.r.t. bitwidths that it is not quantised with')
    return dict(nontrivial=bool((np.abs(delta) > 1e-6).any() and up.any()), labels=[f"rnd={NAMES.get(s['rnd'], s['rnd'])}"])


@st.composite
def stat_spec(draw):
    return {'seed': draw(st.integers(0, 2**20)), 'f': draw(st.integers(-3, 6)), 'p': draw(st.integers(0, 16)), 'base': draw(st.integers(-6, 6)),
            'rnd': draw(st.sampled_from(['stochastic_round', 'fast_uniform_noise_injection'])), 'bias': draw(st.booleans())}


def check_stat(s):
    """6-sigma test of the random strategies on N identical values (fixed TF seed: deterministic)."""
    import tensorflow as tf
    from HGQ import HGQ
    N = 4096
    p = s['p'] / 16
    t = s['base'] + p
    x = np.full((1, N), t * 2.0**-s['f'], np.float32)
    tf.random.set_seed(s['seed'])
    with sut('random rounding'):
        q = HGQ(float(s['f']), 'all', rnd_strategy=s['rnd'])
        q.build((1, N))
        y = q.bias_forward(tf.constant(x[0]), True, -1) if s['bias'] else q(tf.constant(x), training=True)
    z = np.asarray(y, np.float64).reshape(-1) * 2.0**s['f']
    if s['rnd'] == 'stochastic_round':
        fr = p % 1
        up = np.mean(z > np.floor(t) + 0.5)
        sig = np.sqrt(fr * (1 - fr) / N)
        require(abs(up - fr) <= 6 * sig + 1e-9, f'stochastic rounding of {t} steps: rounded up with frequency {up}, expected {fr}')
    elif abs(t) > 0.5:
        d = z - t
        require(abs(d.mean()) <= 6 * np.sqrt(1 / 12 / N) and abs(d.var() - 1 / 12) < 6 * np.sqrt(1 / 180 / N), f'noise at {t}: mean {d.mean()}, variance {d.var()} (expected 0, 1/12)')
    else:
        require(np.all(np.abs(z) < 1e-4), f'noise injection: value {t} steps not sent to zero')
    return dict(nontrivial=0 < p < 1, labels=[s['rnd']])


SUBS = [Sub('quantise', quant_spec, check), Sub('bias', lambda: quant_spec(min_rank=2), check_bias), Sub('statistics', stat_spec, check_stat)]
