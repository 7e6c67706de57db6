"""C04: inference quantisation of HGQ quantisers."""
import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Sub, require, sut
from ..modelgen import rng_for

RNDS = ['standard_round', 'stochastic_round', 'fast_uniform_noise_injection', 'floor', 0, 1, 2, 3]


@st.composite
def quant_spec(draw, rnds=RNDS, exact=(True, True, False), min_rank=1, fr=(-8, 10)):
    rank = draw(st.integers(min_rank, 4))
    shape = [draw(st.integers(1, 4)) for _ in range(rank)]
    skips = ['all', 'batch', 'none', 'except_last', None, [0]]
    if rank >= 2:
        skips += ['except_1st', [0, rank - 1], list(range(rank)), [rank - 1], [0, -1] if rank > 2 else [0]]
    if rank >= 3:
        skips += [[1], [0, 1], [0, 2]]
    lo = draw(st.integers(*fr))
    hi = draw(st.integers(lo, fr[1]))
    clip = draw(st.sampled_from([[-23, 23], [-23, 23], None, [0, 4], [-2, 6], [3, 3], [-4, 0]]))
    return {'seed': draw(st.integers(0, 2**20)), 'shape': shape, 'skip': draw(st.sampled_from(skips)), 'rnd': draw(st.sampled_from(rnds)), 'f': [lo, hi],
            'fm': draw(st.sampled_from(['int', 'half', 'any'])), 'clip': clip, 'exact': draw(st.sampled_from(exact)), 'e': draw(st.integers(0, 4)),
            'mag': draw(st.integers(0, 14)), 'init': draw(st.sampled_from([2, 0, 5.5, -3]))}


def bw_shape(shape, skip):
    """The documented meaning of skip_dims: those axes share one bitwidth."""
    n = len(shape)
    ax = {'all': range(n), 'batch': (0,), 'none': (), None: (), 'except_last': range(n - 1), 'except_1st': (0, *range(2, n))}.get(
        skip if not isinstance(skip, list) else '', None)
    if ax is None:
        ax = [d % n for d in skip]
    return [1 if d in list(ax) else shape[d] for d in range(n)]


def make(s, minmax=True, tf=None):
    import tensorflow as tf
    from HGQ import HGQ
    sk = tuple(s['skip']) if isinstance(s['skip'], list) else s['skip']
    with sut('building the quantiser'):
        q = HGQ(s['init'], sk, rnd_strategy=s['rnd'], exact_q_value=s['exact'], bw_clip=tuple(s['clip']) if s['clip'] else None, minmax_record=minmax)
        q.build(tuple(s['shape']))
        fs = bw_shape(s['shape'], s['skip'])
        require(list(q.fbw.shape) == fs, f"skip_dims={s['skip']} on shape {s['shape']}: bitwidth shape {list(q.fbw.shape)}, expected {fs}")
        require(np.all(q.fbw.numpy() == np.float32(s['init'])), 'initial bitwidth not honoured')
        rng = rng_for(s, 'f')
        lo, hi = s['f']
        f = {'int': lambda: rng.integers(lo, hi + 1, fs) + 0., 'half': lambda: rng.integers(2 * lo, 2 * hi + 1, fs) / 2, 'any': lambda: rng.uniform(lo, hi, fs)}[s['fm']]()
        q.fbw.assign(f.astype(np.float32))
    return q, f.astype(np.float32).astype(np.float64)


def clipped(f, clip):
    return np.clip(f, *clip) if clip else f


def data(s, F, tag='x', shape=None, scale=1):
    """Dyadic data around the grid: multiples of 2^-(F+e)."""
    rng = rng_for(s, tag)
    shape = shape or s['shape']
    F = np.broadcast_to(np.round(F), shape)
    n = rng.integers(-2**s['mag'] * 2**s['e'], 2**s['mag'] * 2**s['e'] + 1, shape)
    return (n * 2.0**(-F - s['e'])).astype(np.float32)


def check(s):
    import tensorflow as tf
    q, f0 = make(s)
    fc = clipped(f0, s['clip'])
    F = np.round(fc)
    x = data(s, F)
    want = refs.rq(x, F, 'floor' if s['rnd'] in ('floor', 3) else 'r')
    tf.random.set_seed(s['seed'])
    with sut('quantiser call'):
        y = np.asarray(q(tf.constant(x), training=False))
    require(y.shape == x.shape, f'output shape {y.shape} for input {x.shape}')
    bad = np.argwhere(y != want)
    require(not len(bad), lambda: f"inference value: x={x[tuple(bad[0])]!r} F={np.broadcast_to(F, x.shape)[tuple(bad[0])]} {s['rnd']} -> {y[tuple(bad[0])]!r}, expected {want[tuple(bad[0])]!r}")
    with sut('repeated calls'):
        if s['exact']:
            q(tf.constant(data(s, F, 'other')), training=True)
        q(tf.constant(x), training=False, record_minmax=True)
        q(tf.constant(data(s, F, 'other2')), training=None)
        y2 = np.asarray(q(tf.constant(x), training=None))
        y3 = np.asarray(q(tf.constant(y), training=False))
        y4 = np.asarray(q(tf.constant(x), training=False, record_minmax=True))
    require(np.array_equal(y, y2), 'inference result changed after other calls')
    require(np.array_equal(y, y3), 'inference quantisation is not idempotent')
    require(np.array_equal(y, y4), 'inference result depends on recording')
    return dict(nontrivial=bool((want != x).any()), labels=[f"rnd={s['rnd']}", f"skip={s['skip']}", f"clip={s['clip']}", s['fm'], 'clipped' if (fc != f0).any() else 'unclipped'])


def check_bias(s):
    import tensorflow as tf
    q, f0 = make(s)
    F = np.round(clipped(f0, s['clip']).max(axis=tuple(range(f0.ndim - 1))))
    C = s['shape'][-1]
    b = data(s, F, 'b', [C])
    want = refs.rq(b, F, 'floor' if s['rnd'] in ('floor', 3) else 'r')
    with sut('bias_forward'):
        y1 = np.asarray(q.bias_forward(tf.constant(b), False, -1))
        q(tf.constant(data(s, np.zeros([1] * len(s['shape'])))), training=False)
        y2 = np.asarray(q.bias_forward(tf.constant(b), False, -1))
        y3, y4 = np.asarray(q.bias_forward(tf.constant(b))), np.asarray(q.bias_forward(tf.constant(b), training=None))
    for y, w in ((y1, 'first'), (y2, 'second'), (y3, 'default'), (y4, 'training=None')):
        bad = np.flatnonzero(y != want)
        require(not len(bad), lambda: f'{w} bias quantisation: b={b[bad[0]]!r} F={np.broadcast_to(F, b.shape)[bad[0]]} -> {y[bad[0]]!r}, expected {want[bad[0]]!r}')
    return dict(nontrivial=bool((want != b).any()), labels=[f"rnd={s['rnd']}"])


def check_jit(s):
    import tensorflow as tf
    tf.config.run_functions_eagerly(False)
    try:
        return check(s)
    finally:
        tf.config.run_functions_eagerly(True)


SUBS = [Sub('value', quant_spec, check), Sub('bias', lambda: quant_spec(min_rank=2), check_bias), Sub('jit', quant_spec, check_jit)]
