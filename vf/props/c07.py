"""C07: exact bit derivation from recorded ranges and from weights."""
import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Sub, require, sut
from ..modelgen import rng_for


def edge_int():
    near = st.builds(lambda s, n, d: s * (2**n + d), st.sampled_from([1, -1]), st.integers(0, 22), st.integers(-2, 2))
    return st.one_of(near, near, st.integers(-2**22, 2**22), st.integers(-5, 5))


@st.composite
def range_spec(draw):
    n = draw(st.integers(1, 4))
    els = []
    for _ in range(n):
        a, b = draw(edge_int()), draw(edge_int())
        els.append([draw(st.integers(-8, 23)), min(a, b), max(a, b)] if draw(st.booleans()) else [draw(st.integers(-8, 23)), a, a])
    return {'els': els, 'frac': draw(st.sampled_from([0, 0.25, -0.4])), 'order': draw(st.booleans()), 'share': draw(st.booleans())}


def check(s):
    import tensorflow as tf
    from HGQ import HGQ
    els = s['els']
    if s['share']:
        els = [[els[0][0], lo, hi] for _, lo, hi in els]
    f = np.array([e[0] for e in els], float)
    x = np.stack([np.array([e[1] for e in els]) * 2.0**-f, np.array([e[2] for e in els]) * 2.0**-f]).astype(np.float32)
    if s['order']:
        x = x[::-1]
    with sut('recording'):
        q = HGQ(2, 'all' if s['share'] else (0,), rnd_strategy='standard_round', minmax_record=True)
        q.build((2, len(els)))
        q.fbw.assign((f[:1] if s['share'] else f)[None] + s['frac'])
        q(tf.constant(x[:1]), training=False, record_minmax=True)
        q(tf.constant(x[1:]), training=False, record_minmax=True)
    lo, hi = x.min(0), x.max(0)
    if s['share']:
        lo, hi, f = lo.min()[None], hi.max()[None], f[:1]
    for pos in (False, True):
        with sut(f'get_bits_exact(pos_only={pos})'):
            got = [np.asarray(v).reshape(-1).astype(int) for v in q.get_bits_exact(pos_only=pos)]
        want = refs.kif_minmax(lo, hi, f, pos_only=pos)
        for name, g, w in zip('kif', got, want):
            bad = np.flatnonzero(g != w)
            require(not len(bad), lambda: f'range [{lo[bad[0]]!r}, {hi[bad[0]]!r}] with f={f[bad[0]]} pos_only={pos}: {name}={g[bad[0]]}, needs {w[bad[0]]} (kif got {[int(v[bad[0]]) for v in got]})')
    return dict(nontrivial=bool((hi != lo).any()), labels=['neg-only' if (hi < 0).any() else 'mixed' if (lo < 0).any() else 'pos', 'zero' if ((lo == 0) & (hi == 0)).any() else 'nz'])


@st.composite
def weight_spec(draw):
    shape = [draw(st.integers(1, 4)) for _ in range(draw(st.integers(1, 4)))]
    skips = [None, 'all', 'except_last', 'none', [0]] + (['except_1st', [1], [0, 1]] if len(shape) > 1 else [])
    a = draw(st.integers(-6, 14))
    return {'seed': draw(st.integers(0, 2**20)), 'shape': shape, 'skip': draw(st.sampled_from(skips)), 'f': [a, draw(st.integers(a, 14))],
            'style': draw(st.sampled_from(['normal', 'pow2', 'sparse', 'zero', 'edge'])), 'amp': draw(st.integers(-6, 7)), 'rnd': draw(st.sampled_from(['standard_round', 'floor']))}


def check_w(s):
    import tensorflow as tf
    from HGQ import HGQ
    from .c04 import bw_shape
    rng = rng_for(s, 'w')
    shp = s['shape']
    w = rng.normal(0, 2.0**s['amp'], shp)
    if s['style'] == 'pow2':
        w = np.sign(w) * 2.0**rng.integers(-8, 8, shp)
    elif s['style'] == 'sparse':
        w *= rng.random(shp) < 0.5
    elif s['style'] == 'zero':
        w *= 0
    fs = bw_shape(shp, s['skip'])
    f = rng.integers(s['f'][0], s['f'][1] + 1, fs).astype(float)
    if s['style'] == 'edge':
        w = rng.choice([-1, 1], shp) * (2.0**rng.integers(0, 8, shp) + rng.integers(-1, 2, shp)) * 2.0**-np.broadcast_to(f, shp)
    w = (np.round(w * 2**16) / 2**16).astype(np.float32)
    with sut('get_bits_exact(weights)'):
        q = HGQ(2, tuple(s['skip']) if isinstance(s['skip'], list) else s['skip'], rnd_strategy=s['rnd'])
        q.build(tuple(shp))
        q.fbw.assign(f.astype(np.float32))
        got = [np.asarray(v).astype(int) for v in q.get_bits_exact(tf.constant(w))]
    wq = refs.rq(w, f, s['rnd'])
    want = refs.weight_bits(wq)
    for name, g, e in zip('kif', got, want):
        require(g.shape == e.shape, f'{name} has shape {g.shape}, weights {e.shape}')
        bad = np.argwhere(g != e)
        require(not len(bad), lambda: f'weight {wq[tuple(bad[0])]!r}: {name}={g[tuple(bad[0])]}, needs {e[tuple(bad[0])]}')
    return dict(nontrivial=bool((wq != 0).any()), labels=[s['style'], f"skip={s['skip']}"])


SUBS = [Sub('range', range_spec, check), Sub('weights', weight_spec, check_w)]
