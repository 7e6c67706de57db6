"""C17: quantiser configurations are isolated, defaults respected."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation, require, sut

KINDS = ['HDense', 'HDenseBatchNorm', 'HConv1D', 'HConv1DBatchNorm', 'HConv2D', 'HConv2DBatchNorm', 'HQuantize', 'HActivation', 'HAdd']
RNDS = ['standard_round', 'floor', 'auto', 'stochastic_round', 'fast_uniform_noise_injection']


@st.composite
def values(draw, which):
    v = {'init_bw': draw(st.sampled_from([-1, 0, 1, 2, 3, 5, 1.5])), 'exact_q_value': draw(st.booleans()), 'trainable': draw(st.booleans()),
         'bw_clip': draw(st.sampled_from([[-23, 23], [-4, 4], [0, 3], [-2, 8]])), 'regularizer': draw(st.sampled_from([None, 0.25, 1.0]))}
    if which == 'kq':
        v['skip_dims'] = draw(st.sampled_from([None, 'none', 'all', 'except_last', 'except_1st', [0], [0, 1]]))
        v['rnd_strategy'] = draw(st.sampled_from(['standard_round', 'floor', 'stochastic_round']))
    else:
        v['skip_dims'] = draw(st.sampled_from(['batch', 'all', 'except_last', [0], [0, 1]]))
        v['rnd_strategy'] = draw(st.sampled_from(RNDS))
    return v


@st.composite
def spec(draw):
    ops = []
    n = draw(st.integers(2, 9))
    nd = nl = 0
    for _ in range(n):
        kinds = ['dict', 'setdef', 'baddef', 'getdef', 'layer', 'layer', 'layer']
        if nd:
            kinds += ['mutate', 'mutate']
        if nl:
            kinds += ['build', 'build']
        k = draw(st.sampled_from(kinds))
        w = draw(st.sampled_from(['kq', 'paq']))
        if k == 'dict':
            ops.append(['dict', w, draw(values(w))])
            nd += 1
        elif k == 'setdef':
            ops.append(['setdef', w, draw(values(w))])
            nd += 1
        elif k == 'baddef':
            ops.append(['baddef', w, draw(st.sampled_from(['missing', 'extra', 'renamed', 'none', 'empty', 'list', 'str'])), draw(st.integers(0, 6))])
        elif k == 'getdef':
            ops.append(['getdef', w])
            nd += 1
        elif k == 'mutate':
            j = draw(st.integers(0, nd - 1))
            ops.append(['mutate', j, draw(st.sampled_from(['init_bw', 'skip_dims', 'rnd_strategy', 'bw_clip', 'trainable', 'regularizer', 'del', 'clear'])), draw(values('paq'))])
        elif k == 'layer':
            def ref():
                return draw(st.one_of(st.none(), st.integers(0, nd - 1))) if nd else None
            ops.append(['layer', draw(st.sampled_from(KINDS)), ref(), ref(), draw(st.booleans()), draw(st.sampled_from(['relu', 'linear']))])
            nl += 1
        else:
            ops.append(['build', draw(st.integers(0, nl - 1))])
    for j in range(nl):
        ops.append(['build', j])
    return {'ops': ops}


def realise(v, HGQ):
    from HGQ.utils.utils import MonoL1
    out = dict(v)
    out['skip_dims'] = tuple(v['skip_dims']) if isinstance(v['skip_dims'], list) else v['skip_dims']
    out['bw_clip'] = tuple(v['bw_clip'])
    out['regularizer'] = None if v['regularizer'] is None else MonoL1(v['regularizer'])
    return out


def same(a, b):
    """equality of configuration dicts; regularisers by identity of the object handed in."""
    return isinstance(a, dict) and set(a) == set(b) and all((a[k] is b[k]) if k == 'regularizer' else (type(a[k]) == type(b[k]) and a[k] == b[k]) for k in a)


class Layer:
    pass


def bw_shape(shape, skip):
    shape = list(shape)
    r = len(shape)
    dims = {'all': range(r), 'batch': [0], 'none': [], None: [], 'except_last': range(r - 1), 'except_1st': [0] + list(range(2, r))}
    for d in (dims[skip] if not isinstance(skip, tuple) else skip):
        shape[d] = 1
    return [1 if s is None else s for s in shape]


def check(s):
    import HGQ
    import HGQ.layers as L
    import keras
    from HGQ.utils.utils import MonoL1
    orig = {'kq': HGQ.get_default_kq_conf(), 'paq': HGQ.get_default_paq_conf()}
    getters = {'kq': HGQ.get_default_kq_conf, 'paq': HGQ.get_default_paq_conf}
    setters = {'kq': HGQ.set_default_kq_conf, 'paq': HGQ.set_default_paq_conf}
    keys = {w: set(orig[w]) for w in orig}
    keras.backend.clear_session()
    try:
        return run(s, HGQ, L, keras, MonoL1, orig, getters, setters, keys)
    finally:
        for w in orig:
            setters[w](dict(orig[w]))


def run(s, HGQ, L, keras, MonoL1, orig, getters, setters, keys):
    defaults = {w: dict(orig[w]) for w in orig}
    dicts, kinds, shadow = [], [], []   # the caller's dictionaries, what they describe, what they must still hold
    layers = []
    labels = []

    def complete(w, v):
        c = realise(v, HGQ)
        if w == 'paq':
            c['minmax_record'] = True
        c['dtype'] = None
        return c

    def usable(d, w):
        return set(d) == keys[w]

    shared = False
    for op in s['ops']:
        labels.append(op[0])
        if op[0] == 'dict':
            d = complete(op[1], op[2])
            dicts.append(d), kinds.append(op[1]), shadow.append(dict(d))
        elif op[0] == 'setdef':
            d = complete(op[1], op[2])
            dicts.append(d), kinds.append(op[1]), shadow.append(dict(d))
            with sut(f'set_default_{op[1]}_conf'):
                setters[op[1]](d)
            defaults[op[1]] = dict(d)
        elif op[0] == 'baddef':
            bad = dict(defaults[op[1]])
            k = sorted(bad)[op[3] % len(bad)]
            if op[2] == 'missing':
                del bad[k]
            elif op[2] == 'extra':
                bad['not_an_option'] = 1
            elif op[2] == 'renamed':
                bad[k + '_'] = bad.pop(k)
            else:
                bad = {'none': None, 'empty': {}, 'list': list(bad), 'str': 'init_bw'}[op[2]]
            try:
                setters[op[1]](bad)
            except Exception:
                pass
            else:
                raise Violation(f'set_default_{op[1]}_conf accepted a configuration that is {op[2]} {k}')
        elif op[0] == 'getdef':
            with sut('get_default_*_conf'):
                d = getters[op[1]]()
            dicts.append(d), kinds.append(op[1]), shadow.append(dict(defaults[op[1]]))
        elif op[0] == 'mutate':
            d = dicts[op[1]]
            new = complete(kinds[op[1]], op[3])
            for e in (d, shadow[op[1]]):
                if op[2] == 'clear':
                    e.clear()
                elif op[2] == 'del':
                    e.pop('init_bw', None)
                else:
                    e[op[2]] = new[op[2]]
        elif op[0] == 'layer':
            _, kind, a, b, bias, act = op
            conf = {}
            used = {}
            for w, r in (('kq', a), ('paq', b)):
                if r is not None and kinds[r] == w and usable(dicts[r], w):
                    shared |= any(l.refs.get(w) == r for l in layers)
                    conf[w], used[w] = dicts[r], r
            lay = Layer()
            lay.kind, lay.refs, lay.bias, lay.act = kind, used, bias, act
            lay.kq, lay.paq = (dict(conf[w]) if w in conf else dict(defaults[w]) for w in ('kq', 'paq'))
            kw = {'paq_conf': conf.get('paq')} if 'paq' in conf else {}
            if kind[1:3] in ('De', 'Co'):
                kw.update(activation=act, use_bias=bias)
                if 'kq' in conf:
                    kw['kq_conf'] = conf['kq']
            lay.kernel = kind[1:3] in ('De', 'Co')
            lay.built = False
            with sut(f'creating {kind}'):
                lay.obj = {'HDense': lambda: L.HDense(3, **kw), 'HDenseBatchNorm': lambda: L.HDenseBatchNorm(3, **kw), 'HConv1D': lambda: L.HConv1D(3, 2, **kw),
                           'HConv1DBatchNorm': lambda: L.HConv1DBatchNorm(3, 2, **kw), 'HConv2D': lambda: L.HConv2D(3, 2, **kw), 'HConv2DBatchNorm': lambda: L.HConv2DBatchNorm(3, 2, **kw),
                           'HQuantize': lambda: L.HQuantize(**kw), 'HActivation': lambda: L.HActivation(act, **kw), 'HAdd': lambda: L.HAdd(**kw)}[kind]()
            layers.append(lay)
        elif op[0] == 'build':
            lay = layers[op[1]]
            if not lay.built:
                lay.shape = (4, 5, 2) if 'Conv2D' in lay.kind else (4, 3) if lay.kind != 'HQuantize' else (3, 2)
                with sut(f'building {lay.kind}'):
                    x = keras.Input(lay.shape)
                    lay.obj([x, keras.Input(lay.shape)] if lay.kind == 'HAdd' else x)
                lay.built = True
                lay.k0 = lay.obj.kernel.numpy() if lay.kernel else None
        # nothing but the intended target may have changed
        for w in defaults:
            with sut('get_default_*_conf'):
                got = getters[w]()
            require(same(got, defaults[w]), lambda: f'after {op[0]}: {w} defaults are {got}, expected {defaults[w]}')
        for j, (d, e) in enumerate(zip(dicts, shadow)):
            require(same(d, e), lambda: f'after {op[0]}: the caller\'s dictionary {j} became {d}, was {e}')
    n = 0
    for lay in layers:
        n += 1
        verify(lay, keras)
    return dict(nontrivial=n > 0 and len(s['ops']) > 2, labels=sorted(set(labels)) + (['shared dictionary'] if shared else []))


def verify(lay, keras):
    o = lay.obj
    what = f'{lay.kind}(kq={lay.kq}, paq={lay.paq})'
    cfg = o.get_config()
    for w, want in ((('kq', lay.kq), ('paq', lay.paq)) if lay.kernel else (('paq', lay.paq),)):
        got = dict(cfg[f'{w}_conf'])
        want = dict(want)
        if lay.kind == 'HActivation' and want['rnd_strategy'] == 'auto':
            require(got['rnd_strategy'] in ('auto', 'standard_round'), f'{what}: get_config says {got}')
            got['rnd_strategy'] = want['rnd_strategy']
        require(set(got) == set(want) and all(k == 'regularizer' or got[k] == want[k] for k in want), lambda: f'{what}: {w} configuration reported as {got}')
    out = (None,) + tuple(o.output_shape[1:])
    quants = [('paq', o.paq, lay.paq, out)]
    if lay.kernel:
        quants.append(('kq', o.kq, lay.kq, tuple(o.kernel.shape)))
    tw = {id(v) for v in o.trainable_weights}
    for w, q, c, shape in quants:
        f = q.fbw.numpy()
        require(list(f.shape) == bw_shape(shape, c['skip_dims']), lambda: f"{what}: {w} bitwidths of shape {f.shape}, skip_dims={c['skip_dims']} on {shape}")
        require((id(q.fbw) in tw) == bool(c['trainable']), lambda: f"{what}: {w} bitwidths trainable={id(q.fbw) in tw}, configured {c['trainable']}")
        if w == 'paq':
            require(np.all(f == c['init_bw']), lambda: f"{what}: {w} bitwidths {f.ravel()[:3]}, configured {c['init_bw']}")
        elif 'BatchNorm' not in lay.kind and not c['skip_dims']:
            with np.errstate(divide='ignore'):
                want = c['init_bw'] - np.log2(np.abs(lay.k0).astype(np.float64))
            ok = np.abs(lay.k0) > 1e-6
            require(np.allclose(f[ok], want[ok], atol=1e-3), lambda: f'{what}: {w} bitwidths {f[ok][:3]}, expected {want[ok][:3]}')
    # regularisers: the penalty of each bitwidth map
    want = sum((c['regularizer'].l1 if c['regularizer'] is not None else 0.) * float(np.sum(q.fbw.numpy().astype(np.float64))) for _, q, c, _ in quants)
    got = float(np.sum([float(v) for v in o.losses])) if o.losses else 0.0
    require(abs(got - want) <= 1e-4 * max(1, abs(want)), lambda: f'{what}: regularisation loss {got}, configured {want}')
    # clip limits and rounding, seen from outside
    c = lay.paq
    big = 12.0
    o.paq.fbw.assign(np.full(o.paq.fbw.shape, big, np.float32))
    F = int(np.clip(big, *c['bw_clip']))
    x = np.zeros((1,) + tuple(o.output_shape[1:]), np.float32) + np.float32(2.0**-F * 0.75 + 1)
    with sut('quantiser call'):
        y = np.asarray(o.paq(x, training=False))
    rnd = c['rnd_strategy']
    if rnd == 'auto':
        cover = lay.kernel and lay.bias and all(d == 1 for d in o.paq.fbw.shape[:-1])
        rnd = 'standard_round' if cover or lay.kind == 'HActivation' else 'floor'
    want = 1.0 if rnd == 'floor' else 1.0 + 2.0**-F
    require(np.all(y == np.float32(want)), lambda: f'{what}: 1+0.75 steps at the widest format is quantised to {y.ravel()[:3]}, expected {want}')


SUBS = [Sub('histories', spec, check)]
