"""C11: saving and loading preserves models and proxies."""
import inspect
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from ..core import Discard, Sub, require, sut

KINDS = tuple(mg.ALL_KINDS)
HK = ('HDense', 'HDenseBatchNorm', 'HConv1D', 'HConv1DBatchNorm', 'HConv2D', 'HConv2DBatchNorm')


@st.composite
def options(draw):
    e = {}
    for t in HK:
        o = {'beta': draw(st.sampled_from([0.0, 1e-6, 0.5]))}
        if draw(st.booleans()):
            o['do_adapt_kernel_bits'] = False
        if 'Dense' in t and draw(st.booleans()):
            o['parallel_factor'] = draw(st.integers(1, 4))
        if 'BatchNorm' in t:
            o['momentum'] = draw(st.sampled_from([0.99, 0.5, 0.9]))
            if draw(st.booleans()):
                o['gamma_initializer'], o['beta_initializer'] = 'zeros', 'ones'
            if draw(st.booleans()):
                o[draw(st.sampled_from(['gamma_constraint', 'beta_constraint']))] = 'non_neg'
            if draw(st.booleans()):
                o[draw(st.sampled_from(['beta_regularizer', 'gamma_regularizer']))] = 'l2'
            if draw(st.booleans()):
                o['moving_mean_initializer'], o['moving_variance_initializer'] = 'ones', 'ones'
        if draw(st.integers(0, 5)) == 0:
            o['trainable'] = False
        if draw(st.booleans()):
            o['kernel_regularizer'] = 'l1'
        if draw(st.booleans()):
            o[draw(st.sampled_from(['kernel_constraint', 'bias_constraint']))] = draw(st.sampled_from(['non_neg', 'unit_norm']))
        if draw(st.booleans()):
            o[draw(st.sampled_from(['bias_regularizer', 'activity_regularizer']))] = 'l1_l2'
        if draw(st.booleans()):
            o['bias_initializer'] = 'ones'
        e[t] = o
    for t in ('HQuantize', 'HActivation', 'HAdd'):
        e[t] = {'beta': draw(st.sampled_from([0.0, 0.25]))}
    return e


@st.composite
def spec(draw):
    acts = draw(st.sampled_from([('relu', 'linear'), ('tanh', 'sigmoid', 'relu'), ('softmax', 'linear')]))
    m = draw(mg.model_spec(max_nodes=4, kinds=KINDS, acts=acts, n=(1, 8), f=(0, 5)))
    for nd in m['nodes']:
        if nd.get('actf') == 'tfnn':
            nd['actf'] = 'fn'
    quant = draw(st.sampled_from([None, None, True])) and {'bw_clip': draw(st.sampled_from([(-4, 4), (0, 8), (-23, 12)])), 'trainable': draw(st.booleans()), 'l1': draw(st.sampled_from([0.0, 1e-6, 0.25]))}
    return {'m': m, 'quant': [quant, quant and draw(st.booleans())], 'opt': draw(options()), 'fmt': draw(st.sampled_from(['h5', 'keras', 'weights', 'config'])), 'nest': draw(st.booleans()),
            'train': draw(st.integers(0, 2)), 'twice': draw(st.booleans())}


def norm(c):
    if isinstance(c, dict):
        return {str(k): norm(v) for k, v in c.items()}
    if isinstance(c, (list, tuple)):
        return [norm(v) for v in c]
    if callable(c) and hasattr(c, '__name__'):
        return c.__name__
    if hasattr(c, 'get_config'):
        return {'class_name': type(c).__name__, 'config': norm(c.get_config())}
    if hasattr(c, 'numpy'):
        c = c.numpy()
    if hasattr(c, 'tolist'):
        c = c.tolist()
    if isinstance(c, float):
        return float(np.float32(c))
    return c


def slim(c):
    """Drop what only describes how an object is looked up, keep what it is."""
    if isinstance(c, dict):
        c = {k: slim(v) for k, v in c.items() if k not in ('module', 'registered_name', 'build_config', 'shared_object_id', '__passive_serialization__')}
        if isinstance(c.get('class_name'), str):
            c['class_name'] = c['class_name'].split('>')[-1]
        return c
    if isinstance(c, list):
        return [slim(v) for v in c]
    return c


def flat_layers(model):
    import keras
    for lay in model.layers:
        if isinstance(lay, keras.Model):
            yield from flat_layers(lay)
        else:
            yield lay


QATTR = ('init_bw', 'skip_dims', 'rnd_strategy', 'exact_q_value', 'bw_clip', 'trainable', 'regularizer', 'degeneracy')


def primitive(v):
    if isinstance(v, dict):
        return all(primitive(u) for u in v.values())
    if isinstance(v, list):
        return all(primitive(u) for u in v)
    return v is None or isinstance(v, (str, int, float, bool))


def settings(lay):
    """What the layer was made with, read from the layer itself: its constructors' parameters and its quantisers' settings."""
    names = {'overrides'}
    for c in type(lay).__mro__:
        if '__init__' in vars(c):
            names |= {p.name for p in inspect.signature(c.__init__).parameters.values() if p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)}
    out = {}
    for n in sorted(names - {'self', 'name', 'table', 'keep_negative', 'bits', 'integers', 'dtype'}):
        try:
            v = getattr(lay, n)
        except Exception:
            continue
        v = slim(norm(v))
        if primitive(v):
            out[n] = v
    for q in ('kq', 'paq'):
        if hasattr(lay, q):
            out.update({f'{q}.{n}': slim(norm(getattr(getattr(lay, q), n, None))) for n in QATTR})
    return out


def same_layers(a, b, what):
    la, lb = list(flat_layers(a)), list(flat_layers(b))
    require([type(v).__name__ for v in la] == [type(v).__name__ for v in lb], lambda: f'{what}: layers {[type(v).__name__ for v in la]} became {[type(v).__name__ for v in lb]}')
    for u, v in zip(la, lb):
        with sut('get_config'):
            cu, cv = slim(norm(u.get_config())), slim(norm(v.get_config()))
        require(cu == cv, lambda: f'{what}: configuration of {type(u).__name__} changed: ' + str({k: (cu.get(k), cv.get(k)) for k in set(cu) | set(cv) if cu.get(k) != cv.get(k)})[:600])
        su, sv = settings(u), settings(v)
        require(su == sv, lambda: f'{what}: settings of {type(u).__name__} changed: ' + str({k: (su.get(k), sv.get(k)) for k in set(su) | set(sv) if su.get(k) != sv.get(k)})[:600])


def same_weights(a, b, what):
    wa, wb = a.get_weights(), b.get_weights()
    require(len(wa) == len(wb), f'{what}: {len(wa)} weights became {len(wb)}')
    for n, (u, v) in enumerate(zip(wa, wb)):
        if a.weights[n].name.split('/')[-1].startswith('bops'):
            continue  # the last measurement (Keras re-evaluates it while saving), not a weight
        require(u.shape == v.shape and np.array_equal(u, v, equal_nan=True), lambda: f'{what}: weight {a.weights[n].name} changed')


def same_out(a, b, xs, what):
    with sut(f'{what}: inference'):
        oa, ob = mg.outs_np(a(mg.as_input(xs))), mg.outs_np(b(mg.as_input(xs)))
    for j, (u, v) in enumerate(zip(oa, ob)):
        require(u.shape == v.shape and np.array_equal(u, v, equal_nan=True), lambda: f'{what}: output {j} differs: {u[u != v][:3]} -> {v[u != v][:3]}')


def build(s, m):
    """The model, with other quantiser settings than the defaults if asked for (for kernels, or kernels and activations)."""
    import HGQ
    quant, both = s.get('quant') or (None, False)
    if not quant:
        return mg.build(m, extra=dict(s['opt'], first=None))
    old = mg.mk_paq, mg.mk_kq

    def with_opts(mk):
        def f(q, H):
            c = mk(q, H)
            c.update(trainable=quant['trainable'], bw_clip=tuple(quant['bw_clip']), regularizer=HGQ.utils.utils.MonoL1(quant['l1']))
            return c
        return f
    mg.mk_kq = with_opts(old[1])
    if both:
        mg.mk_paq = with_opts(old[0])
    try:
        return mg.build(m, extra=dict(s['opt'], first=None))
    finally:
        mg.mk_paq, mg.mk_kq = old


def wrap(B, nest):
    import keras
    if not nest:
        return B.model
    ins = [keras.Input(tuple(i['shape'])) for i in B.spec['inputs']]
    return keras.Model(mg.as_input(ins), B.model(mg.as_input(ins)))


def roundtrip(model, fmt, d, remake=None):
    import keras
    if fmt == 'config':
        with sut('from_config'):
            new = type(model).from_config(model.get_config())
            new.set_weights(model.get_weights())
        return new
    if fmt == 'weights':
        with sut('save_weights / load_weights'):
            p = os.path.join(d, 'w.weights.h5')
            model.save_weights(p)
            new = remake()
            new.load_weights(p)
        return new
    with sut(f'saving and loading ({fmt})'):
        p = os.path.join(d, 'm.' + fmt)
        model.save(p)
        return keras.models.load_model(p, compile=False)


def check(s):
    import HGQ
    import keras
    from HGQ.proxy import to_proxy_model
    d = tempfile.mkdtemp(dir=os.environ.get('VF_SCRATCH'))
    try:
        B = build(s, s['m'])
        model = wrap(B, s['nest'])
        x = mg.as_input(B.data)
        for _ in range(s['train']):
            with sut('training call'):
                model(x, training=True)

        def remake():
            return wrap(build(s, dict(s['m'], seed=s['m']['seed'] + 1)), s['nest'])
        what = s['fmt']
        new = roundtrip(model, s['fmt'], d, remake)
        if s['twice'] and s['fmt'] != 'weights':
            new = roundtrip(new, s['fmt'], d)
            what += ' (twice)'
        if s['fmt'] != 'weights':
            same_layers(model, new, what)
        same_weights(model, new, what)
        same_out(model, new, B.data, what)
        with sut('trace_minmax'):
            HGQ.trace_minmax(model, x, verbose=False)
        with sut(f'{what}: trace_minmax of the loaded model'):
            HGQ.trace_minmax(new, x, verbose=False)
        with sut(f'{what}: losses'):
            model(x), new(x)
            l0, l1 = (sorted(float(v) for v in m.losses) for m in (model, new))
        require(len(l0) == len(l1) and np.allclose(l0, l1, rtol=1e-6, equal_nan=True), lambda: f'{what}: losses {l0} became {l1}')
        for u, v in zip(flat_layers(model), flat_layers(new)):
            if hasattr(u, 'bops'):
                require(float(u.bops) == float(v.bops), lambda: f'{what}: BOPs of {type(u).__name__} {float(u.bops)} -> {float(v.bops)}')
            if hasattr(u, 'act_bw_exact'):
                with sut('act_bw_exact'):
                    a, b = np.asarray(u.act_bw_exact), np.asarray(v.act_bw_exact)
                require(np.array_equal(a, b), lambda: f'{what}: activation bitwidths of {type(u).__name__} changed')
        try:
            p0 = to_proxy_model(model)
        except Exception as e:
            raise Discard('source not convertible') from e
        with sut(f'{what}: conversion of the loaded model'):
            p1 = to_proxy_model(new)
        far = [mg.data_for(s['m'], j, 8, 'any', 4.0) for j in range(len(B.data))]
        for xs in (B.data, far):
            same_out(p0, p1, xs, f'{what}: proxy')
        same_weights(p0, p1, f'{what}: proxy')
        if s['fmt'] != 'weights':
            # training resumes with the same bitwidths: what was adapted is not adapted again, what is disabled stays disabled
            with sut(f'{what}: resuming training'):
                import tensorflow as tf
                for mm in (model, new):   # the same draws for dropout and random rounding
                    tf.random.set_seed(11)
                    mm(x, training=True)
            for u, v in zip(flat_layers(model), flat_layers(new)):
                for q in ('kq', 'paq'):
                    if hasattr(u, q):
                        a, b = getattr(u, q).fbw.numpy(), getattr(v, q).fbw.numpy()
                        require(np.allclose(a, b, atol=1e-4), lambda: f'{what}: a training step after loading leaves {type(u).__name__}.{q} with bitwidths {b.ravel()[:4]}, without saving {a.ravel()[:4]}')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(nontrivial=len(s['m']['nodes']) > 0, labels=mg.labels_of(s['m']) + [s['fmt'], 'nested' if s['nest'] else 'flat', f"trained {s['train']}"])


@st.composite
def proxy_spec(draw):
    acts = draw(st.sampled_from([('relu', 'linear'), ('tanh', 'sigmoid', 'relu'), ('tanh', 'sigmoid', 'square', 'absneg')]))
    m = draw(mg.model_spec(max_nodes=3, kinds=KINDS, acts=acts, n=(1, 8), f=(0, 3)))
    custom = any(nd.get('act') in ('square', 'absneg') for nd in m['nodes'])
    # python functions of the user are not serialisable by themselves, the tables made from them are
    lut = draw(st.sampled_from([-1, 4096])) if not custom else 2**16
    return {'m': m, 'lut': lut, 'aggressive': draw(st.booleans()), 'reg': draw(st.booleans()), 'fmt': draw(st.sampled_from(['h5', 'keras'])), 'twice': draw(st.booleans())}


def check_proxy(s):
    import HGQ
    import keras
    from HGQ.proxy import to_proxy_model
    d = tempfile.mkdtemp(dir=os.environ.get('VF_SCRATCH'))
    try:
        B = mg.build(s['m'])
        x = mg.as_input(B.data)
        with sut('trace_minmax'):
            HGQ.trace_minmax(B.model, x, verbose=False)
        try:
            p = to_proxy_model(B.model, aggressive=s['aggressive'], unary_lut_max_table_size=s['lut'], skip_precision_reg=not s['reg'])
        except Exception as e:
            raise Discard('not convertible') from e
        if any(getattr(getattr(v, 'activation', None), '__name__', '') in ('square', 'absneg') for v in p.layers):
            raise Discard('table too large')
        what = f"proxy {s['fmt']}"
        q = roundtrip(p, s['fmt'], d)
        if s['twice']:
            q = roundtrip(q, s['fmt'], d)
        same_layers(p, q, what)
        same_weights(p, q, what)
        far = [mg.data_for(s['m'], j, 16, 'any', 8.0) for j in range(len(B.data))]
        for xs in (B.data, far):
            same_out(p, q, xs, what)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(nontrivial=len(s['m']['nodes']) > 0, labels=[s['fmt'], 'lut' if any(type(v).__name__ == 'UnaryLUT' for v in p.layers) else 'no lut', 'wrap' if s['aggressive'] else 'sat'])


SUBS = [Sub('models', spec, check), Sub('proxies', proxy_spec, check_proxy)]
