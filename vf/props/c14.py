"""C14: registered precisions (skip_precision_reg=False) are lossless and do not change the proxy."""
import re

import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from .. import refs
from ..core import Discard, Sub, require, sut

KINDS = ('HDense', 'HDenseBatchNorm', 'HQuantize', 'HActivation', 'PDropout', 'PFlatten', 'PReshape', 'HConv1D', 'HConv1DBatchNorm', 'PMaxPool1D', 'PAvgPool1D', 'PPermute',
         'HConv2D', 'PMaxPool2D', 'HAdd', 'PConcatenate')
TYPE = re.compile(r'^\s*(u?)fixed<\s*(\d+)\s*,\s*(-?\d+)\s*(?:,\s*(\w+)\s*)?(?:,\s*(\w+)\s*)?>\s*$')


def parse(t):
    """Independent reading of a type string -> (k, b, i, RND, SAT)."""
    m = TYPE.match(t)
    require(m is not None, f'registered type {t!r} is not an ap_(u)fixed type')
    u, b, i, r, s = m.groups()
    s = (s or 'WRAP').upper()
    return int(not u), int(b), int(i), (r or 'TRN').upper(), 'WRAP' if s == 'WARP' else s


def cast(v, t):
    k, b, i, r, s = parse(t)
    if np.abs(v).max(initial=0) * 2.0**(b - i) > 2**50:
        raise Discard('too wide for the reference')
    return refs.ap_fixed(v, k, b, i, r, s)


@st.composite
def spec(draw):
    acts = draw(st.sampled_from([('relu', 'linear', 'square', 'absneg'), ('tanh', 'sigmoid', 'relu', 'square')]))
    return {'m': draw(mg.model_spec(max_nodes=4, kinds=KINDS, acts=acts, kacts=('linear', 'relu'), f=(-1, 4), n=(1, 10), groups=True)), 'aggressive': draw(st.booleans()), 'worst': draw(st.booleans()),
            'gain': draw(st.sampled_from([1.0, 2.0, 8.0])), 'off': draw(st.sampled_from([None, None, 0, 1, 2, 5, 30]))}


@st.composite
def spec_acc(draw):
    """One kernel layer straight after the input quantiser, inputs and weights near the ends of their formats: the accumulator is used to the full."""
    conv = draw(st.booleans())
    nm = draw(st.integers(1, 9))
    shape = [draw(st.integers(1, 3)), nm] if conv else [nm]
    fx = draw(st.integers(0, 3))
    q = dict(skip='all', rnd='standard_round', f=[fx, fx], fm='int')
    a = mg.pick(draw, [0, 1, 2, 3, 0, 1, 2, 3, -3, -6, -9])
    nd = {'t': 'HConv1D' if conv else 'HDense', 'in': [0], 'units': draw(st.integers(1, 3)), 'act': mg.pick(draw, ['linear', 'relu']), 'actf': 'str', 'bias': mg.pick(draw, [False, True]),
          'bstyle': mg.pick(draw, ['grid', 'zero', 'big']), 'k': dict(skip='none', rnd='standard_round', f=[a, a], fm='int', style=mg.pick(draw, ['ext', 'ext', 'grid']), amp=mg.pick(draw, [0, 1, 2]) - min(a, 0)),
          'q': draw(mg.paq_conf(len(shape) + 1, -1, 5))}
    if conv:
        nd.update(filters=nd.pop('units'), padding=mg.pick(draw, ['same', 'valid']), ks=[draw(st.integers(1, shape[0]))], strides=[1], dil=[1], pf=1)
    inp = {'shape': shape, 'first': {'t': 'HQuantize', 'q': q}, 'style': 'ext', 'amp': draw(st.integers(0, 3)), 'fx': fx}
    return {'m': {'seed': draw(st.integers(0, 2**20)), 'n': draw(st.integers(1, 6)), 'inputs': [inp], 'nodes': [nd], 'sx': 0}, 'worst': True, 'gain': 2.0,
            'aggressive': mg.pick(draw, [False, False, True])}


def evaluate(proxy, xs, conf, full):
    """Evaluate the proxy layer by layer with the registered types applied (full) or, for the exact reference, without."""
    import keras
    vals = {}
    for t, x in zip(proxy.inputs, xs):
        vals[id(t)] = np.asarray(x, np.float64)
    done = set()
    nodes = [n for d in sorted(proxy._nodes_by_depth, reverse=True) for n in proxy._nodes_by_depth[d]]
    for node in nodes:
        lay = node.layer
        outs = node.outputs if isinstance(node.outputs, (list, tuple)) else [node.outputs]
        c = conf.get(lay.name, {})
        if isinstance(lay, keras.layers.InputLayer):
            if 'result_t' in c:
                vals[id(outs[0])] = cast(vals[id(outs[0])], c['result_t'])
            continue
        args = [vals[id(t)] for t in node.keras_inputs]
        if hasattr(lay, 'kernel'):
            w = lay.kernel.numpy().astype(np.float64)
            b = lay.bias.numpy().astype(np.float64) if lay.use_bias else 0.0
            qw = cast(w, c['weight_t'])
            require(np.array_equal(qw, w), lambda: f"{lay.name}: weight_t {c['weight_t']} does not hold the weights exactly: {w[qw != w][:3]} -> {qw[qw != w][:3]}")
            if isinstance(lay, keras.layers.Dense):
                z = np.matmul(args[0], qw)
            else:
                z = refs.conv_nd(args[0], qw, lay.strides, lay.padding, lay.dilation_rate)
            z = cast(z + cast(b, c['bias_t']), c['accum_t'])
            z = cast(z, c['result_t'])
        else:
            import tensorflow as tf
            a32 = [tf.constant(a.astype(np.float32)) for a in args]
            z = np.asarray(lay(a32 if len(a32) > 1 else a32[0])).astype(np.float64)
            if 'table_t' in c:
                z = cast(z, c['table_t'])
            if 'result_t' in c:
                z = cast(z, c['result_t'])
        vals[id(outs[0])] = z
        done.add(lay.name)
    return [vals[id(t)] for t in proxy.outputs], done


def min_weight(w):
    w = w[w != 0]
    if not w.size:
        return None
    f = int(refs.frac_bits(w).max())
    n = np.round(w * 2.0**f)
    k = int((n < 0).any())
    width = refs.int_width(int(n.min()), int(n.max()))
    return k, width - f, f


def conf_of(proxy):
    from HGQ.proxy import FixedPointQuantizer
    conf = {}
    for lay in proxy.layers:
        if isinstance(lay, FixedPointQuantizer):
            for name, c in (lay.overrides or {}).get('layers', {}).items():
                conf.setdefault(name, {}).update(c)
    return conf


def limited_accumulators(B, s, p0, p1, conf, to_proxy_model):
    """accum_fp_max_offset: accumulators and biases get at most that many fraction bits more than the result, nothing else changes."""
    want = {n: dict(c) for n, c in conf.items()}
    for lay in p1.layers:
        if hasattr(lay, 'kernel'):
            c = want[lay.name]
            rk, rb, ri, _, _ = parse(c['result_t'])
            if (rk, rb, ri) == (0, 1, 0):  # also the name of the empty format
                return
            for t in ('accum_t', 'bias_t'):
                k, b, i, r, o = parse(c[t])
                b = i + min(b - i, rb - ri + s['off'])
                if b <= 0:
                    return
                c[t] = k, b, i, r, o
    with sut('to_proxy_model'):
        p2 = to_proxy_model(B.model, aggressive=s['aggressive'], accum_fp_max_offset=s['off'], skip_precision_reg=False)
    got = conf_of(p2)
    names = [(a.name, b.name) for a, b in zip(p1.layers, p2.layers)]
    for n, n2 in names:
        for t, v in want.get(n, {}).items():
            u = got.get(n2, {}).get(t)
            ok = parse(u) == v if isinstance(v, tuple) and isinstance(u, str) else u == v
            require(ok, lambda: f"accum_fp_max_offset={s['off']}: {t} of {n} is {u}, expected {v} (unlimited: {conf[n]})")
    for a, b in zip(mg.outs_np(p0(mg.as_input(B.data))), mg.outs_np(p2(mg.as_input(B.data)))):
        require(np.array_equal(a, b), 'limiting the accumulators changed the proxy')


def check(s):
    import HGQ
    import keras
    from HGQ.proxy import to_proxy_model
    B = mg.build(s['m'])
    if s['worst'] and not any('groups' in nd for nd in s['m']['nodes']):
        with sut('model gradient'):
            B.data = mg.worst_rows(B)
    x = mg.as_input(B.data)
    with sut('trace_minmax'):
        HGQ.trace_minmax(B.model, x, verbose=False)
    R = mg.RefRun(B, B.data)
    if not R.exact:
        raise Discard('beyond float32 mantissa')
    with sut('to_proxy_model'):
        p0 = to_proxy_model(B.model, aggressive=s['aggressive'])
        p1 = to_proxy_model(B.model, aggressive=s['aggressive'], skip_precision_reg=False)
    last = {id(t) for t in p1.outputs}
    if any(id(t) in last for lay in p1.layers for n in lay._inbound_nodes if not isinstance(lay, keras.layers.InputLayer) for t in n.keras_inputs):
        raise Discard('a model output is also used inside the model')
    far = [mg.data_for(s['m'], j, 16, 'any', s['gain']) for j in range(len(B.data))]
    want = None
    for xs, what in ((B.data, 'calibration data'), (far, 'other data')):
        with sut('proxy inference'):
            a, b = mg.outs_np(p0(mg.as_input(xs))), mg.outs_np(p1(mg.as_input(xs)))
        for u, v in zip(a, b):
            require(np.array_equal(u, v), lambda: f'registering precisions changed the proxy on {what}: {u[u != v][:3]} -> {v[u != v][:3]}')
        want = want or a
    conf = conf_of(p1)
    for lay in p1.layers:
        require('result_t' in conf.get(lay.name, {}), f'no precision registered for layer {lay.name}')
        if hasattr(lay, 'kernel'):
            m = min_weight(lay.kernel.numpy().astype(np.float64))
            if m is not None:
                k, b, i, _, _ = parse(conf[lay.name]['weight_t'])
                got = (k, i - k, b - i)
                require(got == m, lambda: f"{lay.name}: weight_t {conf[lay.name]['weight_t']} is (k,i,f)={got}, the narrowest is {m}")
    if s.get('off') is not None:
        limited_accumulators(B, s, p0, p1, conf, to_proxy_model)
    runs = [(B.data, want, 'calibration data')]
    near = [mg.data_for(s['m'], j, 24, 'near') for j in range(len(B.data))]
    Rn = mg.RefRun(B, near)
    if Rn.exact:
        ok = np.ones(24, bool)
        for k, r in Rn.rec.items():
            q = B.layers[k].paq
            ok &= ((r >= q._min.numpy()) & (r <= q._max.numpy())).reshape(24, -1).all(axis=1)
        if ok.any():
            near = [v[ok] for v in near]
            runs.append((near, mg.outs_np(p0(mg.as_input(near))), 'in-range data'))
    for xs, ref, what in runs:
        got, _ = evaluate(p1, xs, conf, True)
        for j, (u, v) in enumerate(zip(ref, got)):
            require(u.shape == v.shape and np.array_equal(u.astype(np.float64), v), lambda: f'{what}, output {j}: proxy {u[u != v][:3]}, with registered types {v[u != v][:3]}; types {conf}')
    return dict(nontrivial=len(s['m']['nodes']) > 0 and any(np.ptp(o) > 0 for o in want if o.size), labels=mg.labels_of(s['m']) + ['wrap' if s['aggressive'] else 'sat'])


@st.composite
def apf(draw):
    k = draw(st.integers(0, 1))
    b = draw(st.integers(1, 64))
    i = draw(st.integers(-40, 64))
    return {'t': [k, i, b - k - i], 'rnd': draw(st.sampled_from(['TRN', 'RND', 'RND_CONV', 'RND_ZERO', 'TRN_ZERO'])), 'sat': draw(st.sampled_from([None, 'SAT', 'SAT_SYM', 'WRAP', 'WRAP_SM']))}


def check_apf(s):
    from HGQ.utils import apf_to_tuple, tuple_to_apf
    t = tuple(s['t'])
    with sut('tuple_to_apf / apf_to_tuple'):
        st_ = tuple_to_apf(t, s['rnd'], *([s['sat']] if s['sat'] else []))
        back = tuple(apf_to_tuple(st_))
    k, b, i, r, sa = parse(st_)
    require((k, i - k, b - i) == t and back == t, f'{t} -> {st_!r} -> {back}')
    require(r == s['rnd'] and sa == (s['sat'] or 'WRAP'), f"{t} {s['rnd']} {s['sat']} -> {st_!r}")
    return dict(nontrivial=True, labels=[s['rnd'], str(s['sat'])])


SUBS = [Sub('models', spec, check), Sub('accumulator', spec_acc, check), Sub('strings', apf, check_apf)]
