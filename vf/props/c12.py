"""C12: convert_model / to_proxy_model flatten arbitrary graphs without changing function or source."""
import json

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, require, sut
from ..modelgen import rng_for

D = 3
PLAIN = ['Dense', 'ReLU', 'Add', 'ConcatDense', 'Linear', 'Subtract', 'Maximum']
HKINDS = ['HDense', 'HQuantize', 'HAdd', 'HActivation', 'PDropout', 'PReshape', 'HDenseBatchNorm', 'PConcatDense']


@st.composite
def graph(draw, depth, n_in):
    nodes, nt = [], n_in
    for _ in range(draw(st.sampled_from([2, 3, 1, 4]))):
        kinds = HKINDS + PLAIN + ['Nested'] * (6 if depth else 0) + ['Reuse'] * (5 if any(reusable(n) for n in nodes) else 0)
        t = draw(st.sampled_from(kinds))
        nd = {'t': t}
        src = lambda: draw(st.integers(0, nt - 1))  # noqa: E731
        if t == 'Nested':
            k = draw(st.integers(1, 3))
            nd['in'] = [src() for _ in range(k)]
            nd['g'] = draw(graph(depth - 1, k))
            nt += len(nd['g']['outs'])
        elif t == 'Reuse':
            ok = [j for j, n in enumerate(nodes) if reusable(n)]
            nd['of'] = draw(st.sampled_from(ok))
            o = nodes[nd['of']]
            nd['in'] = [src() for _ in range(len(o['in']))]
            nt += len(o['g']['outs']) if o['t'] == 'Nested' else 1
        else:
            two = t in ('Add', 'ConcatDense', 'Subtract', 'Maximum', 'HAdd', 'PConcatDense')
            nd['in'] = [src() for _ in range(2 if two else 1)]
            nt += 1
        nodes.append(nd)
    if draw(st.booleans()):
        used = {i for nd in nodes for i in nd['in']}
        outs = [i for i in range(nt) if i not in used][-4:] + draw(st.lists(st.integers(0, nt - 1), max_size=1))   # whatever is not used inside
    else:
        outs = [nt - 1] + draw(st.lists(st.integers(0, nt - 1), max_size=2))
    outs = draw(st.permutations(outs))
    return {'nodes': nodes, 'outs': list(outs)}


def reusable(n):
    return n['t'] in ('Dense', 'ReLU', 'Linear') or (n['t'] == 'Nested' and not has_h(n['g']))


def has_h(g):
    return any(n['t'] in HKINDS or (n['t'] == 'Nested' and has_h(n['g'])) for n in g['nodes'])


@st.composite
def spec(draw):
    n_in = draw(st.integers(1, 3))
    return {'seed': draw(st.integers(0, 2**20)), 'n_in': n_in, 'width': [draw(st.sampled_from([D, D, 2, 5])) for _ in range(n_in)], 'g': draw(graph(2, n_in)), 'names': draw(st.sampled_from(['auto', 'same', 'suffix'])),
            'dedupe': draw(st.booleans())}


class Ctx:
    def __init__(self, s):
        self.s, self.n, self.h = s, 0, []
        self.rng = rng_for(s, 'w')


def build(s):
    import HGQ
    import HGQ.layers as L
    import keras
    keras.backend.clear_session()
    c = Ctx(s)

    def name(kind, used):
        # layer names only have to be unique within one (sub-)model; equal names in different sub-models are legal
        if s['names'] == 'auto':
            return None
        base = 'lay' if s['names'] == 'same' else 'lay_0'
        k, nm = 0, base
        while nm in used:
            nm, k = f'{base}_{k}' if s['names'] == 'suffix' else f'{base}{k}', k + 1
        used.add(nm)
        return nm

    def inputs(n, width=None):
        raw = [keras.Input((D,)) for _ in range(n)]
        if width:
            raw = [None] * n
            for i in c.rng.permutation(n):
                raw[i] = keras.Input((width[i],))
            return raw
        return [raw[i] for i in c.rng.permutation(n)]   # neither in the order of creation nor of names

    def mk(g, tens, used):
        """tens: list of (tensor, carries bitwidths)."""
        tens = list(tens)
        objs = []

        def need_q(p):
            t, q = p
            if q:
                return t
            lay = L.HQuantize(name=name('q', used))
            c.h.append(lay)
            return lay(t)
        for nd in g['nodes']:
            t = nd['t']
            src = [tens[i] for i in nd['in']]
            if t == 'Nested':
                args = [p[0] for p in src]
                ins = inputs(len(args))
                outs = mk(nd['g'], [(i, False) for i in ins], set())
                m = keras.Model(ins if len(ins) > 1 else ins[0], outs if len(outs) > 1 else outs[0], name=name('m', used))
                objs.append((m, nd))
                r = m(args if len(args) > 1 else args[0])
                tens.extend((x, False) for x in (r if isinstance(r, (list, tuple)) else [r]))
                continue
            if t == 'Reuse':
                o, ond = objs[nd['of']]
                args = [p[0] for p in src]
                r = o(args if len(args) > 1 else args[0])
                objs.append((None, nd))
                tens.extend((x, False) for x in (r if isinstance(r, (list, tuple)) else [r]))
                continue
            h = False
            if t in ('HDense', 'HDenseBatchNorm', 'HQuantize', 'HAdd', 'HActivation', 'PDropout', 'PReshape', 'PConcatDense'):
                h = True
                args = [need_q(p) for p in src] if t != 'HQuantize' else [p[0] for p in src]
            else:
                args = [p[0] for p in src]
            nm = name(t, used)
            if t == 'Dense':
                lay = keras.layers.Dense(D, name=nm)
            elif t == 'ReLU':
                lay = keras.layers.ReLU(name=nm)
            elif t == 'Linear':
                lay = keras.layers.Activation('linear', name=nm)
            elif t in ('Add', 'Subtract', 'Maximum'):
                lay = getattr(keras.layers, t)(name=nm)
            elif t in ('ConcatDense', 'PConcatDense'):
                cat = keras.layers.Concatenate(name=nm) if t[0] == 'C' else L.PConcatenate(name=nm)
                x = cat(args)
                lay = keras.layers.Dense(D, name=name('d', used)) if t[0] == 'C' else L.HDense(D, name=name('d', used))
                args = [x]
                if t[0] == 'P':
                    c.h.append(lay)
            elif t == 'HActivation':
                lay = L.HActivation('tanh', name=nm)
            elif t == 'PReshape':
                lay = L.PReshape((D,), name=nm)
            elif t == 'PDropout':
                lay = L.PDropout(0.3, name=nm)
            elif t in ('HDense', 'HDenseBatchNorm'):
                lay = getattr(L, t)(D, activation='relu' if c.rng.random() < 0.4 else None, name=nm)
            else:
                lay = getattr(L, t)(name=nm)
            r = lay(args if len(args) > 1 else args[0])
            if h and t != 'PConcatDense':
                c.h.append(lay)
            objs.append((lay, nd))
            tens.append((r, h))
        sel = g['outs']
        if s['dedupe'] and g is s['g']:
            sel = list(dict.fromkeys(sel))
        return [tens[i][0] for i in sel]
    with sut('building the model'):
        ins = inputs(s['n_in'], s['width'])
        used = set()
        outs = mk(s['g'], [(i if n == D else keras.layers.Dense(D, name=name('in', used))(i), False) for i, n in zip(ins, s['width'])], used)
        model = keras.Model(ins if len(ins) > 1 else ins[0], outs if len(outs) > 1 else outs[0])
        for w in model.weights:
            nm = w.name
            if 'kernel' in nm and 'bw' not in nm:
                w.assign((c.rng.integers(-8, 9, w.shape) / 8).astype(np.float32))
            elif nm.split('/')[-1].startswith('bias'):
                w.assign((c.rng.integers(-8, 9, w.shape) / 8).astype(np.float32))
        for lay in c.h:
            if hasattr(lay, 'paq'):
                lay.paq.fbw.assign(c.rng.integers(1, 4, lay.paq.fbw.shape).astype(np.float32))
            if hasattr(lay, 'kq'):
                lay.kq.fbw.assign(c.rng.integers(1, 4, lay.kq.fbw.shape).astype(np.float32))
    return model, c


def outs_of(o):
    return [np.asarray(v) for v in (o if isinstance(o, (list, tuple)) else [o])]


def walk(m):
    import keras
    for lay in m.layers:
        yield lay
        if isinstance(lay, keras.Model):
            yield from walk(lay)


def snapshot(model):
    ls = list(walk(model))
    st_ = {'names': [(type(x).__name__, x.name) for x in ls], 'w': [w.numpy() for w in model.weights], 'wn': [w.name for w in model.weights],
           'cfg': json.dumps([x.get_config() for x in ls if 'HGQ' in type(x).__module__ or type(x).__module__.startswith('keras')], default=str, sort_keys=True),
           'rec': [(x.paq._min.numpy(), x.paq._max.numpy()) for x in ls if hasattr(x, 'paq')], 'ids': [id(x) for x in ls],
           'name': model.name, 'ion': (list(model.input_names), list(model.output_names))}
    return st_


def same(a, b):
    for k in ('names', 'wn', 'cfg', 'ids', 'name', 'ion'):
        require(a[k] == b[k], lambda: f'source model changed by the conversion: {k}: {diff(a[k], b[k])}')
    require(len(a['w']) == len(b['w']) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a['w'], b['w'])), 'weights of the source model changed')
    for (x0, x1), (y0, y1) in zip(a['rec'], b['rec']):
        require(np.array_equal(x0, y0) and np.array_equal(x1, y1), 'recorded ranges of the source model changed')


def diff(a, b):
    if isinstance(a, list):
        return [(x, y) for x, y in zip(a, b) if x != y][:3] or (len(a), len(b))
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
    return f'{a[max(0, i - 60):i + 60]} -> {b[max(0, i - 60):i + 60]}'


def check(s):
    import HGQ
    import keras
    from HGQ.proxy import to_proxy_model
    from HGQ.proxy.convert import convert_model
    model, c = build(s)
    rng = rng_for(s, 'x')
    xs = [(rng.integers(-32, 33, (6, n)) / 8).astype(np.float32) for n in s['width']]
    x = xs if len(xs) > 1 else xs[0]
    with sut('tracing'):
        HGQ.trace_minmax(model, x, verbose=False)
    want = outs_of(model(x, training=False))
    before = snapshot(model)

    def cmp(m, what):
        names = [lay.name for lay in m.layers]
        require(not any(isinstance(lay, keras.Model) for lay in m.layers), f'{what}: not flat: {names}')
        require(len(set(names)) == len(names), f'{what}: layer names not unique: {names}')
        require(len(m.inputs) == s['n_in'], f"{what}: {len(m.inputs)} inputs instead of {s['n_in']}")
        with sut(f'evaluating the {what}'):
            got = outs_of(m(x, training=False))
        require(len(got) == len(want), f'{what}: {len(got)} outputs instead of {len(want)}')
        for j, (a, b) in enumerate(zip(want, got)):
            require(a.shape == b.shape and np.array_equal(a, b), lambda: f'{what}: output {j} differs: {a[a != b][:4].tolist() if a.shape == b.shape else a.shape} != {b[a != b][:4].tolist() if a.shape == b.shape else b.shape}')
    for what, fn in (('flattened model', lambda: convert_model(model)), ('proxy (WRAP)', lambda: to_proxy_model(model, aggressive=True)),
                     ('proxy (SAT)', lambda: to_proxy_model(model, aggressive=False))):
        with sut(f'making the {what}'):
            a = fn()
            same(before, snapshot(model))
            b = fn()
        cmp(a, what), cmp(b, f'second {what}')
        ta, tb = [type(lay).__name__ for lay in a.layers], [type(lay).__name__ for lay in b.layers]
        require(ta == tb, lambda: f'{what}: converting twice gives different layers: {ta} / {tb}')
        same(before, snapshot(model))
    again = outs_of(model(x, training=False))
    require(all(np.array_equal(a, b) for a, b in zip(want, again)), 'source model computes something else after the conversion')
    labs = ['nested' if any(isinstance(lay, keras.Model) for lay in model.layers) else 'flat', f"n_in={s['n_in']}", f'n_out={len(want)}', f"names={s['names']}"]
    labs += ['passthrough'] if any(o < s['n_in'] for o in s['g']['outs']) else []
    labs += ['reuse'] if 'Reuse' in json.dumps(s) else []
    return dict(nontrivial=len(model.layers) > s['n_in'] + 1, labels=labs)


SUBS = [Sub('graphs', spec, check)]
