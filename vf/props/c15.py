"""C15: act_bw / act_bw_exact belong to the elements they are carried by."""
import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from ..core import Sub, require, sut

KINDS = ('HDense', 'HQuantize', 'HActivation', 'PFlatten', 'PReshape', 'HConv1D', 'HConv2D', 'HAdd', 'PConcatenate', 'PDropout', 'PMaxPool1D', 'PMaxPool2D', 'PPermute',
         'HDenseBatchNorm')
PASSIVE = ('HQuantize', 'PFlatten', 'PReshape', 'PConcatenate', 'PMaxPool1D', 'PMaxPool2D', 'PPermute', 'PDropout')


@st.composite
def spec(draw, kinds=KINDS, mx=5):
    m = draw(mg.model_spec(max_nodes=mx, kinds=kinds, acts=('relu', 'linear', 'tanh', 'square', 'absneg'), n=(1, 6), min_nodes=2, shifts=False, groups=True))
    m['sx'] = draw(st.sampled_from([0, 0, 0, 3, -10, 10]))
    m['again'] = draw(st.sampled_from([0, 0, 1]))
    return m


def check(s):
    B = mg.build(s)
    r = one(s, B)
    if s['again']:  # the same model with other bitwidths, weights and ranges
        mg.restage(B, 0)
        r2 = one(s, B)
        r = dict(nontrivial=r['nontrivial'] or r2['nontrivial'], labels=r['labels'] + ['restaged'])
    return r


def one(s, B):
    import HGQ
    with sut('trace_minmax'):
        HGQ.trace_minmax(B.model, mg.as_input(B.data), verbose=False)
    exact = mg.bit_maps(B, mg.own_bits)
    cap = {}

    def est_leaf(lay, nd):
        with sut('act_bw'):
            v = np.asarray(lay.act_bw)
        cap[id(lay)] = v
        return v.astype(np.float64)
    est = mg.bit_maps(B, est_leaf)
    var = 0
    for k, (lay, nd) in enumerate(zip(B.layers, B.nds)):
        what = f'layer {k} {nd["t"]}'
        shape = (1, *lay.output_shape[1:])
        with sut(f'{what}: act_bw_exact'):
            g = np.asarray(lay.act_bw_exact)
        require(g.shape == shape, lambda: f'{what}: act_bw_exact has shape {g.shape}, one output sample has {shape}')
        require(np.array_equal(g.astype(np.float64), exact[k]), lambda: f'{what}: act_bw_exact {g.ravel()[:8].tolist()}, expected {exact[k].ravel()[:8].tolist()}')
        with sut(f'{what}: act_bw'):
            e = np.asarray(lay.act_bw)
        require(e.shape == shape, lambda: f'{what}: act_bw has shape {e.shape}, one output sample has {shape}')
        require(np.array_equal(e.astype(np.float64), est[k]), lambda: f'{what}: act_bw {e.ravel()[:8].tolist()}, expected {est[k].ravel()[:8].tolist()}')
        require(np.all(e >= g - 1e-3), lambda: f'{what}: estimated bits {e.ravel()[:8].tolist()} below the exact {g.ravel()[:8].tolist()}')
        if 'q' in nd:
            # at most one bit above the exact need, except that ranges ending in -2^n cost the estimate one more
            require(np.all(e <= g + 1 + 1e-3), lambda: f'{what}: estimated bits {e.ravel()[:8].tolist()} far above the exact {g.ravel()[:8].tolist()}')
        if 'in' in nd and nd['in'][0] >= 0 and len(nd['in']) == 1:
            with sut(f'{what}: input_bw'):
                ib, ie = np.asarray(lay.input_bw), np.asarray(lay.input_bw_exact)
            require(np.array_equal(ib.astype(np.float64), est[nd['in'][0]]), f'{what}: input_bw is not the bitwidth of its input')
            require(np.array_equal(ie.astype(np.float64), exact[nd['in'][0]]), f'{what}: input_bw_exact is not the bitwidth of its input')
        if len(np.unique(exact[k])) > 1 and 'q' not in nd:
            var += 1
    return dict(nontrivial=var > 0, labels=mg.labels_of(s))


SUBS = [Sub('models', spec, check), Sub('passive', lambda: spec(PASSIVE, 6), check)]
