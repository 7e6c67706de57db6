"""C19: proxies outside the calibrated ranges: two's complement wrap / saturation of every quantised activation to its derived format."""
import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from .. import refs
from ..core import Discard, Sub, require, sut

KINDS = ('HDense', 'HDenseBatchNorm', 'HQuantize', 'HActivation', 'PDropout', 'PFlatten', 'PReshape', 'HConv1D', 'HConv1DBatchNorm', 'PMaxPool1D', 'PAvgPool1D', 'PPermute',
         'HConv2D', 'PMaxPool2D', 'HAdd', 'PConcatenate')
EX_ACT = {'relu': lambda x: np.maximum(x, 0), 'linear': lambda x: x, 'square': lambda x: x * x, 'absneg': lambda x: 1.5 - np.abs(x)}


class CastRun(mg.RefRun):
    """Reference with every quantised activation cast to the format its records call for."""

    def __init__(self, B, xs, sat, weights=None):
        self.sat, self.over = sat, 0
        super().__init__(B, xs, weights)

    def cast(self, z, k, b, i, rnd):
        n = np.abs(z).max(initial=0)
        if n:
            self._need(n, int((b - i).max()) + 1)
            self._need(2.0**float((i).max()), int((b - i).max()))
        y = refs.ap_fixed(z, k, b, i, 'TRN' if refs.is_floor(rnd) else 'RND', self.sat)
        return y

    def quant(self, k, lay, nd, z):
        if z.size:
            self._need(np.abs(z).max(), max(int(refs.frac_bits(z).max()), int(mg.eff_f(lay.paq).max())) + 1)
        rnd = mg.eff_rnd(lay, nd)
        lo, hi = lay.paq._min.numpy().astype(np.float64), lay.paq._max.numpy().astype(np.float64)
        f = mg.eff_f(lay.paq)
        ideal = refs.rq(z, f, rnd)
        kk, ii, ff = refs.kif_minmax(lo, hi, f)
        if nd.get('act') == 'relu' and 'k' in nd:
            # the pre-activation lives in the layer's widest format (with the bits rounding still needs), then relu, then each element's own format
            K, I, F = int(kk.max()), int(ii.max()), int(ff.max())
            if K + I + F > 0:
                z = self.cast(z, np.array(K), np.array(K + I + F + 2), np.array(K + I), 'floor')
            z = np.maximum(z, 0)
            kk, ii, ff = refs.kif_minmax(lo, hi, f, pos_only=True)
            ideal = np.maximum(ideal, 0)
        y = self.cast(z, kk, kk + ii + ff, kk + ii, rnd)
        self.over += int((y != ideal).sum())
        self.rec[k] = y
        return y

    def step(self, k, lay, nd, args):
        if nd['t'] == 'Signature':
            y = self.cast(args[0], np.array(nd['kn']), np.array(nd['b']), np.array(nd['i']), 'floor')
            self.over += int((y != args[0]).sum())
            return y
        if nd['t'] == 'HActivation':
            z = EX_ACT[nd['act']](args[0])
            self._need(np.abs(args[0]).max(initial=0), int(refs.frac_bits(args[0]).max(initial=-99)) + 1)
            return self.quant(k, lay, nd, z)
        return super().step(k, lay, nd, args)


@st.composite
def spec(draw):
    return {'m': draw(mg.model_spec(max_nodes=3, kinds=KINDS, acts=('relu', 'linear', 'square', 'absneg'), kacts=('linear', 'relu', 'relu'), n=(1, 8), groups=True)),
            'aggressive': draw(st.booleans()), 'gains': draw(st.lists(st.sampled_from([1.0, 1.0, 2.0, 4.0, 16.0, 1.5]), min_size=1, max_size=3))}


def check(s):
    from HGQ import to_proxy_model, trace_minmax
    B = mg.build(s['m'])
    with sut('trace_minmax'):
        trace_minmax(B.model, mg.as_input(B.data), verbose=False)
    with sut('to_proxy_model'):
        proxy = to_proxy_model(B.model, aggressive=s['aggressive'])
    over = n = 0
    wc = {}
    for j, g in enumerate(s['gains']):
        xs = [mg.data_for(s['m'], t, 12, f'over{j}', g) for t in range(len(B.data))]
        R = CastRun(B, xs, 'WRAP' if s['aggressive'] else 'SAT', wc)
        if not R.exact:
            continue
        n += 1
        over += R.over
        with sut('proxy inference'):
            got = mg.outs_np(proxy(mg.as_input(xs), training=False))
        for q, (a, b) in enumerate(zip(got, R.outs)):
            require(a.shape == b.shape and np.array_equal(a.astype(np.float64), b), lambda: f'output {q} (gain {g}, {R.sat}): {[(float(u), float(v)) for u, v in zip(a[a != b][:4], b[a != b][:4])]} (proxy, expected)')
    if not n:
        raise Discard('beyond float32 mantissa')
    return dict(nontrivial=over > 0, labels=mg.labels_of(s['m']) + ['overflow' if over else 'none', 'wrap' if s['aggressive'] else 'sat'])


SUBS = [Sub('models', spec, check)]
