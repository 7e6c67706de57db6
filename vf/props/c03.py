"""C03: the C++ hls4ml generates from a proxy computes what the proxy computes."""
import os
import shutil
import stat

import numpy as np
from hypothesis import strategies as st

from .. import modelgen as mg
from ..core import Discard, Sub, require, sut
from .c19 import CastRun

KINDS = ('HDense', 'HDenseBatchNorm', 'HQuantize', 'HActivation', 'PDropout', 'PFlatten', 'PReshape', 'HConv1D', 'HConv1DBatchNorm', 'PMaxPool1D',
         'HConv2D', 'PMaxPool2D', 'HAdd', 'PConcatenate', 'PPermute')
COUNT = [0]


def setup():
    """g++ without optimisation: hls4ml's build script asks for -O3, which only costs time here."""
    d = os.path.join(os.environ.get('VF_SCRATCH', '/tmp'), 'bin')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'g++')
    with open(p, 'w') as f:
        f.write('#!/bin/bash\na=()\nfor x in "$@"; do [ "$x" = -O3 ] && x=-O0; [ "$x" = -std=c++23 ] && x=-std=c++17; a+=("$x"); done\nexec /usr/bin/g++ "${a[@]}"\n')
    os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
    os.environ['PATH'] = d + ':' + os.environ['PATH']


@st.composite
def spec(draw):
    io = draw(st.sampled_from(['io_parallel', 'io_parallel', 'io_parallel', 'io_stream']))
    stream = io == 'io_stream'
    opts = dict(acts=('square', 'tanh', 'absneg'), kacts=('linear', 'relu'), f=(-1, 5), rnds=tuple(mg.RNDS), pskips=['all'] if stream else None, nodil=True)
    r = draw(st.sampled_from([1, 2, 3, 3]))
    shp = [draw(st.integers(2, 8))] if r == 1 else [draw(st.integers(2, 6)), draw(st.integers(1, 3))] if r == 2 else [draw(st.integers(2, 5)), draw(st.integers(2, 5)), draw(st.integers(1, 2))]
    sig = not stream and draw(st.sampled_from([False, False, True]))
    if sig:
        k = draw(st.integers(0, 1))
        b = draw(st.integers(k + 2, 7))
        fl = {'t': 'Signature', 'kn': k, 'b': b, 'i': draw(st.integers(k, b))}
    else:
        fl = {'t': 'HQuantize', 'q': draw(mg.paq_conf(r + 1, 0, 5, opts['rnds'], opts['pskips']))}
    m = {'seed': draw(st.integers(0, 2**20)), 'n': draw(st.integers(4, 16)), 'sx': 0,
         'inputs': [{'shape': shp, 'first': fl, 'style': draw(st.sampled_from(['grid', 'pos', 'pow2', 'hetero'])), 'amp': draw(st.integers(0, 4)), 'fx': draw(st.integers(2, 7))}]}
    shapes, nodes = [shp], []
    for _ in range(draw(st.integers(1, 3))):
        cur = shapes[-1]
        kinds = {1: ('HDense', 'HDenseBatchNorm'), 2: ('HConv1D', 'HConv1DBatchNorm', 'PMaxPool1D', 'PFlatten'), 3: ('HConv2D', 'HConv2DBatchNorm', 'PMaxPool2D', 'PFlatten')}[len(cur)]
        if nodes and nodes[-1]['t'][0] == 'P':
            kinds = tuple(k for k in kinds if k[0] == 'H' or k == 'PFlatten')
        nd, out = draw(mg.node_for([cur], dict(opts, kinds=kinds)))
        nd['in'] = [len(shapes) - 1]
        if 'Pool' in nd['t']:
            nd['padding'], nd['strides'] = 'valid', None
            out = [cur[d] // nd['size'][d] for d in range(len(cur) - 1)] + [cur[-1]]
        nodes.append(nd)
        shapes.append(out)
    if len(shapes[-1]) > 1:
        nodes.append({'t': 'PFlatten', 'in': [len(shapes) - 1]})
        shapes.append([int(np.prod(shapes[-1]))])
    nd, out = draw(mg.node_for([shapes[-1]], dict(opts, kinds=('HDense',))))
    nd['in'] = [len(shapes) - 1]
    nodes.append(nd)
    shapes.append(out)
    m['nodes'], m['shapes'] = nodes, shapes
    return {'m': m, 'aggressive': draw(st.booleans()), 'io': io, 'backend': draw(st.sampled_from(['vitis', 'vivado'])), 'gain': draw(st.sampled_from([1.0, 4.0, 16.0])),
            'reg': draw(st.booleans())}


def supported(m):
    """Keep to what hls4ml 1.3 itself implements correctly (DESIGN.md, C03)."""
    used = {t for nd in m['nodes'] for t in nd['in']}
    ni = len(m['inputs'])
    shapes = shapes_of(m)
    if any(t not in used for t in range(ni)):
        return 'an input is an output'
    for j, nd in enumerate(m['nodes']):
        if j + ni not in used and not (nd['t'].startswith('HDense') or 'HConv' in nd['t'] or nd['t'] == 'HAdd'):
            return 'an output is not computed'
        if 'Dense' in nd['t'] and len(shapes[nd['in'][0]]) > 1:
            return 'dense on more than one dimension'
        if 'Conv' in nd['t'] and max(nd['ks']) == 1:
            return 'pointwise convolution'
        if nd['t'] == 'HAdd' and (len(nd['in']) > 2 or len(set(nd['in'])) < 2):
            return 'addition of other than two tensors'
    return None if m['nodes'] else 'empty'


def shapes_of(m):
    """Output shapes of inputs and nodes, from the keras layers themselves (cheap symbolic build)."""
    return m['shapes']


def hls_ok(proxy):
    import keras
    from HGQ.proxy import FixedPointQuantizer
    for lay in proxy.layers:
        if isinstance(lay, FixedPointQuantizer):
            if not np.any(lay.bits.numpy()):
                return 'an activation is constantly zero'
        if hasattr(lay, 'kernel') and not np.any(lay.kernel.numpy()):
            return 'a kernel is zero'
    return None


def firmware(proxy, s, xs_list):
    """Convert, compile, and run every data set; returns a list of output lists."""
    from hls4ml.converters import convert_from_keras_model
    COUNT[0] += 1
    d = os.path.join(os.environ.get('VF_SCRATCH', '/tmp'), f'hls{os.getpid()}_{COUNT[0]}')
    try:
        with sut('hls4ml conversion'):
            hm = convert_from_keras_model(proxy, io_type=s['io'], output_dir=d, backend=s['backend'], hls_config={'Model': {'Precision': 'fixed<1,0>', 'ReuseFactor': 1}})
        with sut('compilation of the generated C++'):
            hm.compile()
        res = []
        for xs in xs_list:
            with sut('firmware emulation'):
                y = hm.predict([np.ascontiguousarray(x) for x in xs] if len(xs) > 1 else np.ascontiguousarray(xs[0]))
            y = list(y) if isinstance(y, (list, tuple)) else [y]
            res.append([np.asarray(v) for v in y])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(s):
    from HGQ import to_proxy_model, trace_minmax
    why = supported(s['m'])
    if why:
        raise Discard(why)
    B = mg.build(s['m'])
    with sut('trace_minmax'):
        trace_minmax(B.model, mg.as_input(B.data), verbose=False)
    with sut('to_proxy_model'):
        proxy = to_proxy_model(B.model, aggressive=s['aggressive'], skip_precision_reg=not s['reg'], unary_lut_max_table_size=4096)
    why = hls_ok(proxy)
    if why:
        raise Discard(why)
    sets = []
    for j, g in enumerate((1.0, s['gain']) if s['aggressive'] else (1.0,)):
        xs = B.data if not j else [mg.data_for(s['m'], t, 24, 'over', g) for t in range(len(B.data))]
        sets.append(xs)
    want = []
    for xs in sets:
        with sut('proxy inference'):
            want.append(mg.outs_np(proxy(mg.as_input(xs), training=False)))
    got = firmware(proxy, s, sets)
    for j, (a, b) in enumerate(zip(want, got)):
        require(len(a) == len(b), 'number of outputs')
        for q, (u, v) in enumerate(zip(a, b)):
            v = v.reshape(u.shape)
            require(np.array_equal(u, v), lambda: f"output {q} ({s['io']}, {s['backend']}, {'WRAP' if s['aggressive'] else 'SAT'}), data {j}: {[(float(e), float(f)) for e, f in zip(u[u != v][:4], v[u != v][:4])]} (proxy, firmware)")
    return dict(nontrivial=len(s['m']['nodes']) > 0 and any(np.ptp(o) > 0 for o in want[0] if o.size), labels=mg.labels_of(s['m']) + [s['io'], s['backend'], 'wrap' if s['aggressive'] else 'sat', f"reg={s['reg']}"])


SUBS = [Sub('firmware', spec, check)]
