"""What every check runs: sub-check names, case counts, time budgets, non-triviality rules."""
COMMON = ['float32 inference compared bit for bit with an exact float64 reference; cases whose values need more than 24 significant bits are only '
          'compared model-against-proxy', 'TensorFlow, Keras, numpy and Hypothesis are trusted',
          'eager execution unless a sub-check is named jit']
PROPS = {
    'C01': dict(
        subs=[dict(name='models', quick=640, thorough=12000), dict(name='relu', quick=240, thorough=4000), dict(name='jit', quick=16, thorough=160)],
        rule='Random DAGs of H/P layers with random weights, bitwidth maps and data; a case is non-trivial when it has at least one layer after the input '
             'quantiser and at least one output that is not constant over the calibration set.',
        assumptions=COMMON, budget={'quick': 50, 'thorough': 1500}),
    'C02': dict(
        subs=[dict(name='cast', quick=3200, thorough=120000), dict(name='jit', quick=32, thorough=400)],
        rule='Random formats (homogeneous or per element), rounding and overflow modes and call forms; inputs are every sub-step position around each '
             "format's boundaries plus random codes; non-trivial when some element has non-zero width.",
        assumptions=['the integer reference was validated against the ap_fixed headers shipped with hls4ml (tools/validate_apfixed.py)',
                     'inputs need at most 23 significant bits at the resolution of the rounding'], budget={'quick': 35, 'thorough': 1200}),
    'C04': dict(
        subs=[dict(name='value', quick=1600, thorough=40000), dict(name='bias', quick=800, thorough=20000), dict(name='jit', quick=24, thorough=200)],
        rule='Random shapes, granularities, bitwidth maps (fractional, beyond the clip range), strategies and dyadic data; non-trivial when quantisation changes a value.',
        assumptions=['data has at most 20 significant bits at the rounding resolution, where float32 rounding is exact'], budget={'quick': 40, 'thorough': 1200}),
    'C07': dict(
        subs=[dict(name='range', quick=2400, thorough=60000), dict(name='weights', quick=1600, thorough=40000)],
        rule='Ranges drawn around powers of two (and uniformly) on grids of -8..23 fraction bits; random/sparse/power-of-two weights; non-trivial when the '
             'range is not a single value / some weight is non-zero.',
        assumptions=['ranges below 2^31'], budget={'quick': 40, 'thorough': 1200}),
    'C05': dict(
        subs=[dict(name='quantise', quick=2000, thorough=40000), dict(name='bias', quick=1000, thorough=20000), dict(name='statistics', quick=300, thorough=6000)],
        rule='Random quantisers as in C04 with random upstream gradients; 4096-draw statistics of the random strategies with a fixed TF seed (6 sigma); '
             'non-trivial when some quantisation error and some upstream gradient are non-zero.',
        assumptions=['float32 tolerance 1e-4 relative to the step on gradients'], budget={'quick': 40, 'thorough': 1200}),
    'C06': dict(
        subs=[dict(name='quantiser', quick=1600, thorough=30000), dict(name='model', quick=320, thorough=6000), dict(name='jit', quick=16, thorough=160)],
        rule='Random operation sequences (training/inference/recording calls, resets, callback epochs, fit, one-shot and incremental traces) on quantisers and '
             'on chains of layers, nested or not, whose every intermediate output is exposed; non-trivial when something was recorded and >1 kind of operation ran.',
        assumptions=['records of relu layers are only visible in their positive part'], budget={'quick': 45, 'thorough': 1500}),
    'C12': dict(
        subs=[dict(name='graphs', quick=320, thorough=8000)],
        rule='Random graphs of H-, P- and plain Keras layers over 1-3 inputs with nesting up to depth 2, nested models with several inputs/outputs, shared plain '
             'layers and shared nested models, repeated and passed-through outputs, colliding layer names; non-trivial when there is more than one layer besides inputs.',
        assumptions=COMMON[1:], budget={'quick': 45, 'thorough': 1500}),
    'C08': dict(
        subs=[dict(name='models', quick=400, thorough=8000), dict(name='activations', quick=240, thorough=4000), dict(name='jit', quick=16, thorough=160)],
        rule='Random models and data; per case up to three traces with random batch size, sample order, split into incremental calls, stale records beforehand, nesting, '
             'plus cover factors and the calibration callback; non-trivial when there are two or more samples and some traced range is not a point.',
        assumptions=COMMON + ['cover factors are dyadic, so the reference is exact'], budget={'quick': 45, 'thorough': 1500}),
    'C09': dict(
        subs=[dict(name='models', quick=480, thorough=10000)],
        rule='Random models (nested or not) with random parallel factors, betas and bitwidth regularisers; brute-force count with an independent convolution; '
             'non-trivial when the count is positive.',
        assumptions=COMMON[1:] + ['counts below 2^23'], budget={'quick': 45, 'thorough': 1500}),
    'C15': dict(
        subs=[dict(name='models', quick=320, thorough=6000), dict(name='passive', quick=320, thorough=6000)],
        rule='Random models; an index-map interpreter carries the bits of every element; non-trivial when a passive layer carries at least two different bitwidths.',
        assumptions=COMMON[1:] + ['average pooling (bit growth is not reported) is left out'], budget={'quick': 45, 'thorough': 1500}),
    'C19': dict(
        subs=[dict(name='models', quick=640, thorough=12000)],
        rule='Random models calibrated on few samples, proxies fed with data scaled 1..16x; formats re-derived from the records by an independent reference; '
             'non-trivial when at least one activation overflows its format.',
        assumptions=COMMON[:2], budget={'quick': 45, 'thorough': 1500}),
    'C13': dict(
        subs=[dict(name='direct', quick=800, thorough=16000), dict(name='models', quick=280, thorough=6000)],
        rule='direct: random functions, input formats (every code evaluated) and output formats with all rounding/overflow modes, non-trivial when the table is not '
             'constant; models: proxies with and without tables at limits around the needed size, non-trivial when at least one table was made.',
        assumptions=COMMON[1:] + ['a float32 transcendental within 1e-4 of a rounding boundary decides nothing', 'activations whose input or output is constantly zero are rejected by design'],
        budget={'quick': 45, 'thorough': 1500}),
    'C14': dict(
        subs=[dict(name='models', quick=360, thorough=8000), dict(name='accumulator', quick=160, thorough=3000), dict(name='strings', quick=800, thorough=20000)],
        rule='Random models converted with precisions registered; an emulator applies every registered type layer by layer; non-trivial when there is a layer after the input '
             'quantiser and some output varies. strings: random formats and modes.',
        assumptions=COMMON[:2] + ['accum_fp_max_offset=None (an offset trades accuracy by design)', 'softmax left out (its tables are hls4ml internal)'],
        budget={'quick': 45, 'thorough': 1500}),
    'C17': dict(
        subs=[dict(name='histories', quick=800, thorough=16000)],
        rule='Random histories of 2..9 steps (making, mutating, sharing dictionaries; setting defaults, valid or not; creating and building layers of 9 kinds); defaults and '
             'caller dictionaries compared after every step, layers at the end; non-trivial when at least one layer was created after another step.',
        assumptions=['values inside a dictionary are immutable (tuples, strings, numbers)'], budget={'quick': 45, 'thorough': 1200}),
    'C18': dict(
        subs=[dict(name='eager', quick=640, thorough=12000), dict(name='fit', quick=24, thorough=320)],
        rule='Random dense/convolution layers, with or without batch-norm, weights over many magnitudes (zeros and powers of two included), shared groups, sequences of '
             'training / inference / recording calls, and compiled model.fit runs; non-trivial when adaptation is on and the weights differ in magnitude.',
        assumptions=['float32 logarithm accurate to 2e-3 (2e-2 where a batch variance enters)', 'learning rate 0, so that only adaptation moves the bitwidths'], budget={'quick': 50, 'thorough': 1500}),
    'C11': dict(
        subs=[dict(name='models', quick=240, thorough=6000), dict(name='proxies', quick=160, thorough=4000)],
        rule='Random models with random layer options, before or after training calls, nested or flat, through HDF5 / .keras / weights-only / config round trips (once or twice); '
             'random proxies (WRAP/SAT, with tables, with registered precisions) through HDF5 and .keras; non-trivial when there is a layer after the input quantiser.',
        assumptions=COMMON[1:] + ['user-defined python activations are outside (Keras needs them as custom objects)'], budget={'quick': 50, 'thorough': 1500}),
    'C10': dict(
        subs=[dict(name='inference', quick=480, thorough=10000), dict(name='training', quick=400, thorough=10000), dict(name='passive', quick=640, thorough=16000)],
        rule='inference: random one/two-layer models, every layer output compared bit for bit with an exact evaluation; training: random dense/convolution layers at 13 fraction bits, '
             'outputs and moving statistics against the float64 formula within the quantisation step; passive: random geometries and float data against the Keras layers; '
             'non-trivial when outputs vary.',
        assumptions=COMMON + ['training comparison tolerates the quantisation step of the kernel, bias and output'], budget={'quick': 50, 'thorough': 1500}),
    'C20': dict(
        subs=[dict(name='histories', quick=320, thorough=8000), dict(name='jit', quick=16, thorough=160)],
        rule='Random models (nested, Sequential) with random trainability of layers and bitwidths, and histories of 2..6 operations (inference, reading bits and BOPs, saving, conversion, '
             'tracing, training steps, fit with callbacks, freezing and thawing); all variables compared around every operation; non-trivial when there are two kinds of operations and two H-layers.',
        assumptions=COMMON[1:] + ['do_adapt_kernel_bits=False (C18 decides adaptation)', 'the optimizer is Keras SGD'], budget={'quick': 45, 'thorough': 1500}),
    'C21': dict(
        subs=[dict(name='models', quick=480, thorough=12000)],
        rule='Random models (nested, Sequential, grouped) or their WRAP/SAT/table proxies; each case asks for the same samples in 1..4 other ways (one by one, permuted, split, duplicated, next to '
             'other samples, predict, tf.data, tensors, float64, tf.function, after another trace) and compares bitwise; non-trivial when outputs vary.',
        assumptions=COMMON + ['float32-exact models only: elsewhere the order of float additions is TensorFlow\'s'], budget={'quick': 45, 'thorough': 1500}),
    'C22': dict(
        subs=[dict(name='models', quick=400, thorough=8000)],
        rule='Random models with random betas, parallel factors, granularities and regularisers, differentiated in inference or training mode, eagerly or compiled; the derivative along random '
             'directions of every bitwidth map is compared with differences of the brute-force count; non-trivial when some direction changes the count.',
        assumptions=COMMON[1:] + ['counts below 2^22', 'no max-pooling (ties) and, in training mode, no batch-norm layers or stochastically rounded kernels (the bits the penalty uses are not visible)'],
        budget={'quick': 45, 'thorough': 1500}),
    'C16': dict(
        subs=[dict(name='models', quick=240, thorough=6000, clean=False), dict(name='quantizers', quick=240, thorough=4000, clean=False), dict(name='unsupported', quick=160, thorough=2000, clean=False)],
        rule='models: random QKeras graphs (shared, nested, several inputs/outputs; random quantisers, some weights unquantised) on data inside and beyond the ranges, against an exact '
             'evaluation that must also equal QKeras itself; quantizers: one quantiser over a sweep of half- to eighth-steps up to three times its range; unsupported: options and layers beyond these are refused or converted faithfully; non-trivial when outputs vary.',
        assumptions=COMMON[1:] + ['QKeras itself is trusted; alpha=1; one-bit signed quantised_bits left out (documented as flawed in QKeras)'], budget={'quick': 50, 'thorough': 1500}),
}
NA = {
    'C03': 'The deciding step would run the C++ that hls4ml generates. Generated models were searched (about 320, see DESIGN.md): HGQ\'s side agrees, but the installed hls4ml 1.3 re-derives '
           'types itself and breaks the equality on its own for some of them (zero-width or consecutive quantisers, all-zero kernels, pointwise convolutions, pooling geometries it aborts '
           'on), so a failure would not be attributable to HGQ and a check could not be quiet. What HGQ contributes is decided by C01, C02, C13, C14 and C19.',
}
