"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))
S='src/HGQ/'
p('C01','Proxy model reproduces the calibrated HGQ model bit for bit',
  "After the min/max ranges of an HGQ model have been traced, the proxy model made from it returns exactly the same numbers as the HGQ model in inference mode, for every input on which no traced activation range is exceeded (the calibration set itself included), for aggressive (WRAP) and non-aggressive (SAT) conversion alike. Both also equal the exact fixed-point evaluation of the network with its quantised weights, as long as everything fits a float32 mantissa.",
  ['programs','inputs','configurations'],
  'All models composed of the supported H-/P-layers (dense, conv 1D/2D, fused batch-norm variants, activation, add, quantise, concatenate, pooling, permute, reshape, flatten, dropout, signature; multiple inputs/outputs, branches), all weights, bitwidth maps, skip_dims, rounding strategies, activations relu/linear given by name or callable, calibration sets, and all inputs within the calibrated ranges.',
  'The suite converts a dozen fixed topologies with one weight initialisation scheme and default granularity; heterogeneous shapes, pruned channels, power-of-two extremes, other skip_dims, BN options and fresh inputs are never reached.',
  [S+'proxy/convert.py',S+'proxy/fixed_point_quantizer.py',S+'layers/base.py',S+'quantizer/quantizer.py',S+'layers/conv.py',S+'layers/dense.py',S+'layers/misc.py',S+'layers/passive_layers.py'],
  [('layer to proxy transformation',S+'proxy/convert.py: ProxyLayerXFormer, to_keras_layer, copy_fused_weights'),('deployed weights incl. rounding bias and pruned-channel mask',S+'layers/base.py: fused_qkernel, fused_qbias, can_bias_cover_rnd'),('exact bit derivation',S+'quantizer/quantizer.py: get_bits_exact')],
  ['proxy.predict(x) against model(x) and a float64 reference'])
p('C02','Fixed-point emulation follows ap_fixed / ap_ufixed semantics',
  "The fixed-point quantiser (functional form, the fixed/ufixed/gfixed wrappers and the proxy layer) returns, for every value it is given, exactly what a cast to ap_fixed/ap_ufixed with the same signedness, width, integer bits, rounding mode (TRN, TRN_ZERO, RND, RND_ZERO, RND_INF, RND_MIN_INF, RND_CONV) and overflow mode (WRAP, SAT, SAT_ZERO, SAT_SYM, WRAP_SM) returns. WRAP_SM folds the rounded value back and forth at the bounds of the range (as the headers do under truncation). Bit parameters broadcast elementwise, and zero-width elements yield 0.",
  ['inputs','configurations'],
  'All widths 0..23, integer bits (negative and larger than the width included), signs, 7 rounding x 5 overflow modes, homogeneous or elementwise bit parameters, and all representable inputs including ties, both signs, range boundaries and far overflow.',
  'Tests exercise RND/TRN with WRAP/SAT inside models that rarely overflow; ties, boundaries, the other modes and broadcast patterns are not asserted anywhere.',
  [S+'proxy/fixed_point_quantizer.py'],
  [('rounding table',S+'proxy/fixed_point_quantizer.py: RND_MAP'),('overflow table',S+'proxy/fixed_point_quantizer.py: SAT_MAP'),('quantiser',S+'proxy/fixed_point_quantizer.py: gfixed_quantizer, FixedPointQuantizer')],
  ['quantiser output against an integer-arithmetic reference'])
p('C03','hls4ml firmware emulation of the proxy equals the proxy bit for bit',
  "Converting a proxy model with hls4ml and compiling the generated C++ yields a bit-accurate implementation: its outputs equal the proxy's for every input, including inputs that overflow intermediate or input ranges, for both WRAP and SAT conversion.",
  ['programs','inputs','configurations'],
  'All supported models, conversion modes and io types; inputs inside and outside the calibrated range.',
  'The suite compiles a fixed list of layers, with one shape each.',
  [S+'proxy/convert.py',S+'proxy/fixed_point_quantizer.py',S+'layers/base.py'],
  [('proxy generation',S+'proxy/convert.py: to_proxy_model'),('overrides carried to hls4ml',S+'proxy/fixed_point_quantizer.py: FixedPointQuantizer.get_config')],
  ['hls4ml compiled predict() against proxy'])
p('C04','Inference quantisation is deterministic, nearest-grid (or floor) per group',
  "In inference mode a heterogeneous quantiser maps every value to a multiple of 2^-F of its group, where F is the fraction bitwidth rounded to an integer after clipping to the configured bitwidth limits: the largest multiple not above it for 'floor', the nearest (ties up) for every other rounding strategy. The result does not depend on earlier calls, is idempotent, and biases are quantised the same way with the largest fraction bitwidth of their channel.",
  ['inputs','configurations','histories'],
  'All tensors, shapes, skip_dims (tuples and keywords), fraction bitwidth maps (fractional and beyond the clip range too), bw_clip limits, five rounding strategies, and call histories.',
  'Only end-to-end equality of two code paths that share this quantiser is tested, so a common error is invisible.',
  [S+'quantizer/quantizer.py'],
  [('quantiser forward',S+'quantizer/quantizer.py: HGQ.forward, __call__, q_round'),('bias quantisation',S+'quantizer/quantizer.py: HGQ.bias_forward'),('granularity',S+'quantizer/quantizer.py: _compute_bw_shape_and_degeneracy')],
  ['HGQ(x, training=False) against float64 reference'])
p('C05','Training-mode quantisation: valid rounding and straight-through gradients',
  "In training mode the quantised value lies on the group's grid next to the input (nearest or floor according to the strategy; stochastic rounding picks one of the two neighbours with probability equal to the fractional position; noise injection stays within half a step and sends values within half a step of zero to zero). Gradients are those of the published scheme: the derivative with respect to the input is one, and the derivative with respect to a fraction bitwidth is minus ln2 times the group's summed upstream-weighted quantisation error.",
  ['inputs','configurations','schedules'],
  'All inputs, bitwidth maps, granularities, the four strategies, exact_q_value on/off, random draws and upstream gradients.',
  'No test trains or differentiates.',
  [S+'quantizer/quantizer.py'],
  [('surrogate gradient',S+'quantizer/quantizer.py: HGQ.forward, bias_forward'),('stochastic / noise rounding',S+'quantizer/quantizer.py: q_round')],
  ['tf.GradientTape over the quantiser; sample statistics'])
p('C06','Recorded activation ranges are the exact min/max since the last reset',
  "At any time the recorded minimum and maximum of every quantiser group equal the minimum and maximum of all quantised values that passed while recording was on since the last reset, and nothing else. Recording is on in training mode, while tracing, or when requested explicitly; plain inference never changes the records; the reset callback restores the empty state in every layer, nested models included.",
  ['histories','inputs','configurations'],
  'All interleavings of training/inference/recording calls, resets, callback epochs and traces over batches of any size, for all granularities.',
  'Tests trace once per model and never mix modes or reset in between.',
  [S+'quantizer/quantizer.py',S+'layers/base.py',S+'bops/bops.py'],
  [('record update',S+'quantizer/quantizer.py: HGQ.forward, minmax_reg_reset'),('recording switch',S+'layers/base.py: HLayerBase.call'),('ResetMinMax / trace_minmax',S+'bops/bops.py')],
  ['quantiser min/max records after each operation against a model'])
p('C07','Derived fixed-point formats are sufficient and minimal',
  "The exact integer/fraction/sign bits derived for an activation group hold every grid value between the recorded minimum and maximum (for the positive-only form: every non-negative one), and no narrower format with the same fraction bits does; groups that are constantly zero get zero bits. For kernels the derived bits are the shortest that represent each quantised weight exactly.",
  ['inputs','configurations'],
  'All recorded ranges (powers of two, one-sided, zero, negative-only), all fraction bitwidths in the clip range, all weights.',
  'Soundness only matters at extremes like max = 2^n - 2^-f or min = -2^n, which random end-to-end data seldom hit; minimality is not tested at all.',
  [S+'quantizer/quantizer.py',S+'layers/base.py'],
  [('range to bits',S+'quantizer/quantizer.py: get_bits_exact'),('weights to bits',S+'quantizer/quantizer.py: get_arr_bits')],
  ['get_bits_exact against an integer bit-length reference'])
p('C08','Tracing ranges is independent of batching and order and honours its options',
  "trace_minmax leaves every HGQ layer with ranges that cover exactly the whole dataset, whatever the batch size, sample order, or splitting into incremental (non-resetting) calls; it optionally returns the predictions for every sample in order, and its BOPs equal the sum of the layers' exact BOPs. A cover factor stretches ranges symmetrically about their centre (then re-quantised). Records of softmax activation layers always become [0,1], and those of sigmoid and tanh layers never exceed the function's output range, [0,1] and [-1,1], whatever the data.",
  ['inputs','histories','configurations'],
  'All models (single/multi input, nested), datasets, batch sizes (dividing or not), permutations, splits, cover factors, activations.',
  'Tests call it once with one batch size on i.i.d. data and only look at the proxy output.',
  [S+'bops/bops.py'],
  [('tracing loop, cover factor and activation clamps',S+'bops/bops.py: trace_minmax')],
  ['records after trace against reference ranges; returned predictions and BOPs'])
p('C09','BOPs accounting equals the brute-force multiply count',
  "The exact BOPs of every dense/convolution layer equal the sum over all scalar multiplications of (input bits x weight bits), scaled for convolutions by parallel factor over number of output positions, zero for layers without kernels; model totals reported by tracing and by the callbacks are the sums over all layers. The training-time estimate never understates the exact count once both refer to the same ranges, and each layer adds beta times its estimate to the training loss (plus the bitwidth regulariser).",
  ['programs','inputs','configurations'],
  'All layer shapes, strides, paddings, dilations, granularities, parallel factors, betas, sparsity patterns and passive layers in between.',
  'Tests never look at BOPs.',
  [S+'bops/bops.py',S+'layers/base.py',S+'layers/dense.py',S+'layers/conv.py',S+'utils/utils.py'],
  [('exact BOPs',S+'layers/dense.py, conv.py: compute_exact_bops'),('estimate and loss',S+'layers/dense.py, conv.py: forward'),('totals',S+'bops/bops.py: FreeBOPs, CalibratedBOPs, trace_minmax'),('MonoL1',S+'utils/utils.py')],
  ['layer.bops, compute_exact_bops, model.losses, logs["bops"]'])
p('C10','Layers compute the Keras op on quantised weights; fused batch-norm is exact',
  "Each H-layer returns, in inference, activation(quantise(op(x, quantised kernel) + quantised bias)) with op the corresponding Keras operation; batch-norm variants do so with kernel*s and bias + beta - mean*s, s = gamma/sqrt(variance+epsilon), from the moving statistics of op(x, kernel) + bias; in training they use the batch's statistics instead and update the moving ones with the configured momentum, so that training and inference agree when the moving statistics equal the batch's. Passive layers return exactly what their Keras counterparts return.",
  ['inputs','programs','configurations'],
  'All layers, shapes, strides/padding/dilation, bias on/off, center/scale on/off, epsilon, momentum, activations, weights and inputs.',
  'Tests compare the proxy with the HGQ layer, both built from the same fused weights, so a wrong formula in the layer is invisible to them; training mode is never run.',
  [S+'layers/dense.py',S+'layers/conv.py',S+'layers/batchnorm_base.py',S+'layers/misc.py',S+'layers/passive_layers.py'],
  [('layer forward',S+'layers/dense.py, conv.py, misc.py: forward / jit_forward'),('BN fusion',S+'layers/batchnorm_base.py: fused_kernel, fused_bias; bn_train_jit_forward')],
  ['layer(x, training=...) against plain numpy'])
p('C11','Saving and loading preserves models and proxies exactly',
  "Saving an HGQ model or a proxy (HDF5 or .keras format, or weights only into an identically built model) and loading it back yields a model with the same layer configuration and weights, bit-identical predictions, bitwidths and BOPs, that can be traced and converted to an identical proxy.",
  ['programs','configurations','histories'],
  'All models, layer options (quantiser configs, beta, parallel factor, batch-norm options, initialisers, signatures), formats, before/after tracing and before/after conversion.',
  'Tests save HDF5 for a few default-config models; most of the save/load tests do not even pass in this environment.',
  [S+'layers/base.py',S+'layers/batchnorm_base.py',S+'layers/dense.py',S+'layers/conv.py',S+'layers/passive_layers.py',S+'proxy/fixed_point_quantizer.py',S+'proxy/unary_lut.py',S+'utils/utils.py'],
  [('layer configs','get_config / from_config in the files above')],
  ['load_model(save(model)) predictions, weights, configs'])
p('C12','Model conversion flattens any graph without changing function or source model',
  "Conversion (with the identity or the proxy transformation) of any acyclic model - nested sub-models, shared plain layers, several inputs and outputs in any order, inputs passed straight through, a tensor used twice - gives a flat model with uniquely named layers that computes the same function with inputs and outputs in the same order. The source model's outputs, weights, layer names, configuration and recorded ranges are left as they were, and converting twice gives equal results.",
  ['programs','histories'],
  'All graph topologies and nesting structures, transformations, and repeated conversions.',
  'Tests convert sequential or two-branch models once and never look at the source afterwards.',
  [S+'proxy/convert.py'],
  [('graph walk',S+'proxy/convert.py: solve_dependencies, _get_out_tensor, apply_layer, convert_model, Namer')],
  ['convert_model / to_proxy_model outputs and source model snapshots'])
p('C13','Unary LUTs equal activation plus quantiser on every representable input',
  "With unary LUTs enabled, every element-wise activation whose input format needs at most the given number of table entries is replaced by a table, larger ones and softmax/relu/linear are kept, and the resulting proxy returns exactly the same values as the proxy without LUTs for every representable input of the activation (activations that are constantly zero, hence without any format, are rejected). A LUT built directly from a function and formats returns the quantised function value for every code of the input format.",
  ['inputs','configurations','programs'],
  'All input formats (signed/unsigned, negative integer or fraction bits), output formats, rounding/overflow modes, functions, table size limits including equality.',
  'Tests use 3 activations at one size on random data.',
  [S+'proxy/unary_lut.py',S+'proxy/convert.py',S+'proxy/precision_derivation.py'],
  [('table construction and lookup',S+'proxy/unary_lut.py: UnaryLUT'),('selection',S+'proxy/unary_lut.py: xfr_to_unary_lut')],
  ['LUT layer output over the full input format'])
p('C14','Registered layer precisions are lossless',
  "When layer precisions are registered for a proxy (skip_precision_reg=False), evaluating the proxy with every registered weight, bias, accumulator and result type applied gives the proxy's own outputs bit for bit on in-range data (for models whose outputs are not also used inside the model), and registering never changes what the proxy computes. Type strings name exactly the (sign, integer, fraction) format they were derived from, and weight types are the narrowest that hold the weights exactly. A limit on accumulator fraction bits (accum_fp_max_offset) shortens accumulator and bias types to that many fraction bits beyond the result's and changes nothing else.",
  ['programs','inputs','configurations'],
  'All proxies, topologies, weights and in-range inputs; all formats; all weight arrays.',
  'With the hls4ml version in use the precision registration is skipped by default and the strings are never evaluated by a test.',
  [S+'proxy/precision_derivation.py',S+'utils/utils.py'],
  [('precision propagation',S+'proxy/precision_derivation.py: get_produced_kif, get_requested_kif, merge_precision, get_config'),('strings',S+'utils/utils.py: apf_to_tuple, tuple_to_apf')],
  ['overrides of the proxy quantisers; proxy outputs'])
p('C15','Reported activation bitwidths follow the data elementwise',
  "The per-element activation bitwidths a layer reports (estimate and exact) have the shape of one output sample and, through reshape, flatten, permute, concatenate, max-pooling and dropout, belong to the elements they are carried by: each output element's bitwidth is the one (for pooling, the largest in the window) of the input elements it is taken from. Quantising layers report the bits of their own quantiser for each element; signatures report the declared bits.",
  ['programs','configurations'],
  'All shapes, permutations, axes, pool geometries, granularities, and compositions of passive layers.',
  'Nothing in the suite reads reported bitwidths.',
  [S+'layers/passive_layers.py',S+'layers/base.py'],
  [('propagation',S+'layers/passive_layers.py: act_bw, act_bw_exact'),('own bits',S+'layers/base.py: act_bw, act_bw_exact')],
  ['layer.act_bw, layer.act_bw_exact against the same op applied to the bit map'])
p('C16','QKeras models convert to proxies with identical outputs',
  "A supported QKeras model (quantized_bits and quantized_relu layers with unit alpha, dense, convolution and separable convolution layers) converts to a proxy whose outputs equal the QKeras model's bit for bit when converted with saturating overflow, or with wrapping overflow as long as nothing overflows. Layers and quantiser options that are not supported are refused, never silently converted into something else.",
  ['programs','inputs','configurations'],
  'All bit/integer/symmetric/keep_negative combinations, topologies, weights, inputs (overflowing ones too in saturating mode).',
  'Tests use a handful of fixed quantisers.',
  [S+'proxy/plugins/qkeras.py',S+'proxy/convert.py'],
  [('quantiser mapping',S+'proxy/plugins/qkeras.py: qkeras_quantizer_to_layers, qlayer_to_keras_layer')],
  ['proxy(x) against qkeras model(x)'])
p('C17','Quantiser configurations are isolated and defaults are respected',
  "A layer uses exactly the quantiser configuration it was given, or the defaults in force when it was created; later changes to a configuration dictionary, to the defaults, or the building of other layers sharing the dictionary never affect it, and creating or building layers never changes the caller's dictionaries or the defaults. Configurations with missing or unknown keys are rejected as defaults, leaving the defaults unchanged.",
  ['histories','configurations'],
  'All interleavings of get/set defaults, dictionary mutations, layer creation and building, over all layer types and configuration values.',
  'Tests set the defaults once at the start.',
  [S+'utils/utils.py',S+'layers/base.py',S+'layers/misc.py'],
  [('defaults',S+'utils/utils.py: get_default_*_conf, set_default_*_conf'),('config use',S+'layers/base.py: HLayerBase.__init__, init_quantizers, post_build')],
  ['quantiser attributes of built layers, defaults and caller dictionaries after each step'])
p('C18','Kernel bitwidth adaptation gives every weight the same relative precision',
  "Adapting a kernel quantiser to its weights sets fraction bitwidths to the initial value minus log2 of the weight magnitude (the smallest over a shared group), so that scaling weights by a power of two shifts the bitwidths by the same power and leaves relative quantisation unchanged. It happens once, when the layer is built (for the dense batch-norm layer: at the first training step, on the kernel scaled by the batch statistics, whether steps run eagerly or compiled), unless disabled, and never again, also not after saving and loading.",
  ['inputs','configurations','histories'],
  'All weights, scales, granularities, layers with and without batch-norm, and sequences of build/train/inference calls.',
  'No test looks at the adapted bitwidths.',
  [S+'quantizer/quantizer.py',S+'layers/base.py',S+'layers/batchnorm_base.py',S+'layers/dense.py',S+'layers/conv.py'],
  [('adaptation',S+'quantizer/quantizer.py: adapt_bw_bits'),('when',S+'layers/base.py: init_quantizers; layers/batchnorm_base.py: adapt_fused_bn_kernel_bw_bits')],
  ['fraction bitwidths after build / first step'])
p('C19','Outside the calibrated range proxies wrap or saturate as configured',
  "For inputs or activations beyond the calibrated ranges, an aggressive proxy behaves as two's-complement wrap-around and a non-aggressive one as saturation of each quantised activation to its derived format (signature layers: to the declared format), element by element (with a relu: of the pre-activation to the layer's widest format, then of the positive part to each element's), and a saturating proxy's outputs never leave their format.",
  ['inputs','programs','configurations'],
  'All models, conversions and inputs up to large multiples of the calibration range.',
  'Tests with overflow only compare proxy and hls4ml, never with the configured semantics.',
  [S+'proxy/convert.py',S+'proxy/fixed_point_quantizer.py'],
  [('overflow mode',S+'proxy/convert.py: ProxyLayerXFormer.get_kbiRS, to_proxy_model')],
  ['proxy(x) for out-of-range x against a reference with formats from the records'])
p('C20','Only training changes a model, and only what is trainable',
  "Inference (training=False or None, predict), computing losses, reading bitwidths, BOPs or configurations, saving, and conversion to a proxy leave every weight, bitwidth, batch-norm statistic, beta and recorded range of a model as they were (bitwidths outside their clip limits are clipped on first use); tracing changes recorded ranges only, and a training-mode forward pass nothing but recorded ranges and moving statistics (apart from the one-off kernel bitwidth adaptation, where enabled). BOPs figures and losses may be updated by any pass. The trainable variables are exactly the kernels, biases, batch-norm parameters and those bitwidths whose quantiser is configured as trainable, of layers (and models) that are not frozen, whether frozen at construction or later; a training step or fit moves nothing else, betas included.",
  ['histories','programs','configurations'],
  'All models (nested, Sequential), trainable flags of quantisers and layers, freezing and thawing at any time, and interleavings of inference, reading, saving, conversion, tracing, training steps and fit with the callbacks.',
  'No test trains, freezes or looks at variables around an operation.',
  [S+'layers/base.py',S+'layers/batchnorm_base.py',S+'quantizer/quantizer.py',S+'bops/bops.py',S+'proxy/convert.py'],
  [('trainability of bitwidths',S+'layers/base.py: HLayerBase.init_quantizers'),('beta',S+'layers/base.py: HLayerBase.__init__'),('moving statistics',S+'layers/batchnorm_base.py'),('conversion reads fused weights only',S+'proxy/convert.py: copy_fused_weights')],
  ['all variables before and after every operation; model.trainable_variables'])
p('C21','Inference answers every sample on its own, however it is asked',
  "In inference an HGQ model, and a proxy of it (wrapping or saturating, with or without lookup tables), returns for each sample a value that depends on that sample alone: bit for bit the same one by one, in any batch, order, split, repetition or company of other samples (for proxies also samples beyond the calibrated ranges), through call, predict or a tf.data pipeline, eagerly or compiled, with training=False or unset, from numpy or tensors, and however often it has been asked or traced on the same data before; as long as everything fits a float32 mantissa.",
  ['inputs','schedules','histories','programs'],
  'All supported models and proxies, samples, batch compositions and sizes, call paths and repetitions.',
  'Tests compare two models on one batch, by one path.',
  [S+'quantizer/quantizer.py',S+'layers/base.py',S+'layers/misc.py',S+'layers/passive_layers.py',S+'proxy/fixed_point_quantizer.py',S+'proxy/unary_lut.py'],
  [('quantiser forward',S+'quantizer/quantizer.py: HGQ.forward'),('training default',S+'layers/base.py: HLayerBase.call'),('proxy quantiser and table lookup',S+'proxy/fixed_point_quantizer.py, '+S+'proxy/unary_lut.py')],
  ['outputs of the same samples asked for in several ways'])
p('C22','The BOPs penalty pulls every bitwidth by its own share of the count',
  "Differentiating a model's losses, in inference or training mode, eagerly or compiled, gives every kernel and activation bitwidth the derivative of the BOPs penalty with respect to it: the sum, over all multiplications its values take part in (in whichever layers, through reshape, flatten, permute, concatenate and dropout), of that layer's beta times the other operand's estimated bits (scaled for convolutions by parallel factor over output positions), divided by the square root of the number of values that share the bitwidth (times the parallel factor for convolution kernels), plus the gradient of the bitwidth's own regulariser. Bitwidths whose values take no bits get nothing from the penalty, and kernels, biases and batch-norm parameters never get any.",
  ['programs','configurations','inputs'],
  'All models of the supported layers, granularities, betas, regularisers, parallel factors, ranges and weights.',
  'No test differentiates a loss.',
  [S+'layers/base.py',S+'layers/dense.py',S+'layers/conv.py',S+'layers/batchnorm_base.py',S+'layers/passive_layers.py',S+'quantizer/quantizer.py'],
  [('estimated bits',S+'layers/base.py: HLayerBase.act_bw, HLayerBase._kernel_bw, scale_grad'),('straight-through fraction bits',S+'quantizer/quantizer.py: HGQ.get_bits'),('sharing',S+'quantizer/quantizer.py: HGQ._compute_bw_shape_and_degeneracy; '+S+'layers/conv.py: HConv.post_build'),('penalty',S+'layers/dense.py: HDense.forward, '+S+'layers/conv.py: HConv.forward')],
  ['gradients of model.losses with respect to model.trainable_variables'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
        f.write(json.dumps(d) + '\n')
print(len(P))
