From b3528f68e7a854fe544ee73b8c9179bf07d63357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 01/33] fix: keep reduced dims when recording min/max and
 deriving bits, so any skip_dims works

---
 src/HGQ/quantizer/quantizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index f6050e4..94f3d55 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -168,8 +168,8 @@ class HGQ:
             return x + delta
         xq = x + delta
         if self.skip_dims:
-            min_xq = tf.reduce_min(xq, axis=self.skip_dims)
-            max_xq = tf.reduce_max(xq, axis=self.skip_dims)
+            min_xq = tf.reduce_min(xq, axis=self.skip_dims, keepdims=True)
+            max_xq = tf.reduce_max(xq, axis=self.skip_dims, keepdims=True)
         else:
             min_xq = max_xq = xq
 
@@ -227,8 +227,8 @@ class HGQ:
             _ref = tf.abs(_ref)
             int_bits = tf.floor(tf.math.log(_ref) / log2) + 1
             if self.skip_dims:
-                int_bits = tf.reduce_max(int_bits, axis=self.skip_dims)
-                kn = tf.reduce_max(kn, axis=self.skip_dims)
+                int_bits = tf.reduce_max(int_bits, axis=self.skip_dims, keepdims=True)
+                kn = tf.reduce_max(kn, axis=self.skip_dims, keepdims=True)
         else:
             assert self.minmax_record
             if pos_only:
-- 
2.43.0


From c20d705994d9dc77c06e9c47fa9e86ceae4128e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 02/33] fix: derive exact bits in float64, float32 log2 rounds
 ranges just beside a power of two

---
 src/HGQ/quantizer/quantizer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index 94f3d55..f6b7d87 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -249,17 +249,18 @@ class HGQ:
 
         if ref is None and self.minmax_record:
             assert tf.reduce_all(self._max - self._min >= 0), "Some min values are larger than max values. Did you forget to run trace_minmax?"  # type: ignore
-            f = tf.round(self.fbw).numpy()  # type: ignore
+            f = tf.round(self.fbw).numpy().astype(np.float64)  # type: ignore
+            _min, _max = self._min.numpy().astype(np.float64), self._max.numpy().astype(np.float64)
             with np.errstate(divide='ignore'):
                 if pos_only:
-                    _ref = np.maximum(self._max, 0.)  # type:ignore
+                    _ref = np.maximum(_max, 0.)
                     i = np.floor(np.log2(_ref)) + 1
-                    k = np.zeros_like(self._max)
+                    k = np.zeros_like(_max)
                 else:
-                    i_neg = np.ceil(np.log2(np.abs(self._min)))  # type:ignore
-                    i_pos = np.ceil(np.log2(np.abs(self._max + 2.**-f)))  # type:ignore
+                    i_neg = np.ceil(np.log2(np.abs(_min)))
+                    i_pos = np.ceil(np.log2(np.abs(_max + 2.**-f)))
                     i = np.maximum(i_neg, i_pos)
-                    k = (self._min.numpy() < 0)  # type:ignore
+                    k = _min < 0
             i = np.clip(i, -f - k, 32)
             k, i, f = k.astype(np.int8), i.astype(np.int8), f.astype(np.int8)
             mask = k + i + f != 0
-- 
2.43.0


From db3ae3f0998d7db92c77536deed490fdd0e07c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 03/33] fix: recognise relu activations by name, as the
 constructor does

---
 src/HGQ/layers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index c86464a..1983981 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -88,7 +88,7 @@ class HLayerBase(ABSBaseLayer):
 
     @property
     def _relu_act(self):
-        return hasattr(self, 'activation') and self.activation is tf.keras.activations.relu
+        return getattr(getattr(self, 'activation', None), '__name__', '').lower() == 'relu'
 
     def post_build(self, input_shape):
         """This method should be called after calling build() method of the child class. It initializes the quantizers and sets the bops variable, and set a few flags (_has_kernel, _has_bias, _relu_act) for convenience.)"""
-- 
2.43.0


From aee1670b6dd3d72a73f2030e92bcbc2910a5cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 04/33] fix: decide pruned channels from the recorded range,
 the approximated bitwidth may be off by one

---
 src/HGQ/layers/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 1983981..486e774 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -228,7 +228,11 @@ class HLayerBase(ABSBaseLayer):
 
         fbw = tf.reduce_max(self.paq.fbw, axis=dims, keepdims=False)
         fbw = tf.broadcast_to(fbw, bias.shape)
-        mask = tf.reduce_max(self.act_bw, axis=dims, keepdims=False) > 0
+        if self._relu_act:
+            nonzero = self.paq._max > 0
+        else:
+            nonzero = (self.paq._min != 0) | (self.paq._max != 0)
+        mask = tf.reduce_any(nonzero, axis=dims, keepdims=False)
 
         if self.paq.rnd_strategy != 3 and self.can_bias_cover_rnd:
             bias = tf.pow(2., -tf.round(fbw) - 1) + bias  # type: ignore
-- 
2.43.0


From dba451a48b462a147da0e4067d4ec0d0952026cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 05/33] fix: permute the bitwidths along with the data in
 PPermute

---
 src/HGQ/layers/passive_layers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/layers/passive_layers.py b/src/HGQ/layers/passive_layers.py
index 28ef324..3fb208a 100644
--- a/src/HGQ/layers/passive_layers.py
+++ b/src/HGQ/layers/passive_layers.py
@@ -179,4 +179,12 @@ class PDropout(PLayerBase, tf.keras.layers.Dropout):
 
 @register_keras_serializable(package="HGQ")
 class PPermute(PLayerBase, tf.keras.layers.Permute):
-    pass
+
+    @property
+    def act_bw(self):
+        """Returns the bitwidth of the pre-activation values. Differentiable."""
+        return tf.transpose(self.input_bw, (0,) + tuple(self.dims))
+
+    @property
+    def act_bw_exact(self) -> np.ndarray:
+        return np.transpose(self.input_bw_exact, (0,) + tuple(self.dims))
-- 
2.43.0


From 8fb371ca525ef663825a06cd1c867f61bd6ce369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 06/33] fix: copy quantizer configs, layers sharing a dict must
 not see each other's changes

---
 src/HGQ/layers/base.py | 4 ++--
 src/HGQ/utils/utils.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 486e774..fc92614 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -44,9 +44,9 @@ class HLayerBase(ABSBaseLayer):
     def __init__(self, kq_conf=None, paq_conf=None, beta=0., **kwargs):
         self._has_kernel = None
         self._has_bias = None
-        self.kq_config = kq_conf or get_default_kq_conf()
+        self.kq_config = dict(kq_conf) if kq_conf else get_default_kq_conf()
         "kernel quantizer config"
-        self.paq_config = paq_conf or get_default_paq_conf()
+        self.paq_config = dict(paq_conf) if paq_conf else get_default_paq_conf()
         "pre-activation quantizer config"
         self.beta = tf.Variable(beta, dtype=tf.float32, name='beta', trainable=False)
         "BOPs-regularization strength"
diff --git a/src/HGQ/utils/utils.py b/src/HGQ/utils/utils.py
index 7902546..8f8e331 100644
--- a/src/HGQ/utils/utils.py
+++ b/src/HGQ/utils/utils.py
@@ -56,7 +56,7 @@ def set_default_kq_conf(config):
     assert isinstance(config, dict), f'config must be a dict, got {config.__class__.__name__}'
     assert set(config.keys()) == set(DEFAULT_KERNEL_QUANTIZER_CONFIG.keys()), \
         f'config must have keys {DEFAULT_KERNEL_QUANTIZER_CONFIG.keys()}, got {config.keys()}'
-    DEFAULT_KERNEL_QUANTIZER_CONFIG = config
+    DEFAULT_KERNEL_QUANTIZER_CONFIG = config.copy()
 
 
 def set_default_paq_conf(config):
@@ -64,7 +64,7 @@ def set_default_paq_conf(config):
     assert isinstance(config, dict), f'config must be a dict, got {config.__class__.__name__}'
     assert set(config.keys()) == set(DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG.keys()), \
         f'config must have keys {DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG.keys()}, got {config.keys()}'
-    DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG = config
+    DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG = config.copy()
 
 
 strategy_dict = {
-- 
2.43.0


From 03c04ea6d6ddb14c3dfc9785e0f97150366994d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 07/33] fix: make MonoL1 deserialisable

---
 src/HGQ/utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HGQ/utils/utils.py b/src/HGQ/utils/utils.py
index 8f8e331..e3d935a 100644
--- a/src/HGQ/utils/utils.py
+++ b/src/HGQ/utils/utils.py
@@ -17,6 +17,10 @@ class MonoL1:
     def get_config(self):
         return {'l1': self.l1}
 
+    @classmethod
+    def from_config(cls, config):
+        return cls(**config)
+
 
 DEFAULT_KERNEL_QUANTIZER_CONFIG = \
     dict(init_bw=2,
-- 
2.43.0


From 7b7e2136fd0537b7a21e4027bbb3b8f12a4dca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 08/33] fix: save the batchnorm options of fused batchnorm
 layers

---
 src/HGQ/layers/batchnorm_base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 6458383..daa1830 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -109,6 +109,24 @@ class HBatchNormBase(HLayerBase):
         scale = self.bn_gamma * tf.math.rsqrt(self.moving_variance + self.epsilon)
         return self.bias - self.moving_mean * scale + self.bn_beta
 
+    def get_config(self):
+        config = super().get_config()
+        config.update(
+            momentum=float(self.momentum),
+            epsilon=float(self.epsilon),
+            center=self.center,
+            scale=self.scale,
+            beta_initializer=tf.keras.initializers.serialize(self.beta_initializer),
+            gamma_initializer=tf.keras.initializers.serialize(self.gamma_initializer),
+            moving_mean_initializer=tf.keras.initializers.serialize(self.moving_mean_initializer),
+            moving_variance_initializer=tf.keras.initializers.serialize(self.moving_variance_initializer),
+            beta_regularizer=tf.keras.regularizers.serialize(self.beta_regularizer),
+            gamma_regularizer=tf.keras.regularizers.serialize(self.gamma_regularizer),
+            beta_constraint=tf.keras.constraints.serialize(self.beta_constraint),
+            gamma_constraint=tf.keras.constraints.serialize(self.gamma_constraint),
+        )
+        return config
+
     def adapt_fused_bn_kernel_bw_bits(self, x: tf.Tensor):
         """Adapt the bitwidth of the kernel quantizer to the input tensor, such that each input is represented with approximately the same number of bits after fused batchnormalization."""
         if not self.scale:
-- 
2.43.0


From 1e3434cd24c76eb359b5ac25c3367e2fed5987ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 09/33] fix: fused batchnorm layers apply the same bias in
 training as in inference

---
 src/HGQ/layers/conv.py  | 4 ++--
 src/HGQ/layers/dense.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index a2776bc..d1aa072 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -382,8 +382,8 @@ class HConvBatchNorm(HConv, HBatchNormBase):
         else:
             scale = tf.constant(1.0, dtype=self.dtype)
 
-        if self.center:
-            train_fused_bias = self.bias - mean * scale  # type: ignore
+        if self.use_bias:
+            train_fused_bias = self.bias - mean * scale + self.bn_beta if self.center else self.bias  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq, data_format=self._tf_data_format)  # type: ignore
 
diff --git a/src/HGQ/layers/dense.py b/src/HGQ/layers/dense.py
index 5fb2147..4cb728d 100644
--- a/src/HGQ/layers/dense.py
+++ b/src/HGQ/layers/dense.py
@@ -200,8 +200,8 @@ class HDenseBatchNorm(HDense, HBatchNormBase):
         else:
             scale = tf.constant(1.0, dtype=self.dtype)
 
-        if self.center:
-            train_fused_bias = self.bias - mean * scale  # type: ignore
+        if self.use_bias:
+            train_fused_bias = self.bias - mean * scale + self.bn_beta if self.center else self.bias  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq)  # type: ignore
 
-- 
2.43.0


From 5ffacf6fbb2e3b5dc2736c0df8173995dc88c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 10/33] fix: do not rename the layers of the source model
 during conversion

---
 src/HGQ/proxy/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index 93a5397..b58f6d8 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -160,9 +160,9 @@ def apply_layer(
 
     if layer_xf is not None:
         name = namer.next_name(layer_xf.name)
-        layer_xf._name = name
         # Remove all inbound and outbound nodes to clean up the graph.
         layer_xf = copy(layer_xf)
+        layer_xf._name = name
         layer_xf._inbound_nodes = []
         layer_xf._outbound_nodes = []
         return layer_xf(inp_tensors)
-- 
2.43.0


From 0dd44a00a0dbc8e139eaf8972d34096c6f621490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 11/33] fix: allow unary LUTs of exactly the maximum table
 size, as documented

---
 src/HGQ/proxy/unary_lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/proxy/unary_lut.py b/src/HGQ/proxy/unary_lut.py
index 93a7f72..5b014be 100644
--- a/src/HGQ/proxy/unary_lut.py
+++ b/src/HGQ/proxy/unary_lut.py
@@ -21,7 +21,7 @@ class UnaryLUT(Layer):
         assert sum(kif_in) > 0, 'Input to activation is constantly zero'
         assert sum(kif_out) > 0, 'Output of activation is constantly zero'
         if LUT_SIZE_LIMITATION > 0:
-            assert 2**sum(kif_in) < LUT_SIZE_LIMITATION, f'Input to activation is too large ({2**sum(kif_in)} > {LUT_SIZE_LIMITATION}). If you want to raise this limit, set the LUT_SIZE_LIMITATION environment variable.'
+            assert 2**sum(kif_in) <= LUT_SIZE_LIMITATION, f'Input to activation is too large ({2**sum(kif_in)} > {LUT_SIZE_LIMITATION}). If you want to raise this limit, set the LUT_SIZE_LIMITATION environment variable.'
         self.kif_in = kif_in
         self.kif_out = kif_out
         k, i, f = kif_in
@@ -64,7 +64,7 @@ class UnaryLUT(Layer):
         kif_in = k, i, f
         assert k + i + f > 0, 'Activation function is applied to an zero array. Something is wrong.'
         N = 2**(k + i + f)
-        assert N < int(os.environ.get('HLS_MAX_ACTIVATION_LUT_SIZE', 2**16)), f'Input to activation function is too large ({N} > {os.environ.get("HLS_MAX_ACTIVATION_LUT_SIZE", 2**16)}). If you want to raise this limit, set the HLS_MAX_ACTIVATION_LUT_SIZE environment variable.'
+        assert N <= int(os.environ.get('HLS_MAX_ACTIVATION_LUT_SIZE', 2**16)), f'Input to activation function is too large ({N} > {os.environ.get("HLS_MAX_ACTIVATION_LUT_SIZE", 2**16)}). If you want to raise this limit, set the HLS_MAX_ACTIVATION_LUT_SIZE environment variable.'
         if k:
             inp_table = np.empty(N, dtype=np.float64)
             inp_table[:N // 2] = np.linspace(0, 2.**i - 2.**-f, N // 2, dtype=np.float64)
-- 
2.43.0


From b3283b7444ea987ced1dbea2da474423edaa9d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:52 +0000
Subject: [PATCH 12/33] fix: trace_minmax descends into nested models, as the
 callbacks do

---
 src/HGQ/bops/bops.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index a681cb3..f914335 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -54,12 +54,20 @@ class CalibratedBOPs(tf.keras.callbacks.Callback):
         logs['bops'] = bops
 
 
+def _hgq_layers(model):
+    """All HGQ layers in the model, including those in nested models."""
+    for layer in model.layers:
+        if isinstance(layer, HLayerBase):
+            yield layer
+        elif isinstance(layer, keras.Model):
+            yield from _hgq_layers(layer)
+
+
 def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=False, no_bops_computation=False, rst=True, cover_factor=1.0):
     if rst:
-        for layer in model.layers:
-            if isinstance(layer, HLayerBase):
-                layer.reset_minmax()
-                layer.record_minmax = True
+        for layer in _hgq_layers(model):
+            layer.reset_minmax()
+            layer.record_minmax = True
 
     r = []
     if isinstance(dataset, list):
@@ -74,10 +82,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         assert cover_factor > 0.
         if cover_factor < 1:
             warn(f'cover_factor<1.0 will likely to result in overflows.')
-        for layer in model.layers:
-            if not isinstance(layer, HLayerBase):
-                continue
-
+        for layer in _hgq_layers(model):
             aq = layer.paq
             _min, _max = aq._min.numpy(), aq._max.numpy()  # type: ignore
             mean = (_min + _max) / 2
@@ -88,11 +93,9 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
             aq._min.assign(aq(tf.constant(_min)))  # type: ignore
             aq._max.assign(aq(tf.constant(_max)))  # type: ignore
 
-    for layer in model.layers:
+    for layer in _hgq_layers(model):
         if not hasattr(layer, 'activation'):
             continue
-        if not isinstance(layer, HLayerBase):
-            continue
         aq = layer.paq
         if layer.activation is tf.keras.activations.softmax:
             # softmax_lut behaves slightly differently from softmax, which is more likely to generate exact 1s. Overflows may occur with traced min-max.
@@ -113,13 +116,12 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         return -1
 
     bops = 0
-    for layer in model.layers:
-        if isinstance(layer, HLayerBase):
-            layer.record_minmax = False
-            dbops = layer.compute_exact_bops  # type: ignore
-            bops += dbops
-            if verbose:
-                print(f'{layer.name}: {dbops}')
+    for layer in _hgq_layers(model):
+        layer.record_minmax = False
+        dbops = layer.compute_exact_bops  # type: ignore
+        bops += dbops
+        if verbose:
+            print(f'{layer.name}: {dbops}')
 
     if return_predictions:
         return bops, np.concatenate(r, axis=0)
-- 
2.43.0


From 96b44fdc03dd69d11a18f5a249e6dba142f1539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:52 +0000
Subject: [PATCH 13/33] fix: return_predictions of trace_minmax for models with
 several outputs

---
 src/HGQ/bops/bops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index f914335..ac240a8 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -124,6 +124,8 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
             print(f'{layer.name}: {dbops}')
 
     if return_predictions:
+        if isinstance(r[0], (list, tuple)):
+            return bops, [np.concatenate(o, axis=0) for o in zip(*r)]
         return bops, np.concatenate(r, axis=0)
 
     return bops
-- 
2.43.0


From a5c0a8742b5502d9813e686ccedcf9449308f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:52 +0000
Subject: [PATCH 14/33] fix: account for the bias in the bitwidth produced by
 dense and conv layers

---
 src/HGQ/proxy/precision_derivation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 151f21a..679c22b 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -171,6 +171,9 @@ def _(layer: keras.layers.Dense | Conv):
 
     multiplicity = np.prod(layer.kernel.shape) / div
     i += int(np.ceil(np.log2(multiplicity)))
+    if layer.use_bias and np.any(layer.bias != 0):
+        _, b_i, b_f = get_arr_container(layer.bias.numpy())
+        i, f = max(i, b_i) + 1, max(f, b_f)
     return k, i, f
 
 
-- 
2.43.0


From b05ecf07ae23a230b7b4efd4bd6c76dd31bd0941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:18 +0000
Subject: [PATCH 15/33] fix: no variance scaling of the fused bias when
 scale=False

---
 src/HGQ/layers/batchnorm_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index daa1830..301958d 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -106,6 +106,8 @@ class HBatchNormBase(HLayerBase):
     def fused_bias(self):  # type: ignore
         if not self.center:
             return self.bias
+        if not self.scale:
+            return self.bias - self.moving_mean + self.bn_beta
         scale = self.bn_gamma * tf.math.rsqrt(self.moving_variance + self.epsilon)
         return self.bias - self.moving_mean * scale + self.bn_beta
 
-- 
2.43.0


From a79a4a263faf118cf8ee60de9f18d0c87bff7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:44 +0000
Subject: [PATCH 16/33] fix: clamp sigmoid/tanh ranges to values on the
 quantizer grid, so that min <= max for coarse grids

---
 src/HGQ/bops/bops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index ac240a8..fd7cd95 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -105,12 +105,12 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         if layer.activation is tf.keras.activations.sigmoid:
             # <0 or >1 for sigmoid does not make sense. Undo the effect of cover_factor.
             aq._min.assign(tf.maximum(aq._min, tf.zeros_like(aq._min)))  # type: ignore
-            aq._max.assign(tf.minimum(aq._max, tf.ones_like(aq._max)))  # type: ignore
+            aq._max.assign(tf.minimum(aq._max, aq(tf.ones_like(aq._max))))  # type: ignore
 
         if layer.activation is tf.keras.activations.tanh:
             # <-1 or >1 for tanh does not make sense. Undo the effect of cover_factor.
-            aq._min.assign(tf.maximum(aq._min, -tf.ones_like(aq._min)))  # type: ignore
-            aq._max.assign(tf.minimum(aq._max, tf.ones_like(aq._max)))  # type: ignore
+            aq._min.assign(tf.maximum(aq._min, aq(-tf.ones_like(aq._min))))  # type: ignore
+            aq._max.assign(tf.minimum(aq._max, aq(tf.ones_like(aq._max))))  # type: ignore
 
     if no_bops_computation:
         return -1
-- 
2.43.0


From 0c1010db4c95ec82ca759b3a5fa472bf0aaba557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:06 +0000
Subject: [PATCH 17/33] fix: clip the bitwidth also when quantizing the bias,
 else the first call after an update differs from the next

---
 src/HGQ/quantizer/quantizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index f6b7d87..3c08c00 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -189,6 +189,8 @@ class HGQ:
             raise ValueError('channel_loc must be -1 or 1')
 
         fbw = tf.reduce_max(self.fbw, axis=dims, keepdims=False)
+        if self.bw_clip:
+            fbw = tf.clip_by_value(fbw, *self.bw_clip)
 
         if self.exact_q_value or not training:
             scale = tf.pow(two, tf.round(fbw))
-- 
2.43.0


From 48af337b796bb6b5d7dbd8de21c08fa09f136efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:42 +0000
Subject: [PATCH 18/33] fix: convert models with nested models that provide
 several outputs

---
 src/HGQ/proxy/convert.py | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index b58f6d8..4b23e5e 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -32,26 +32,26 @@ def get_all_nodes(model: keras.Model) -> set[Node]:
 
 
 def solve_dependencies(model: keras.Model):
-    """Given a keras model, return the input nodes, output nodes and a list of (layer, requires, provides) tuples. Requires is a list of nodes that are parents of the layer, provides is the node that is the output of the layer."""
+    """Given a keras model, return the input nodes, outputs and a list of (layer, requires, provides) tuples. Outputs and requires are lists of (node, tensor index) pairs, as a node (e.g., a nested model) may provide multiple tensors. Provides is the node that is the output of the layer."""
     inp_tensors: list[KerasTensor] = model.inputs  # type:ignore
     out_tensors: list[KerasTensor] = model.outputs  # type:ignore
 
     input_nodes: list[Node] = [t.node for t in inp_tensors]  # type:ignore
-    output_nodes: list[Node] = [t.node for t in out_tensors]  # type:ignore
+    outputs: list[tuple[Node, int]] = [(t.node, t._keras_history.tensor_index) for t in out_tensors]  # type:ignore
 
     nodes = get_all_nodes(model)
 
-    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[Node]]] = {}
-    "List of (layer, requires, provides) tuples; requires is a list of nodes, provides is a single node."
+    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[tuple[Node, int]]]] = {}
+    "List of (layer, requires, provides) tuples; requires is a list of (node, tensor index), provides is a single node."
 
     for node in nodes:
         if node.is_input:
             continue
         layer = node.layer  # layer that is called on the node
-        requires = list(node.parent_nodes)
+        requires = [(t.node, t._keras_history.tensor_index) for t in node.keras_inputs]
         provides = node
         dependencies_dict[provides] = (layer, requires)
-    return input_nodes, output_nodes, dependencies_dict
+    return input_nodes, outputs, dependencies_dict
 
 
 def get_weight(layer: keras.layers.Layer, name: str):
@@ -105,31 +105,29 @@ class Namer:
 
 
 def _get_out_tensor(
-    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[Node]]],
-    satisfied: dict[Node, Any],
+    dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[tuple[Node, int]]]],
+    satisfied: dict[Node, list],
     node: Node,
+    idx: int = 0,
     namer: Namer | None = None,
     layer_xformer: Callable[[keras.layers.Layer], keras.layers.Layer] = lambda x: x,
 ):
-    """Given a node, get the output tensor provided generated by the node."""
+    """Given a node, get the idx-th output tensor generated by the node."""
 
     if node in satisfied:
-        return satisfied[node]
+        return satisfied[node][idx]
 
     namer = namer or Namer()
     layer, requires = dependencies_dict[node]
     inps = []
-    for req in requires:
-        if req in satisfied:
-            inps.append(satisfied[req])
-        else:
-            inp = _get_out_tensor(dependencies_dict, satisfied, req, namer, layer_xformer)
-            inps.append(inp)
+    for req, req_idx in requires:
+        inps.append(_get_out_tensor(dependencies_dict, satisfied, req, req_idx, namer, layer_xformer))
     if len(inps) == 1:
         inps = inps[0]
 
-    satisfied[node] = apply_layer(layer, inps, namer=namer, layer_xformer=layer_xformer)
-    return satisfied[node]
+    outs = apply_layer(layer, inps, namer=namer, layer_xformer=layer_xformer)
+    satisfied[node] = list(outs) if isinstance(outs, (list, tuple)) else [outs]
+    return satisfied[node][idx]
 
 
 @singledispatch
@@ -187,10 +185,10 @@ def _(
 
     namer = namer or Namer()
     inp_tensors = [inp_tensors] if not isinstance(inp_tensors, (list, tuple)) else inp_tensors
-    input_nodes, output_nodes, dependencies_dict = solve_dependencies(model)
-    satisfied = {node: tensor for node, tensor in zip(input_nodes, inp_tensors)}
+    input_nodes, outputs, dependencies_dict = solve_dependencies(model)
+    satisfied = {node: [tensor] for node, tensor in zip(input_nodes, inp_tensors)}
     get_out_tensor = partial(_get_out_tensor, dependencies_dict, satisfied, namer=namer, layer_xformer=layer_xformer)
-    outs = [get_out_tensor(output_node) for output_node in output_nodes]
+    outs = [get_out_tensor(*output) for output in outputs]
     return outs[0] if len(outs) == 1 else outs
 
 
-- 
2.43.0


From a45982d556674cfc1de5069e317b85a88205d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:06 +0000
Subject: [PATCH 19/33] fix: estimated integer bits one short at some exact
 powers of two

---
 src/HGQ/quantizer/quantizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index 3c08c00..f5de6a2 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -36,6 +36,12 @@ def q_round(x: tf.Tensor, strategy: int = 0):
     raise ValueError(f"Unknown strategy {strategy}")
 
 
+def floor_log2(x: tf.Tensor):
+    """floor(log2(x)). Float32 log falls just below the integer for some exact powers of two, which is corrected here."""
+    n = tf.floor(tf.math.log(x) / log2)
+    return tf.where(x >= tf.pow(two, n + 1), n + 1, n)
+
+
 def get_arr_bits(arr: np.ndarray):
     """Internal helper function to compute the position of the highest and lowest bit of an array of fixed-point integers."""
     kn = (arr < 0).astype(np.int8)
@@ -227,7 +233,7 @@ class HGQ:
                 _ref = self.forward(ref)  # type: ignore
             kn = tf.keras.backend.cast_to_floatx(_ref < 0)
             _ref = tf.abs(_ref)
-            int_bits = tf.floor(tf.math.log(_ref) / log2) + 1
+            int_bits = floor_log2(_ref) + 1
             if self.skip_dims:
                 int_bits = tf.reduce_max(int_bits, axis=self.skip_dims, keepdims=True)
                 kn = tf.reduce_max(kn, axis=self.skip_dims, keepdims=True)
@@ -239,7 +245,7 @@ class HGQ:
             else:
                 _ref = tf.maximum(tf.abs(self._min), tf.abs(self._max))
                 kn = tf.keras.backend.cast_to_floatx(self._min < 0)  # type: ignore
-            int_bits = tf.floor(tf.math.log(_ref) / log2) + 1
+            int_bits = floor_log2(_ref) + 1
         return int_bits, fp_bits, kn
 
     def get_bits_exact(self, ref=None, pos_only=False):
-- 
2.43.0


From b8e0cc3e3ac78a6c39cc0fc67a900949f2f11ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:48 +0000
Subject: [PATCH 20/33] fix: adapting the kernel bits of a fused batchnorm
 layer must not add to the losses

---
 src/HGQ/layers/batchnorm_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 301958d..f4b9fab 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -137,7 +137,7 @@ class HBatchNormBase(HLayerBase):
 
         fbw = tf.identity(self.kq.fbw)
         self.kq.fbw.assign(tf.ones_like(fbw) * 32)
-        z = self.forward(x, training=False, record_minmax=False)
+        z, _ = self.jit_forward(x, training=False, record_minmax=False)  # not self.forward, which would add its BOPs to the losses
         self.kq.fbw.assign(fbw)
 
         var = tf.math.reduce_variance(z, axis=self._reduction_axis)
-- 
2.43.0


From 137a773f7ff651fd75e8c465027757d1a890cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:45 +0000
Subject: [PATCH 21/33] fix: reduce each element of an oversized proxy
 quantizer on its own, and only if nothing can overflow

---
 src/HGQ/proxy/precision_derivation.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 679c22b..a976aca 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -91,17 +91,21 @@ def _(layer: FixedPointQuantizer):
     assert len(kifs) == 1, f'Quantizer {layer.name} has more than one input. This is not supported.'
     _ik, _ii, _if = kifs[0]
 
-    # If the quantizer bit width is unnecessarily large, reduce it.
-    ok, oi, of = layer.result_t_kif
-    k, i, f = min(_ik, ok), min(_ii, oi), min(_if, of)
-    if _ii <= oi and _if > f:
-        # May overflow otherwise, like (8,4) & (8,5) should result in (9,4) instead of (8,4) to avoid overflow.
-        i += 1
-    if k != ok or i != oi or f != of:
-        layer.keep_negative.assign(tf.minimum(layer.keep_negative, k))
-        layer.integers.assign(tf.minimum(layer.integers, k + i))
-        layer.bits.assign(tf.minimum(layer.bits, k + i + f))
-
+    # If the quantizer bit width is unnecessarily large, reduce it. Each element has its own format, hence shall be reduced on its own.
+    k, b, ki = (np.array(v, dtype=np.int64) for v in (layer.keep_negative, layer.bits, layer.integers))
+    i, f = ki - k, b - ki
+    # May overflow otherwise, like (8,4) & (8,5) should result in (9,4) instead of (8,4) to avoid overflow.
+    max_i = _ii + (_if > f)
+    fits = (_ik <= k) & (max_i <= i)  # What overflows depends on the format, which thus must not change if there may be an overflow.
+    k, f = np.where(fits, _ik, k), np.where(fits, np.minimum(_if, f), f)
+    i = np.where(fits, np.maximum(max_i, -f), i)
+    mask = (b > 0) & (k + i + f > 0)
+    k, i, f = k * mask, i * mask, f * mask
+    layer.keep_negative.assign(k)
+    layer.integers.assign(k + i)
+    layer.bits.assign(k + i + f)
+
+    k, i, f = map(int, layer.result_t_kif)
     return k, i, f
 
 
-- 
2.43.0


From 0474600431bc83220a07784e2c8a6a3b25b515ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:18 +0000
Subject: [PATCH 22/33] fix: adapt the kernel bits of fused batchnorm layers
 exactly once, also in compiled training steps

---
 src/HGQ/layers/batchnorm_base.py | 9 +++++++++
 src/HGQ/layers/conv.py           | 3 +--
 src/HGQ/layers/dense.py          | 3 +--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index f4b9fab..3b3d417 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -48,6 +48,7 @@ class HBatchNormBase(HLayerBase):
 
     def post_build(self, input_shape):
         super().post_build(input_shape)
+        self.kq.adapted = tf.Variable(False, trainable=False, name='adapted')
         self.axis: list = tf_utils.validate_axis(self.axis, input_shape)
         self._post_build(input_shape)  # type: ignore
 
@@ -129,6 +130,14 @@ class HBatchNormBase(HLayerBase):
         )
         return config
 
+    def adapt_fused_bn_kernel_bw_bits_once(self, x: tf.Tensor):
+        """Call adapt_fused_bn_kernel_bw_bits at the first training step only. A compiled train step is traced once, or a few times, for all steps, thus the decision shall be part of the graph."""
+        def adapt():
+            self.adapt_fused_bn_kernel_bw_bits(x)
+            return self.kq.adapted.assign(True)
+
+        tf.cond(self.kq.adapted, self.kq.adapted.read_value, adapt)
+
     def adapt_fused_bn_kernel_bw_bits(self, x: tf.Tensor):
         """Adapt the bitwidth of the kernel quantizer to the input tensor, such that each input is represented with approximately the same number of bits after fused batchnormalization."""
         if not self.scale:
diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index d1aa072..35c400d 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -340,8 +340,7 @@ class HConvBatchNorm(HConv, HBatchNormBase):
     def forward(self, x, training=None, record_minmax=None):
 
         if training and self._do_adapt_kernel_bits and self._delayed_kernel_bits_adaption:
-            self.adapt_fused_bn_kernel_bw_bits(x)
-            self._do_adapt_kernel_bits = False
+            self.adapt_fused_bn_kernel_bw_bits_once(x)
 
         if training:
             a, kq = self.bn_train_jit_forward(x, True, record_minmax=record_minmax)  # type: ignore
diff --git a/src/HGQ/layers/dense.py b/src/HGQ/layers/dense.py
index 4cb728d..2f016e4 100644
--- a/src/HGQ/layers/dense.py
+++ b/src/HGQ/layers/dense.py
@@ -159,8 +159,7 @@ class HDenseBatchNorm(HDense, HBatchNormBase):
     def forward(self, x, training=None, record_minmax=None):
 
         if training and self._do_adapt_kernel_bits and self._delayed_kernel_bits_adaption:
-            self.adapt_fused_bn_kernel_bw_bits(x)
-            self._do_adapt_kernel_bits = False
+            self.adapt_fused_bn_kernel_bw_bits_once(x)
 
         if training:
             a, kq = self.bn_train_jit_forward(x, True, record_minmax=record_minmax)  # type: ignore
-- 
2.43.0


From e8fe452ad4d0a3eb2ff5bcd57aa9e4fb14181474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:49 +0000
Subject: [PATCH 23/33] fix: save do_adapt_kernel_bits, a loaded layer must not
 adapt its bits if disabled or done already

---
 src/HGQ/layers/base.py           | 4 ++--
 src/HGQ/layers/batchnorm_base.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index fc92614..416b5e3 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -124,7 +124,6 @@ class HLayerBase(ABSBaseLayer):
             kq.degeneracy = degeneracy
             if self._do_adapt_kernel_bits and not self._delayed_kernel_bits_adaption:
                 kq.adapt_bw_bits(self.kernel)
-                self._do_adapt_kernel_bits = False
             self.kq = kq
 
         aq = HGQ.from_config(self.paq_config)
@@ -254,7 +253,8 @@ class HLayerBase(ABSBaseLayer):
         config = dict(
             kq_conf=self.kq_config,
             paq_conf=self.paq_config,
-            beta=float(self.beta.numpy())  # type: ignore
+            beta=float(self.beta.numpy()),  # type: ignore
+            do_adapt_kernel_bits=self._do_adapt_kernel_bits,
         )
         return {**base_config, **config}
 
diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 3b3d417..6c708e6 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -128,6 +128,8 @@ class HBatchNormBase(HLayerBase):
             beta_constraint=tf.keras.constraints.serialize(self.beta_constraint),
             gamma_constraint=tf.keras.constraints.serialize(self.gamma_constraint),
         )
+        if self._delayed_kernel_bits_adaption and self.built and self.kq.adapted.numpy():
+            config['do_adapt_kernel_bits'] = False  # Already done. Shall not be repeated when training is resumed.
         return config
 
     def adapt_fused_bn_kernel_bw_bits_once(self, x: tf.Tensor):
-- 
2.43.0


From 599facdad8a30d98fd1c4ddc42d2cb9364e34261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:57 +0000
Subject: [PATCH 24/33] fix: load Signature layers from .keras files

---
 src/HGQ/layers/passive_layers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/layers/passive_layers.py b/src/HGQ/layers/passive_layers.py
index 3fb208a..6a650b9 100644
--- a/src/HGQ/layers/passive_layers.py
+++ b/src/HGQ/layers/passive_layers.py
@@ -48,9 +48,10 @@ class Signature(PLayerBase):
 
     def build(self, input_shape):
         self.built = True
-        self.bits = tf.broadcast_to(self.bits, (1,) + input_shape[1:])
-        self.int_bits = tf.broadcast_to(self.int_bits, (1,) + input_shape[1:])
-        self.keep_negative = tf.broadcast_to(self.keep_negative, (1,) + input_shape[1:])
+        shape = (1,) + tuple(input_shape[1:])  # input_shape is a list when loaded from .keras files
+        self.bits = tf.broadcast_to(self.bits, shape)
+        self.int_bits = tf.broadcast_to(self.int_bits, shape)
+        self.keep_negative = tf.broadcast_to(self.keep_negative, shape)
 
     @tf.function(jit_compile=True)
     def call(self, x, training=None, record_minmax=None):
-- 
2.43.0


From ae27a0ca4e082f5f314152dc21a705d57777f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:48 +0000
Subject: [PATCH 25/33] fix: name the beta variables after their layers, else
 nested models cannot be saved as hdf5

---
 src/HGQ/layers/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 416b5e3..d2b03f2 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -48,8 +48,6 @@ class HLayerBase(ABSBaseLayer):
         "kernel quantizer config"
         self.paq_config = dict(paq_conf) if paq_conf else get_default_paq_conf()
         "pre-activation quantizer config"
-        self.beta = tf.Variable(beta, dtype=tf.float32, name='beta', trainable=False)
-        "BOPs-regularization strength"
         self.record_minmax = False
         self._has_last_layer = False
         self._do_adapt_kernel_bits = kwargs.pop('do_adapt_kernel_bits', True)
@@ -64,6 +62,8 @@ class HLayerBase(ABSBaseLayer):
             assert activation in ['relu', 'linear'], f'activation other than relu and linear are only supported for HActivation layer, but is defined for {type(self).__name__} layer.'
 
         super().__init__(**kwargs)
+        self.beta = tf.Variable(beta, dtype=tf.float32, name=f'{self.name}/beta', trainable=False)  # Same names cannot be saved in one hdf5 group.
+        "BOPs-regularization strength"
 
     def build(self, input_shape):
         super().build(input_shape)
-- 
2.43.0


From b8d130f978ff494593cf877467810660a47bc3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 26/33] fix: do not build loaded HAdd layers twice

---
 src/HGQ/layers/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index d2b03f2..c736142 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -68,6 +68,7 @@ class HLayerBase(ABSBaseLayer):
     def build(self, input_shape):
         super().build(input_shape)
         self.post_build(input_shape)
+        self.built = True  # Not done by all parent classes, and would be built again when loaded from .keras files.
 
     @property
     def can_bias_cover_rnd(self):
-- 
2.43.0


From daad8a04dbf1057073aa4cc83a907776e7abbdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:28 +0000
Subject: [PATCH 27/33] fix: names for the variables of batchnorm layers
 without center and scale, else they cannot be saved as hdf5

---
 src/HGQ/layers/batchnorm_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 6c708e6..401ad3a 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -76,7 +76,7 @@ class HBatchNormBase(HLayerBase):
                 trainable=False,
             )
         else:
-            self.bn_beta = self.moving_mean = tf.Variable(0.0, trainable=False)
+            self.bn_beta = self.moving_mean = tf.Variable(0.0, trainable=False, name='bn_beta')
         if self.scale:
             self.bn_gamma: tf.Variable = self.add_weight(
                 name="bn_gamma",
@@ -92,7 +92,7 @@ class HBatchNormBase(HLayerBase):
                 trainable=False,
             )
         else:
-            self.bn_gamma = self.moving_variance = tf.Variable(1.0, trainable=False)
+            self.bn_gamma = self.moving_variance = tf.Variable(1.0, trainable=False, name='bn_gamma')
 
     @property
     @tf.function(jit_compile=True)
-- 
2.43.0


From 35978464f052e6970e4d389a2801211f3071e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:38 +0000
Subject: [PATCH 28/33] fix: the product of the two most negative values needs
 one more integer bit

---
 src/HGQ/proxy/precision_derivation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index a976aca..278ab69 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -165,9 +165,12 @@ def _(layer: keras.layers.Dense | Conv):
     kifs = get_input_kifs(layer)
     assert len(kifs) == 1, f'Dense layer {layer.name} has more than one input. This is not supported.'
     k, i, f = kifs[0]
-    w_k, w_i, w_f = get_arr_container(layer.kernel.numpy())
+    kernel = layer.kernel.numpy()
+    w_k, w_i, w_f = get_arr_container(kernel)
+    # (-2^i) * (-2^w_i) is just beyond the largest value of i + w_i integer bits. Matters only if all weights of an output are -2^w_i.
+    carry = bool(k) and bool(np.any(np.all(kernel == -2.**w_i, axis=tuple(range(kernel.ndim - 1)))))
     k = int(k or w_k or np.any(layer.use_bias and layer.bias < 0))  # type: ignore
-    i, f = i + w_i, f + w_f
+    i, f = i + w_i + carry, f + w_f
     if isinstance(layer, Conv):
         div = layer.filters
     else:
-- 
2.43.0


From 2e0751399f0263bd7d421851e3186906a740653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:53 +0000
Subject: [PATCH 29/33] fix: do not reduce a symmetric quantizer whose input
 reaches the most negative value

---
 src/HGQ/proxy/precision_derivation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 278ab69..fec0f75 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -96,6 +96,8 @@ def _(layer: FixedPointQuantizer):
     i, f = ki - k, b - ki
     # May overflow otherwise, like (8,4) & (8,5) should result in (9,4) instead of (8,4) to avoid overflow.
     max_i = _ii + (_if > f)
+    if layer.SAT.upper() == 'SAT_SYM':
+        max_i = max_i + _ik  # The most negative value overflows, too.
     fits = (_ik <= k) & (max_i <= i)  # What overflows depends on the format, which thus must not change if there may be an overflow.
     k, f = np.where(fits, _ik, k), np.where(fits, np.minimum(_if, f), f)
     i = np.where(fits, np.maximum(max_i, -f), i)
-- 
2.43.0


From e6fd7f124b92b303596f63684365c9b537c299bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:30 +0000
Subject: [PATCH 30/33] fix: record min/max in every trace_minmax call, also in
 a non-resetting one after a completed trace

---
 src/HGQ/bops/bops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index fd7cd95..1d0ef0c 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -64,10 +64,10 @@ def _hgq_layers(model):
 
 
 def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=False, no_bops_computation=False, rst=True, cover_factor=1.0):
-    if rst:
-        for layer in _hgq_layers(model):
+    for layer in _hgq_layers(model):
+        if rst:
             layer.reset_minmax()
-            layer.record_minmax = True
+        layer.record_minmax = True
 
     r = []
     if isinstance(dataset, list):
-- 
2.43.0


From 521053e3b108209dc56af35f9a0cdf752e32e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:29 +0000
Subject: [PATCH 31/33] fix: copy the kernels of separable QKeras convolutions,
 refuse layers whose weights cannot be copied

---
 src/HGQ/proxy/plugins/qkeras.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/HGQ/proxy/plugins/qkeras.py b/src/HGQ/proxy/plugins/qkeras.py
index 42022e9..e494b7e 100644
--- a/src/HGQ/proxy/plugins/qkeras.py
+++ b/src/HGQ/proxy/plugins/qkeras.py
@@ -120,6 +120,13 @@ def qlayer_to_keras_layer(layer: keras.layers.Layer) -> keras.layers.Layer | Non
     if hasattr(layer, 'kernel'):
         q = layer.kernel_quantizer_internal or (lambda x: x)
         klayer.kernel.assign(q(layer.kernel))
+    elif hasattr(layer, 'pointwise_kernel'):  # Separable convolutions
+        q = layer.depthwise_quantizer_internal or (lambda x: x)
+        klayer.depthwise_kernel.assign(q(layer.depthwise_kernel))
+        q = layer.pointwise_quantizer_internal or (lambda x: x)
+        klayer.pointwise_kernel.assign(q(layer.pointwise_kernel))
+    elif klayer.weights:
+        raise ValueError(f"Layer {layer.name}: {layer.__class__.__name__} is not supported. Its weights cannot be copied to the proxy.")
     if hasattr(layer, 'bias') and layer.use_bias:
         q = layer.bias_quantizer_internal or (lambda x: x)
         klayer.bias.assign(q(layer.bias))
-- 
2.43.0


From 1cd9dd753fed9627efd7e64fc295cd430ce82686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:29 +0000
Subject: [PATCH 32/33] fix: refuse quantized_relu options that the proxy does
 not implement

---
 src/HGQ/proxy/plugins/qkeras.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/proxy/plugins/qkeras.py b/src/HGQ/proxy/plugins/qkeras.py
index e494b7e..9dbceca 100644
--- a/src/HGQ/proxy/plugins/qkeras.py
+++ b/src/HGQ/proxy/plugins/qkeras.py
@@ -67,6 +67,8 @@ def _(quantizer: quantizers.quantized_bits, SAT):
 
 @qkeras_quantizer_to_layers.register
 def _(quantizer: quantizers.quantized_relu, SAT):
+    assert not quantizer.negative_slope and not quantizer.use_sigmoid, f"negative_slope and use_sigmoid are not supported for quantized_relu, got {quantizer.negative_slope} and {quantizer.use_sigmoid}."
+    assert quantizer.is_quantized_clip or quantizer.relu_upper_bound is None, f"relu_upper_bound is not supported for quantized_relu, got {quantizer.relu_upper_bound}."
     i = quantizer.integer
     b = quantizer.bits
     q = FixedPointQuantizer(0, b, i, 'RND_CONV', 'SAT')
-- 
2.43.0


From c68dc480e367ff8dd0d4467cfff147ce13c5e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:22 +0000
Subject: [PATCH 33/33] fix: quantized_hswish was converted as quantized_bits

---
 src/HGQ/proxy/plugins/qkeras.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HGQ/proxy/plugins/qkeras.py b/src/HGQ/proxy/plugins/qkeras.py
index 9dbceca..be3ec91 100644
--- a/src/HGQ/proxy/plugins/qkeras.py
+++ b/src/HGQ/proxy/plugins/qkeras.py
@@ -65,6 +65,11 @@ def _(quantizer: quantizers.quantized_bits, SAT):
     return FixedPointQuantizer(k, b, i, 'RND_CONV', SAT),
 
 
+@qkeras_quantizer_to_layers.register
+def _(quantizer: quantizers.quantized_hswish, SAT):
+    return keras.layers.Activation(quantizer),  # Derived from quantized_bits, but a different function.
+
+
 @qkeras_quantizer_to_layers.register
 def _(quantizer: quantizers.quantized_relu, SAT):
     assert not quantizer.negative_slope and not quantizer.use_sigmoid, f"negative_slope and use_sigmoid are not supported for quantized_relu, got {quantizer.negative_slope} and {quantizer.use_sigmoid}."
-- 
2.43.0

