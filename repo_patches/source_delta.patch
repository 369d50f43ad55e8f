From 350b982ed4a0662336b5fb4d299fcb86892bb8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:10 +0000
Subject: [PATCH 01/35] fix: use collections.abc for the abstract container
 types

collections.Sequence/Mapping/Iterable no longer exist on Python >= 3.10, so
hk.ConvND, hk.LayerNorm/GroupNorm with a sequence axis and every stateful JAX
wrapper raised AttributeError.
---
 haiku/_src/group_norm.py | 4 ++--
 haiku/_src/layer_norm.py | 4 ++--
 haiku/_src/stateful.py   | 3 ++-
 haiku/_src/utils.py      | 3 ++-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 55c7956..213707a 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Group normalization implementation for Haiku."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -109,7 +109,7 @@ class GroupNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = axis
     else:
diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 257f28c..8df833f 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Layer Norm."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -75,7 +75,7 @@ class LayerNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = tuple(axis)
     else:
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7d73dca..bd76b0b 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -15,6 +15,7 @@
 """Wrappers for JAX transformations that respect Haiku internal state."""
 
 import collections
+import collections.abc
 import functools
 import inspect
 from typing import Any, Callable, Mapping, MutableMapping, Optional, Tuple, TypeVar
@@ -45,7 +46,7 @@ def internal_state(*, params=True) -> InternalState:
 
 def update_recursive(dst: MutableMapping[Any, Any], src: Mapping[Any, Any]):
   for k, v in src.items():
-    if isinstance(v, collections.Mapping):
+    if isinstance(v, collections.abc.Mapping):
       dst.setdefault(k, {})
       update_recursive(dst[k], v)
     else:
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index c28ad21..732e888 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -15,6 +15,7 @@
 """Misc utility functions."""
 
 import collections
+import collections.abc
 import decimal
 import inspect
 import pprint
@@ -119,7 +120,7 @@ def replicate(
 ) -> Tuple[T]:
   """Replicates entry in `element` `num_times` if needed."""
   if (isinstance(element, (str, bytes)) or
-      not isinstance(element, collections.Sequence)):
+      not isinstance(element, collections.abc.Sequence)):
     return (element,) * num_times
   elif len(element) == 1:
     return tuple(element * num_times)
-- 
2.43.0


From 6737c0c9c67539538faa643c3a7237284b9400fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:10 +0000
Subject: [PATCH 02/35] fix: replace the removed jax.tree_multimap with
 jax.tree_map

jax.tree_multimap was removed from JAX; hk.scan/cond/vmap/... and unrolling or
resetting recurrent cores raised AttributeError.
---
 haiku/_src/recurrent.py | 12 ++++++------
 haiku/_src/stateful.py  |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/haiku/_src/recurrent.py b/haiku/_src/recurrent.py
index 306c518..2fd5559 100644
--- a/haiku/_src/recurrent.py
+++ b/haiku/_src/recurrent.py
@@ -129,7 +129,7 @@ def static_unroll(core, input_sequence, initial_state, time_major=True):
     output_sequence.append(outputs)
 
   # Stack outputs along the time axis.
-  output_sequence = jax.tree_multimap(
+  output_sequence = jax.tree_map(
       lambda *args: jnp.stack(args, axis=time_axis),
       *output_sequence)
   return output_sequence, state
@@ -670,14 +670,14 @@ class ResetCore(RNNCore):
     # >> batch_entry 1:
     # >>  [[0. 0.]
     # >>  [0. 0.]]
-    should_reset = jax.tree_multimap(_validate_and_conform, should_reset, state)
+    should_reset = jax.tree_map(_validate_and_conform, should_reset, state)
     if self._is_batched(state):
       batch_size = jax.tree_leaves(inputs)[0].shape[0]
     else:
       batch_size = None
-    initial_state = jax.tree_multimap(
+    initial_state = jax.tree_map(
         lambda s, i: i.astype(s.dtype), state, self.initial_state(batch_size))
-    state = jax.tree_multimap(jnp.where, should_reset, initial_state, state)
+    state = jax.tree_map(jnp.where, should_reset, initial_state, state)
     return self.core(inputs, state)
 
   def initial_state(self, batch_size: Optional[int]):
@@ -718,7 +718,7 @@ class _DeepRNN(RNNCore):
     concat = lambda *args: jnp.concatenate(args, axis=-1)
     for idx, layer in enumerate(self.layers):
       if self.skip_connections and idx > 0:
-        current_inputs = jax.tree_multimap(concat, inputs, current_inputs)
+        current_inputs = jax.tree_map(concat, inputs, current_inputs)
 
       if isinstance(layer, RNNCore):
         current_inputs, next_state = layer(current_inputs, state[state_idx])
@@ -729,7 +729,7 @@ class _DeepRNN(RNNCore):
         current_inputs = layer(current_inputs)
 
     if self.skip_connections:
-      out = jax.tree_multimap(concat, *outputs)
+      out = jax.tree_map(concat, *outputs)
     else:
       out = current_inputs
 
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index bd76b0b..3c8b475 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -309,7 +309,7 @@ def difference(before: InternalState, after: InternalState) -> InternalState:
   is_new_param = lambda a, b: a is not b
   params_before, params_after = box_and_fill_missing(before.params,
                                                      after.params)
-  params_after = jax.tree_multimap(functools.partial(if_changed, is_new_param),
+  params_after = jax.tree_map(functools.partial(if_changed, is_new_param),
                                    params_before, params_after)
 
   # state
@@ -317,7 +317,7 @@ def difference(before: InternalState, after: InternalState) -> InternalState:
     return a.initial is not b.initial or a.current is not b.current
 
   state_before, state_after = box_and_fill_missing(before.state, after.state)
-  state_after = jax.tree_multimap(functools.partial(if_changed, is_new_state),
+  state_after = jax.tree_map(functools.partial(if_changed, is_new_state),
                                   state_before, state_after)
 
   # rng
@@ -506,7 +506,7 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = jax.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    ys = jax.tree_map(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From 67ae14218814101b481970de2785f031ea951d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:32 +0000
Subject: [PATCH 03/35] fix: accept the symbolic_zeros argument in DotTrace
 custom-derivative rules

JAX passes symbolic_zeros to process_custom_{jvp,vjp}_call, so to_dot raised
TypeError for any function using e.g. jax.nn.relu.
---
 haiku/_src/dot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index cebe56d..03dae8e 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -224,13 +224,13 @@ class DotTrace(jax.core.Trace):
 
   process_map = process_call
 
-  def process_custom_jvp_call(self, primitive, fun, jvp, tracers):
+  def process_custom_jvp_call(self, primitive, fun, jvp, tracers, **_):
     # Drop the custom differentiation rule.
     del primitive, jvp  # Unused.
     return fun.call_wrapped(*tracers)
 
   def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers,
-                              out_trees):
+                              out_trees, **_):
     # Drop the custom differentiation rule.
     del primitive, fwd, bwd, out_trees  # Unused.
     return fun.call_wrapped(*tracers)
-- 
2.43.0


From 3b76f8b07ddeaa45298a18138a69a02e3451ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 04/35] fix: reserve a full rng block around hk.while_loop

If the rng sequence held a reserved key when the loop was entered (e.g. after
hk.cond or hk.reserve_rng_keys) and the body drew a key, the carry changed
structure and hk.while_loop raised TypeError.
---
 haiku/_src/stateful.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 3c8b475..cde6ac9 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -599,9 +599,11 @@ def while_loop(cond_fun, body_fun, init_val):
     val, state = val
     with temporary_internal_state(state):
       val = body_fun(val)
+      reserve_up_to_full_rng_block()
       state = internal_state()
       return val, state
 
+  reserve_up_to_full_rng_block()
   init_val = (init_val, internal_state())
   val, state = jax.lax.while_loop(pure_cond_fun, pure_body_fun, init_val)
   update_internal_state(state)
-- 
2.43.0


From fafe3d58bc661fe2a5826d49a63efe20706c8cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 05/35] fix: order the outputs of a reversed hk.scan correctly
 during init

The step unrolled during init is the last element when reverse=True, so its
output belongs at the end of the stacked outputs.
---
 haiku/_src/stateful.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index cde6ac9..983d409 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -506,7 +506,9 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = jax.tree_map(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    ys = jax.tree_map(
+        lambda y0, ys: jnp.concatenate([ys, y0] if reverse else [y0, ys]),
+        y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From c4df989e3493173c16b9974f268deff29647f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:12 +0000
Subject: [PATCH 06/35] fix: notice reserved rng keys taken in the condition of
 hk.while_loop

---
 haiku/_src/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index a2bb0b0..05c3301 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -839,7 +839,8 @@ def assert_state_unchanged():
 
   params_diff = params_after - params_before
   state_diff = state_after - state_before
-  rng_diff = rng_after - rng_before
+  # Taking a reserved key only removes it, so compare in both directions.
+  rng_diff = rng_after ^ rng_before
   if params_diff or state_diff or rng_diff:
     raise StateChangedError("Within this code block you are not able to modify "
                             "Haiku managed state (e.g. via `next_rng_key` or "
-- 
2.43.0


From c636e401db973036034927fe56c2a2f58a229a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:13 +0000
Subject: [PATCH 07/35] fix: accept any sequence as the output_size of hk.Bias

---
 haiku/_src/bias.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/bias.py b/haiku/_src/bias.py
index 1dbb31b..b1129cd 100644
--- a/haiku/_src/bias.py
+++ b/haiku/_src/bias.py
@@ -115,9 +115,11 @@ class Bias(hk.Module):
       A Tensor of size ``[batch_size, input_size1, ...]``.
     """
     utils.assert_minimum_rank(inputs, 2)
-    if self.output_size is not None and self.output_size != inputs.shape[1:]:
+    if (self.output_size is not None and
+        tuple(self.output_size) != inputs.shape[1:]):
       raise ValueError(
-          f"Input shape must be {(-1,) + self.output_size} not {inputs.shape}")
+          f"Input shape must be {(-1,) + tuple(self.output_size)} not "
+          f"{inputs.shape}")
 
     self.bias_shape = calculate_bias_shape(inputs.shape, self.bias_dims)
     self.input_size = inputs.shape[1:]
-- 
2.43.0


From d60a029e792268a49c1e4e7f289c22da7559f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:07 +0000
Subject: [PATCH 08/35] fix: accept explicit (low, high) padding pairs in
 hk.ConvND

---
 haiku/_src/conv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/haiku/_src/conv.py b/haiku/_src/conv.py
index fb13147..e594f43 100644
--- a/haiku/_src/conv.py
+++ b/haiku/_src/conv.py
@@ -142,6 +142,9 @@ class ConvND(hk.Module):
 
     if isinstance(padding, str):
       self.padding = padding.upper()
+    elif not callable(padding) and not all(map(callable, padding)):
+      # Explicit `(low, high)` pairs.
+      self.padding = tuple(padding)
     else:
       self.padding = hk.pad.create(padding=padding,
                                    kernel=self.kernel_shape,
-- 
2.43.0


From 21862c0d59743762b6e453e4d7e7b7fa58b7e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:31 +0000
Subject: [PATCH 09/35] fix: treat negative reduction axes of hk.BatchNorm as
 reduced when sizing its parameters

---
 haiku/_src/batch_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/batch_norm.py b/haiku/_src/batch_norm.py
index 963ac8f..9291e41 100644
--- a/haiku/_src/batch_norm.py
+++ b/haiku/_src/batch_norm.py
@@ -157,7 +157,7 @@ class BatchNorm(hk.Module):
       channel_index += inputs.ndim
 
     if self.axis is not None:
-      axis = self.axis
+      axis = [i % inputs.ndim for i in self.axis]
     else:
       axis = [i for i in range(inputs.ndim) if i != channel_index]
 
-- 
2.43.0


From 84f8085168cdc4a78ef93426f987a60cc9d8b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:31 +0000
Subject: [PATCH 10/35] fix: interpret negative axes of hk.GroupNorm relative
 to the rank of the input

---
 haiku/_src/group_norm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 213707a..a061eb9 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -220,6 +220,8 @@ class GroupNorm(hk.Module):
     if isinstance(self.axis, slice):
       axes = tuple(range(self.rank))
       self.axis = axes[self.axis]
+    else:
+      self.axis = tuple(a % self.rank for a in self.axis)
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
-- 
2.43.0


From 26a29850f473f02c4754a2651db31983560c084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:31 +0000
Subject: [PATCH 11/35] fix: size the groups of hk.GroupNorm from the input of
 each call

---
 haiku/_src/group_norm.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index a061eb9..e64690d 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -181,7 +181,7 @@ class GroupNorm(hk.Module):
           f"was channels={channels}, groups={self.groups}")
 
     if self.rank is None:
-      self._initialize(x, channels)
+      self._initialize(x)
 
     dtype = x.dtype
     if self.channel_index == -1:
@@ -196,11 +196,18 @@ class GroupNorm(hk.Module):
     if self.create_offset:
       offset = hk.get_parameter("offset", params_shape, dtype, self.offset_init)
 
-    x = x.reshape(self.group_shape)
+    input_shape = x.shape
+    grouped_channels = (self.groups, channels // self.groups)
+    if self.channel_index == -1:
+      group_shape = input_shape[:-1] + grouped_channels
+    else:
+      group_shape = input_shape[:1] + grouped_channels + input_shape[2:]
+
+    x = x.reshape(group_shape)
     mean = jnp.mean(x, self.axis, keepdims=True)
     var = jnp.var(x, self.axis, keepdims=True)
     x = (x - mean) * jax.lax.rsqrt(var + self.eps)
-    x = x.reshape(self.first_input_shape)
+    x = x.reshape(input_shape)
 
     if scale is not None:
       scale = jax.lax.broadcast_to_rank(scale, x.ndim)
@@ -212,7 +219,7 @@ class GroupNorm(hk.Module):
 
     return x
 
-  def _initialize(self, x: jnp.ndarray, channels: int):
+  def _initialize(self, x: jnp.ndarray):
     assert self.rank is None
     self.rank = x.ndim
 
@@ -225,12 +232,6 @@ class GroupNorm(hk.Module):
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1,) + x.shape[1:-1] + (self.groups, channels // self.groups))
     else:
       assert self.channel_index == 1
       self.axis = tuple(a if a == 0 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1, self.groups, channels // self.groups) + x.shape[2:])
-
-    self.first_input_shape = (-1,) + x.shape[1:]
-- 
2.43.0


From 058d8ad73cae636f31c20e7160aec93081e2fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:31 +0000
Subject: [PATCH 12/35] fix: let hk.ExponentialMovingAverage warm up on half
 precision values

---
 haiku/_src/moving_averages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/moving_averages.py b/haiku/_src/moving_averages.py
index b5f0e35..db47470 100644
--- a/haiku/_src/moving_averages.py
+++ b/haiku/_src/moving_averages.py
@@ -115,7 +115,7 @@ class ExponentialMovingAverage(hk.Module):
 
     decay = jax.lax.convert_element_type(self.decay, value.dtype)
     if self.warmup_length > 0:
-      decay = jax.lax.select(counter <= 0, 0.0, decay)
+      decay = jax.lax.select(counter <= 0, jnp.zeros_like(decay), decay)
 
     one = jnp.ones([], value.dtype)
     hidden = hk.get_state("hidden", value.shape, value.dtype, init=jnp.zeros)
-- 
2.43.0


From 0191255f38919e99a989277c048eadccea67e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 13/35] fix: give channels_first hk.InstanceNorm one scale and
 offset per channel

---
 haiku/_src/layer_norm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 8df833f..2d153e8 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -82,6 +82,7 @@ class LayerNorm(hk.Module):
       raise ValueError("`axis` should be an int, slice or iterable of ints.")
 
     self.eps = eps
+    self.channel_index = -1
     self.create_scale = create_scale
     self.create_offset = create_offset
     self.scale_init = scale_init or jnp.ones
@@ -123,7 +124,10 @@ class LayerNorm(hk.Module):
     mean = jnp.mean(inputs, axis=axis, keepdims=True)
     variance = jnp.var(inputs, axis=axis, keepdims=True)
 
-    param_shape = inputs.shape[-1:]
+    if self.channel_index == -1:
+      param_shape = inputs.shape[-1:]
+    else:
+      param_shape = inputs.shape[1:2] + (1,) * (inputs.ndim - 2)
     if self.create_scale:
       scale = hk.get_parameter("scale", param_shape, inputs.dtype,
                                init=self.scale_init)
@@ -180,7 +184,8 @@ class InstanceNorm(LayerNorm):
         default it is ``channels_last``.
       name: Name of the module.
     """
-    if utils.get_channel_index(data_format) == 1:
+    channel_index = utils.get_channel_index(data_format)
+    if channel_index == 1:
       axis = slice(2, None)
     else:  # channel_index = -1
       axis = slice(1, -1)
@@ -192,3 +197,4 @@ class InstanceNorm(LayerNorm):
         scale_init=scale_init,
         offset_init=offset_init,
         name=name)
+    self.channel_index = channel_index
-- 
2.43.0


From 1511fa14217887cd8a6788fc7cb631c764ad8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:49 +0000
Subject: [PATCH 14/35] fix: recognise unbatched scalar states in hk.ResetCore

---
 haiku/_src/recurrent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/recurrent.py b/haiku/_src/recurrent.py
index 2fd5559..851a884 100644
--- a/haiku/_src/recurrent.py
+++ b/haiku/_src/recurrent.py
@@ -688,7 +688,8 @@ class ResetCore(RNNCore):
     if not state:  # Empty state is treated as unbatched.
       return False
     batched = jax.tree_leaves(self.initial_state(batch_size=1))
-    return all(b.shape[1:] == s.shape[1:] for b, s in zip(batched, state))
+    return all(b.ndim == s.ndim and b.shape[1:] == s.shape[1:]
+               for b, s in zip(batched, state))
 
 
 class _DeepRNN(RNNCore):
-- 
2.43.0


From 02b8781c8838eb25f74d70bf8b8128b28293d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:48 +0000
Subject: [PATCH 15/35] fix: keep hk.MultiHeadAttention finite under a float16
 mask

---
 haiku/_src/attention.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/attention.py b/haiku/_src/attention.py
index 322dee1..e77339a 100644
--- a/haiku/_src/attention.py
+++ b/haiku/_src/attention.py
@@ -74,7 +74,8 @@ class MultiHeadAttention(hk.Module):
     sqrt_key_size = np.sqrt(self.key_size).astype(key.dtype)
     attention_logits = attention_logits / sqrt_key_size
     if mask is not None:
-      attention_logits -= 1e10 * (1. - mask)
+      masked_out = jnp.finfo(attention_logits.dtype).min
+      attention_logits = jnp.where(mask, attention_logits, masked_out)
 
     attention_weights = jax.nn.softmax(attention_logits)
     attention = jnp.einsum("bhtT,bThd->bthd", attention_weights, value_heads)
-- 
2.43.0


From 95a2852aca8f864ab25f1be7917768b3f2d2b63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:58 +0000
Subject: [PATCH 16/35] fix: keep eval_summary from registering callers as
 submodules of their callees

Summarising a call asked every module on the call stack for its parameters with
a regular method call, which registered each caller as a submodule of the module
being called. The second summary of the same module instance then listed (and
counted) the parameters of its callers as its own.
---
 haiku/_src/summarise.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 7583547..19feaa1 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -39,6 +39,7 @@ hk.experimental.intercept_methods = module_lib.intercept_methods
 hk.transform_with_state = transform.transform_with_state
 hk.Transformed = transform.Transformed
 hk.TransformedWithState = transform.TransformedWithState
+params_or_state_dict = module_lib.params_or_state_dict
 del module_lib
 
 T = TypeVar("T")
@@ -85,8 +86,12 @@ class ModuleDetails:
 
   @classmethod
   def of(cls, module: hk.Module, method_name: str) -> "ModuleDetails":
-    params = jax.tree_map(ArraySpec.from_array, module.params_dict())
-    state = jax.tree_map(ArraySpec.from_array, module.state_dict())
+    # NOTE: `module.params_dict()` is itself a method call, it would register the
+    # modules in the call stack as submodules of the module being summarised.
+    of = lambda which: params_or_state_dict(  # pylint: disable=g-long-lambda
+        module.module_name, module._submodules, which)  # pylint: disable=protected-access
+    params = jax.tree_map(ArraySpec.from_array, of("params"))
+    state = jax.tree_map(ArraySpec.from_array, of("state"))
     return ModuleDetails(module=module, method_name=method_name, params=params,
                          state=state)
 
-- 
2.43.0


From 0f995fa680a7f47ad58c8482e66067bec7ec813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:45 +0000
Subject: [PATCH 17/35] fix: attribute every output of an op to its node in
 to_dot

Ops with several results were only connected through the first one: edges from
the other results started at an undefined node, and a result of the function
that was not the first result of its op was not marked as an output.
---
 haiku/_src/dot.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index 03dae8e..9ea8050 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -279,7 +279,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
   lines = []
   used_argids = set()
   argid_usecount = collections.Counter()
-  op_outids = set()
+  op_outids = {}  # Maps the id of each output of an op to the id of its node.
   captures = []
   argids = {id(v) for v in jax.tree_leaves(args)}
   outids = {id(v) for v in jax.tree_leaves(outputs)}
@@ -304,11 +304,12 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
       label = f'<b>{escape(node.title)}</b>'
       for o in node.outputs:
         label += '<br/>' + _format_val(o)
-        op_outids.add(id(o))
+        op_outids[id(o)] = id(node.id)
 
       node_id = id(node.id)
-      if node_id in outids:
-        label = f'<b>{escape(outname[node_id])}</b><br/>' + label
+      names = [outname[id(o)] for o in node.outputs if id(o) in outids]
+      if names:
+        label = ''.join(f'<b>{escape(n)}</b><br/>' for n in names) + label
         color = '#0053D6'
         fillcolor = '#AABFFF'
         style = 'filled,bold'
@@ -342,7 +343,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
         argid_usecount[a] += 1
         lines.append(f'{a}{i} -> {b};')
       else:
-        lines.append(f'{a} -> {b};')
+        lines.append(f'{op_outids.get(a, a)} -> {b};')
       used_argids.add(a)
 
   graph_depth = _max_depth(graph)
-- 
2.43.0


From 7575006f7fd8f8f69abd530221137c7c0b1e0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:07 +0000
Subject: [PATCH 18/35] fix: hk.multinomial never samples categories of zero
 probability

---
 haiku/_src/basic.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/haiku/_src/basic.py b/haiku/_src/basic.py
index 9f90b42..b1b3bbe 100644
--- a/haiku/_src/basic.py
+++ b/haiku/_src/basic.py
@@ -70,16 +70,23 @@ def multinomial(rng, logits, num_samples):
   if len(logits.shape) > 2 or not logits.shape:
     raise ValueError("Logits must be rank-1 or rank-2.")
   probs = jax.nn.softmax(logits)
-  probs = jnp.cumsum(probs, axis=-1)
+  lower_bound = jnp.cumsum(probs, axis=-1) - probs
+
+  def sample(a):
+    # The last possible category that starts at or below `a`. There always is
+    # one, since the lower bound of the first possible category is zero.
+    candidates = jnp.logical_and(a >= lower_bound, probs > 0)
+    return logits.shape[-1] - 1 - jnp.argmax(candidates[..., ::-1], axis=-1)
+
   # Special-case num_samples == 1 due to TPU padding, as in TF2XLA.
   # https://github.com/tensorflow/tensorflow/blob/b1608511d5a50d05825c4025b0c347e8689a241f/tensorflow/compiler/tf2xla/kernels/categorical_op.cc#L79
   if num_samples == 1:
     a = jax.random.uniform(rng, logits.shape[:-1] + (1,))
-    out = jnp.argmin(a > probs, axis=-1)
+    out = sample(a)
     return out[..., None]
   else:
     a = jax.random.uniform(rng, (num_samples,) + logits.shape[:-1] + (1,))
-    out = jnp.argmin(a > probs, axis=-1)
+    out = sample(a)
     return jnp.transpose(out)
 
 
-- 
2.43.0


From f6f1bb09b56c7e013f4c1fcf7cca79318656bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:58 +0000
Subject: [PATCH 19/35] fix: let the condition of hk.while_loop read the
 current state

---
 haiku/_src/stateful.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 983d409..e59c2ee 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -585,9 +585,10 @@ def while_loop(cond_fun, body_fun, init_val):
         "      val = hk.while_loop(lambda val: val.mean() < 1, module, val)\n")
 
   def pure_cond_fun(val):
-    val, _ = val
+    val, state = val
     try:
-      with base.assert_state_unchanged():
+      # The condition reads the state as left by the previous iteration.
+      with temporary_internal_state(state), base.assert_state_unchanged():
         return cond_fun(val)
     except base.StateChangedError as e:
       # If we find a use case for updating state/using rng in `cond` we would
-- 
2.43.0


From 617810c1320196fb13566ec3360c740d505133fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 20/35] fix: count only the calling thread's keys in
 optimize_rng_use

---
 haiku/_src/base.py   | 7 +++++--
 haiku/_src/random.py | 9 +--------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index 05c3301..9b7263a 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -18,7 +18,7 @@ import collections
 import contextlib
 from typing import (Callable, Iterator, Iterable, MutableMapping, NamedTuple,
                     Optional, Set, Tuple, Union, Any, Sequence, Mapping,
-                    FrozenSet)
+                    FrozenSet, List)
 import warnings
 
 from haiku._src import data_structures
@@ -48,6 +48,7 @@ param_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 state_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 param_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
 state_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
+rng_count_stack: ThreadLocalStack[List[int]] = ThreadLocalStack()
 
 
 class Frame(NamedTuple):
@@ -613,8 +614,10 @@ def next_rng_key() -> PRNGKey:
   return next_rng_key_internal()
 
 
-# NOTE: Split for monkey patching in random.py.
 def next_rng_key_internal() -> PRNGKey:
+  # NOTE: Counters are pushed by `count_hk_rngs_requested` in random.py.
+  for count in rng_count_stack:
+    count[0] += 1
   rng_seq = rng_seq_or_fail()
   return next(rng_seq)
 
diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 5b87314..816c4ac 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -29,15 +29,8 @@ def count_hk_rngs_requested():
   # TODO(tomhennigan): Don't include keys returned under a `with_rng` context.
   # TODO(tomhennigan): Optimize use of keys within a `with_rng` heading as well.
   count = [0]
-  orig_next_rng_key = base.next_rng_key_internal
-  def counting_next_rng_key(*a, **k):
-    count[0] += 1
-    return orig_next_rng_key(*a, **k)
-  try:
-    base.next_rng_key_internal = counting_next_rng_key
+  with base.rng_count_stack(count):
     yield lambda: count[0]
-  finally:
-    base.next_rng_key_internal = orig_next_rng_key
 
 
 def optimize_rng_use(fun):
-- 
2.43.0


From 11732b4b710d4530de8c172ea8fd3c944ecc6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 21/35] fix: without_apply_rng returns the kind of pair it was
 given

---
 haiku/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/transform.py b/haiku/_src/transform.py
index b439f7e..318c352 100644
--- a/haiku/_src/transform.py
+++ b/haiku/_src/transform.py
@@ -145,7 +145,7 @@ def without_apply_rng(f: TransformedT) -> TransformedT:
 
   tie_in_original_fn(f, f.init, apply_fn)
 
-  return TransformedWithState(init=f.init, apply=apply_fn)
+  return type(f)(init=f.init, apply=apply_fn)
 
 
 # TODO(tomhennigan) Remove apply_rng.
-- 
2.43.0


From ff1871fffcf29045c3d47a62852b58b5abc6e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:32 +0000
Subject: [PATCH 22/35] fix: refuse module names that end in a newline

`$` also matches just before a final newline.
---
 haiku/_src/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/module.py b/haiku/_src/module.py
index ac0a3eb..22772b7 100644
--- a/haiku/_src/module.py
+++ b/haiku/_src/module.py
@@ -439,7 +439,7 @@ def wrap_method(method_name, unbound_method):
   return wrapped
 
 
-_VALID_IDENTIFIER_R = re.compile(r"^[a-zA-Z_]([a-zA-Z0-9_])*$")
+_VALID_IDENTIFIER_R = re.compile(r"^[a-zA-Z_]([a-zA-Z0-9_])*\Z")
 valid_identifier = lambda name: bool(_VALID_IDENTIFIER_R.match(name))
 
 
-- 
2.43.0


From e03bc735ddc95fea2c52648ad1bf8ba07a8465df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:26 +0000
Subject: [PATCH 23/35] fix: give arguments before varargs by position in
 module reprs

---
 haiku/_src/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index 732e888..81a3792 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -80,7 +80,9 @@ def auto_repr(cls: Type[Any], *args, **kwargs) -> str:
   names_and_values = [(name + "=", arg_values[name]) for name in arg_names
                       if not is_default(name, arg_values[name])]
   # Add varargs.
-  names_and_values.extend(("", arg) for arg in args[len(argspec.args) - 1:])
+  if len(args) >= len(argspec.args):
+    # NOTE: Arguments before varargs cannot be passed by name.
+    names_and_values = [("", arg) for arg in args]
   # Add varkwargs.
   names_and_values.extend(
       (name + "=", kwargs[name]) for name in kwargs if name not in argspec.args)
-- 
2.43.0


From ea88dc51dd3ddc57a4b32d3cf652b368b499f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:26 +0000
Subject: [PATCH 24/35] fix: keep the operations of a module method that raised
 in to_dot

---
 haiku/_src/dot.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index 9ea8050..624fcd2 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -145,12 +145,16 @@ def to_graph(fun):
     @contextlib.contextmanager
     def method_hook(mod: module.Module, method_name: str):
       subg = Graph.create()
-      with graph_stack(subg):
-        yield
-      title = mod.module_name
-      if method_name != '__call__':
-        title += f' ({method_name})'
-      graph_stack.peek().subgraphs.append(subg.evolve(title=title))
+      try:
+        with graph_stack(subg):
+          yield
+      finally:
+        # NOTE: If the method raised the caller may handle the error, and what
+        # the method did until then was executed.
+        title = getattr(mod, 'module_name', type(mod).__name__)
+        if method_name != '__call__':
+          title += f' ({method_name})'
+        graph_stack.peek().subgraphs.append(subg.evolve(title=title))
 
     with graph_stack(graph), \
          module.hook_methods(method_hook), \
-- 
2.43.0


From 4b27940ea0daf9a943680d2554c094b59c797d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:26 +0000
Subject: [PATCH 25/35] fix: leave methods that raised out of summaries

---
 haiku/_src/summarise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 19feaa1..05d252e 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -151,7 +151,12 @@ def log_used_modules(
 
   idx = len(used_modules)
   used_modules.append(None)
-  out = next_f(*args, **kwargs)
+  try:
+    out = next_f(*args, **kwargs)
+  except:
+    # NOTE: The caller may handle the error and continue.
+    del used_modules[idx]
+    raise
   used_modules[idx] = MethodInvocation(
       module_details=ModuleDetails.of(context.module, context.method_name),
       args_spec=to_spec(args),
-- 
2.43.0


From 159a2ffa2efb579a4e00781f81cd6630f518f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:26 +0000
Subject: [PATCH 26/35] fix: summarise modules whose state holds Python scalars

---
 haiku/_src/summarise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 05d252e..0a825d1 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -65,6 +65,8 @@ class ArraySpec:
 
   @classmethod
   def from_array(cls, array) -> "ArraySpec":
+    if not hasattr(array, "dtype"):
+      array = jnp.asarray(array)  # State can hold e.g. Python scalars.
     return ArraySpec(array.shape, array.dtype)
 
 
-- 
2.43.0


From c02113b9d743d9c97166751109e6109a66ba2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 27/35] fix: hk.fori_loop and hk.scan with array bounds during
 init

The first step is unrolled during init by updating the bounds in place, which
wrote to a 0-d numpy array of the caller's and widened small integer types so
that they no longer matched the other bound. A traced bound (init under jit)
was rejected although jax.lax.fori_loop takes one.
---
 haiku/_src/stateful.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index e59c2ee..742891b 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -476,7 +476,7 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
       xs = jax.tree_map(lambda x: x[1:], xs)
     init, y0 = f(init, x0)
     y0 = jax.tree_map(lambda y: jnp.expand_dims(y, 0), y0)
-    length -= 1
+    length = length - 1
     if not length:
       return init, y0
 
@@ -532,8 +532,10 @@ def fori_loop(lower, upper, body_fun, init_val):
     # During init we need to unwind one step of the loop to ensure the Haiku
     # state before and after the body has the same structure.
     init_val = body_fun(lower, init_val)
-    lower += 1
-    if upper - lower == 0:
+    # NOTE: Not in place (and keeping the dtype) since this may be an array.
+    lower = lower + (1 if isinstance(lower, int) else lower.dtype.type(1))
+    remaining = upper - lower
+    if not isinstance(remaining, jax.core.Tracer) and remaining == 0:
       return init_val
 
   reserve_up_to_full_rng_block()
-- 
2.43.0


From c93de98dcd67282eec4ad3f9dd92b1a3202bbe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 28/35] fix: empty hk.scan over a function with Python scalar
 outputs during init

---
 haiku/_src/stateful.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 742891b..7da095a 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -465,7 +465,8 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
     if not length:
       x0 = jax.tree_map(lambda x: jnp.zeros(x.shape[1:], x.dtype), xs)
       _, y0 = f(init, x0)
-      y0 = jax.tree_map(lambda y: jnp.zeros((0,) + y.shape, y.dtype), y0)
+      y0 = jax.tree_map(
+          lambda y: jnp.zeros((0,) + jnp.shape(y), jnp.result_type(y)), y0)
       return init, y0
 
     if reverse:
-- 
2.43.0


From 2f4b022b81cf1f38d92c00fa5881afcaa14e6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 29/35] fix: hk.vmap takes a list for in_axes, as jax.vmap does

---
 haiku/_src/stateful.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7da095a..baca616 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -551,6 +551,7 @@ def vmap(fun, in_axes=0, out_axes=0, axis_name=None):
   """Equivalent to :func:`jax.vmap` with module parameters/state not mapped."""
 
   # TODO(tomhennigan): Allow configuration of params/state/rng mapping.
+  in_axes = tuple(in_axes) if isinstance(in_axes, list) else in_axes
   in_axes = in_axes, None
   out_axes = out_axes, None
 
-- 
2.43.0


From 401964498e7181b78398e980e54f465e9488dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 30/35] fix: failed requests leave no empty module in
 parameters or state

A get_state without a value (or a get_parameter or get_state whose initialiser
raised) that the caller caught added an empty entry for the module, changing
the structure of the state that apply returns.
---
 haiku/_src/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index 9b7263a..5592fa6 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -277,8 +277,7 @@ def get_parameter(
         "All parameters must be created as part of `init`.".format(
             name, bundle_name))
 
-  params = frame.params[bundle_name]
-  param = params.get(name)
+  param = frame.params.get(bundle_name, {}).get(name)
   fq_name = bundle_name + "/" + name
   context = GetterContext(full_name=fq_name, module=current_module(),
                           original_dtype=dtype, original_shape=shape)
@@ -290,7 +289,7 @@ def get_parameter(
               name, bundle_name))
 
     param = run_creators(param_creator_stack, context, shape, dtype, init)
-    params[name] = param  # pytype: disable=unsupported-operands
+    frame.params[bundle_name][name] = param  # pytype: disable=unsupported-operands
 
   # Custom getters allow a hook for users to customize the value returned by
   # get_parameter. For example casting values to some dtype.
@@ -699,11 +698,11 @@ def get_state(
   """
   assert_context("get_state")
   bundle_name = current_bundle_name()
-  state = current_frame().state[bundle_name]
+  state = current_frame().state
   fq_name = f"{bundle_name}/{name}"
   context = GetterContext(fq_name, current_module(), dtype, shape)
 
-  value = state.get(name, None)
+  value = state.get(bundle_name, {}).get(name, None)
   if value is None:
     if init is None:
       raise ValueError(f"No value for {name!r} in {bundle_name!r}, perhaps "
@@ -713,7 +712,7 @@ def get_state(
                        f"in {bundle_name!r}.")
 
     value = run_creators(state_creator_stack, context, shape, dtype, init)
-    state[name] = StatePair(value, value)
+    state[bundle_name][name] = StatePair(value, value)
   else:
     value = value.current
 
-- 
2.43.0


From 5594ca9159262ba2e88d075b099dab7b19fb1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 31/35] fix: hooks may call the next creator, getter or method
 repeatedly

The second call skipped the hooks that the first one had consumed.
---
 haiku/_src/base.py   | 25 +++++++++++++------------
 haiku/_src/module.py | 20 ++++++++++----------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index 5592fa6..372768b 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -348,13 +348,14 @@ def run_creators(
   if not stack:
     return init(shape, dtype)
 
-  stack_copy = stack.clone()
+  def bind(creator, next_creator):
+    return lambda shape, dtype, init: creator(  # pylint: disable=g-long-lambda
+        next_creator, shape, dtype, init, context)
 
-  def next_creator(shape, dtype, init):
-    if stack_copy:
-      return stack_copy.popleft()(next_creator, shape, dtype, init, context)
-    else:
-      return init(shape, dtype)
+  # Each creator is bound to the one after it, which it may call repeatedly.
+  next_creator = lambda shape, dtype, init: init(shape, dtype)
+  for creator in stack:
+    next_creator = bind(creator, next_creator)
 
   return next_creator(shape, dtype, init)
 
@@ -416,13 +417,13 @@ def run_getters(
   if not stack:
     return value
 
-  stack_copy = stack.clone()
+  def bind(getter, next_getter):
+    return lambda value: getter(next_getter, value, context)
 
-  def next_getter(value):
-    if stack_copy:
-      return stack_copy.popleft()(next_getter, value, context)
-    else:
-      return value
+  # Each getter is bound to the one after it, which it may call repeatedly.
+  next_getter = lambda value: value
+  for getter in stack:
+    next_getter = bind(getter, next_getter)
 
   return next_getter(value)
 
diff --git a/haiku/_src/module.py b/haiku/_src/module.py
index 22772b7..c25d364 100644
--- a/haiku/_src/module.py
+++ b/haiku/_src/module.py
@@ -281,16 +281,16 @@ def run_interceptors(  # pylint: disable=invalid-name
   ctx = MethodContext(module=self,
                       method_name=method_name,
                       orig_method=bound_method)
-  interceptor_stack_copy = interceptor_stack.clone()
-
-  def next_fun(*args, **kwargs):
-    if interceptor_stack_copy:
-      # NOTE: The `interceptor_fun` may call `next_fun` to trigger the next
-      # interceptor (and so on) allowing interceptors to be run in turn.
-      interceptor_fun = interceptor_stack_copy.popleft()
-      return interceptor_fun(next_fun, args, kwargs, ctx)
-    else:
-      return bound_method(*args, **kwargs)
+
+  def bind(interceptor_fun, next_fun):
+    # NOTE: The `interceptor_fun` may call `next_fun` to trigger the next
+    # interceptor (and so on) allowing interceptors to be run in turn. It may
+    # do so repeatedly.
+    return lambda *args, **kwargs: interceptor_fun(next_fun, args, kwargs, ctx)
+
+  next_fun = bound_method
+  for interceptor_fun in interceptor_stack:
+    next_fun = bind(interceptor_fun, next_fun)
 
   return next_fun(*args, **kwargs)
 
-- 
2.43.0


From 35e0da3600da496589d2c2f2a3871e0b4793ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 32/35] fix: masked convolutions do not write to numpy weights
 they are given

---
 haiku/_src/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/conv.py b/haiku/_src/conv.py
index e594f43..de981eb 100644
--- a/haiku/_src/conv.py
+++ b/haiku/_src/conv.py
@@ -193,7 +193,7 @@ class ConvND(hk.Module):
     w = hk.get_parameter("w", w_shape, inputs.dtype, init=w_init)
 
     if self.mask is not None:
-      w *= self.mask
+      w = w * self.mask
 
     out = lax.conv_general_dilated(inputs,
                                    w,
-- 
2.43.0


From 0e7efb089fd2aff2659e8f2c4ec185be1e24a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 33/35] fix: hk.jit and control flow after hk.lift during init

Lifted bundles were stored as immutable mappings, which could not be updated
with the state that comes out of a wrapped function.
---
 haiku/_src/lift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/lift.py b/haiku/_src/lift.py
index 186c4aa..a6ae45b 100644
--- a/haiku/_src/lift.py
+++ b/haiku/_src/lift.py
@@ -24,7 +24,7 @@ def pack_into_dict(src, dst, prefix):
   for key, value in src.items():
     new_key = f"{prefix}/{key}"
     assert new_key not in dst
-    dst[new_key] = value
+    dst[new_key] = dict(value)
 
 
 def unpack_from_dict(src, prefix):
-- 
2.43.0


From 641d3c5c675b8aba7fb84cc639352689b6659cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:46 +0000
Subject: [PATCH 34/35] fix: VarianceScaling does not change an array scale it
 is given

---
 haiku/_src/initializers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/haiku/_src/initializers.py b/haiku/_src/initializers.py
index 13b1c70..82637bb 100644
--- a/haiku/_src/initializers.py
+++ b/haiku/_src/initializers.py
@@ -179,11 +179,11 @@ class VarianceScaling(hk.initializers.Initializer):
     scale = self.scale
     fan_in, fan_out = _compute_fans(shape)
     if self.mode == 'fan_in':
-      scale /= max(1.0, fan_in)
+      scale = scale / max(1.0, fan_in)
     elif self.mode == 'fan_out':
-      scale /= max(1.0, fan_out)
+      scale = scale / max(1.0, fan_out)
     else:
-      scale /= max(1.0, (fan_in + fan_out) / 2.0)
+      scale = scale / max(1.0, (fan_in + fan_out) / 2.0)
 
     if self.distribution == 'truncated_normal':
       stddev = np.sqrt(scale)
-- 
2.43.0


From e6ce11f779357f9c882fa4b5a843ff55ea4f4247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:00 +0000
Subject: [PATCH 35/35] fix: module reprs leave out keyword-only arguments
 equal to their default

---
 haiku/_src/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index 81a3792..8ab71fd 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -75,6 +75,7 @@ def auto_repr(cls: Type[Any], *args, **kwargs) -> str:
   # Extract default parameter values.
   defaults = argspec.defaults or ()
   defaults = dict(zip(argspec.args[-len(defaults):], defaults))
+  defaults.update(argspec.kwonlydefaults or {})
   is_default = lambda n, v: (n in defaults and compare_or_false(v, defaults[n]))
 
   names_and_values = [(name + "=", arg_values[name]) for name in arg_names
@@ -83,9 +84,10 @@ def auto_repr(cls: Type[Any], *args, **kwargs) -> str:
   if len(args) >= len(argspec.args):
     # NOTE: Arguments before varargs cannot be passed by name.
     names_and_values = [("", arg) for arg in args]
-  # Add varkwargs.
+  # Add keyword only arguments and varkwargs.
   names_and_values.extend(
-      (name + "=", kwargs[name]) for name in kwargs if name not in argspec.args)
+      (name + "=", kwargs[name]) for name in kwargs
+      if name not in argspec.args and not is_default(name, kwargs[name]))
 
   single_line = cls.__name__ + "({})".format(", ".join(
       name + repr(value) for name, value in names_and_values))
-- 
2.43.0

