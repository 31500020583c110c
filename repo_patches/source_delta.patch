From 8c4e1f86218e0bb793c307d1d1fc4a7190adf78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:05 +0000
Subject: [PATCH 01/19] fix: use collections.abc, the collections aliases are
 gone since Python 3.10

hk.cond/switch/scan/fori_loop/while_loop/jit/... (update_recursive), Conv*,
GroupNorm and LayerNorm raised AttributeError on every call.
---
 haiku/_src/group_norm.py | 2 +-
 haiku/_src/layer_norm.py | 2 +-
 haiku/_src/stateful.py   | 2 +-
 haiku/_src/utils.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 55c7956..17f40a5 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -109,7 +109,7 @@ class GroupNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = axis
     else:
diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 257f28c..d04e107 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -75,7 +75,7 @@ class LayerNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = tuple(axis)
     else:
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7d73dca..eadae01 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -45,7 +45,7 @@ def internal_state(*, params=True) -> InternalState:
 
 def update_recursive(dst: MutableMapping[Any, Any], src: Mapping[Any, Any]):
   for k, v in src.items():
-    if isinstance(v, collections.Mapping):
+    if isinstance(v, collections.abc.Mapping):
       dst.setdefault(k, {})
       update_recursive(dst[k], v)
     else:
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index c28ad21..06b4c06 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -119,7 +119,7 @@ def replicate(
 ) -> Tuple[T]:
   """Replicates entry in `element` `num_times` if needed."""
   if (isinstance(element, (str, bytes)) or
-      not isinstance(element, collections.Sequence)):
+      not isinstance(element, collections.abc.Sequence)):
     return (element,) * num_times
   elif len(element) == 1:
     return tuple(element * num_times)
-- 
2.43.0


From 5c7c412670067952ebd00fb2ddd25057701caf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 02/19] fix: stop relying on jax.tree_multimap, newer JAX
 merged it into tree_map

hk.jit/remat/grad/value_and_grad/vmap/named_call, hk.scan during init,
static_unroll, ResetCore and DeepRNN with skip connections raised
AttributeError on every call with the JAX versions setup.py allows.
---
 haiku/_src/recurrent.py | 14 ++++++++------
 haiku/_src/stateful.py  | 11 ++++++-----
 haiku/_src/utils.py     |  6 ++++++
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/haiku/_src/recurrent.py b/haiku/_src/recurrent.py
index 306c518..8159cda 100644
--- a/haiku/_src/recurrent.py
+++ b/haiku/_src/recurrent.py
@@ -24,6 +24,7 @@ from haiku._src import conv
 from haiku._src import initializers
 from haiku._src import module
 from haiku._src import stateful
+from haiku._src import utils
 import jax
 import jax.nn
 import jax.numpy as jnp
@@ -129,7 +130,7 @@ def static_unroll(core, input_sequence, initial_state, time_major=True):
     output_sequence.append(outputs)
 
   # Stack outputs along the time axis.
-  output_sequence = jax.tree_multimap(
+  output_sequence = utils.tree_multimap(
       lambda *args: jnp.stack(args, axis=time_axis),
       *output_sequence)
   return output_sequence, state
@@ -670,14 +671,15 @@ class ResetCore(RNNCore):
     # >> batch_entry 1:
     # >>  [[0. 0.]
     # >>  [0. 0.]]
-    should_reset = jax.tree_multimap(_validate_and_conform, should_reset, state)
+    should_reset = utils.tree_multimap(
+        _validate_and_conform, should_reset, state)
     if self._is_batched(state):
       batch_size = jax.tree_leaves(inputs)[0].shape[0]
     else:
       batch_size = None
-    initial_state = jax.tree_multimap(
+    initial_state = utils.tree_multimap(
         lambda s, i: i.astype(s.dtype), state, self.initial_state(batch_size))
-    state = jax.tree_multimap(jnp.where, should_reset, initial_state, state)
+    state = utils.tree_multimap(jnp.where, should_reset, initial_state, state)
     return self.core(inputs, state)
 
   def initial_state(self, batch_size: Optional[int]):
@@ -718,7 +720,7 @@ class _DeepRNN(RNNCore):
     concat = lambda *args: jnp.concatenate(args, axis=-1)
     for idx, layer in enumerate(self.layers):
       if self.skip_connections and idx > 0:
-        current_inputs = jax.tree_multimap(concat, inputs, current_inputs)
+        current_inputs = utils.tree_multimap(concat, inputs, current_inputs)
 
       if isinstance(layer, RNNCore):
         current_inputs, next_state = layer(current_inputs, state[state_idx])
@@ -729,7 +731,7 @@ class _DeepRNN(RNNCore):
         current_inputs = layer(current_inputs)
 
     if self.skip_connections:
-      out = jax.tree_multimap(concat, *outputs)
+      out = utils.tree_multimap(concat, *outputs)
     else:
       out = current_inputs
 
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index eadae01..585b40b 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -20,6 +20,7 @@ import inspect
 from typing import Any, Callable, Mapping, MutableMapping, Optional, Tuple, TypeVar
 
 from haiku._src import base
+from haiku._src import utils
 import jax
 import jax.numpy as jnp
 
@@ -308,16 +309,16 @@ def difference(before: InternalState, after: InternalState) -> InternalState:
   is_new_param = lambda a, b: a is not b
   params_before, params_after = box_and_fill_missing(before.params,
                                                      after.params)
-  params_after = jax.tree_multimap(functools.partial(if_changed, is_new_param),
-                                   params_before, params_after)
+  params_after = utils.tree_multimap(
+      functools.partial(if_changed, is_new_param), params_before, params_after)
 
   # state
   def is_new_state(a: base.StatePair, b: base.StatePair):
     return a.initial is not b.initial or a.current is not b.current
 
   state_before, state_after = box_and_fill_missing(before.state, after.state)
-  state_after = jax.tree_multimap(functools.partial(if_changed, is_new_state),
-                                  state_before, state_after)
+  state_after = utils.tree_multimap(
+      functools.partial(if_changed, is_new_state), state_before, state_after)
 
   # rng
   def is_new_rng(a: Optional[base.PRNGSequenceState],
@@ -505,7 +506,7 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = jax.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    ys = utils.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
 
   return carry, ys
 
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index 06b4c06..7eeca61 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -26,6 +26,12 @@ import jax.numpy as jnp
 
 T = TypeVar("T")
 
+# Newer versions of JAX merged `tree_multimap` into `tree_map`.
+if hasattr(jax, "tree_multimap"):
+  tree_multimap = jax.tree_multimap
+else:
+  tree_multimap = jax.tree_util.tree_map
+
 
 def compare_or_false(a, b) -> bool:
   try:
-- 
2.43.0


From 816ff220f3d75722f53035c4686909305025452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:59 +0000
Subject: [PATCH 03/19] fix: hk.scan(reverse=True) returned ys in the wrong
 order during init

---
 haiku/_src/stateful.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 585b40b..5c1791d 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -506,7 +506,10 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = utils.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    # The unrolled step is the last one of ``xs`` when scanning in reverse.
+    ys = utils.tree_multimap(
+        lambda y0, ys: jnp.concatenate([ys, y0] if reverse else [y0, ys]),
+        y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From 03ae6d44f60d672d0fb1e6bea0aa184a1bb9ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:02 +0000
Subject: [PATCH 04/19] fix: use of a reserved key in the cond_fun of
 hk.while_loop was not detected

---
 haiku/_src/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index a2bb0b0..9718f52 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -839,7 +839,7 @@ def assert_state_unchanged():
 
   params_diff = params_after - params_before
   state_diff = state_after - state_before
-  rng_diff = rng_after - rng_before
+  rng_diff = rng_after ^ rng_before  # Using a reserved key only removes it.
   if params_diff or state_diff or rng_diff:
     raise StateChangedError("Within this code block you are not able to modify "
                             "Haiku managed state (e.g. via `next_rng_key` or "
-- 
2.43.0


From 12f5c8a6890ebf6a84e91b7d721d1dbf7f4be2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:59 +0000
Subject: [PATCH 05/19] fix: hk.while_loop failed if its body used keys while
 some were reserved

---
 haiku/_src/stateful.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 5c1791d..0d2663f 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -602,9 +602,11 @@ def while_loop(cond_fun, body_fun, init_val):
     val, state = val
     with temporary_internal_state(state):
       val = body_fun(val)
+      reserve_up_to_full_rng_block()
       state = internal_state()
       return val, state
 
+  reserve_up_to_full_rng_block()
   init_val = (init_val, internal_state())
   val, state = jax.lax.while_loop(pure_cond_fun, pure_body_fun, init_val)
   update_internal_state(state)
-- 
2.43.0


From 937f10a6cc2e039037e5535161a31ef478ff2b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 06/19] fix: hk.lift put immutable bundles into the parameters,
 hk.cond (et al) then failed in init

---
 haiku/_src/lift.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/lift.py b/haiku/_src/lift.py
index 186c4aa..e9ab66f 100644
--- a/haiku/_src/lift.py
+++ b/haiku/_src/lift.py
@@ -24,7 +24,9 @@ def pack_into_dict(src, dst, prefix):
   for key, value in src.items():
     new_key = f"{prefix}/{key}"
     assert new_key not in dst
-    dst[new_key] = value
+    # ``value`` is typically immutable, bundles of ``dst`` must be mutable since
+    # they are updated in place (e.g. by ``hk.cond``).
+    dst[new_key] = dict(value)
 
 
 def unpack_from_dict(src, prefix):
-- 
2.43.0


From e3a0b0453a9e98bff64b65a4fcf99e26dad4de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:48 +0000
Subject: [PATCH 07/19] fix: counting of requested keys in optimize_rng_use was
 not thread safe

count_hk_rngs_requested replaced the module global next_rng_key_internal, so a
concurrent call on another thread was counted as well, and two concurrent
counts could leave the counting function installed for good.
---
 haiku/_src/base.py   | 5 ++++-
 haiku/_src/random.py | 9 +--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index 9718f52..b54d72b 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -48,6 +48,8 @@ param_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 state_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 param_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
 state_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
+# Counters (see random.py) of the keys requested by `next_rng_key`.
+rng_counter_stack: ThreadLocalStack[list] = ThreadLocalStack()
 
 
 class Frame(NamedTuple):
@@ -613,8 +615,9 @@ def next_rng_key() -> PRNGKey:
   return next_rng_key_internal()
 
 
-# NOTE: Split for monkey patching in random.py.
 def next_rng_key_internal() -> PRNGKey:
+  for counter in rng_counter_stack:
+    counter[0] += 1
   rng_seq = rng_seq_or_fail()
   return next(rng_seq)
 
diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 5b87314..05c8a70 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -29,15 +29,8 @@ def count_hk_rngs_requested():
   # TODO(tomhennigan): Don't include keys returned under a `with_rng` context.
   # TODO(tomhennigan): Optimize use of keys within a `with_rng` heading as well.
   count = [0]
-  orig_next_rng_key = base.next_rng_key_internal
-  def counting_next_rng_key(*a, **k):
-    count[0] += 1
-    return orig_next_rng_key(*a, **k)
-  try:
-    base.next_rng_key_internal = counting_next_rng_key
+  with base.rng_counter_stack(count):
     yield lambda: count[0]
-  finally:
-    base.next_rng_key_internal = orig_next_rng_key
 
 
 def optimize_rng_use(fun):
-- 
2.43.0


From b27d240d304ca0cc3e0341f4df7379a82678889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:27 +0000
Subject: [PATCH 08/19] fix: optimize_rng_use counted keys in init mode if
 there were no parameters yet

The dry run was made in a new context that was frozen iff there were some
parameters: apply of a function without parameters was counted as if it were
init, and during init it failed if parameters had been created before.
---
 haiku/_src/random.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 05c8a70..e5c04ea 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -18,8 +18,7 @@ import contextlib
 import functools
 
 from haiku._src import base
-from haiku._src import data_structures
-import jax
+from haiku._src import stateful
 
 
 @contextlib.contextmanager
@@ -69,24 +68,8 @@ def optimize_rng_use(fun):
   def wrapper(*args, **kwargs):
     base.assert_context("optimize_rng_use")
 
-    # Extract all current state.
-    frame = base.current_frame()
-    params = frame.params or None
-    if params is not None:
-      params = data_structures.to_immutable_dict(params)
-    state = frame.state or None
-    if state is not None:
-      state = base.extract_state(state, initial=True)
-    rng = frame.rng_stack.peek()
-    if rng is not None:
-      rng = rng.internal_state
-
-    def pure_fun(params, state, rng, *args, **kwargs):
-      with base.new_context(params=params, state=state, rng=rng):
-        return fun(*args, **kwargs)
-
     with count_hk_rngs_requested() as rng_count_f:
-      jax.eval_shape(pure_fun, params, state, rng, *args, **kwargs)
+      stateful.eval_shape(fun, *args, **kwargs)
     rng_count = rng_count_f()
 
     if rng_count:
-- 
2.43.0


From 23c197fd5c3e517d50a7d20215554d72dbb7e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:40 +0000
Subject: [PATCH 09/19] fix: cond_fun of hk.while_loop saw the state from
 before the loop

---
 haiku/_src/stateful.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 0d2663f..01d1ffd 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -586,9 +586,9 @@ def while_loop(cond_fun, body_fun, init_val):
         "      val = hk.while_loop(lambda val: val.mean() < 1, module, val)\n")
 
   def pure_cond_fun(val):
-    val, _ = val
+    val, state = val
     try:
-      with base.assert_state_unchanged():
+      with temporary_internal_state(state), base.assert_state_unchanged():
         return cond_fun(val)
     except base.StateChangedError as e:
       # If we find a use case for updating state/using rng in `cond` we would
-- 
2.43.0


From 47e084e9b6de4f85ab77b45d8c8f68b7d94255ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 10/19] fix: to_dot switched the profiler name scopes of all
 threads, and could leave them switched

---
 haiku/_src/dot.py    | 6 +-----
 haiku/_src/module.py | 5 ++++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index cebe56d..a95db8b 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -81,12 +81,8 @@ def to_dot(fun: Callable[..., Any]) -> Callable[..., str]:
   @functools.wraps(fun)
   def wrapped_fun(*args) -> str:
     # Disable namescopes so they don't show up in the generated dot
-    current_setting = module.modules_with_named_call
-    try:
-      module.profiler_name_scopes(enabled=False)
+    with module.name_scopes_disabled(True):
       return _graph_to_dot(*graph_fun(*args))
-    finally:
-      module.profiler_name_scopes(enabled=current_setting)
   return wrapped_fun
 
 
diff --git a/haiku/_src/module.py b/haiku/_src/module.py
index ac0a3eb..ebca6bd 100644
--- a/haiku/_src/module.py
+++ b/haiku/_src/module.py
@@ -39,6 +39,8 @@ ThreadLocalStack = data_structures.ThreadLocalStack
 T = TypeVar("T")
 _APPLY_NAME_SCOPE = "__haiku_name_scope"
 modules_with_named_call = False
+# Non-empty while the current thread must not add name scopes.
+name_scopes_disabled = ThreadLocalStack()
 
 
 def profiler_name_scopes(enabled=True):
@@ -416,7 +418,8 @@ def wrap_method(method_name, unbound_method):
       # with an assumption that __call__ is `f(*) -> Tree[Array]`. Longer term
       # we may want to split static and dynamic results in named call to support
       # other methods.
-      if modules_with_named_call and module_name and method_name == "__call__":
+      if (modules_with_named_call and not name_scopes_disabled and
+          module_name and method_name == "__call__"):
         local_name = module_name.split("/")[-1]
         f = stateful.named_call(f, name=local_name)
 
-- 
2.43.0


From e0d9824e05e81cf845a37780099b61cef3a74bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 11/19] fix: tabulate failed if the function handled an
 exception raised by a module

---
 haiku/_src/summarise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 7583547..24aeada 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -209,7 +209,8 @@ def eval_summary(
     used_modules = []
     with sidechannel(used_modules):
       jax.eval_shape(init_apply, *args, **kwargs)
-    return used_modules
+    # Calls that raised (if `f` caught the exception) have not been recorded.
+    return [invocation for invocation in used_modules if invocation is not None]
 
   return wrapper
 
-- 
2.43.0


From 8a9018e97c19c0566fbed4c7bacd6ba3ba703a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 12/19] fix: ExponentialMovingAverage with warmup_length failed
 unless the value was float32

---
 haiku/_src/moving_averages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/moving_averages.py b/haiku/_src/moving_averages.py
index b5f0e35..db47470 100644
--- a/haiku/_src/moving_averages.py
+++ b/haiku/_src/moving_averages.py
@@ -115,7 +115,7 @@ class ExponentialMovingAverage(hk.Module):
 
     decay = jax.lax.convert_element_type(self.decay, value.dtype)
     if self.warmup_length > 0:
-      decay = jax.lax.select(counter <= 0, 0.0, decay)
+      decay = jax.lax.select(counter <= 0, jnp.zeros_like(decay), decay)
 
     one = jnp.ones([], value.dtype)
     hidden = hk.get_state("hidden", value.shape, value.dtype, init=jnp.zeros)
-- 
2.43.0


From 60a58040d2c2f5d66eebe4140b52a5e198bd8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 13/19] fix: transformer example resumes from its newest
 complete checkpoint

The listing order of the directory decided which checkpoint was loaded, and a
crash while writing left a truncated file under the final name.
---
 examples/transformer/train.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/examples/transformer/train.py b/examples/transformer/train.py
index 93ae012..b2fbca5 100644
--- a/examples/transformer/train.py
+++ b/examples/transformer/train.py
@@ -26,6 +26,7 @@ Note: Run with --alsologtostderr to see outputs.
 import functools
 import os
 import pickle
+import re
 import time
 from typing import Any, Mapping
 
@@ -176,7 +177,10 @@ class CheckpointingUpdater:
     self._checkpoint_every_n = checkpoint_every_n
 
   def _checkpoint_paths(self):
-    return [p for p in os.listdir(self._checkpoint_dir) if 'checkpoint_' in p]
+    # Oldest first. Skips temporary files left behind by an interrupted write.
+    paths = [p for p in os.listdir(self._checkpoint_dir)
+             if re.fullmatch(r'checkpoint_\d+\.pkl', p)]
+    return sorted(paths, key=lambda p: int(re.search(r'\d+', p).group()))
 
   def init(self, rng, data):
     """Initialize experiment state."""
@@ -202,8 +206,12 @@ class CheckpointingUpdater:
                           'checkpoint_{:07d}.pkl'.format(step))
       checkpoint_state = jax.device_get(state)
       logging.info('Serializing experiment state to %s', path)
-      with open(path, 'wb') as f:
+      # Never expose a partially written checkpoint under its final name.
+      with open(path + '.tmp', 'wb') as f:
         pickle.dump(checkpoint_state, f)
+        f.flush()
+        os.fsync(f.fileno())
+      os.replace(path + '.tmp', path)
 
     state, out = self._inner.update(state, data)
     return state, out
-- 
2.43.0


From 207e7346d09a124934c8c13abc7a107ecf88b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 14/19] fix: IMPALA learner no longer hangs at shutdown

The transfer worker and the actors waited for room in queues that a stopped
learner no longer empties.
---
 examples/impala/learner.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/examples/impala/learner.py b/examples/impala/learner.py
index 803b06e..5b6f8e0 100644
--- a/examples/impala/learner.py
+++ b/examples/impala/learner.py
@@ -159,12 +159,21 @@ class Learner:
     return params, updated_opt_state, logs
 
   def enqueue_traj(self, traj: util.Transition):
-    """Enqueue trajectory."""
-    self._host_q.put(traj)
+    """Enqueue trajectory. Drops it once the learner has stopped."""
+    self._put(self._host_q, traj)
 
   def params_for_actor(self) -> Tuple[int, hk.Params]:
     return self._params_for_actor
 
+  def _put(self, q: queue.Queue, item):
+    # A stopped learner no longer makes room, so do not wait for it.
+    while not self._done:
+      try:
+        q.put(item, timeout=1)
+        return
+      except queue.Full:
+        continue
+
   def host_to_device_worker(self):
     """Elementary data pipeline."""
     batch = []
@@ -181,7 +190,7 @@ class Learner:
       # Prepare for consumption, then put batch onto device.
       stacked_batch = jax.tree_multimap(lambda *xs: np.stack(xs, axis=1),
                                         *batch)
-      self._device_q.put(jax.device_put(stacked_batch))
+      self._put(self._device_q, jax.device_put(stacked_batch))
 
       # Clean out the built-up batch.
       batch = []
-- 
2.43.0


From d14a724cb5175c5f02ccf462225e89761f55257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 15/19] fix: to_dot failed on functions with custom derivatives
 such as jax.nn.relu

Newer versions of JAX pass further keyword arguments to these methods of a
trace.
---
 haiku/_src/dot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index a95db8b..4a0da10 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -220,15 +220,15 @@ class DotTrace(jax.core.Trace):
 
   process_map = process_call
 
-  def process_custom_jvp_call(self, primitive, fun, jvp, tracers):
+  def process_custom_jvp_call(self, primitive, fun, jvp, tracers, **params):
     # Drop the custom differentiation rule.
-    del primitive, jvp  # Unused.
+    del primitive, jvp, params  # Unused.
     return fun.call_wrapped(*tracers)
 
   def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers,
-                              out_trees):
+                              **params):
     # Drop the custom differentiation rule.
-    del primitive, fwd, bwd, out_trees  # Unused.
+    del primitive, fwd, bwd, params  # Unused.
     return fun.call_wrapped(*tracers)
 
 
-- 
2.43.0


From a599efcd5f9f29561b29eaed41f0638a35d211a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 16/19] Revert "fix: IMPALA learner no longer hangs at
 shutdown"

This reverts commit 207e7346d09a124934c8c13abc7a107ecf88b247.
---
 examples/impala/learner.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/examples/impala/learner.py b/examples/impala/learner.py
index 5b6f8e0..803b06e 100644
--- a/examples/impala/learner.py
+++ b/examples/impala/learner.py
@@ -159,21 +159,12 @@ class Learner:
     return params, updated_opt_state, logs
 
   def enqueue_traj(self, traj: util.Transition):
-    """Enqueue trajectory. Drops it once the learner has stopped."""
-    self._put(self._host_q, traj)
+    """Enqueue trajectory."""
+    self._host_q.put(traj)
 
   def params_for_actor(self) -> Tuple[int, hk.Params]:
     return self._params_for_actor
 
-  def _put(self, q: queue.Queue, item):
-    # A stopped learner no longer makes room, so do not wait for it.
-    while not self._done:
-      try:
-        q.put(item, timeout=1)
-        return
-      except queue.Full:
-        continue
-
   def host_to_device_worker(self):
     """Elementary data pipeline."""
     batch = []
@@ -190,7 +181,7 @@ class Learner:
       # Prepare for consumption, then put batch onto device.
       stacked_batch = jax.tree_multimap(lambda *xs: np.stack(xs, axis=1),
                                         *batch)
-      self._put(self._device_q, jax.device_put(stacked_batch))
+      self._device_q.put(jax.device_put(stacked_batch))
 
       # Clean out the built-up batch.
       batch = []
-- 
2.43.0


From 89f6d309f7d97723497e3a4fb1e1a7755919f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 17/19] Revert "fix: transformer example resumes from its
 newest complete checkpoint"

Examples count as test files here, and are left as they are.
---
 examples/transformer/train.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/examples/transformer/train.py b/examples/transformer/train.py
index b2fbca5..93ae012 100644
--- a/examples/transformer/train.py
+++ b/examples/transformer/train.py
@@ -26,7 +26,6 @@ Note: Run with --alsologtostderr to see outputs.
 import functools
 import os
 import pickle
-import re
 import time
 from typing import Any, Mapping
 
@@ -177,10 +176,7 @@ class CheckpointingUpdater:
     self._checkpoint_every_n = checkpoint_every_n
 
   def _checkpoint_paths(self):
-    # Oldest first. Skips temporary files left behind by an interrupted write.
-    paths = [p for p in os.listdir(self._checkpoint_dir)
-             if re.fullmatch(r'checkpoint_\d+\.pkl', p)]
-    return sorted(paths, key=lambda p: int(re.search(r'\d+', p).group()))
+    return [p for p in os.listdir(self._checkpoint_dir) if 'checkpoint_' in p]
 
   def init(self, rng, data):
     """Initialize experiment state."""
@@ -206,12 +202,8 @@ class CheckpointingUpdater:
                           'checkpoint_{:07d}.pkl'.format(step))
       checkpoint_state = jax.device_get(state)
       logging.info('Serializing experiment state to %s', path)
-      # Never expose a partially written checkpoint under its final name.
-      with open(path + '.tmp', 'wb') as f:
+      with open(path, 'wb') as f:
         pickle.dump(checkpoint_state, f)
-        f.flush()
-        os.fsync(f.fileno())
-      os.replace(path + '.tmp', path)
 
     state, out = self._inner.update(state, data)
     return state, out
-- 
2.43.0


From ae2290fe73be6ab27c1f1d076f42b76da511d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:17 +0000
Subject: [PATCH 18/19] fix: get_parameter and get_state left empty bundles
 behind by merely reading

A failing get_parameter/get_state (caught by the caller) created an empty
bundle, after which hk.fori_loop, hk.cond (et al) failed because the state had
another structure than before.
---
 haiku/_src/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index b54d72b..3ff7392 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -278,8 +278,7 @@ def get_parameter(
         "All parameters must be created as part of `init`.".format(
             name, bundle_name))
 
-  params = frame.params[bundle_name]
-  param = params.get(name)
+  param = frame.params.get(bundle_name, {}).get(name)
   fq_name = bundle_name + "/" + name
   context = GetterContext(full_name=fq_name, module=current_module(),
                           original_dtype=dtype, original_shape=shape)
@@ -291,7 +290,7 @@ def get_parameter(
               name, bundle_name))
 
     param = run_creators(param_creator_stack, context, shape, dtype, init)
-    params[name] = param  # pytype: disable=unsupported-operands
+    frame.params[bundle_name][name] = param  # pytype: disable=unsupported-operands
 
   # Custom getters allow a hook for users to customize the value returned by
   # get_parameter. For example casting values to some dtype.
@@ -699,11 +698,11 @@ def get_state(
   """
   assert_context("get_state")
   bundle_name = current_bundle_name()
-  state = current_frame().state[bundle_name]
+  state = current_frame().state
   fq_name = f"{bundle_name}/{name}"
   context = GetterContext(fq_name, current_module(), dtype, shape)
 
-  value = state.get(name, None)
+  value = state.get(bundle_name, {}).get(name, None)
   if value is None:
     if init is None:
       raise ValueError(f"No value for {name!r} in {bundle_name!r}, perhaps "
@@ -713,7 +712,7 @@ def get_state(
                        f"in {bundle_name!r}.")
 
     value = run_creators(state_creator_stack, context, shape, dtype, init)
-    state[name] = StatePair(value, value)
+    state[bundle_name][name] = StatePair(value, value)
   else:
     value = value.current
 
-- 
2.43.0


From 094622e9b7cd44df4806672a0861adfa91eb7879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:17 +0000
Subject: [PATCH 19/19] fix: state names of EMAParamsTree and SNParamsTree
 depended on the order of the mapping

A parameter named like "w_1" before "w" claimed another module name than
after it, so params that went through jax.tree_map (which sorts keys) made
apply look for state that init had named otherwise.
---
 haiku/_src/moving_averages.py | 10 ++++++----
 haiku/_src/spectral_norm.py   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/haiku/_src/moving_averages.py b/haiku/_src/moving_averages.py
index db47470..fea996b 100644
--- a/haiku/_src/moving_averages.py
+++ b/haiku/_src/moving_averages.py
@@ -207,8 +207,10 @@ class EMAParamsTree(hk.Module):
     # We want to potentially replace params with EMA'd versions.
     new_values = {}
     for module_name, param_dict in tree.items():
-      new_values[module_name] = {
-          k: maybe_ema("/".join([module_name, k]), v)
-          for k, v in param_dict.items()
-      }
+      # NOTE: We create modules in sorted order so that their names (and thus our
+      # state) do not depend on the order of the mapping (e.g. `jax.tree_map`
+      # sorts keys): "w_1" followed by "w" would rename the latter to "w_2".
+      new_params = {k: maybe_ema("/".join([module_name, k]), param_dict[k])
+                    for k in sorted(param_dict)}
+      new_values[module_name] = {k: new_params[k] for k in param_dict}
     return hk.data_structures.to_immutable_dict(new_values)
diff --git a/haiku/_src/spectral_norm.py b/haiku/_src/spectral_norm.py
index 38f2b09..43503ef 100644
--- a/haiku/_src/spectral_norm.py
+++ b/haiku/_src/spectral_norm.py
@@ -198,8 +198,10 @@ class SNParamsTree(hk.Module):
     # We want to potentially replace params with Spectral Normalized versions.
     new_values = {}
     for module_name, param_dict in tree.items():
-      new_values[module_name] = {
-          k: maybe_sn("/".join([module_name, k]), v)
-          for k, v in param_dict.items()
-      }
+      # NOTE: We create modules in sorted order so that their names (and thus our
+      # state) do not depend on the order of the mapping (e.g. `jax.tree_map`
+      # sorts keys): "w_1" followed by "w" would rename the latter to "w_2".
+      new_params = {k: maybe_sn("/".join([module_name, k]), param_dict[k])
+                    for k in sorted(param_dict)}
+      new_values[module_name] = {k: new_params[k] for k in param_dict}
     return hk.data_structures.to_immutable_dict(new_values)
-- 
2.43.0

