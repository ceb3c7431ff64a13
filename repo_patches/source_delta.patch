From 8622350d1b316b6e88cd23501674466abf0c1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:37 +0000
Subject: [PATCH 01/23] fix: use collections.abc for abstract container types

collections.{Mapping,Sequence,Iterable} were removed in Python 3.10, so
replicate(), LayerNorm/GroupNorm and every hk.jit/grad/cond/scan/... call
raised AttributeError instead of working.
---
 haiku/_src/group_norm.py | 4 ++--
 haiku/_src/layer_norm.py | 4 ++--
 haiku/_src/stateful.py   | 3 ++-
 haiku/_src/utils.py      | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 55c7956..213707a 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Group normalization implementation for Haiku."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -109,7 +109,7 @@ class GroupNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = axis
     else:
diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 257f28c..8df833f 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Layer Norm."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -75,7 +75,7 @@ class LayerNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = tuple(axis)
     else:
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7d73dca..bd76b0b 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -15,6 +15,7 @@
 """Wrappers for JAX transformations that respect Haiku internal state."""
 
 import collections
+import collections.abc
 import functools
 import inspect
 from typing import Any, Callable, Mapping, MutableMapping, Optional, Tuple, TypeVar
@@ -45,7 +46,7 @@ def internal_state(*, params=True) -> InternalState:
 
 def update_recursive(dst: MutableMapping[Any, Any], src: Mapping[Any, Any]):
   for k, v in src.items():
-    if isinstance(v, collections.Mapping):
+    if isinstance(v, collections.abc.Mapping):
       dst.setdefault(k, {})
       update_recursive(dst[k], v)
     else:
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index c28ad21..0bfbcb7 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Misc utility functions."""
 
-import collections
+import collections.abc
 import decimal
 import inspect
 import pprint
@@ -119,7 +119,7 @@ def replicate(
 ) -> Tuple[T]:
   """Replicates entry in `element` `num_times` if needed."""
   if (isinstance(element, (str, bytes)) or
-      not isinstance(element, collections.Sequence)):
+      not isinstance(element, collections.abc.Sequence)):
     return (element,) * num_times
   elif len(element) == 1:
     return tuple(element * num_times)
-- 
2.43.0


From e0a73b699ab52d7f2f28e00d72748c7118713158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:22 +0000
Subject: [PATCH 02/23] fix: do not depend on jax.tree_multimap

jax.tree_multimap was merged into jax.tree_map and removed from the jax the
package is installed with (setup.py allows any jax>=0.1.71), so hk.jit,
hk.grad, hk.scan at init, static_unroll, ResetCore and DeepRNN with skip
connections raised AttributeError.
---
 haiku/_src/recurrent.py | 13 +++++++------
 haiku/_src/stateful.py  |  7 ++++---
 haiku/_src/utils.py     |  3 +++
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/haiku/_src/recurrent.py b/haiku/_src/recurrent.py
index 306c518..ef8164b 100644
--- a/haiku/_src/recurrent.py
+++ b/haiku/_src/recurrent.py
@@ -24,6 +24,7 @@ from haiku._src import conv
 from haiku._src import initializers
 from haiku._src import module
 from haiku._src import stateful
+from haiku._src import utils
 import jax
 import jax.nn
 import jax.numpy as jnp
@@ -129,7 +130,7 @@ def static_unroll(core, input_sequence, initial_state, time_major=True):
     output_sequence.append(outputs)
 
   # Stack outputs along the time axis.
-  output_sequence = jax.tree_multimap(
+  output_sequence = utils.tree_multimap(
       lambda *args: jnp.stack(args, axis=time_axis),
       *output_sequence)
   return output_sequence, state
@@ -670,14 +671,14 @@ class ResetCore(RNNCore):
     # >> batch_entry 1:
     # >>  [[0. 0.]
     # >>  [0. 0.]]
-    should_reset = jax.tree_multimap(_validate_and_conform, should_reset, state)
+    should_reset = utils.tree_multimap(_validate_and_conform, should_reset, state)
     if self._is_batched(state):
       batch_size = jax.tree_leaves(inputs)[0].shape[0]
     else:
       batch_size = None
-    initial_state = jax.tree_multimap(
+    initial_state = utils.tree_multimap(
         lambda s, i: i.astype(s.dtype), state, self.initial_state(batch_size))
-    state = jax.tree_multimap(jnp.where, should_reset, initial_state, state)
+    state = utils.tree_multimap(jnp.where, should_reset, initial_state, state)
     return self.core(inputs, state)
 
   def initial_state(self, batch_size: Optional[int]):
@@ -718,7 +719,7 @@ class _DeepRNN(RNNCore):
     concat = lambda *args: jnp.concatenate(args, axis=-1)
     for idx, layer in enumerate(self.layers):
       if self.skip_connections and idx > 0:
-        current_inputs = jax.tree_multimap(concat, inputs, current_inputs)
+        current_inputs = utils.tree_multimap(concat, inputs, current_inputs)
 
       if isinstance(layer, RNNCore):
         current_inputs, next_state = layer(current_inputs, state[state_idx])
@@ -729,7 +730,7 @@ class _DeepRNN(RNNCore):
         current_inputs = layer(current_inputs)
 
     if self.skip_connections:
-      out = jax.tree_multimap(concat, *outputs)
+      out = utils.tree_multimap(concat, *outputs)
     else:
       out = current_inputs
 
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index bd76b0b..65c51d1 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -21,6 +21,7 @@ import inspect
 from typing import Any, Callable, Mapping, MutableMapping, Optional, Tuple, TypeVar
 
 from haiku._src import base
+from haiku._src import utils
 import jax
 import jax.numpy as jnp
 
@@ -309,7 +310,7 @@ def difference(before: InternalState, after: InternalState) -> InternalState:
   is_new_param = lambda a, b: a is not b
   params_before, params_after = box_and_fill_missing(before.params,
                                                      after.params)
-  params_after = jax.tree_multimap(functools.partial(if_changed, is_new_param),
+  params_after = utils.tree_multimap(functools.partial(if_changed, is_new_param),
                                    params_before, params_after)
 
   # state
@@ -317,7 +318,7 @@ def difference(before: InternalState, after: InternalState) -> InternalState:
     return a.initial is not b.initial or a.current is not b.current
 
   state_before, state_after = box_and_fill_missing(before.state, after.state)
-  state_after = jax.tree_multimap(functools.partial(if_changed, is_new_state),
+  state_after = utils.tree_multimap(functools.partial(if_changed, is_new_state),
                                   state_before, state_after)
 
   # rng
@@ -506,7 +507,7 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = jax.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    ys = utils.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
 
   return carry, ys
 
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index 0bfbcb7..751d47b 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -26,6 +26,9 @@ import jax.numpy as jnp
 
 T = TypeVar("T")
 
+# `jax.tree_multimap` was merged into `jax.tree_map` and is gone in newer JAX.
+tree_multimap = getattr(jax, "tree_multimap", jax.tree_map)
+
 
 def compare_or_false(a, b) -> bool:
   try:
-- 
2.43.0


From 3507308db65fa5b005670133fec52bf281c31bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 03/23] fix: detect use of reserved keys in
 assert_state_unchanged

---
 haiku/_src/base.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index a2bb0b0..adc1b7a 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -803,9 +803,9 @@ def assert_no_new_parameters():
     raise AssertionError(f"New parameters were created: {list(sorted(diff))}")
 
 
-def _get_ids(collection_name: str) -> FrozenSet[int]:
-  """Returns the identity for all state in the current context."""
-  out = []
+def _get_ids(collection_name: str) -> Mapping[int, Any]:
+  """Returns all state in the current context keyed by its identity."""
+  out = {}
   collection = getattr(current_frame(), collection_name)
   for mod_name, bundle in collection.items():
     if not isinstance(bundle, Mapping):
@@ -813,34 +813,33 @@ def _get_ids(collection_name: str) -> FrozenSet[int]:
       warnings.warn(f"Invalid entry {mod_name!r} in collection {collection}")
       continue
 
-    out.extend(map(id, bundle.values()))
+    out.update((id(value), value) for value in bundle.values())
 
-  return frozenset(out)
+  return out
 
 
 def _all_state():
+  """Returns the params, state and rng of the current context by identity."""
   params = _get_ids("params")
   state = _get_ids("state")
   rng = current_frame().rng_stack.peek()
   if rng is not None:
     key, subkeys = rng.internal_state
-    rng = frozenset(map(id, [key] + list(subkeys)))
+    rng = {id(k): k for k in (key, *subkeys)}
   else:
-    rng = frozenset()
+    rng = {}
   return params, state, rng
 
 
 @contextlib.contextmanager
 def assert_state_unchanged():
   """Asserts that in the given block params, state and rng are unchanged."""
-  params_before, state_before, rng_before = _all_state()
+  # NOTE: `before` keeps the old values alive, so their ids cannot be reused.
+  before = _all_state()
   yield
-  params_after, state_after, rng_after = _all_state()
+  after = _all_state()
 
-  params_diff = params_after - params_before
-  state_diff = state_after - state_before
-  rng_diff = rng_after - rng_before
-  if params_diff or state_diff or rng_diff:
+  if any(a.keys() != b.keys() for a, b in zip(before, after)):
     raise StateChangedError("Within this code block you are not able to modify "
                             "Haiku managed state (e.g. via `next_rng_key` or "
                             "`set_state`).")
-- 
2.43.0


From 950ec691c655c6601c25c0621d5ef28bf08715c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 04/23] fix: thread state and rng consistently through
 hk.while_loop

---
 haiku/_src/stateful.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 65c51d1..4c236f5 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -584,9 +584,9 @@ def while_loop(cond_fun, body_fun, init_val):
         "      val = hk.while_loop(lambda val: val.mean() < 1, module, val)\n")
 
   def pure_cond_fun(val):
-    val, _ = val
+    val, state = val
     try:
-      with base.assert_state_unchanged():
+      with temporary_internal_state(state), base.assert_state_unchanged():
         return cond_fun(val)
     except base.StateChangedError as e:
       # If we find a use case for updating state/using rng in `cond` we would
@@ -600,9 +600,11 @@ def while_loop(cond_fun, body_fun, init_val):
     val, state = val
     with temporary_internal_state(state):
       val = body_fun(val)
+      reserve_up_to_full_rng_block()
       state = internal_state()
       return val, state
 
+  reserve_up_to_full_rng_block()
   init_val = (init_val, internal_state())
   val, state = jax.lax.while_loop(pure_cond_fun, pure_body_fun, init_val)
   update_internal_state(state)
-- 
2.43.0


From 766fe5ae0dd656661929201ec45673f79983cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 05/23] fix: only activate custom creators and getters inside
 their context

---
 haiku/_src/base.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index adc1b7a..a4bfc36 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -359,6 +359,15 @@ def run_creators(
   return next_creator(shape, dtype, init)
 
 
+@contextlib.contextmanager
+def _push_all(value: Any, stacks: Sequence[ThreadLocalStack[Any]]):
+  """Pushes value onto all the given stacks while the context is active."""
+  with contextlib.ExitStack() as exit_stack:
+    for stack in stacks:
+      exit_stack.enter_context(stack(value))
+    yield
+
+
 def custom_creator(
     creator: Creator,
     *,
@@ -396,12 +405,9 @@ def custom_creator(
     Context manager under which the creator is active.
   """
   assert_context("experimental.custom_creator")
-  stack = contextlib.ExitStack()
-  if params:
-    stack.enter_context(param_creator_stack(creator))
-  if state:
-    stack.enter_context(state_creator_stack(creator))
-  return stack
+  return _push_all(creator,
+                   ([param_creator_stack] if params else []) +
+                   ([state_creator_stack] if state else []))
 
 NextGetter = Callable[[str, jnp.ndarray], jnp.ndarray]
 Getter = Callable[[NextGetter, jnp.ndarray, GetterContext], jnp.ndarray]
@@ -464,12 +470,9 @@ def custom_getter(
     Context manager under which the getter is active.
   """
   assert_context("experimental.custom_getter")
-  stack = contextlib.ExitStack()
-  if params:
-    stack.enter_context(param_getter_stack(getter))
-  if state:
-    stack.enter_context(state_getter_stack(getter))
-  return stack
+  return _push_all(getter,
+                   ([param_getter_stack] if params else []) +
+                   ([state_getter_stack] if state else []))
 
 
 def assert_is_prng_key(key: PRNGKey):
-- 
2.43.0


From 0a764fa3237c90a96b457d57612837c45de2802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:21 +0000
Subject: [PATCH 06/23] fix: name modules created in scan and fori_loop bodies
 consistently

---
 haiku/_src/stateful.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 4c236f5..6f2ef75 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -84,6 +84,23 @@ def temporary_internal_state(state: InternalState):
   return base.frame_stack(frame)
 
 
+def snapshot_names():
+  """Names modules in the given block as if it were a transformed function.
+
+  The bodies of our transforms run with a copy of the current naming state (see
+  :func:`temporary_internal_state`). When we inline such a body (e.g. to unroll
+  a loop) we need to do the same, otherwise modules created in the body would
+  have different names each time the body runs.
+
+  Returns:
+    Context manager that restores the naming state. Params, state and rng are
+    shared with the current frame.
+  """
+  frame = base.current_frame()
+  return base.frame_stack(frame.evolve(
+      params=frame.params, state=frame.state, rng=frame.rng_stack.peek()))
+
+
 def reserve_up_to_full_rng_block():
   """If RNG is active in the current frame, reserve up to the default block."""
   # TODO(lenamartens): Fix needing full block reservation in stateful
@@ -465,7 +482,8 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
     # (e.g. as state is created).
     if not length:
       x0 = jax.tree_map(lambda x: jnp.zeros(x.shape[1:], x.dtype), xs)
-      _, y0 = f(init, x0)
+      with snapshot_names():
+        _, y0 = f(init, x0)
       y0 = jax.tree_map(lambda y: jnp.zeros((0,) + y.shape, y.dtype), y0)
       return init, y0
 
@@ -475,7 +493,8 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
     else:
       x0 = jax.tree_map(lambda x: x[0], xs)
       xs = jax.tree_map(lambda x: x[1:], xs)
-    init, y0 = f(init, x0)
+    with snapshot_names():
+      init, y0 = f(init, x0)
     y0 = jax.tree_map(lambda y: jnp.expand_dims(y, 0), y0)
     length -= 1
     if not length:
@@ -530,7 +549,8 @@ def fori_loop(lower, upper, body_fun, init_val):
   if not base.params_frozen():
     # During init we need to unwind one step of the loop to ensure the Haiku
     # state before and after the body has the same structure.
-    init_val = body_fun(lower, init_val)
+    with snapshot_names():
+      init_val = body_fun(lower, init_val)
     lower += 1
     if upper - lower == 0:
       return init_val
-- 
2.43.0


From 1e02f984d0eff4f8c344a9b8663c1ed37ab01e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:21 +0000
Subject: [PATCH 07/23] fix: keep the order of reversed hk.scan outputs during
 init

---
 haiku/_src/stateful.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 6f2ef75..6d7e8c6 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -526,7 +526,10 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = utils.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    # When scanning in reverse the step we unrolled is the last one.
+    ys = utils.tree_multimap(
+        lambda y0, ys: jnp.concatenate([ys, y0] if reverse else [y0, ys]),
+        y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From 13941f0c07e521589b7283b04475d61f566dfb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:21 +0000
Subject: [PATCH 08/23] fix: count rng keys per thread in optimize_rng_use

---
 haiku/_src/base.py   | 5 ++++-
 haiku/_src/random.py | 9 ++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index a4bfc36..ba7a80d 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -48,6 +48,7 @@ param_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 state_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 param_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
 state_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
+rng_request_stack: ThreadLocalStack[Callable[[], None]] = ThreadLocalStack()
 
 
 class Frame(NamedTuple):
@@ -616,8 +617,10 @@ def next_rng_key() -> PRNGKey:
   return next_rng_key_internal()
 
 
-# NOTE: Split for monkey patching in random.py.
+# NOTE: Split for counting requested keys in random.py.
 def next_rng_key_internal() -> PRNGKey:
+  for on_request in rng_request_stack:
+    on_request()
   rng_seq = rng_seq_or_fail()
   return next(rng_seq)
 
diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 5b87314..980ee7c 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -29,15 +29,10 @@ def count_hk_rngs_requested():
   # TODO(tomhennigan): Don't include keys returned under a `with_rng` context.
   # TODO(tomhennigan): Optimize use of keys within a `with_rng` heading as well.
   count = [0]
-  orig_next_rng_key = base.next_rng_key_internal
-  def counting_next_rng_key(*a, **k):
+  def on_request():
     count[0] += 1
-    return orig_next_rng_key(*a, **k)
-  try:
-    base.next_rng_key_internal = counting_next_rng_key
+  with base.rng_request_stack(on_request):
     yield lambda: count[0]
-  finally:
-    base.next_rng_key_internal = orig_next_rng_key
 
 
 def optimize_rng_use(fun):
-- 
2.43.0


From f4d4386c07bc517ce44bf01ba5ff9051d4e17d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:13 +0000
Subject: [PATCH 09/23] fix: dry run optimize_rng_use in the current context

---
 haiku/_src/random.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 980ee7c..f5b188d 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -18,7 +18,7 @@ import contextlib
 import functools
 
 from haiku._src import base
-from haiku._src import data_structures
+from haiku._src import stateful
 import jax
 
 
@@ -71,24 +71,12 @@ def optimize_rng_use(fun):
   def wrapper(*args, **kwargs):
     base.assert_context("optimize_rng_use")
 
-    # Extract all current state.
-    frame = base.current_frame()
-    params = frame.params or None
-    if params is not None:
-      params = data_structures.to_immutable_dict(params)
-    state = frame.state or None
-    if state is not None:
-      state = base.extract_state(state, initial=True)
-    rng = frame.rng_stack.peek()
-    if rng is not None:
-      rng = rng.internal_state
-
-    def pure_fun(params, state, rng, *args, **kwargs):
-      with base.new_context(params=params, state=state, rng=rng):
+    def pure_fun(state, *args, **kwargs):
+      with stateful.temporary_internal_state(state):
         return fun(*args, **kwargs)
 
     with count_hk_rngs_requested() as rng_count_f:
-      jax.eval_shape(pure_fun, params, state, rng, *args, **kwargs)
+      jax.eval_shape(pure_fun, stateful.internal_state(), *args, **kwargs)
     rng_count = rng_count_f()
 
     if rng_count:
-- 
2.43.0


From 5a640f4090d893b0c362567322ba2dbbb0a40185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:40 +0000
Subject: [PATCH 10/23] fix: keep the transformed type in without_apply_rng

---
 haiku/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/transform.py b/haiku/_src/transform.py
index b439f7e..318c352 100644
--- a/haiku/_src/transform.py
+++ b/haiku/_src/transform.py
@@ -145,7 +145,7 @@ def without_apply_rng(f: TransformedT) -> TransformedT:
 
   tie_in_original_fn(f, f.init, apply_fn)
 
-  return TransformedWithState(init=f.init, apply=apply_fn)
+  return type(f)(init=f.init, apply=apply_fn)
 
 
 # TODO(tomhennigan) Remove apply_rng.
-- 
2.43.0


From 58e95e49fd219e8281d51cc1f03ba349150cf89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:52 +0000
Subject: [PATCH 11/23] fix: optimize_rng_use without a key when only with_rng
 keys are used

---
 haiku/_src/random.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index f5b188d..e4e36b8 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -79,8 +79,10 @@ def optimize_rng_use(fun):
       jax.eval_shape(pure_fun, stateful.internal_state(), *args, **kwargs)
     rng_count = rng_count_f()
 
-    if rng_count:
-      base.current_frame().rng_stack.peek().reserve(rng_count)
+    rng_seq = base.current_frame().rng_stack.peek()
+    if rng_seq is not None:
+      # NOTE: All keys may have been requested under `with_rng`.
+      rng_seq.reserve(rng_count)
     return fun(*args, **kwargs)
 
   return wrapper
-- 
2.43.0


From 4e5fa7b2b0da0baa488eda5b224bc918ec558707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:21 +0000
Subject: [PATCH 12/23] fix: keep lifted parameter bundles mutable during init

---
 haiku/_src/lift.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/lift.py b/haiku/_src/lift.py
index 186c4aa..0358673 100644
--- a/haiku/_src/lift.py
+++ b/haiku/_src/lift.py
@@ -24,7 +24,8 @@ def pack_into_dict(src, dst, prefix):
   for key, value in src.items():
     new_key = f"{prefix}/{key}"
     assert new_key not in dst
-    dst[new_key] = value
+    # Copy the bundle: ``src`` may be immutable and ``dst`` will be updated.
+    dst[new_key] = dict(value)
 
 
 def unpack_from_dict(src, prefix):
-- 
2.43.0


From 0252714c83e01d43b4b2f6e3e1996725fa4e0299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:00 +0000
Subject: [PATCH 13/23] fix: keep EMAParamsTree averages apart whatever the
 order of keys

---
 haiku/_src/moving_averages.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/moving_averages.py b/haiku/_src/moving_averages.py
index b5f0e35..97411a2 100644
--- a/haiku/_src/moving_averages.py
+++ b/haiku/_src/moving_averages.py
@@ -206,9 +206,11 @@ class EMAParamsTree(hk.Module):
 
     # We want to potentially replace params with EMA'd versions.
     new_values = {}
-    for module_name, param_dict in tree.items():
+    # Names depend on the order of construction, so use one that does not depend
+    # on the order of keys (which e.g. `jax.tree_map` may change).
+    for module_name, param_dict in sorted(tree.items()):
       new_values[module_name] = {
           k: maybe_ema("/".join([module_name, k]), v)
-          for k, v in param_dict.items()
+          for k, v in sorted(param_dict.items())
       }
     return hk.data_structures.to_immutable_dict(new_values)
-- 
2.43.0


From 88ad4e1941bbb5804c5fcd072ff7b68c8f7fe6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:00 +0000
Subject: [PATCH 14/23] fix: keep SNParamsTree statistics apart whatever the
 order of keys

---
 haiku/_src/spectral_norm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/spectral_norm.py b/haiku/_src/spectral_norm.py
index 38f2b09..bf4e267 100644
--- a/haiku/_src/spectral_norm.py
+++ b/haiku/_src/spectral_norm.py
@@ -197,9 +197,11 @@ class SNParamsTree(hk.Module):
 
     # We want to potentially replace params with Spectral Normalized versions.
     new_values = {}
-    for module_name, param_dict in tree.items():
+    # Names depend on the order of construction, so use one that does not depend
+    # on the order of keys (which e.g. `jax.tree_map` may change).
+    for module_name, param_dict in sorted(tree.items()):
       new_values[module_name] = {
           k: maybe_sn("/".join([module_name, k]), v)
-          for k, v in param_dict.items()
+          for k, v in sorted(param_dict.items())
       }
     return hk.data_structures.to_immutable_dict(new_values)
-- 
2.43.0


From b9e5f9eebbba6f21bcc7fb5eaf9ff425bb8bf58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:34 +0000
Subject: [PATCH 15/23] fix: treat scalar states without a batch as unbatched
 in ResetCore

---
 haiku/_src/recurrent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/recurrent.py b/haiku/_src/recurrent.py
index ef8164b..b4332c8 100644
--- a/haiku/_src/recurrent.py
+++ b/haiku/_src/recurrent.py
@@ -689,7 +689,8 @@ class ResetCore(RNNCore):
     if not state:  # Empty state is treated as unbatched.
       return False
     batched = jax.tree_leaves(self.initial_state(batch_size=1))
-    return all(b.shape[1:] == s.shape[1:] for b, s in zip(batched, state))
+    return all(b.ndim == s.ndim and b.shape[1:] == s.shape[1:]
+               for b, s in zip(batched, state))
 
 
 class _DeepRNN(RNNCore):
-- 
2.43.0


From d1e342612d0163880a3141352bbda68b1b38a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:57 +0000
Subject: [PATCH 16/23] fix: accept explicit padding pairs in ConvND, as
 documented

---
 haiku/_src/pad.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/pad.py b/haiku/_src/pad.py
index dd99f2a..60362b8 100644
--- a/haiku/_src/pad.py
+++ b/haiku/_src/pad.py
@@ -61,7 +61,8 @@ def create(
   """Generates the padding required for a given padding algorithm.
 
   Args:
-    padding: callable or list of callables of length n. The callables take an
+    padding: callable or list of callables or ``(before, after)`` pairs of
+      length n; pairs are used as they are. The callables take an
       integer representing the effective kernel size (kernel size when the rate
       is 1) and return a list of two integers representing the padding before
       and padding after for that dimension.
@@ -83,7 +84,8 @@ def create(
       lambda kernel, rate: (kernel - 1) * rate + 1,
       utils.replicate(kernel, n, "kernel"), utils.replicate(rate, n, "rate"))
   paddings = map(  # pylint: disable=deprecated-lambda
-      lambda x, y: x(y), utils.replicate(padding, n, "padding"),
+      lambda x, y: x(y) if callable(x) else tuple(x),
+      utils.replicate(padding, n, "padding"),
       effective_kernel_size)
 
   return tuple(paddings)
-- 
2.43.0


From c2d04b8ab116c917fa86ed5904408a8e6638a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:56 +0000
Subject: [PATCH 17/23] fix: accept any sequence as output_size in Bias, as
 documented

---
 haiku/_src/bias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/bias.py b/haiku/_src/bias.py
index 1dbb31b..11fa7d6 100644
--- a/haiku/_src/bias.py
+++ b/haiku/_src/bias.py
@@ -91,7 +91,7 @@ class Bias(hk.Module):
       name: Name of the module.
     """
     super().__init__(name=name)
-    self.output_size = output_size
+    self.output_size = None if output_size is None else tuple(output_size)
     self.bias_dims = bias_dims
     self.b_init = b_init or jnp.zeros
     self.bias_shape = None
-- 
2.43.0


From 84a9e9392742af798b710291f037e993666210a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:56 +0000
Subject: [PATCH 18/23] fix: scale and offset per channel in channels-first
 InstanceNorm

---
 haiku/_src/layer_norm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 8df833f..10ce419 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -86,6 +86,7 @@ class LayerNorm(hk.Module):
     self.create_offset = create_offset
     self.scale_init = scale_init or jnp.ones
     self.offset_init = offset_init or jnp.zeros
+    self._channel_index = -1
 
   def __call__(
       self,
@@ -123,7 +124,10 @@ class LayerNorm(hk.Module):
     mean = jnp.mean(inputs, axis=axis, keepdims=True)
     variance = jnp.var(inputs, axis=axis, keepdims=True)
 
-    param_shape = inputs.shape[-1:]
+    if self._channel_index == 1:
+      param_shape = inputs.shape[1:2] + (1,) * (inputs.ndim - 2)
+    else:
+      param_shape = inputs.shape[-1:]
     if self.create_scale:
       scale = hk.get_parameter("scale", param_shape, inputs.dtype,
                                init=self.scale_init)
@@ -180,7 +184,8 @@ class InstanceNorm(LayerNorm):
         default it is ``channels_last``.
       name: Name of the module.
     """
-    if utils.get_channel_index(data_format) == 1:
+    channel_index = utils.get_channel_index(data_format)
+    if channel_index == 1:
       axis = slice(2, None)
     else:  # channel_index = -1
       axis = slice(1, -1)
@@ -192,3 +197,4 @@ class InstanceNorm(LayerNorm):
         scale_init=scale_init,
         offset_init=offset_init,
         name=name)
+    self._channel_index = channel_index
-- 
2.43.0


From 6686ebc597efd7e1759dbcf8021d64411dfa2cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:56 +0000
Subject: [PATCH 19/23] fix: resolve negative axes in GroupNorm before adding
 the groups axis

---
 haiku/_src/group_norm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 213707a..90fe2fe 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -220,6 +220,8 @@ class GroupNorm(hk.Module):
     if isinstance(self.axis, slice):
       axes = tuple(range(self.rank))
       self.axis = axes[self.axis]
+    else:
+      self.axis = tuple(a + self.rank if a < 0 else a for a in self.axis)
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
-- 
2.43.0


From ffceb92c8e136b04d28b01ad4c8d3f3a0a51ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:56 +0000
Subject: [PATCH 20/23] fix: GroupNorm keeps the shape of each input, not of
 the first

---
 haiku/_src/group_norm.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 90fe2fe..4a66a23 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -181,14 +181,18 @@ class GroupNorm(hk.Module):
           f"was channels={channels}, groups={self.groups}")
 
     if self.rank is None:
-      self._initialize(x, channels)
+      self._initialize(x)
 
     dtype = x.dtype
+    input_shape = x.shape
     if self.channel_index == -1:
       params_shape = (x.shape[-1],)
+      group_shape = x.shape[:-1] + (self.groups, channels // self.groups)
     else:
       assert self.channel_index == 1
       params_shape = (x.shape[1],) + (1,) * (self.rank - 2)
+      group_shape = (
+          x.shape[:1] + (self.groups, channels // self.groups) + x.shape[2:])
 
     if self.create_scale:
       scale = hk.get_parameter("scale", params_shape, dtype, self.scale_init)
@@ -196,11 +200,11 @@ class GroupNorm(hk.Module):
     if self.create_offset:
       offset = hk.get_parameter("offset", params_shape, dtype, self.offset_init)
 
-    x = x.reshape(self.group_shape)
+    x = x.reshape(group_shape)
     mean = jnp.mean(x, self.axis, keepdims=True)
     var = jnp.var(x, self.axis, keepdims=True)
     x = (x - mean) * jax.lax.rsqrt(var + self.eps)
-    x = x.reshape(self.first_input_shape)
+    x = x.reshape(input_shape)
 
     if scale is not None:
       scale = jax.lax.broadcast_to_rank(scale, x.ndim)
@@ -212,7 +216,7 @@ class GroupNorm(hk.Module):
 
     return x
 
-  def _initialize(self, x: jnp.ndarray, channels: int):
+  def _initialize(self, x: jnp.ndarray):
     assert self.rank is None
     self.rank = x.ndim
 
@@ -225,12 +229,6 @@ class GroupNorm(hk.Module):
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1,) + x.shape[1:-1] + (self.groups, channels // self.groups))
     else:
       assert self.channel_index == 1
       self.axis = tuple(a if a == 0 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1, self.groups, channels // self.groups) + x.shape[2:])
-
-    self.first_input_shape = (-1,) + x.shape[1:]
-- 
2.43.0


From 2263dbc7109dde8d04dc2110d3a7c0181679a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 21/23] fix: leave out methods that raised from summaries

---
 haiku/_src/summarise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 7583547..36e8e73 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -209,7 +209,8 @@ def eval_summary(
     used_modules = []
     with sidechannel(used_modules):
       jax.eval_shape(init_apply, *args, **kwargs)
-    return used_modules
+    # Methods that raised have no invocation to report.
+    return [m for m in used_modules if m is not None]
 
   return wrapper
 
-- 
2.43.0


From 32c030a50537baf32cfb9879b19f84c476cc8780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 22/23] fix: summaries do not count the module asked for as
 used by running modules

---
 haiku/_src/summarise.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 36e8e73..02ee974 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -39,6 +39,7 @@ hk.experimental.intercept_methods = module_lib.intercept_methods
 hk.transform_with_state = transform.transform_with_state
 hk.Transformed = transform.Transformed
 hk.TransformedWithState = transform.TransformedWithState
+params_or_state_dict = module_lib.params_or_state_dict
 del module_lib
 
 T = TypeVar("T")
@@ -85,8 +86,13 @@ class ModuleDetails:
 
   @classmethod
   def of(cls, module: hk.Module, method_name: str) -> "ModuleDetails":
-    params = jax.tree_map(ArraySpec.from_array, module.params_dict())
-    state = jax.tree_map(ArraySpec.from_array, module.state_dict())
+    # NOTE: Calling `module.params_dict()` here would count as a use of `module`
+    # by every module currently running (including its own submodules).
+    params, state = (
+        params_or_state_dict(module.module_name, module._submodules, which)  # pylint: disable=protected-access
+        for which in ("params", "state"))
+    params = jax.tree_map(ArraySpec.from_array, params)
+    state = jax.tree_map(ArraySpec.from_array, state)
     return ModuleDetails(module=module, method_name=method_name, params=params,
                          state=state)
 
-- 
2.43.0


From da9fc78be4b9c8d1f373fe3d85e03419d1952800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 23/23] fix: to_dot drew edges from nodes that do not exist for
 operations with several results

Edges from the second and later results of an operation now start at its node,
and nodes are labelled as outputs whichever of their results is returned.
---
 haiku/_src/dot.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index cebe56d..4ed4bfe 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -279,7 +279,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
   lines = []
   used_argids = set()
   argid_usecount = collections.Counter()
-  op_outids = set()
+  op_outids = {}  # From the ID of an output to the ID of its node.
   captures = []
   argids = {id(v) for v in jax.tree_leaves(args)}
   outids = {id(v) for v in jax.tree_leaves(outputs)}
@@ -304,11 +304,13 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
       label = f'<b>{escape(node.title)}</b>'
       for o in node.outputs:
         label += '<br/>' + _format_val(o)
-        op_outids.add(id(o))
+        op_outids[id(o)] = id(node.id)
 
       node_id = id(node.id)
-      if node_id in outids:
-        label = f'<b>{escape(outname[node_id])}</b><br/>' + label
+      node_outids = [id(o) for o in node.outputs if id(o) in outids]
+      if node_outids:
+        for outid in reversed(node_outids):
+          label = f'<b>{escape(outname[outid])}</b><br/>' + label
         color = '#0053D6'
         fillcolor = '#AABFFF'
         style = 'filled,bold'
@@ -342,7 +344,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
         argid_usecount[a] += 1
         lines.append(f'{a}{i} -> {b};')
       else:
-        lines.append(f'{a} -> {b};')
+        lines.append(f'{op_outids.get(a, a)} -> {b};')
       used_argids.add(a)
 
   graph_depth = _max_depth(graph)
-- 
2.43.0

