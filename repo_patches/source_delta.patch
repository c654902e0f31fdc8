From 503cb93858c0b3d3044c3476ed48f8dafc549311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 01/30] fix: masked must not drop array-valued or empty params

`if params:` raises for array params and treats falsy params as missing.
---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d37ff78..820ead0 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -323,7 +323,7 @@ def masked(
     flat_updates = treedef.flatten_up_to(updates)
     masked_updates = [g for g, m in zip(flat_updates, flat_mask) if m]
 
-    if params:
+    if params is not None:
       flat_params = treedef.flatten_up_to(params)
       masked_params = [p for p, m in zip(flat_params, flat_mask) if m]
     else:
-- 
2.43.0


From 519d9ed545ef864d6ae2b448446d52de82bc5e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 02/30] fix: MultiSteps passes params to the wrapped optimiser

---
 optax/_src/wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index 820ead0..afa044a 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -229,7 +229,6 @@ class MultiSteps:
 
   def update(self, grads: Any, state: MultiStepsState, params: Any = None):
     """Accumulates gradients and proposes non-zero updates every `k_steps`."""
-    del params
     k_steps = self._every_k_schedule(state.gradient_step)
     acc_grads = jax.tree_util.tree_multimap(lambda a, b: a + b, grads,
                                             state.acc_grads)
@@ -241,7 +240,7 @@ class MultiSteps:
       else:
         grads_for_update = acc_grads
       updates, new_inner_state = self._opt.update(
-          grads_for_update, state.inner_opt_state)
+          grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
                                   gradient_step=state.gradient_step + 1,
                                   inner_opt_state=new_inner_state,
-- 
2.43.0


From bd5c1d983964aca1c72afc8601d6c0669dd762a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 03/30] fix: lookahead passes the fast params to the fast
 optimizer

---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 7f84f2b..1f6ec30 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -114,7 +114,7 @@ def lookahead(
       updates: base.Updates, state: LookaheadState,
       params: LookaheadParams) -> Tuple[LookaheadParams, LookaheadState]:
     updates, fast_state = fast_optimizer.update(updates, state.fast_state,
-                                                params)
+                                                params.fast)
 
     sync_next = (state.steps_since_sync == sync_period - 1)
     updates = _lookahead_update(updates, sync_next, params, slow_step_size)
-- 
2.43.0


From 6822504c0641f890b04e11dc23a99529c5615d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 04/30] fix: lookahead state reset selects instead of mixing
 states

The arithmetic mix lets non-finite entries survive the reset and changes the
dtype of boolean state leaves.
---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 1f6ec30..58ab7ee 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -123,7 +123,7 @@ def lookahead(
       # synchronized after this update step.
       initial_state = fast_optimizer.init(params.fast)
       fast_state = jax.tree_multimap(
-          lambda current, init: (1 - sync_next) * current + sync_next * init,
+          lambda current, init: jnp.where(sync_next, init, current),
           fast_state, initial_state)
 
     steps_since_sync = (state.steps_since_sync + 1) % sync_period
-- 
2.43.0


From 02bef3def9e5256c46c50075c18e216836d6e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 05/30] fix: lookahead leaves slow params untouched between
 synchronizations

Multiplying a non-finite difference by a False flag yields NaN.
---
 optax/_src/lookahead.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 58ab7ee..39c6b85 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -177,16 +177,20 @@ def _lookahead_update(
   # To make the equations jittable, the two types of steps are merged. Defining
   # last_difference = fast_params + updates - slow_params, this yields the
   # following equtions which are implemented below:
-  #   slow_updates = slow_step_size * sync_next * last_difference
+  #   slow_updates = slow_step_size * last_difference if sync_next else 0
   #   fast_updates = updates - (
-  #                  1 - slow_step_size) * sync_next * last_difference
+  #                  1 - slow_step_size) * last_difference if sync_next
+  #                  else updates
   last_difference = jax.tree_multimap(lambda f, u, s: f + u - s, params.fast,
                                       updates, params.slow)
-  slow_updates = jax.tree_map(lambda diff: slow_step_size * sync_next * diff,
-                              last_difference)
-  fast_updates = jax.tree_multimap(
-      lambda up, diff: up - sync_next * (1 - slow_step_size) * diff, updates,
+  slow_updates = jax.tree_map(
+      lambda diff: jnp.where(  # pylint:disable=g-long-lambda
+          sync_next, slow_step_size * diff, jnp.zeros_like(diff)),
       last_difference)
+  fast_updates = jax.tree_multimap(
+      lambda up, diff: jnp.where(  # pylint:disable=g-long-lambda
+          sync_next, up - (1 - slow_step_size) * diff, up),
+      updates, last_difference)
 
   return LookaheadParams(fast=fast_updates, slow=slow_updates)
 
-- 
2.43.0


From 909f92cd98d1a7e9f25a7b0f830a13632101e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 06/30] fix: ema without debiasing returns the average, not the
 raw updates

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8f5a6ad..8ffdd83 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -125,8 +125,8 @@ def ema(
     del params
     new_ema = _update_moment(updates, state.ema, decay, order=1)
     count_inc = utils.safe_int32_increment(state.count)
-    if debias:
-      updates = _bias_correction(new_ema, decay, count_inc)
+    updates = (
+        _bias_correction(new_ema, decay, count_inc) if debias else new_ema)
     new_ema = utils.cast_tree(new_ema, accumulator_dtype)
     return updates, EmaState(count=count_inc, ema=new_ema)
 
-- 
2.43.0


From 52b7c625289a29ab6a22b545abe894e3e47ff13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 07/30] fix: scale_by_sm3 handles scalars and keeps the dtype
 of the params

---
 optax/_src/transform.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8ffdd83..a89a426 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -745,7 +745,9 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
-    return [jnp.zeros([s]) for s in p.shape]
+    # Scalars are covered by a single (scalar) accumulator.
+    shapes = [[s] for s in p.shape] or [[]]
+    return [jnp.zeros(shape, dtype=p.dtype) for shape in shapes]
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
@@ -756,6 +758,8 @@ def scale_by_sm3(
     # Replaces a `shape` of [M, N, K] with 1 in all dimensions except for i.
     # For eg: i = 1 returns [1, N, 1].
     rank = len(shape)
+    if rank == 0:
+      return []
     return [1] * axis + [shape[axis]] + [1] * (rank - axis - 1)
 
   def _new_accum(g, v):
@@ -778,7 +782,7 @@ def scale_by_sm3(
     del params
     mu = jax.tree_multimap(
         lambda g, v:  # pylint:disable=g-long-lambda
-        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(g.ndim)],
+        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(len(v))],
         updates, state.mu)
     accum = jax.tree_multimap(_new_accum, updates, mu)
     accum_inv_sqrt = jax.tree_map(
@@ -786,7 +790,7 @@ def scale_by_sm3(
     up = jax.tree_multimap(lambda g, a: g*a, updates, accum_inv_sqrt)
     nu = _update_moment(up, state.nu, b1, 1)
     mu = jax.tree_map(
-        lambda g: [_new_mu(g, i) for i in range(g.ndim)], accum)
+        lambda g: [_new_mu(g, i) for i in range(max(g.ndim, 1))], accum)
 
     return nu, ScaleBySM3State(mu=mu, nu=nu)
 
-- 
2.43.0


From 59c690deee5d40f0fa07ab2c78c06c9604c332d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 08/30] fix: sm3 accepts momentum=None as documented

---
 optax/_src/alias.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/alias.py b/optax/_src/alias.py
index 2e61aa7..4e9c167 100644
--- a/optax/_src/alias.py
+++ b/optax/_src/alias.py
@@ -406,7 +406,7 @@ def sgd(
 
 def sm3(
     learning_rate: float,
-    momentum: float = 0.9
+    momentum: Optional[float] = 0.9
 ) -> base.GradientTransformation:
   """The SM3 optimiser.
 
@@ -431,7 +431,7 @@ def sm3(
     the corresponding `GradientTransformation`.
   """
   return combine.chain(
-      transform.scale_by_sm3(momentum),
+      transform.scale_by_sm3(momentum if momentum is not None else 0.),
       transform.scale(-learning_rate),
   )
 
-- 
2.43.0


From ee28de56f9e298abb01894a4e2dd37f1e745b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 09/30] fix: add_noise noise has variance eta / t**gamma as
 documented

The standard normal noise was multiplied by the variance.
---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index a89a426..3ca06af 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -633,13 +633,13 @@ def add_noise(
     num_vars = len(jax.tree_leaves(updates))
     treedef = jax.tree_structure(updates)
     count_inc = numerics.safe_int32_increment(state.count)
-    variance = eta / count_inc**gamma
+    stddev = jnp.sqrt(eta / count_inc**gamma)
     all_keys = jax.random.split(state.rng_key, num=num_vars + 1)
     noise = jax.tree_multimap(
         lambda g, k: jax.random.normal(k, shape=g.shape, dtype=g.dtype),
         updates, jax.tree_unflatten(treedef, all_keys[1:]))
     updates = jax.tree_multimap(
-        lambda g, n: g + variance.astype(g.dtype) * n,
+        lambda g, n: g + stddev.astype(g.dtype) * n,
         updates, noise)
     return updates, AddNoiseState(count=count_inc, rng_key=all_keys[0])
 
-- 
2.43.0


From 3a2d9de764e42f7544722911584c757bf06962ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 10/30] fix: noisy_sgd adds the noise to the gradients as
 documented

It was added to the scaled updates, so that its size ignored the learning rate.
---
 optax/_src/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/alias.py b/optax/_src/alias.py
index 4e9c167..006e426 100644
--- a/optax/_src/alias.py
+++ b/optax/_src/alias.py
@@ -275,8 +275,8 @@ def noisy_sgd(
     the corresponding `GradientTransformation`.
   """
   return combine.chain(
-      _scale_by_learning_rate(learning_rate),
       transform.add_noise(eta, gamma, seed),
+      _scale_by_learning_rate(learning_rate),
   )
 
 
-- 
2.43.0


From 61da0701910cee442720a0550753f97ec51d8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 11/30] fix: staircase exponential_decay uses an integer
 division

The compiled floating point division can round below the integer, so that a
stair started one step late.
---
 optax/_src/schedule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 0503bd0..63b0132 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -192,9 +192,10 @@ def exponential_decay(
 
   def schedule(count):
     decreased_count = count - transition_begin
-    p = decreased_count / transition_steps
     if staircase:
-      p = jnp.floor(p)
+      p = jnp.floor_divide(decreased_count, transition_steps)
+    else:
+      p = decreased_count / transition_steps
     decayed_value = jnp.where(
         decreased_count <= 0, init_value, init_value * jnp.power(decay_rate, p))
     if end_value is not None:
-- 
2.43.0


From 26bd48a92b771e12b05fddd8703aa07627eccd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 12/30] fix: piecewise_interpolate_schedule with a boundary at
 step 0

The empty first interval turned every value of the schedule into NaN.
---
 optax/_src/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 63b0132..6768289 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -281,6 +281,8 @@ def piecewise_interpolate_schedule(
   bounds = jnp.stack((0,) + boundaries)
   values = jnp.cumprod(jnp.stack((init_value,) + scales))
   interval_sizes = (bounds[1:] - bounds[:-1])
+  # An empty interval contains no step: any non-zero size avoids a 0 / 0.
+  interval_sizes = jnp.where(interval_sizes == 0, 1, interval_sizes)
 
   def schedule(count):
     indicator = (bounds[:-1] <= count) & (count < bounds[1:])
-- 
2.43.0


From 472794c975306733a847ce2fd8f3234bce9e3092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 13/30] fix: apply_every drops non-finite accumulated gradients

Multiplying a NaN or infinity by a False flag yields NaN: one bad gradient
poisoned the accumulator forever and was emitted at every step.
---
 optax/_src/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 3ca06af..5a2ccee 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -679,9 +679,11 @@ def apply_every(
     c = state.count % k
     acc = c != 0
     grad_acc = jax.tree_multimap(
-        lambda g, ga: acc * ga + g, updates, state.grad_acc)
+        lambda g, ga: jnp.where(acc, ga, jnp.zeros_like(ga)) + g,
+        updates, state.grad_acc)
     emit = c == (k - 1)
-    updates = jax.tree_map(lambda ga: emit * ga, grad_acc)
+    updates = jax.tree_map(
+        lambda ga: jnp.where(emit, ga, jnp.zeros_like(ga)), grad_acc)
     count_inc = numerics.safe_int32_increment(state.count)
     return updates, ApplyEvery(count=count_inc % k, grad_acc=grad_acc)
 
-- 
2.43.0


From da184565f9b1d76924850b2306a743d9e9643f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 14/30] fix: scale_by_stddev does not take the root of a
 negative variance

For (nearly) constant gradients `nu - mu**2` can round below `-eps`, which gave
NaN updates.
---
 optax/_src/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 5a2ccee..b867ffc 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -249,7 +249,9 @@ def scale_by_stddev(
     mu = _update_moment(updates, state.mu, decay, 1)
     nu = _update_moment(updates, state.nu, decay, 2)
     updates = jax.tree_multimap(
-        lambda g, m, n: g * jax.lax.rsqrt(n - jnp.square(m) + eps), updates, mu,
+        # Rounding errors must not make the variance negative.
+        lambda g, m, n: g * jax.lax.rsqrt(  # pylint:disable=g-long-lambda
+            jnp.maximum(n - jnp.square(m), 0.) + eps), updates, mu,
         nu)
     return updates, ScaleByRStdDevState(mu=mu, nu=nu)
 
-- 
2.43.0


From 46695c5f6f2b79e650eb7a2e2066ed271671728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 15/30] fix: clip_by_global_norm keeps the dtype of every leaf

The leaves of lower precision of a mixed tree were promoted.
---
 optax/_src/clipping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/clipping.py b/optax/_src/clipping.py
index e571a9e..e677717 100644
--- a/optax/_src/clipping.py
+++ b/optax/_src/clipping.py
@@ -76,7 +76,8 @@ def clip_by_global_norm(max_norm) -> base.GradientTransformation:
     # updates = jax.tree_map(lambda t: (t / g_norm) * max_norm, updates)
     trigger = g_norm < max_norm
     updates = jax.tree_map(
-        lambda t: jnp.where(trigger, t, (t / g_norm) * max_norm), updates)
+        lambda t: jnp.where(  # pylint:disable=g-long-lambda
+            trigger, t, ((t / g_norm) * max_norm).astype(t.dtype)), updates)
     return updates, state
 
   return base.GradientTransformation(init_fn, update_fn)
-- 
2.43.0


From 04702e9cec1da46c4b6e8786af6d2e2f91ab402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 16/30] fix: matrix_inverse_pth_root for every positive integer
 p

mat_power rounded log2(p), so that only p = 1, 2, 4 and 8 were correct.
---
 optax/_src/linear_algebra.py | 48 ++++++++++++++----------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 5e25b0f..8dd6b60 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -122,28 +122,8 @@ def matrix_inverse_pth_root(
       error_tolerance=1e-6, precision=precision)
   ridge_epsilon = ridge_epsilon * jnp.maximum(max_ev, 1e-16)
 
-  def _unrolled_mat_pow_1(mat_m):
-    """Computes mat_m^1."""
-    return mat_m
-
-  def _unrolled_mat_pow_2(mat_m):
-    """Computes mat_m^2."""
-    return jnp.matmul(mat_m, mat_m, precision=precision)
-
-  def _unrolled_mat_pow_4(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_2 = _unrolled_mat_pow_2(mat_m)
-    return jnp.matmul(
-        mat_pow_2, mat_pow_2, precision=precision)
-
-  def _unrolled_mat_pow_8(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_4 = _unrolled_mat_pow_4(mat_m)
-    return jnp.matmul(
-        mat_pow_4, mat_pow_4, precision=precision)
-
   def mat_power(mat_m, p):
-    """Computes mat_m^p, for p == 1, 2, 4 or 8.
+    """Computes mat_m^p by repeated squaring.
 
     Args:
       mat_m: a square matrix
@@ -152,15 +132,23 @@ def matrix_inverse_pth_root(
     Returns:
       mat_m^p
     """
-    # We unrolled the loop for performance reasons.
-    exponent = jnp.round(jnp.log2(p))
-    return lax.switch(
-        jnp.asarray(exponent, jnp.int32), [
-            _unrolled_mat_pow_1,
-            _unrolled_mat_pow_2,
-            _unrolled_mat_pow_4,
-            _unrolled_mat_pow_8,
-        ], (mat_m))
+    def _power_condition(state):
+      exponent, unused_square, unused_power = state
+      return exponent > 0
+
+    def _power_body(state):
+      exponent, square, power = state
+      power = jnp.where(
+          exponent % 2 == 1,
+          jnp.matmul(power, square, precision=precision), power)
+      return (exponent // 2, jnp.matmul(square, square, precision=precision),
+              power)
+
+    _, _, power = lax.while_loop(
+        _power_condition, _power_body,
+        (jnp.asarray(p, jnp.int32), mat_m, jnp.eye(
+            matrix_size, dtype=mat_m.dtype)))
+    return power
 
   def _iter_condition(state):
     (i, unused_mat_m, unused_mat_h, unused_old_mat_h, error,
-- 
2.43.0


From 8b3188d2f09adf588229ca81765a430e80516afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 17/30] fix: zero debiasing of moving_avg_baseline over several
 updates

The stored value is already debiased, yet the next update treated it as the
biased moving average and debiased it again, so that the baseline of a constant
grew without bound; the product of varying decay rates was also wrong.
---
 optax/_src/control_variates.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/optax/_src/control_variates.py b/optax/_src/control_variates.py
index f2e8c46..9a3eab3 100644
--- a/optax/_src/control_variates.py
+++ b/optax/_src/control_variates.py
@@ -165,6 +165,17 @@ def moving_avg_baseline(
     expected value of the control variate, and to update the control variate
     state.
   """
+  def decay_product(i):
+    """Product of the decay rates of the first `i` updates."""
+    if not use_decay_early_training_heuristic:
+      return jnp.power(decay, i)
+    # The first `num_early` updates use the rates (1 + j) / (10 + j), whose
+    # product telescopes.
+    num_early = jnp.ceil(jnp.divide(10.0 * decay - 1.0, 1.0 - decay))
+    early = jnp.clip(num_early, 0, i)
+    early_product = jnp.prod(jnp.arange(1, 10) / (early + jnp.arange(1, 10)))
+    return early_product * jnp.power(decay, i - early)
+
   def moving_avg(
       params: base.Params,
       samples: chex.Array,
@@ -192,12 +203,16 @@ def moving_avg_baseline(
     else:
       iteration_decay = decay
 
+    if zero_debias:
+      # The stored value is debiased: recover the moving average.
+      value *= jnp.ones([]) - decay_product(i)
+
     updated_value = iteration_decay * value
     updated_value += (1 - iteration_decay) * jnp.mean(
         jax.vmap(function)(samples))
 
     if zero_debias:
-      updated_value /= (jnp.ones([]) - jnp.power(iteration_decay, i + 1))
+      updated_value /= (jnp.ones([]) - decay_product(i + 1))
 
     return (jax.lax.stop_gradient(updated_value), i + 1)
 
-- 
2.43.0


From 2102e6bf4cf6d68474dd68abea4e6e02038a4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 18/30] fix: scale_by_radam keeps half-precision dtypes

The two branches of the lax.cond had different dtypes for parameters other
than the default float, so tracing failed.
---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index b867ffc..0492bd9 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -459,7 +459,8 @@ def scale_by_radam(
     nu_hat = params[2]
     r = jnp.sqrt((ro - 4)*(ro - 2)*ro_inf/((ro_inf - 4)*(ro_inf - 2)*ro))
     updates = jax.tree_multimap(
-        lambda m, v: r*m / (jnp.sqrt(v + eps_root) + eps), mu_hat, nu_hat)
+        lambda m, v: (r*m / (jnp.sqrt(v + eps_root) + eps)).astype(m.dtype),
+        mu_hat, nu_hat)
     return updates
 
   def init_fn(params):
-- 
2.43.0


From 512739578056d79a4847b904a65176d21df4780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 19/30] fix: polynomial_schedule is not NaN after its end when
 compiled

With a non-integer power, 1 - count / transition_steps could round to a
negative number (or to a small positive one, far from 0 after a power below 1)
once XLA replaces the division by a multiplication.
---
 optax/_src/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 6768289..7963ed8 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -84,7 +84,7 @@ def polynomial_schedule(
 
   def schedule(count):
     count = jnp.clip(count - transition_begin, 0, transition_steps)
-    frac = 1 - count / transition_steps
+    frac = (transition_steps - count) / transition_steps
     return (init_value - end_value) * (frac**power) + end_value
   return schedule
 
-- 
2.43.0


From 18d21746f846e05ef99c86954ec8329c0f5246fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 20/30] fix: differentially_private_aggregate rejects a scalar
 first leaf with its ValueError

---
 optax/_src/privacy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index 8c1b103..74c7cef 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -59,14 +59,15 @@ def differentially_private_aggregate(
   def update_fn(updates, state, params=None):
     del params
     grads_flat, grads_treedef = jax.tree_flatten(updates)
-    bsize = grads_flat[0].shape[0]
 
-    if any(g.ndim == 0 or bsize != g.shape[0] for g in grads_flat):
+    if any(g.ndim == 0 or grads_flat[0].shape[0] != g.shape[0]
+           for g in grads_flat):
       raise ValueError(
           'Unlike other transforms, `differentially_private_aggregate` expects'
           ' `updates` to have a batch dimension in the 0th axis. That is, this'
           ' function expects per-example gradients as input.')
 
+    bsize = grads_flat[0].shape[0]
     new_key, *rngs = jax.random.split(state.rng_key, len(grads_flat)+1)
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
     divisors = jnp.maximum(global_grad_norms / l2_norm_clip, 1.0)
-- 
2.43.0


From 412a4e148faf8154f958fecb73db3703d47b5a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 21/30] fix: add_noise does not overflow the step count for
 integer gamma

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 0492bd9..e7a883f 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -636,7 +636,8 @@ def add_noise(
     num_vars = len(jax.tree_leaves(updates))
     treedef = jax.tree_structure(updates)
     count_inc = numerics.safe_int32_increment(state.count)
-    stddev = jnp.sqrt(eta / count_inc**gamma)
+    # The power of an integer count overflows for integer values of `gamma`.
+    stddev = jnp.sqrt(eta / jnp.asarray(count_inc, float)**gamma)
     all_keys = jax.random.split(state.rng_key, num=num_vars + 1)
     noise = jax.tree_multimap(
         lambda g, k: jax.random.normal(k, shape=g.shape, dtype=g.dtype),
-- 
2.43.0


From f75362f631cee89c35543c8b06f4932ffe4e593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 22/30] fix: hessian_diag of parameters that do not have the
 default float dtype

---
 optax/_src/second_order.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/second_order.py b/optax/_src/second_order.py
index 6793dbc..748b07f 100644
--- a/optax/_src/second_order.py
+++ b/optax/_src/second_order.py
@@ -84,7 +84,8 @@ def hessian_diag(
     A DeviceArray corresponding to the product to the Hessian of `loss`
     evaluated at `(params, inputs, targets)`.
   """
-  vs = jnp.eye(ravel(params).size)
+  flat_params = ravel(params)
+  vs = jnp.eye(flat_params.size, dtype=flat_params.dtype)
   comp = lambda v: jnp.vdot(v, ravel(hvp(loss, v, params, inputs, targets)))
   return jax.vmap(comp)(vs)
 
-- 
2.43.0


From 5f1fe35dd2ce1e3d9e061a48a1aa988d990c0d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 23/30] fix: matrix_inverse_pth_root does not stop while the
 iteration converges

---
 optax/_src/linear_algebra.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 8dd6b60..72bafdc 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -158,15 +158,18 @@ def matrix_inverse_pth_root(
     return jnp.logical_and(i < num_iters, error_above_threshold)
 
   def _iter_body(state):
-    (i, mat_m, mat_h, unused_old_mat_h, error, unused_run_step) = state
+    (i, mat_m, mat_h, unused_old_mat_h, unused_error, unused_run_step) = state
     mat_m_i = (1 - alpha) * identity + alpha * mat_m
     new_mat_m = jnp.matmul(mat_power(mat_m_i, p), mat_m, precision=precision)
     new_mat_h = jnp.matmul(mat_h, mat_m_i, precision=precision)
     new_error = jnp.max(jnp.abs(new_mat_m - identity))
     # sometimes error increases after an iteration before decreasing and
-    # converging. 1.2 factor is used to bound the maximal allowed increase.
+    # converging. 1.2 factor is used to bound the maximal allowed increase. This
+    # compares norms because single entries may grow while the matrix converges.
+    norm = jnp.linalg.norm(mat_m - identity)
+    new_norm = jnp.linalg.norm(new_mat_m - identity)
     return (i + 1, new_mat_m, new_mat_h, mat_h, new_error,
-            new_error < error * 1.2)
+            new_norm < norm * 1.2)
 
   if matrix_size == 1:
     resultant_mat_h = (matrix + ridge_epsilon)**alpha
-- 
2.43.0


From 0dce272516bb0522c20d34fdb0e1eb9bc0e6a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 24/30] fix: scale_by_sm3 raises for parameters with an empty
 axis

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index e7a883f..f8fd1ae 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -779,7 +779,8 @@ def scale_by_sm3(
     if g.ndim < 2:
       return g
     else:
-      return jnp.max(g, axis=other_axes(i, g.ndim))
+      # The initial value only matters for leaves without entries.
+      return jnp.max(g, axis=other_axes(i, g.ndim), initial=0)
 
   def other_axes(idx, ndim):
     return list(range(idx)) + list(range(idx+1, ndim))
-- 
2.43.0


From f65b68652f16608d74f4565717574a9dd4173fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 25/30] fix: scale_by_sm3 fails for a traced b2, e.g. an
 injected one

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index f8fd1ae..1c8098d 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -769,7 +769,8 @@ def scale_by_sm3(
     return [1] * axis + [shape[axis]] + [1] * (rank - axis - 1)
 
   def _new_accum(g, v):
-    coeffs = ((1.0 - b2) if b2 != 1.0 else 1.0, b2)
+    # `b2` may be traced (e.g. when it is injected as a hyper-parameter).
+    coeffs = (jnp.where(b2 != 1.0, 1.0 - b2, 1.0), b2)
     if g.ndim < 2:
       return coeffs[0]*g**2 + coeffs[1]*v[0]
     else:
-- 
2.43.0


From aac0c1d7b7c988ab9ce591b4cf946092d5030053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 26/30] fix: exponential_decay raises for an integer decay rate
 before transition_begin

---
 optax/_src/schedule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 7963ed8..5f29c5d 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -196,8 +196,11 @@ def exponential_decay(
       p = jnp.floor_divide(decreased_count, transition_steps)
     else:
       p = decreased_count / transition_steps
+    # Integers cannot be raised to the negative powers of the steps before
+    # `transition_begin`, and their powers overflow.
     decayed_value = jnp.where(
-        decreased_count <= 0, init_value, init_value * jnp.power(decay_rate, p))
+        decreased_count <= 0, init_value,
+        init_value * jnp.power(1.0 * decay_rate, p))
     if end_value is not None:
       decayed_value = clip_fn(decayed_value, end_value)
     return decayed_value
-- 
2.43.0


From 5361686be1abbe8d8f47b54e3612a763acf71744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:35 +0000
Subject: [PATCH 27/30] fix: derivatives through norm clipping are NaN at zero
 gradients

---
 optax/_src/clipping.py       | 10 ++++++++--
 optax/_src/linear_algebra.py |  7 +++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/optax/_src/clipping.py b/optax/_src/clipping.py
index e677717..c359249 100644
--- a/optax/_src/clipping.py
+++ b/optax/_src/clipping.py
@@ -75,9 +75,12 @@ def clip_by_global_norm(max_norm) -> base.GradientTransformation:
     # g_norm = jnp.maximum(max_norm, g_norm)
     # updates = jax.tree_map(lambda t: (t / g_norm) * max_norm, updates)
     trigger = g_norm < max_norm
+    # Where the branch is not taken, do not divide by a norm that may be zero:
+    # the derivative would be NaN.
+    divisor = jnp.where(trigger, 1.0, g_norm)
     updates = jax.tree_map(
         lambda t: jnp.where(  # pylint:disable=g-long-lambda
-            trigger, t, ((t / g_norm) * max_norm).astype(t.dtype)), updates)
+            trigger, t, ((t / divisor) * max_norm).astype(t.dtype)), updates)
     return updates, state
 
   return base.GradientTransformation(init_fn, update_fn)
@@ -99,7 +102,10 @@ def unitwise_norm(x):
     keepdims = True
   else:
     raise ValueError(f'Got a parameter with shape not in [1, 2, 3, 4]! {x}')
-  return jnp.sum(x ** 2, axis=axis, keepdims=keepdims) ** 0.5
+  sum_sq = jnp.sum(x ** 2, axis=axis, keepdims=keepdims)
+  # The derivative of the square root at zero is infinite.
+  is_zero = sum_sq == 0
+  return jnp.where(is_zero, 0.0, jnp.where(is_zero, 1, sum_sq) ** 0.5)
 
 
 def unitwise_clip(g_norm, max_norm, grad):
diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 72bafdc..cd9ed26 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -24,8 +24,11 @@ from optax._src import base
 
 def global_norm(updates: base.Updates) -> base.Updates:
   """Compute the global norm across a nested structure of tensors."""
-  return jnp.sqrt(
-      sum([jnp.sum(jnp.square(x)) for x in jax.tree_leaves(updates)]))
+  sum_sq = sum([jnp.sum(jnp.square(x)) for x in jax.tree_leaves(updates)])
+  # The derivative of the square root at zero is infinite, so that of the norm
+  # would be NaN.
+  is_zero = sum_sq == 0
+  return jnp.where(is_zero, 0.0, jnp.sqrt(jnp.where(is_zero, 1, sum_sq)))
 
 
 def power_iteration(
-- 
2.43.0


From 2db5ee61afbd638d6987b8728fd41a5880dd73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:28 +0000
Subject: [PATCH 28/30] fix: clip_by_global_norm with max_norm 0 returns NaN
 for zero updates

---
 optax/_src/clipping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/clipping.py b/optax/_src/clipping.py
index c359249..2674591 100644
--- a/optax/_src/clipping.py
+++ b/optax/_src/clipping.py
@@ -74,7 +74,7 @@ def clip_by_global_norm(max_norm) -> base.GradientTransformation:
     # once analysed how it affects backprop through update (e.g. meta-gradients)
     # g_norm = jnp.maximum(max_norm, g_norm)
     # updates = jax.tree_map(lambda t: (t / g_norm) * max_norm, updates)
-    trigger = g_norm < max_norm
+    trigger = g_norm <= max_norm
     # Where the branch is not taken, do not divide by a norm that may be zero:
     # the derivative would be NaN.
     divisor = jnp.where(trigger, 1.0, g_norm)
-- 
2.43.0


From 43b66319efcd8e8fbdab43bd7ac73d08cd8f437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:28 +0000
Subject: [PATCH 29/30] fix: differentially_private_aggregate with a zero bound
 returns NaN for zero examples

---
 optax/_src/privacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index 74c7cef..57440bf 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -70,7 +70,8 @@ def differentially_private_aggregate(
     bsize = grads_flat[0].shape[0]
     new_key, *rngs = jax.random.split(state.rng_key, len(grads_flat)+1)
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
-    divisors = jnp.maximum(global_grad_norms / l2_norm_clip, 1.0)
+    divisors = jnp.where(global_grad_norms <= l2_norm_clip,
+                         1.0, global_grad_norms / l2_norm_clip)
     clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1) for g in grads_flat]
     noised = [(g + noise_std * jax.random.normal(r, g.shape, g.dtype)) / bsize
               for g, r in zip(clipped, rngs)]
-- 
2.43.0


From bf8f859022d72a1fff816aaf8b53e58ccc6a3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:28 +0000
Subject: [PATCH 30/30] fix: differentially_private_aggregate keeps the dtype
 of every leaf

The leaves of lower precision of a mixed tree were promoted, because the
divisors have the widest type.
---
 optax/_src/privacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index 57440bf..c187e67 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -72,7 +72,8 @@ def differentially_private_aggregate(
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
     divisors = jnp.where(global_grad_norms <= l2_norm_clip,
                          1.0, global_grad_norms / l2_norm_clip)
-    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1) for g in grads_flat]
+    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1).astype(g.dtype)
+               for g in grads_flat]
     noised = [(g + noise_std * jax.random.normal(r, g.shape, g.dtype)) / bsize
               for g, r in zip(clipped, rngs)]
     return (jax.tree_unflatten(grads_treedef, noised),
-- 
2.43.0

