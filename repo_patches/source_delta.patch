From 93202cbbf099de909e1fad72745d3139b5dd871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 01/21] fix: ema(debias=False) returned the raw updates instead
 of their average

---
 optax/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8f5a6ad..3d600d0 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -123,7 +123,7 @@ def ema(
 
   def update_fn(updates, state, params=None):
     del params
-    new_ema = _update_moment(updates, state.ema, decay, order=1)
+    updates = new_ema = _update_moment(updates, state.ema, decay, order=1)
     count_inc = utils.safe_int32_increment(state.count)
     if debias:
       updates = _bias_correction(new_ema, decay, count_inc)
-- 
2.43.0


From 681df8fe12aa34d56875bea3dd5535c2cea01e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 02/21] fix: add_noise used the documented variance as a
 standard deviation

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 3d600d0..3b839f4 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -633,13 +633,13 @@ def add_noise(
     num_vars = len(jax.tree_leaves(updates))
     treedef = jax.tree_structure(updates)
     count_inc = numerics.safe_int32_increment(state.count)
-    variance = eta / count_inc**gamma
+    standard_deviation = jnp.sqrt(eta / count_inc**gamma)
     all_keys = jax.random.split(state.rng_key, num=num_vars + 1)
     noise = jax.tree_multimap(
         lambda g, k: jax.random.normal(k, shape=g.shape, dtype=g.dtype),
         updates, jax.tree_unflatten(treedef, all_keys[1:]))
     updates = jax.tree_multimap(
-        lambda g, n: g + variance.astype(g.dtype) * n,
+        lambda g, n: g + standard_deviation.astype(g.dtype) * n,
         updates, noise)
     return updates, AddNoiseState(count=count_inc, rng_key=all_keys[0])
 
-- 
2.43.0


From 87d514182b5ec645561815d6a8d46ab97caa5434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 03/21] fix: MultiSteps dropped params, so optimisers that need
 them failed

---
 optax/_src/wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d37ff78..d71bc32 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -229,7 +229,6 @@ class MultiSteps:
 
   def update(self, grads: Any, state: MultiStepsState, params: Any = None):
     """Accumulates gradients and proposes non-zero updates every `k_steps`."""
-    del params
     k_steps = self._every_k_schedule(state.gradient_step)
     acc_grads = jax.tree_util.tree_multimap(lambda a, b: a + b, grads,
                                             state.acc_grads)
@@ -241,7 +240,7 @@ class MultiSteps:
       else:
         grads_for_update = acc_grads
       updates, new_inner_state = self._opt.update(
-          grads_for_update, state.inner_opt_state)
+          grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
                                   gradient_step=state.gradient_step + 1,
                                   inner_opt_state=new_inner_state,
-- 
2.43.0


From 0f74517db5efd998f0a712cf6dff811854d477ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 04/21] fix: masked took the truth value of params

Array params raised an ambiguity error and a scalar zero was treated as
if no params had been passed.
---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d71bc32..afa044a 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -322,7 +322,7 @@ def masked(
     flat_updates = treedef.flatten_up_to(updates)
     masked_updates = [g for g, m in zip(flat_updates, flat_mask) if m]
 
-    if params:
+    if params is not None:
       flat_params = treedef.flatten_up_to(params)
       masked_params = [p for p, m in zip(flat_params, flat_mask) if m]
     else:
-- 
2.43.0


From 1b6b707c32658ea5d760b461ff2ece39ed6c56e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 05/21] fix: lookahead passed the slow/fast pair as params to
 its fast optimizer

---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 7f84f2b..1f6ec30 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -114,7 +114,7 @@ def lookahead(
       updates: base.Updates, state: LookaheadState,
       params: LookaheadParams) -> Tuple[LookaheadParams, LookaheadState]:
     updates, fast_state = fast_optimizer.update(updates, state.fast_state,
-                                                params)
+                                                params.fast)
 
     sync_next = (state.steps_since_sync == sync_period - 1)
     updates = _lookahead_update(updates, sync_next, params, slow_step_size)
-- 
2.43.0


From c00f299d158410086b8836460d9488bbbe1f8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 06/21] fix: lookahead leaked non-finite values outside
 synchronization steps

Multiplying by the sync flag turned 0 * NaN into NaN: the slow parameters
were poisoned between synchronizations, and reset_state did not reset.
---
 optax/_src/lookahead.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 1f6ec30..06831dc 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -123,7 +123,7 @@ def lookahead(
       # synchronized after this update step.
       initial_state = fast_optimizer.init(params.fast)
       fast_state = jax.tree_multimap(
-          lambda current, init: (1 - sync_next) * current + sync_next * init,
+          lambda current, init: jnp.where(sync_next, init, current),
           fast_state, initial_state)
 
     steps_since_sync = (state.steps_since_sync + 1) % sync_period
@@ -182,10 +182,14 @@ def _lookahead_update(
   #                  1 - slow_step_size) * sync_next * last_difference
   last_difference = jax.tree_multimap(lambda f, u, s: f + u - s, params.fast,
                                       updates, params.slow)
-  slow_updates = jax.tree_map(lambda diff: slow_step_size * sync_next * diff,
-                              last_difference)
+  # `jnp.where` rather than a product with `sync_next`, as 0 * NaN is NaN.
+  slow_updates = jax.tree_map(
+      lambda diff: jnp.where(  # pylint:disable=g-long-lambda
+          sync_next, slow_step_size * diff, jnp.zeros_like(diff)),
+      last_difference)
   fast_updates = jax.tree_multimap(
-      lambda up, diff: up - sync_next * (1 - slow_step_size) * diff, updates,
+      lambda up, diff: jnp.where(
+          sync_next, up - (1 - slow_step_size) * diff, up), updates,
       last_difference)
 
   return LookaheadParams(fast=fast_updates, slow=slow_updates)
-- 
2.43.0


From 049ea892a491a3aecf54ce68f94389fe80fda66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 07/21] fix: apply_every emitted NaN off its period and never
 recovered

After one non-finite gradient 0 * NaN kept the accumulator and every
later update NaN.
---
 optax/_src/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 3b839f4..624d46b 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -679,9 +679,11 @@ def apply_every(
     c = state.count % k
     acc = c != 0
     grad_acc = jax.tree_multimap(
-        lambda g, ga: acc * ga + g, updates, state.grad_acc)
+        lambda g, ga: jnp.where(acc, ga, jnp.zeros_like(ga)) + g, updates,
+        state.grad_acc)
     emit = c == (k - 1)
-    updates = jax.tree_map(lambda ga: emit * ga, grad_acc)
+    updates = jax.tree_map(
+        lambda ga: jnp.where(emit, ga, jnp.zeros_like(ga)), grad_acc)
     count_inc = numerics.safe_int32_increment(state.count)
     return updates, ApplyEvery(count=count_inc % k, grad_acc=grad_acc)
 
-- 
2.43.0


From 59e762b6edd6029ec6b75bf90b2bfcc9d2c096f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 08/21] fix: piecewise_interpolate_schedule was NaN with a
 boundary at step 0

This included onecycle schedules whose warmup rounds down to no steps.
---
 optax/_src/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 0503bd0..8736d8e 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -283,7 +283,7 @@ def piecewise_interpolate_schedule(
 
   def schedule(count):
     indicator = (bounds[:-1] <= count) & (count < bounds[1:])
-    pct = (count - bounds[:-1]) / interval_sizes
+    pct = (count - bounds[:-1]) / jnp.maximum(interval_sizes, 1)
     interp_vals = interpolate_fn(values[:-1], values[1:], pct)
     return indicator.dot(interp_vals) + (bounds[-1] <= count) * values[-1]
 
-- 
2.43.0


From 12df837131bac31097de8d1d8b963c56cf16fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 09/21] fix: scale_by_stddev took the root of a negative
 variance

Constant gradients make nu - mu^2 round below -eps, giving NaN updates.
---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 624d46b..38d5957 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -249,8 +249,8 @@ def scale_by_stddev(
     mu = _update_moment(updates, state.mu, decay, 1)
     nu = _update_moment(updates, state.nu, decay, 2)
     updates = jax.tree_multimap(
-        lambda g, m, n: g * jax.lax.rsqrt(n - jnp.square(m) + eps), updates, mu,
-        nu)
+        lambda g, m, n: g * jax.lax.rsqrt(  # pylint:disable=g-long-lambda
+            jnp.maximum(n - jnp.square(m), 0) + eps), updates, mu, nu)
     return updates, ScaleByRStdDevState(mu=mu, nu=nu)
 
   return base.GradientTransformation(init_fn, update_fn)
-- 
2.43.0


From 7f89a53240c83f9983c903bcd38ad371e59d06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 10/21] fix: scale_by_sm3 failed on scalars and widened low
 precision state

A 0-d parameter raised IndexError, and the float32 accumulators changed
the dtype of the state and of the updates for bfloat16 parameters.
---
 optax/_src/transform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 38d5957..0a1c809 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -747,7 +747,9 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
-    return [jnp.zeros([s]) for s in p.shape]
+    if p.ndim == 0:  # A scalar is its own, and only, accumulator.
+      return [jnp.zeros_like(p)]
+    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape]
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
@@ -780,7 +782,8 @@ def scale_by_sm3(
     del params
     mu = jax.tree_multimap(
         lambda g, v:  # pylint:disable=g-long-lambda
-        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(g.ndim)],
+        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(g.ndim)]
+        if g.ndim else v,
         updates, state.mu)
     accum = jax.tree_multimap(_new_accum, updates, mu)
     accum_inv_sqrt = jax.tree_map(
@@ -788,7 +791,7 @@ def scale_by_sm3(
     up = jax.tree_multimap(lambda g, a: g*a, updates, accum_inv_sqrt)
     nu = _update_moment(up, state.nu, b1, 1)
     mu = jax.tree_map(
-        lambda g: [_new_mu(g, i) for i in range(g.ndim)], accum)
+        lambda g: [_new_mu(g, i) for i in range(max(g.ndim, 1))], accum)
 
     return nu, ScaleBySM3State(mu=mu, nu=nu)
 
-- 
2.43.0


From 0c1a6a24680ba1978223976502aaf0bb88e5e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 11/21] fix: scale_by_radam could not be jitted for bfloat16
 parameters

The float32 rectification term gave the branches of the cond different
dtypes.
---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 0a1c809..cd36aab 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -457,7 +457,8 @@ def scale_by_radam(
     nu_hat = params[2]
     r = jnp.sqrt((ro - 4)*(ro - 2)*ro_inf/((ro_inf - 4)*(ro_inf - 2)*ro))
     updates = jax.tree_multimap(
-        lambda m, v: r*m / (jnp.sqrt(v + eps_root) + eps), mu_hat, nu_hat)
+        lambda m, v: r.astype(m.dtype)*m / (jnp.sqrt(v + eps_root) + eps),
+        mu_hat, nu_hat)
     return updates
 
   def init_fn(params):
-- 
2.43.0


From 6a5d97de35e74e3b98b1180d44c87b3620458c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 12/21] fix: moving_avg_baseline divided by the zero debiasing
 term repeatedly

The state holds the debiased value, so every update debiased it again: the
baseline of a constant function grew without bound.
---
 optax/_src/control_variates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optax/_src/control_variates.py b/optax/_src/control_variates.py
index f2e8c46..2e6d588 100644
--- a/optax/_src/control_variates.py
+++ b/optax/_src/control_variates.py
@@ -192,6 +192,10 @@ def moving_avg_baseline(
     else:
       iteration_decay = decay
 
+    if zero_debias:
+      # The state holds the debiased average: recover the raw one.
+      value = value * (jnp.ones([]) - jnp.power(iteration_decay, i))
+
     updated_value = iteration_decay * value
     updated_value += (1 - iteration_decay) * jnp.mean(
         jax.vmap(function)(samples))
-- 
2.43.0


From 4170c346ff5784b554e375b3cb2a7fd48ee80673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 13/21] fix: wrapper step counters wrapped around to negative
 values

The counters of apply_if_finite, MultiSteps and maybe_update overflowed
where those of the transformations stop at the maximum.
---
 optax/_src/wrappers.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index afa044a..fab07d4 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -82,6 +82,11 @@ def flatten(
   return base.GradientTransformation(init_fn, update_fn)
 
 
+def _safe_increment(count):
+  """Increments a counter of any integer dtype, stopping at its maximum."""
+  return jnp.where(count < jnp.iinfo(count.dtype).max, count + 1, count)
+
+
 class ApplyIfFiniteState(NamedTuple):
   """State of the `GradientTransformation` returned by `apply_if_finite`.
 
@@ -136,7 +141,7 @@ def apply_if_finite(
     isfinite = jnp.all(
         jnp.array([jnp.all(jnp.isfinite(p)) for p in flat_updates]))
     notfinite_count = jnp.where(isfinite, jnp.zeros([], jnp.int64),
-                                1 + state.notfinite_count)
+                                _safe_increment(state.notfinite_count))
 
     def do_update(_):
       return inner.update(updates, inner_state, params)
@@ -150,7 +155,8 @@ def apply_if_finite(
     return updates, ApplyIfFiniteState(
         notfinite_count=notfinite_count,
         last_finite=isfinite,
-        total_notfinite=jnp.logical_not(isfinite) + state.total_notfinite,
+        total_notfinite=jnp.where(isfinite, state.total_notfinite,
+                                  _safe_increment(state.total_notfinite)),
         inner_state=new_inner_state)
 
   return base.GradientTransformation(init=init, update=update)
@@ -242,7 +248,8 @@ class MultiSteps:
       updates, new_inner_state = self._opt.update(
           grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
-                                  gradient_step=state.gradient_step + 1,
+                                  gradient_step=_safe_increment(
+                                      state.gradient_step),
                                   inner_opt_state=new_inner_state,
                                   acc_grads=_zeros_tree_like(acc_grads))
       return updates, new_state
@@ -386,7 +393,8 @@ def maybe_update(
 
     updates, new_inner_state = lax.cond(
         should_update_fn(state.step), do_update, reject_update, operand=None)
-    return updates, MaybeUpdateState(new_inner_state, state.step + 1)
+    return updates, MaybeUpdateState(
+        new_inner_state, _safe_increment(state.step))
 
   return base.GradientTransformation(init_fn, update_fn)
 
-- 
2.43.0


From 8d37cbbc4262bdb9a4e061fbaf1dd254258c1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 14/21] fix: matrix_inverse_pth_root only converged for p in 1,
 2, 4 and 8

The coupled Newton iteration raised to the power of two nearest to p.
---
 optax/_src/linear_algebra.py | 41 ++++++++++--------------------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 5e25b0f..5d5640a 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -122,28 +122,8 @@ def matrix_inverse_pth_root(
       error_tolerance=1e-6, precision=precision)
   ridge_epsilon = ridge_epsilon * jnp.maximum(max_ev, 1e-16)
 
-  def _unrolled_mat_pow_1(mat_m):
-    """Computes mat_m^1."""
-    return mat_m
-
-  def _unrolled_mat_pow_2(mat_m):
-    """Computes mat_m^2."""
-    return jnp.matmul(mat_m, mat_m, precision=precision)
-
-  def _unrolled_mat_pow_4(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_2 = _unrolled_mat_pow_2(mat_m)
-    return jnp.matmul(
-        mat_pow_2, mat_pow_2, precision=precision)
-
-  def _unrolled_mat_pow_8(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_4 = _unrolled_mat_pow_4(mat_m)
-    return jnp.matmul(
-        mat_pow_4, mat_pow_4, precision=precision)
-
   def mat_power(mat_m, p):
-    """Computes mat_m^p, for p == 1, 2, 4 or 8.
+    """Computes mat_m^p by repeated squaring.
 
     Args:
       mat_m: a square matrix
@@ -152,15 +132,16 @@ def matrix_inverse_pth_root(
     Returns:
       mat_m^p
     """
-    # We unrolled the loop for performance reasons.
-    exponent = jnp.round(jnp.log2(p))
-    return lax.switch(
-        jnp.asarray(exponent, jnp.int32), [
-            _unrolled_mat_pow_1,
-            _unrolled_mat_pow_2,
-            _unrolled_mat_pow_4,
-            _unrolled_mat_pow_8,
-        ], (mat_m))
+    def _squaring_step(state):
+      exponent, square, result = state
+      multiplied = jnp.matmul(result, square, precision=precision)
+      result = jnp.where(exponent % 2 == 1, multiplied, result)
+      return (exponent // 2, jnp.matmul(square, square, precision=precision),
+              result)
+
+    init = (jnp.asarray(p, jnp.int32), mat_m, jnp.eye(
+        matrix_size, dtype=mat_m.dtype))
+    return lax.while_loop(lambda state: state[0] > 0, _squaring_step, init)[2]
 
   def _iter_condition(state):
     (i, unused_mat_m, unused_mat_h, unused_old_mat_h, error,
-- 
2.43.0


From 104a5aead607bff7f0ddbad5d91d79079dac90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 15/21] fix: clip_by_global_norm widened low precision leaves
 of mixed trees

The norm of a tree with float32 and bfloat16 leaves is float32, so all
updates became float32, and the states of later members of a chain changed
dtype after the first step.
---
 optax/_src/clipping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optax/_src/clipping.py b/optax/_src/clipping.py
index e571a9e..1730892 100644
--- a/optax/_src/clipping.py
+++ b/optax/_src/clipping.py
@@ -76,7 +76,9 @@ def clip_by_global_norm(max_norm) -> base.GradientTransformation:
     # updates = jax.tree_map(lambda t: (t / g_norm) * max_norm, updates)
     trigger = g_norm < max_norm
     updates = jax.tree_map(
-        lambda t: jnp.where(trigger, t, (t / g_norm) * max_norm), updates)
+        lambda t: jnp.where(  # pylint:disable=g-long-lambda
+            trigger, t, (t / g_norm.astype(jnp.result_type(t, float))) * max_norm),
+        updates)
     return updates, state
 
   return base.GradientTransformation(init_fn, update_fn)
-- 
2.43.0


From 29ffecb93e99625b40f80c06ddc17ee35f08b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 16/21] fix: compiled polynomial schedules with fractional
 power ended in NaN

---
 optax/_src/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 8736d8e..0e118ff 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -84,7 +84,8 @@ def polynomial_schedule(
 
   def schedule(count):
     count = jnp.clip(count - transition_begin, 0, transition_steps)
-    frac = 1 - count / transition_steps
+    # Compiled code may round the quotient of equal numbers to more than one.
+    frac = jnp.maximum(1 - count / transition_steps, 0)
     return (init_value - end_value) * (frac**power) + end_value
   return schedule
 
-- 
2.43.0


From 7dcb051983d79f2c6ff2cb4ea55e40580249bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 17/21] fix: compiled staircase schedules could decay one step
 late

---
 optax/_src/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 0e118ff..a3e073e 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -195,7 +195,8 @@ def exponential_decay(
     decreased_count = count - transition_begin
     p = decreased_count / transition_steps
     if staircase:
-      p = jnp.floor(p)
+      # Not the floor of p: compiled code may round the quotient down.
+      p = 1.0 * (decreased_count // transition_steps)
     decayed_value = jnp.where(
         decreased_count <= 0, init_value, init_value * jnp.power(decay_rate, p))
     if end_value is not None:
-- 
2.43.0


From 5e532326b776165caa81c047f8ebf695e75cb63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 18/21] fix: compiled polynomial schedules stopped short of
 their final value

With a fractional power, 1 - count / transition_steps rounds to about 6e-8
instead of 0 at the end and the root of that is not small.
---
 optax/_src/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index a3e073e..f5b74ff 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -84,8 +84,8 @@ def polynomial_schedule(
 
   def schedule(count):
     count = jnp.clip(count - transition_begin, 0, transition_steps)
-    # Compiled code may round the quotient of equal numbers to more than one.
-    frac = jnp.maximum(1 - count / transition_steps, 0)
+    # Compiled code may round the quotient of equal numbers, so subtract first.
+    frac = (transition_steps - count) / transition_steps
     return (init_value - end_value) * (frac**power) + end_value
   return schedule
 
-- 
2.43.0


From c7fee27f93378659aec704560e614305133e462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 19/21] fix: differentially_private_aggregate widened low
 precision leaves of mixed trees

---
 optax/_src/privacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index 8c1b103..edb9265 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -70,7 +70,8 @@ def differentially_private_aggregate(
     new_key, *rngs = jax.random.split(state.rng_key, len(grads_flat)+1)
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
     divisors = jnp.maximum(global_grad_norms / l2_norm_clip, 1.0)
-    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1) for g in grads_flat]
+    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1).astype(g.dtype)
+               for g in grads_flat]
     noised = [(g + noise_std * jax.random.normal(r, g.shape, g.dtype)) / bsize
               for g, r in zip(clipped, rngs)]
     return (jax.tree_unflatten(grads_treedef, noised),
-- 
2.43.0


From f38d0dcee73da2e6c82946d9918c313944493121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:35 +0000
Subject: [PATCH 20/21] fix: scale_by_sm3 on parameters without elements

The maximum over the other axes of an empty array has no identity, so an
update with an empty parameter of rank two or more raised.
---
 optax/_src/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index cd36aab..124ff9c 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -774,7 +774,9 @@ def scale_by_sm3(
     if g.ndim < 2:
       return g
     else:
-      return jnp.max(g, axis=other_axes(i, g.ndim))
+      # The accumulators are non-negative; the initial value is for parameters
+      # without elements.
+      return jnp.max(g, axis=other_axes(i, g.ndim), initial=0)
 
   def other_axes(idx, ndim):
     return list(range(idx)) + list(range(idx+1, ndim))
-- 
2.43.0


From bf5078b13118a3c9901a177499c073e3984bdb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 21/21] fix: flatten on trees without leaves

A mask that selects nothing leaves flatten an empty tree, on which it raised.
---
 optax/_src/wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index fab07d4..d868110 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -48,6 +48,8 @@ def flatten(
   def _flatten(params):
     """Flattens and concatenates all tensors in params to a single vector."""
     params, _ = tree_flatten(params)
+    if not params:  # e.g. nothing is left by a mask.
+      return jnp.zeros([0])
     return jnp.concatenate([jnp.reshape(param, [-1]) for param in params])
 
   def _unflatten(updates, flat):
@@ -60,7 +62,7 @@ def flatten(
         offsets.append(size + offsets[-1])
       else:
         offsets.append(size)
-    del offsets[-1]
+    del offsets[-1:]
     flat_split = jnp.split(flat, offsets)
     reshaped = [
         jnp.reshape(flat_update, update.shape)
-- 
2.43.0

