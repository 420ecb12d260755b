From 56c67f50dc505fc05d7733f0be4a5202039e5444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 01/34] fix: add sparse Jacobians with different numbers of
 columns

FwdJacobian.__add__ compared the index arrays element-wise, which raises (or
silently broadcasts) if both Jacobians store a different number of columns.
---
 folx/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index fd677d2..4015375 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -213,7 +213,7 @@ class FwdJacobian(NamedTuple):
 
             return FwdJacobian(add_jacobians(self.as_dense.data, other.as_dense.data))
         # If both are weak, we can keep them sparse
-        if (other.x0_idx == self.x0_idx).all():
+        if np.array_equal(self.x0_idx, other.x0_idx):  # type: ignore
             return FwdJacobian(
                 self.data + other.data,
                 np.broadcast_arrays(self.x0_idx, other.x0_idx)[0],
-- 
2.43.0


From 56e3afb3f1b5269541447f459b80f862f01bdb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 02/34] fix: read jaxpr literals as arrays of their abstract
 type

---
 folx/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 6678e4a..69254b4 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -58,7 +58,10 @@ class JaxExprEnvironment:
 
     def read(self, var: core.Atom) -> ArrayOrFwdLaplArray:
         if isinstance(var, core.Literal):
-            return var.val
+            # Literals may be Python scalars but the rules expect arrays.
+            dtype = None if var.aval.weak_type else var.aval.dtype  # type: ignore
+            with jax.ensure_compile_time_eval():
+                return jnp.asarray(var.val, dtype=dtype)
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From a3b0ee6ae819ddd31282667f63a30bf56b71a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 03/34] fix: propagate sparse Jacobians through primitives with
 several outputs

---
 folx/jvp.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 6b638ab..9db7549 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -1,5 +1,6 @@
 import functools
 import logging
+import operator
 from typing import Sequence, TypeVar
 
 import jax
@@ -180,10 +181,10 @@ def sparse_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
-    new_masks = broadcast_mask_to_jacobian(out_mask, grad_y)
-    assert grad_y.shape == new_masks.shape, f'{grad_y.shape} != {new_masks.shape}'
-
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, new_masks)
+    # The function might have several outputs, all of them share the same mask.
+    grad_y = jtu.tree_map(
+        lambda g: FwdJacobian(g, broadcast_mask_to_jacobian(out_mask, g)), grad_y
+    )
     return y, grad_y, lapl_y
 
 
@@ -560,8 +561,14 @@ def get_jvp_function(
             if y is None:
                 y, grad, lapl = y_, grad_, lapl_
             else:
-                grad += grad_  # type: ignore
-                lapl += lapl_
+                # The function might have several outputs.
+                grad = jtu.tree_map(
+                    operator.add,
+                    grad,
+                    grad_,
+                    is_leaf=lambda g: isinstance(g, FwdJacobian),
+                )
+                lapl = jtu.tree_map(operator.add, lapl, lapl_)
         return y, grad, lapl  # type: ignore
 
     def jvp(args: FwdLaplArgs, kwargs) -> tuple[Array, FwdJacobian, Array]:
-- 
2.43.0


From 4ca5b81d7d13d796c66faab35ab2704d7a231114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 04/34] fix: scan with plain carries, stacked outputs and empty
 loops

---
 folx/interpreter.py | 57 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 69254b4..7827e56 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -15,6 +15,7 @@ from jax.util import safe_map
 from .api import (
     IS_LEAF,
     IS_LPL_ARR,
+    JAC_DIM,
     Array,
     ArrayOrFwdLaplArray,
     FwdJacobian,
@@ -93,10 +94,21 @@ def eval_jaxpr_with_forward_laplacian(
             invals[n_const : n_carry + n_const],
             invals[n_const + n_carry :],
         )
-        carry_merge = extract_jacobian_mask(in_carry)
-        assert all(
-            isinstance(x, Array) for x in in_inp
+        assert not any(
+            isinstance(x, FwdLaplArray) for x in in_inp
         ), 'Scan does not support scanning over input depenedent tensors.\nPlease unroll the loop.'
+        carry_merge = extract_jacobian_mask(in_carry)
+        # The sparsity patterns must be static. So, we remove them from the inputs and outputs
+        # of the loop body and add them again after the scan.
+        out_idx: list[np.ndarray | None] = []
+
+        def remove_idx(arrs: Sequence[ArrayOrFwdLaplArray]):
+            return [
+                a._replace(jacobian=a.jacobian._replace(x0_idx=None))
+                if isinstance(a, FwdLaplArray)
+                else a
+                for a in arrs
+            ]
 
         def wrapped(carry, x):
             result = eval_jaxpr_with_forward_laplacian(
@@ -107,35 +119,48 @@ def eval_jaxpr_with_forward_laplacian(
                 *x,
                 sparsity_threshold=sparsity_threshold,
             )
+            # Check whether jacobian sparsity matches
+            for a, b in zip(in_carry, result[:n_carry]):
+                if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
+                    raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
+                if isinstance(a, FwdLaplArray):
+                    if not np.array_equal(a.jacobian.x0_idx, b.jacobian.x0_idx):  # type: ignore
+                        raise ValueError('Jacobian sparsity mismatch in scan.')
+            out_idx[:] = [
+                a.jacobian.x0_idx for a in result if isinstance(a, FwdLaplArray)
+            ]
+            result = remove_idx(result)
             return result[:n_carry], result[n_carry:]
 
-        first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
-        # Check whether jacobian sparsity matches
-        for a, b in zip(in_carry, first_carry):
-            if not isinstance(a, type(b)):
-                raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
-            if isinstance(a, FwdLaplArray):
-                if not np.all(a.jacobian.x0_idx == b.jacobian.x0_idx):  # type: ignore
-                    raise ValueError('Jacobian sparsity mismatch in scan.')
         carry, y = jax.lax.scan(
             wrapped,  # type: ignore
-            in_carry,
+            remove_idx(in_carry),
             in_inp,
             length=eqn.params['length'],
             reverse=eqn.params['reverse'],
             unroll=eqn.params['unroll'],
         )
+        idx_iter = iter(out_idx)
         carry = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
+            a._replace(jacobian=a.jacobian._replace(x0_idx=next(idx_iter)))
             if isinstance(a, FwdLaplArray)
             else a
-            for a, b in zip(carry, first_carry)
+            for a in carry
         ]
+
+        def stack_jacobian(jac: FwdJacobian, idx: np.ndarray | None):
+            # scan stacks the outputs along the first axis, this one has to come after the
+            # Jacobian dimension. The sparsity pattern is the same in all iterations.
+            data = jnp.moveaxis(jac.data, 0, JAC_DIM + 1)
+            if idx is not None:
+                idx = np.broadcast_to(np.expand_dims(idx, JAC_DIM + 1), data.shape)
+            return FwdJacobian(data, idx)
+
         y = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
+            a._replace(jacobian=stack_jacobian(a.jacobian, next(idx_iter)))
             if isinstance(a, FwdLaplArray)
             else a
-            for a, b in zip(y, first_y)
+            for a in y
         ]
         return *carry, *y
 
-- 
2.43.0


From 9999cbdf9f62cb47198bc660cc3d839573c23a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 05/34] fix: clear the sparse Jacobian of entries overwritten
 by a scatter

---
 folx/jvp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 9db7549..61083ad 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -347,9 +347,14 @@ def sparse_scatter_jvp(
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
     if not isinstance(updates, FwdLaplArray) and FunctionFlags.LINEAR in flags:
         # operand must be a fwdlapl array by exclusion since at least one has to be.
-        y: Array = fwd(*laplace_args.x)  # type: ignore
-        grad_y: FwdJacobian = operand.jacobian  # type: ignore
-        lapl_y: Array = operand.laplacian  # type: ignore
+        # The operand's entries may be overwritten by the updates, e.g., in scatter.
+        # Thus, we have to push its Jacobian through the function.
+        y, jvp_fn = jax.linearize(fwd, *laplace_args.x)
+        grad_y = FwdJacobian(
+            jax.vmap(jvp_fn)(operand.jacobian.data),  # type: ignore
+            operand.jacobian.x0_idx,  # type: ignore
+        )
+        lapl_y: Array = jvp_fn(operand.laplacian)  # type: ignore
         return y, grad_y, lapl_y
     if isinstance(operand, FwdLaplArray):
         logging.info(
-- 
2.43.0


From 01ef57ce2fb2d22dc3bdf86dc1e48920a31bbb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 06/34] fix: make all Laplacian operators return the Laplacian
 and the full gradient

---
 folx/operators.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index 290033b..f6f30b5 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -4,7 +4,7 @@ from typing import Callable, Protocol
 import jax
 import jax.numpy as jnp
 
-from .api import Array
+from .api import JAC_DIM, Array, FwdLaplArray
 from .interpreter import forward_laplacian
 
 __all__ = [
@@ -33,7 +33,16 @@ class ForwardLaplacianOperator(LaplacianOperator):
 
         def lap(x: Array):
             result = fwd_lapl(x)
-            return result.laplacian, result.jacobian.dense_array
+            if not isinstance(result, FwdLaplArray):
+                # The function does not depend on its input.
+                result = jnp.asarray(result)
+                return jnp.zeros_like(result), jnp.zeros(
+                    (x.size, *result.shape), dtype=result.dtype
+                )
+            jacobian = result.jacobian.dense_array
+            # Sparse Jacobians only reach to the last input the output depends on.
+            pad = [(0, x.size - jacobian.shape[JAC_DIM])] + [(0, 0)] * result.x.ndim
+            return result.laplacian, jnp.pad(jacobian, pad)
 
         return lap
 
@@ -57,7 +66,7 @@ class LoopLaplacianOperator(LaplacianOperator):
             _, laplacian = jax.lax.scan(
                 lambda i, _: (i + 1, dgrad_f(eye[i])[i]), 0, None, length=n
             )
-            return laplacian, jacobian
+            return laplacian.sum(), jacobian
 
         return laplacian
 
@@ -67,13 +76,18 @@ class ParallelLaplacianOperator(LaplacianOperator):
     def __call__(f):
         @jax.jit
         def laplacian(x: jax.Array):
+            x_shape = x.shape
             x = x.reshape(-1)
             n = x.shape[0]
             eye = jnp.eye(n, dtype=x.dtype)
-            grad_f = jax.grad(f)
+
+            def f_(x):
+                return f(x.reshape(x_shape))
+
+            grad_f = jax.grad(f_)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
-            laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
+            laplacian = jnp.trace(jax.vmap(dgrad_f)(eye))
             return laplacian, jacobian
 
         return laplacian
-- 
2.43.0


From c307f965956044ecc3b7514dc3264327a9018376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 07/34] fix: allow transforming the sparse forward Laplacian
 operator with jit

---
 folx/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/operators.py b/folx/operators.py
index f6f30b5..52a5bb6 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -29,8 +29,10 @@ class ForwardLaplacianOperator(LaplacianOperator):
     sparsity_threshold: float | int
 
     def __call__(self, f):
-        fwd_lapl = forward_laplacian(f, self.sparsity_threshold)
+        # We jit the whole function to keep the sparsity pattern static.
+        fwd_lapl = forward_laplacian(f, self.sparsity_threshold, disable_jit=True)
 
+        @jax.jit
         def lap(x: Array):
             result = fwd_lapl(x)
             if not isinstance(result, FwdLaplArray):
-- 
2.43.0


From 86dd01df8215e38117145b7b6fe48d2750176033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 08/34] fix: support keyword arguments and weights for pytree
 arguments

---
 folx/interpreter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 7827e56..cf44390 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -317,13 +317,21 @@ def forward_laplacian(
             threshold = int(sparsity_threshold * sum(x.size for x in flat_args))
         else:
             threshold = int(sparsity_threshold)
-        lapl_args = init_forward_laplacian_state(
-            *flat_args, sparsity=threshold > 0, weights=weights
-        )
+        if isinstance(weights, tuple) and len(weights) == len(flat_args) != len(args):
+            # One weight per array instead of a prefix of the arguments.
+            lapl_args = init_forward_laplacian_state(
+                *flat_args, sparsity=threshold > 0, weights=weights
+            )
+        else:
+            lapl_args = init_forward_laplacian_state(
+                *args, sparsity=threshold > 0, weights=weights
+            )
+        # Keyword arguments are constants, they appear after the arguments in the jaxpr.
         out = eval_jaxpr_with_forward_laplacian(
             closed_jaxpr.jaxpr,
             closed_jaxpr.literals,
-            *lapl_args,
+            *jtu.tree_leaves(lapl_args, is_leaf=IS_LEAF),
+            *map(jnp.asarray, jtu.tree_leaves(kwargs)),
             sparsity_threshold=threshold,
         )
         out_structure = jtu.tree_structure(jax.eval_shape(fn, *args_arr, **kwargs))
-- 
2.43.0


From 437757eca64c45528c155bb3e95b8112c641f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 09/34] fix: memory estimate of repeated operands, scans
 without inputs and keyword arguments

---
 folx/experimental/memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0f00a3b..57cb01c 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -78,7 +78,10 @@ class MemoryExprEnvironment:
             self.memory -= v.size * _bytes_from_dtype(v.dtype)
 
     def free_memory(self, vars: Sequence[core.Atom], vals: Sequence[Array]):
-        safe_map(self._free_memory, vars, vals)
+        # A variable might appear several times but is freed only once.
+        unique = {id(var): (var, val) for var, val in zip(vars, vals)}
+        for var, val in unique.values():
+            self._free_memory(var, val)
 
 
 def _compute_jaxpr_memory(
@@ -119,7 +122,7 @@ def _compute_jaxpr_memory(
             )
             # populate the results by the loop size
             ans[n_carry:] = jtu.tree_map(
-                lambda x: jnp.repeat(x[None], in_inp[0].shape[0], axis=0),
+                lambda x: jnp.repeat(x[None], eqn.params['length'], axis=0),
                 ans[n_carry:],
             )
             all_tensors += sub_tensors
@@ -209,7 +212,7 @@ def compute_memory(
     # Here we abuse the eval_shape function to avoid actually computing something.
     # Instead the function prints to correct usage
     with Capturing() as output:
-        jax.eval_shape(fn, *jtu.tree_leaves(args))
+        jax.eval_shape(fn, *jtu.tree_leaves((args, kwargs)))
 
     # Print everything except the last line
     if len(output) > 1:
-- 
2.43.0


From f561473bb235bd1b0c14729a7a124e8e3e8d4236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 10/34] fix: restore the logging handlers with concurrent
 threads

---
 folx/utils.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/folx/utils.py b/folx/utils.py
index aece6c0..0132348 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -1,5 +1,6 @@
 import functools
 import logging
+import threading
 from typing import Sequence, Type, TypeVar
 
 import jax
@@ -566,7 +567,9 @@ def broadcast_mask_to_jacobian(mask: PyTree[np.ndarray], jacobian: PyTree[Array]
 
 class LoggingPrefix(logging.Formatter):
     prefix: str
-    _old_handlers = None
+    _lock = threading.RLock()
+    _active: list[tuple['LoggingPrefix', logging.Handler]] = []
+    _old_handlers: list[logging.Handler] | None = None
 
     def __init__(self, prefix: str):
         self.prefix = prefix
@@ -578,10 +581,15 @@ class LoggingPrefix(logging.Formatter):
 
     def __enter__(self):
         logger = logging.getLogger()
-        self._old_handlers = logger.handlers
         myHandler = logging.StreamHandler()
         myHandler.setFormatter(self)
-        logger.handlers = [myHandler]
+        with LoggingPrefix._lock:
+            # Several threads might be active at the same time, only the first one sees
+            # the original handlers and only the last one may restore them.
+            if len(LoggingPrefix._active) == 0:
+                LoggingPrefix._old_handlers = logger.handlers
+            LoggingPrefix._active.append((self, myHandler))
+            logger.handlers = [myHandler]
 
     def __exit__(self, exc_type, exc_value, traceback):
         if exc_type is not None:
@@ -589,4 +597,13 @@ class LoggingPrefix(logging.Formatter):
                 'Exception occurred', exc_info=(exc_type, exc_value, traceback)
             )
         logger = logging.getLogger()
-        logger.handlers = self._old_handlers
+        with LoggingPrefix._lock:
+            active = LoggingPrefix._active
+            # Remove the latest entry of this prefix.
+            idx = max(i for i, (prefix, _) in enumerate(active) if prefix is self)
+            active.pop(idx)
+            if len(active) == 0:
+                logger.handlers = LoggingPrefix._old_handlers
+                LoggingPrefix._old_handlers = None
+            else:
+                logger.handlers = [active[-1][1]]
-- 
2.43.0


From 93800826c7b8a58b5fa2187929f048cb884cc5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 11/34] fix: batched_vmap with unbatched and empty outputs

---
 folx/vmap.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 74a45a3..c6ebc8e 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -57,26 +57,45 @@ def batched_vmap(
             leading_args,
         )
 
+        # The outputs are always batched along the first axis unless they are not batched.
+        out_axes_flat, out_tree = jtu.tree_flatten(out_axes, lambda x: x is None)
         vmapped_fn = jax.vmap(
-            lambda x: wrapped_fn(*in_tree.unflatten(merge(x))), in_axes=0, out_axes=0
+            lambda x: wrapped_fn(*in_tree.unflatten(merge(x))),
+            in_axes=0,
+            out_axes=out_tree.unflatten(
+                [None if ax is None else 0 for ax in out_axes_flat]
+            ),
         )
 
         def inner(carry, x):
             return carry, vmapped_fn(x)
 
         result = jax.lax.scan(inner, None, loop_args, length=num_batches)[1]
-        result = jtu.tree_map(lambda x: x.reshape(-1, *x.shape[2:]), result)
+        results = out_tree.flatten_up_to(result)
+        results = [
+            jtu.tree_map(
+                lambda x: x[0]
+                if ax is None
+                else x.reshape(num_batches * max_batch_size, *x.shape[2:]),
+                r,
+            )
+            for r, ax in zip(results, out_axes_flat)
+        ]
         if remainder > 0:
             remainder_args = jtu.tree_map(lambda x: x[:remainder], leading_args)
-            remainder_result = vmapped_fn(remainder_args)
-            result = jtu.tree_map(
-                lambda x, r: jnp.concatenate([r, x], axis=0), result, remainder_result
-            )
+            remainder_results = out_tree.flatten_up_to(vmapped_fn(remainder_args))
+            results = [
+                res
+                if ax is None
+                else jtu.tree_map(
+                    lambda x, r: jnp.concatenate([r, x], axis=0), res, rem
+                )
+                for res, rem, ax in zip(results, remainder_results, out_axes_flat)
+            ]
 
-        out_axes_flat, out_tree = jtu.tree_flatten(out_axes)
         result = tuple(
-            jtu.tree_map(lambda x: jnp.moveaxis(x, 0, ax), r)
-            for r, ax in zip(out_tree.flatten_up_to(result), out_axes_flat)
+            r if ax is None else jtu.tree_map(lambda x: jnp.moveaxis(x, 0, ax), r)
+            for r, ax in zip(results, out_axes_flat)
         )
         return out_tree.unflatten(result)
 
-- 
2.43.0


From 18749cb085ece9ce019b54b2b687f9522183db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 12/34] fix: auto_batched_vmap on devices without memory
 statistics

---
 folx/experimental/vmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/folx/experimental/vmap.py b/folx/experimental/vmap.py
index bb02b6c..0229103 100644
--- a/folx/experimental/vmap.py
+++ b/folx/experimental/vmap.py
@@ -33,14 +33,14 @@ def auto_batched_vmap(
     Returns:
         The batched function.
     """
-    mem = jax.devices()[0].memory_stats()['bytes_limit']  # type: ignore
-    target_mem = mem * max_fraction
-
     vmapped_fn = functools.partial(batched_vmap, fn, in_axes=in_axes, out_axes=out_axes)
 
     @functools.wraps(fn)
     def result(*args, **kwargs):
         try:
+            # Not all devices provide memory statistics.
+            mem = jax.devices()[0].memory_stats()['bytes_limit']  # type: ignore
+            target_mem = mem * max_fraction
             single_fn = vmapped_fn(max_batch_size=1)
             pair_fn = vmapped_fn(max_batch_size=2)
             with jax.ensure_compile_time_eval():
@@ -66,7 +66,7 @@ def auto_batched_vmap(
                 max_samples = max(max_samples, 1)
             return vmapped_fn(max_samples)(*args, **kwargs)
         except Exception as e:
-            logging.warn(f'Failed to auto batch {fn.__name__}: {e}')
+            logging.warn(f'Failed to auto batch {getattr(fn, "__name__", fn)}: {e}')
             logging.warn('Defaulting to batch size 1.')
             return vmapped_fn(max_batch_size=1)(*args, **kwargs)
 
-- 
2.43.0


From a99d7de4f680616d74c4e82b94201430449303b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 13/34] fix: order and shape of sparse dot products

---
 folx/wrapped_functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 3cb7902..fe57732 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -140,6 +140,7 @@ def dot_general(
         neg_rh_batch_dims = tuple(np.array(rh_batch_dims) - rhs.ndim)
         neg_lh_contract = tuple(np.array(lh_contract) - lhs.ndim)
         neg_rh_contract = tuple(np.array(rh_contract) - rhs.ndim)
+        n_brdcast = (len(lh_brdcast_dims) > 0) + (len(rh_brdcast_dims) > 0)
         if (
             neg_lh_contract == neg_rh_contract
             and neg_lh_batch_dims == neg_rh_batch_dims
@@ -147,14 +148,17 @@ def dot_general(
             and rh_brdcast_dims == tuple(range(len(rh_brdcast_dims)))
             and lh_batch_dims == tuple(sorted(lh_batch_dims))
             and rh_batch_dims == tuple(sorted(rh_batch_dims))
+            and n_brdcast + (len(lh_batch_dims) > 0) <= 1
         ):
             # The checks above do the following:
             # * check that batch dims are identical in both
             # * check that contract dim are identical in both
             # * check that all brdcast dims are at the beginning
             # * check that no transpositions are needed
+            # * check that the output only has batch dims, lhs dims or rhs dims,
+            #   otherwise the order of the broadcasted product is not the one of the output
             # Special case where we can skip the transpositions
-            return fwd_lapl_mul_sum(lhs, rhs, lh_contract)  # type: ignore
+            return fwd_lapl_mul_sum(lhs, rhs, neg_lh_contract)  # type: ignore
         return fwd_lapl_mul_sum(left_inp, right_inp, -1)
 
     # ====================================================================================
-- 
2.43.0


From 49027ffa93984bd136e03aaccc40bd4f72c270b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 14/34] fix: sparse dot products with dimensions of size one

---
 folx/hessian.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index 02cbd45..cacb138 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -259,14 +259,19 @@ def remove_zero_entries(
     if dense_out:
         return lapl_args, out_idx, None
 
-    mask = (out_idx != -1).any(0)
+    # Dimensions of size 1 were squeezed, we need them to index the arguments.
+    batch_shape = np.broadcast_shapes(*[arg.x.shape[:-1] for arg in lapl_args.arrays])
+    mask = (out_idx != -1).any(0).reshape(batch_shape)
     if mask.sum() > 0.5 * mask.size:
         # this is a heuristic to avoid having unnecessary indexing overhead for
         # insufficiently sparse masks.
         return lapl_args, out_idx, None
 
     indices = np.where(mask)
-    new_mat_idx = out_idx[(slice(None), *indices)]
+    new_mat_idx = out_idx.reshape(-1, *batch_shape)[(slice(None), *indices)]
+    if new_mat_idx.shape[-1] == 1:
+        # A single entry will be squeezed as well.
+        new_mat_idx = new_mat_idx[:, 0]
     new_arrs = []
     for arg in lapl_args.arrays:
         brdcast_dims = np.where(np.array(arg.x.shape) == 1)[0]
-- 
2.43.0


From d4624ca9e452bae3a9b7a6c02bba9fdfdc1e5bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 15/34] fix: keep sparsity masks static when squeezing
 dimensions

---
 folx/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index 0132348..26d0fe3 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -227,7 +227,9 @@ def arg_squeeze_dims(arrs: PyTree[Array], in_axes: Axes) -> PyTree[Array]:
     def _squeeze(arr, in_axes):
         squeeze_mask = np.array([i not in in_axes for i in range(arr.ndim)])
         squeeze_mask = np.logical_and(squeeze_mask, np.array(arr.shape) == 1)
-        return jnp.squeeze(arr, tuple(np.where(squeeze_mask)[0]))
+        # Sparsity masks have to stay static.
+        squeeze = np.squeeze if isinstance(arr, np.ndarray) else jnp.squeeze
+        return squeeze(arr, tuple(np.where(squeeze_mask)[0]))
 
     return jtu.tree_map(_squeeze, arrs, in_axes)
 
-- 
2.43.0


From 6e5c7ca81219222dad868116de58ea5aac3b0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 16/34] fix: sparse Jacobians of scalar functions with several
 outputs

---
 folx/jvp.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 61083ad..658ad4b 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -240,16 +240,19 @@ def sparse_diag_jvp(
         # Aggergate the corresponding jacobian results. Unfortunately,
         # segment_sum can only be applied over the leading axis. So, we have to
         # do some rearranging here.
-        grad_y = jax.ops.segment_sum(
-            grad_y, inv, num_segments=result_mask.shape[JAC_DIM]
+        grad_y = jtu.tree_map(
+            lambda g: jax.ops.segment_sum(
+                g, inv, num_segments=result_mask.shape[JAC_DIM]
+            ),
+            grad_y,
         )
 
     # We need to broadcast the output mask to the shape of the gradient in case the operation
     # included some broadcasting, e.g., (10, 1) * (5,) -> (10, 5)
-    result_mask = broadcast_mask_to_jacobian(result_mask, grad_y)
-    assert grad_y.shape == result_mask.shape, f'{grad_y.shape} != {result_mask.shape}'
-
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, result_mask)
+    # The function might have several outputs, all of them share the same mask.
+    grad_y = jtu.tree_map(
+        lambda g: FwdJacobian(g, broadcast_mask_to_jacobian(result_mask, g)), grad_y
+    )
     return y, grad_y, lapl_y
 
 
-- 
2.43.0


From c7fceedb27b08e05cff0de801318be00d4ebd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 17/34] fix: keep sparsity when indexing with constants in
 double precision

---
 folx/jvp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 658ad4b..5d19ff4 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -300,8 +300,10 @@ def sparse_index_jvp(
                     ]
                 )  # type: ignore
 
+            # The masks must have the same type as the filled arguments.
+            in_mask = [m.astype(np.int32) for m in laplace_args.jacobian_mask]
             mask = jax.vmap(_merged_fwd, in_axes=JAC_DIM, out_axes=JAC_DIM)(
-                *broadcast_dim(laplace_args.jacobian_mask, fill_value=-1, axis=JAC_DIM)
+                *broadcast_dim(in_mask, fill_value=-1, axis=JAC_DIM)
             )
             mask = jtu.tree_map(lambda x: np.asarray(x, dtype=int), mask)
     except Exception as e:
-- 
2.43.0


From d71c1c844b82411420484024878a37c122158f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 18/34] fix: Hessian contributions of dense Jacobians with
 padded or missing rows

---
 folx/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index 4015375..544a2ce 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -154,7 +154,9 @@ class FwdJacobian(NamedTuple):
                 jnp.zeros(self.data_shape, dtype=self.data.dtype), JAC_DIM
             )
         if self.x0_idx is None:
-            return self.data[idx]
+            # The derivative is zero for padding (-1) and for inputs beyond the stored rows.
+            idx = jnp.where(idx < 0, self.data.shape[JAC_DIM], idx)
+            return self.data.at[idx].get(mode='fill', fill_value=0)
         return self.materialize_for_idx(self.get_index_mask(idx), len(idx))
 
     @property
-- 
2.43.0


From 26ca1524d1bd929db01c6da4157b001a469087b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 19/34] fix: reductions of sparse Jacobians without entries

---
 folx/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index 26d0fe3..6fced40 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -488,7 +488,8 @@ def get_jacobian_for_reduction(jacs: Sequence[FwdJacobian], axes):
     mask = np.concatenate(masks, axis=-1)
     out_mask_list = [np.unique(m) for m in mask]
     out_mask_list = [m[m != -1] for m in out_mask_list]
-    max_unique = max([m.size for m in out_mask_list])
+    # There is at least one column, even if nothing depends on the inputs.
+    max_unique = max([1, *(m.size for m in out_mask_list)])
 
     # Here we extend each mask to the same size by appending -1.
     out_mask = np.stack(
-- 
2.43.0


From 3a82a69fc17f2033c86568be285dcd2406984f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 20/34] fix: broadcasting constants in sparse Hessian
 contributions

---
 folx/hessian.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index cacb138..07b8b7b 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -358,9 +358,14 @@ def vmapped_jac_hessian_jac(
     if out_idx is not None:
         # By compressing out_idx we can reduce the number of non-coalesced memory accesses.
         out_idx, compressed_axes = compact_repeated_dims_except(out_idx, JAC_DIM)
-        out_idx_seq: list[int | None] = [1] * len(vmap_seq)
+        out_idx_seq: list[int | None] = [None] * len(vmap_seq)
+        # out_idx only has the axes along which the arguments and not just the extra
+        # arguments are mapped.
+        arg_axes = [i for i, seq in enumerate(vmap_seq) if jtu.tree_leaves(seq[0])]
+        for i in arg_axes:
+            out_idx_seq[i] = 1
         for c in compressed_axes[::-1]:
-            out_idx_seq[c - 1] = None
+            out_idx_seq[arg_axes[c - 1]] = None
             out_idx = jnp.take(out_idx, 0, axis=c)
     else:
         out_idx_seq = [None] * len(vmap_seq)
-- 
2.43.0


From 2303e28b13efaece025206e7000877980f395583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 21/34] fix: inputs of different precision without sparsity

---
 folx/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index cf44390..8dbb9ee 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -276,7 +276,10 @@ def init_forward_laplacian_state(
         jacobian = jtu.tree_map(lambda x: x[None], jacobian)
     else:
         jacobian = jax.vmap(unravel)(jnp.diag(ravel(jac)[0]))
-        jacobian = jtu.tree_map(FwdJacobian.from_dense, jacobian)
+        # Flattening promotes inputs of different precision to a common dtype.
+        jacobian = jtu.tree_map(
+            lambda j, x_: FwdJacobian.from_dense(j.astype(x_.dtype)), jacobian, jac
+        )
     lapl_x = jtu.tree_map(jnp.zeros_like, x)
     return jtu.tree_map(FwdLaplArray, x, jacobian, lapl_x)
 
-- 
2.43.0


From 4f99d8243b2612d5af30fd826780948b38c9ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 22/34] fix: accept empty mapped arguments in batched_vmap

---
 folx/vmap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index c6ebc8e..8595a45 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -36,7 +36,12 @@ def batched_vmap(
             y_iter = iter(static_args)
             return tuple(next(x_iter) if m else next(y_iter) for m in mask)
 
-        batch_size = jtu.tree_leaves(mapped_args[0])[0].shape[mapped_axes[0]]
+        # Mapped arguments might be empty, e.g., None.
+        batch_size = next(
+            x.shape[ax]
+            for arg, ax in zip(mapped_args, mapped_axes)
+            for x in jtu.tree_leaves(arg)
+        )
         assert (
             batch_size == x.shape[ax]
             for arg, ax in zip(mapped_args, mapped_axes)
-- 
2.43.0


From 07213d47d13921bc7912742686bc5697eea5a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 23/34] fix: estimate the memory of PRNG keys and of types
 smaller than a byte

---
 folx/experimental/memory.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 57cb01c..b5d3e14 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -14,11 +14,8 @@ from jax.util import safe_map
 
 
 def _bytes_from_dtype(dtype):
-    import re
-
-    if str(dtype) == 'bool':
-        return 1
-    return int(re.findall(r'\d+', str(dtype))[0]) // 8
+    # This also covers types without a width in their name, e.g., PRNG keys.
+    return dtype.itemsize
 
 
 class MemoryExprEnvironment:
-- 
2.43.0


From 766878fcdd70f844716345e572e0d0cecc3b18a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 24/34] fix: estimate the memory of empty loops

---
 folx/experimental/memory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index b5d3e14..eb00585 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -114,7 +114,11 @@ def _compute_jaxpr_memory(
                 (),
                 *in_const,
                 *in_carry,
-                *jtu.tree_map(lambda x: x[0], in_inp),
+                # The loop might be empty.
+                *jtu.tree_map(
+                    lambda x: x[0] if len(x) > 0 else jnp.zeros(x.shape[1:], x.dtype),
+                    in_inp,
+                ),
                 return_result=True,
             )
             # populate the results by the loop size
-- 
2.43.0


From adbcaa23a219643a9ba1d9f6746fabd4ee375e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 25/34] fix: accept negative static_argnums in compute_memory

---
 folx/experimental/memory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index eb00585..3605d2a 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -200,6 +200,8 @@ def compute_memory(
     """
     if isinstance(static_argnums, int):
         static_argnums = (static_argnums,)
+    # Like in jax.jit, negative numbers count from the end.
+    static_argnums = tuple(i + len(args) if i < 0 else i for i in static_argnums)
     closed_jaxpr = jax.make_jaxpr(f, static_argnums=static_argnums)(*args, **kwargs)
     # enclose function
     fn = functools.partial(
-- 
2.43.0


From d15d8154a712190cdaf2162b2f6b5f7cc31b8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 26/34] fix: compute_memory with literals in called programs

---
 folx/experimental/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 3605d2a..ecf1a1f 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -47,7 +47,8 @@ class MemoryExprEnvironment:
 
     def read(self, var: core.Atom) -> Array:
         if isinstance(var, core.Literal):
-            return var.val
+            # Literals may be Python scalars.
+            return jnp.asarray(var.val, dtype=var.aval.dtype)
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From 5f132ec26b14346f77964016b3014ef5f2f0014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 27/34] fix: masks of functions which keep the axes they act on

---
 folx/jvp.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 5d19ff4..ec80506 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -181,10 +181,18 @@ def sparse_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
+    # The mask only has the axes that are kept. The function may return further
+    # trailing axes, e.g., if it preserves the axes it acts on, like a softmax.
+    n_kept = max(np.ndim(a) for a in jtu.tree_leaves(merge(laplace_args.x, extra_args)))
+    n_kept -= len(axes)
+
+    def expand_mask(g: Array):
+        n_new = max(g.ndim - 1 - n_kept, 0)
+        mask = out_mask.reshape(*out_mask.shape, *(1,) * n_new)
+        return broadcast_mask_to_jacobian(mask, g)
+
     # The function might have several outputs, all of them share the same mask.
-    grad_y = jtu.tree_map(
-        lambda g: FwdJacobian(g, broadcast_mask_to_jacobian(out_mask, g)), grad_y
-    )
+    grad_y = jtu.tree_map(lambda g: FwdJacobian(g, expand_mask(g)), grad_y)
     return y, grad_y, lapl_y
 
 
-- 
2.43.0


From af637428a3f402eabedf3927daa450c4e3ee0763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 28/34] fix: contraction of the input dimension in jac_jacT

---
 folx/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index 6fced40..eaa394e 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -84,7 +84,7 @@ def jac_jacT(first: FwdJacobian, other: FwdJacobian, idx: Array | np.ndarray | N
     Computes outer product of the given jacobians.
     """
     x, y = get_reduced_jacobians(first, other, idx=idx)
-    return x @ y.T
+    return x.T @ y
 
 
 def flat_wrap(fn: ForwardFn, *x: Array):
-- 
2.43.0


From 14e573cfc0fe58a09342545da47e7af24c9ee65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 29/34] fix: elementwise functions with several results

---
 folx/jvp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index ec80506..400aaa3 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -472,8 +472,8 @@ def dense_split_jvp(
 def dense_elementwise_jvp(
     fwd: ForwardFn, laplace_args: FwdLaplArgs
 ) -> tuple[Array, FwdJacobian, Array]:
-    y: Array = fwd(laplace_args.x[0])  # type: ignore
-    if y.shape != laplace_args.x[0].shape:
+    y = fwd(laplace_args.x[0])
+    if not isinstance(y, Array) or y.shape != laplace_args.x[0].shape:
         return dense_split_jvp(fwd, laplace_args)
 
     jac = vjp(fwd, laplace_args.x[0])(jnp.ones_like(y))[0]
-- 
2.43.0


From 0ffd5d1962339a976127e04f8a4213390c8addfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 30/34] fix: negative axes in the sum rule

---
 folx/jvp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/folx/jvp.py b/folx/jvp.py
index 400aaa3..5cc2f5c 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -50,6 +50,7 @@ def sparse_sum_jvp(
         axes = kwargs.get('axes')
     if axes is None:
         axes = tuple(range(x.ndim))
+    axes = tuple(i % x.ndim for i in axes)
 
     # these are fairly easy to compute
     y = x.sum(axes)
-- 
2.43.0


From 7a34b5d4c5febacfa0d648c5c98baf9dbb84e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 31/34] fix: integer results of operations without a rule

---
 folx/wrapper.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/folx/wrapper.py b/folx/wrapper.py
index 0bf9490..7bdbdcc 100644
--- a/folx/wrapper.py
+++ b/folx/wrapper.py
@@ -3,6 +3,7 @@ import warnings
 from typing import Any, ParamSpec, TypeVar
 
 import jax
+import jax.numpy as jnp
 from jax.numpy import ComplexWarning
 
 from .api import (
@@ -117,6 +118,36 @@ def wrap_forward_laplacian(
         if len(lapl_args) == 0:
             return lapl_fns.forward(*merge((), extra))
 
+        # Integer and boolean outputs have no derivatives. We only propagate the others.
+        out = jax.eval_shape(lapl_fns.forward, *(a.x for a in lapl_args))
+        leaves, treedef = jax.tree_util.tree_flatten(out)
+        is_inexact = [jnp.issubdtype(leaf.dtype, jnp.inexact) for leaf in leaves]
+        if not all(is_inexact):
+            values = jax.tree_util.tree_leaves(
+                lapl_fns.forward(*(a.x for a in lapl_args))
+            )
+            if any(is_inexact):
+
+                def inexact_fn(*args, **kwargs):
+                    values = jax.tree_util.tree_leaves(fn(*args, **kwargs))
+                    return [v for v, inexact in zip(values, is_inexact) if inexact]
+
+                lapl_values = iter(
+                    wrap_forward_laplacian(
+                        inexact_fn,
+                        in_axes=in_axes,
+                        flags=flags,
+                        name=partial_fn.__name__,
+                        index_static_args=index_static_args,
+                        custom_jac_hessian_jac=custom_jac_hessian_jac,
+                    )(args, kwargs, sparsity_threshold)
+                )
+                values = [
+                    next(lapl_values) if inexact else value
+                    for value, inexact in zip(values, is_inexact)
+                ]
+            return jax.tree_util.tree_unflatten(treedef, values)
+
         # Actually update Laplacian state
         laplace_args = FwdLaplArgs(lapl_args)
         y, grad_y, lapl_y = lapl_fns.jvp(laplace_args, kwargs)
-- 
2.43.0


From 28eab659ccd3e7b618a4e29e9633a7e03a7a4716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 32/34] fix: linear solves with sparse arguments

---
 folx/wrapped_functions.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index fe57732..1434e24 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -263,6 +263,25 @@ def slogdet_wrapper(
     return sign, logdet
 
 
+def linear_solve_wrapper(
+    args: tuple[ArrayOrFwdLaplArray, ...],
+    kwargs: dict[str, Any],
+    sparsity_threshold: int,
+):
+    # JAX only implements the JVP if the right hand side or the matrix has a tangent
+    # but not for the factorization alone. Thus, we cannot process the arguments
+    # one by one.
+    args = jtu.tree_map(
+        lambda a: a.dense if isinstance(a, FwdLaplArray) else a,
+        args,
+        is_leaf=lambda a: isinstance(a, FwdLaplArray),
+    )
+    fn = wrap_forward_laplacian(
+        jax.lax.linear_solve_p.bind, name=jax.lax.linear_solve_p.name
+    )
+    return fn(args, kwargs, sparsity_threshold=0)
+
+
 @jax.custom_jvp
 def complex_abs(x):
     return jnp.abs(x)
@@ -436,6 +455,7 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.or_p: warp_without_fwd_laplacian(jax.lax.bitwise_or),
     jax.lax.is_finite_p: warp_without_fwd_laplacian(jax.lax.is_finite),
     jax.lax.convert_element_type_p: dtype_conversion,
+    jax.lax.linear_solve_p: linear_solve_wrapper,
     'sign': warp_without_fwd_laplacian(jax.lax.sign),
     'logaddexp': wrap_forward_laplacian(jnp.logaddexp, in_axes=()),
     'sigmoid': wrap_forward_laplacian(jax.nn.sigmoid, in_axes=()),
-- 
2.43.0


From 21e4441b0e23953d18e96bcd800e3312b7993ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:42 +0000
Subject: [PATCH 33/34] fix: memory estimates in several threads or inside of
 one another

---
 folx/experimental/memory.py | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index ecf1a1f..4792b56 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -1,7 +1,5 @@
 import functools
-import sys
 from collections import defaultdict
-from io import StringIO
 from typing import Sequence
 
 import jax
@@ -161,20 +159,7 @@ def _compute_jaxpr_memory(
 
     if return_result:
         return env.read_many(jaxpr.outvars), peak_memory, all_tensors
-    print(peak_memory)
-    return None
-
-
-class Capturing(list):  # Utility that captured the stdout of a function
-    def __enter__(self):
-        self._stdout = sys.stdout
-        sys.stdout = self._stringio = StringIO()
-        return self
-
-    def __exit__(self, *args):
-        self.extend(self._stringio.getvalue().splitlines())
-        del self._stringio  # free up some memory
-        sys.stdout = self._stdout
+    return peak_memory
 
 
 def compute_memory(
@@ -213,14 +198,12 @@ def compute_memory(
     )
     # remove statics
     args = tuple(args[i] for i in range(len(args)) if i not in static_argnums)
-    # Here we abuse the eval_shape function to avoid actually computing something.
-    # Instead the function prints to correct usage
-    with Capturing() as output:
-        jax.eval_shape(fn, *jtu.tree_leaves((args, kwargs)))
+    peak_memory = 0
 
-    # Print everything except the last line
-    if len(output) > 1:
-        print('\n'.join(output[:-1]))
+    def estimate(*leaves):
+        nonlocal peak_memory
+        peak_memory = fn(*leaves)
 
-    # Return the last line
-    return int(output[-1])
+    # Here we abuse the eval_shape function to avoid actually computing something.
+    jax.eval_shape(estimate, *jtu.tree_leaves((args, kwargs)))
+    return int(peak_memory)
-- 
2.43.0


From 8138f070ed999ed5f6c24123355451256b457159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:42 +0000
Subject: [PATCH 34/34] fix: programs with arrays without elements

---
 folx/interpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 8dbb9ee..3fe3f0c 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -72,6 +72,9 @@ class JaxExprEnvironment:
 
     def write(self, var: core.Var, val: ArrayOrFwdLaplArray):
         if self.reference_counter[var] > 0:
+            if isinstance(val, FwdLaplArray) and val.x.size == 0:
+                # Arrays without elements carry no derivatives.
+                val = val.x
             self.env[var] = val
 
     def read_many(self, vars: Sequence[core.Atom]) -> list[ArrayOrFwdLaplArray]:
-- 
2.43.0

