From db627868a9c4a2228a76df3b9a187d2c6f55e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 01/27] fix: previous-increment guess when the block is longer
 than the history

With guess_type="previous" and a block size above the number of steps the
zero guess of the (partial) first block was shortened a second time, and the
integration failed on the resulting shape.
---
 pyoptmat/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index cb7989f..83ecca4 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -402,8 +402,8 @@ class FixedGridBlockSolver:
                 guess = torch.zeros_like(result[k : k + self.n])
             else:
                 guess = result[(k - self.n) : k] - result[k - self.n - 1].unsqueeze(0)
-            blk = self.n - result[k : k + self.n].shape[0]
-            guess = guess[blk:]
+                blk = self.n - result[k : k + self.n].shape[0]
+                guess = guess[blk:]
         else:
             raise ValueError(f"Unknown initial guess strategy {self.guess_type}!")
 
-- 
2.43.0


From aa687a52007bcf6e9d1276019b617214fc27dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 02/27] fix: bidiagonal solves no longer overwrite the
 right-hand side

The Thomas factorization solved in place of the caller's tensor (visible
through the operator interface whenever the reshaped right-hand side shares
its storage, i.e. for one batch member or one block).
---
 pyoptmat/chunktime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index a84e0c1..7162bfc 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -209,7 +209,7 @@ class BidiagonalThomasFactorization(LUFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        return thomas_solve(self.lu, self.pivots, self.B, v)
+        return thomas_solve(self.lu, self.pivots, self.B, v.clone())
 
 
 class BidiagonalPCRFactorization(LUFactorization):
-- 
2.43.0


From fcfc6300a3a96cc5e4dc040fc66a937d038ef29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 03/27] fix: cyclic reduction works out of place, so
 factorizations can be reused and differentiated

---
 pyoptmat/chunktime.py | 89 +++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 54 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 7162bfc..c73c361 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -10,7 +10,7 @@
 """
 
 import warnings
-from math import prod, log2, floor
+from math import log2, floor
 
 import torch
 from torch.nn.functional import pad
@@ -228,20 +228,30 @@ class BidiagonalPCRFactorization(LUFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
-
         # Now figure out how many powers of 2 we need to complete our matrix
-        for s, e in zip(*self._pow2(self.nblk)):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
-            )
-
-        # To retain consistent sizes
-        self.B = self.B[1:]
+        v = self._reduce(v, *self._pow2(self.nblk))
 
         return torch.linalg.lu_solve(self.lu, self.pivots, v)
 
+    def _reduce(self, v, start, end):
+        """
+        Reduce the right hand side over a series of overlapping submatrices,
+        leaving both the original right hand side and the stored
+        off diagonal blocks alone
+
+        Args:
+            v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
+            start (list of int): start index of each submatrix
+            end (list of int): end index of each submatrix
+        """
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+
+        for s, e in zip(start, end):
+            vn = self._solve_block(self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e])
+            v = torch.cat((v[: s + 1], vn, v[e:]))
+
+        return v
+
     def _solve_block(self, lu, pivots, B, v):
         """Solve a subsection of the matrix via PCR
 
@@ -250,36 +260,29 @@ class BidiagonalPCRFactorization(LUFactorization):
             pivots (torch.tensor): (ncurr,sbat,sblk)
             B (torch.tensor): (ncurr,sbat,sblk,sblk)
             v (torch.tensor): (ncurr,sbat,sblk,1)
+
+        Returns:
+            the reduced right hand side, without the first block
         """
         # Number of iterations required to reduce this block
         niter = lu.shape[0].bit_length() - 1
 
-        # Add the extra working dimension to the start of everything
-        lu = lu.unsqueeze(0)
-        pivots = pivots.unsqueeze(0)
-        B = B.unsqueeze(0)
-        v = v.unsqueeze(0)
-
         # Actually start reduction!
         for i in range(niter):
+            # Distance between the coupled blocks
+            d = 2**i
+
             # Reduce RHS
-            v[:, 1:] -= mbmm(
-                B[:, 1:], torch.linalg.lu_solve(lu[:, :-1], pivots[:, :-1], v[:, :-1])
-            )
+            vn = v[d:] - mbmm(B[d:], torch.linalg.lu_solve(lu[:-d], pivots[:-d], v[:-d]))
+            v = torch.cat((v[:d], vn))
 
             # Reduce off diagonal coefficients
-            B[:, 2:] = -mbmm(
-                B[:, 2:],
-                torch.linalg.lu_solve(lu[:, 1:-1], pivots[:, 1:-1], B[:, 1:-1]),
+            Bn = -mbmm(
+                B[2 * d :], torch.linalg.lu_solve(lu[d:-d], pivots[d:-d], B[d:-d])
             )
+            B = torch.cat((B[: 2 * d], Bn))
 
-            # Shuffle dimensions
-            v = self._cyclic_shift(v, i)
-            B = self._cyclic_shift(B, i)
-            lu = self._cyclic_shift(lu, i)
-            pivots = self._cyclic_shift(pivots, i)
-
-        return B.squeeze(1)[1:], v.squeeze(1)[1:]
+        return v[1:]
 
     @staticmethod
     def _pow2(n):
@@ -312,19 +315,6 @@ class BidiagonalPCRFactorization(LUFactorization):
 
         return start, end
 
-    @staticmethod
-    def _cyclic_shift(A, n):
-        """Provide a view of the input with a cyclic shift applied
-
-        Args:
-            A (torch.tensor): input tensor
-            n (int): number of cyclic shifts
-        """
-        return A.as_strided(
-            (A.shape[0] * 2, A.shape[1] // 2) + A.shape[2:],
-            (prod(A.shape[2:]), 2 ** (n + 1) * prod(A.shape[2:])) + A.stride()[2:],
-        )
-
 
 class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
     """A factorization approach that switches from PCR to Thomas
@@ -354,20 +344,11 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
-
         # Get the PCR blocks to actually use
         start, end, last = self._pcr_blocks()
 
-        # Do PCR
-        for s, e in zip(start, end):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
-            )
-
-        # To retain consistent sizes
-        self.B = self.B[1:]
+        # Do PCR, on a copy as the rest works in place
+        v = self._reduce(v.clone(), start, end)
 
         # We still need to solve the first block even if last is 0
 
-- 
2.43.0


From e410e446d27594d14aef0b14ef6cab85cfb260af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 04/27] fix: adjoint gradients with frozen parameters or
 parameters the rate does not use

---
 pyoptmat/ode.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index 83ecca4..cfe4a6a 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -420,7 +420,14 @@ class FixedGridBlockSolver:
         """
         with torch.enable_grad():
             ydot = self.func(t, y)[0]
-            return torch.autograd.grad(ydot, self.adjoint_params, a)
+            # The rate may not depend on some (or any) of the parameters
+            if not ydot.requires_grad:
+                return tuple(torch.zeros_like(p) for p in self.adjoint_params)
+            grads = torch.autograd.grad(ydot, self.adjoint_params, a, allow_unused=True)
+            return tuple(
+                torch.zeros_like(p) if g is None else g
+                for p, g in zip(self.adjoint_params, grads)
+            )
 
     def rewind(self, output_grad):
         """
@@ -659,7 +666,9 @@ def odeint_adjoint(
     # Grab parameters for backward
     if extra_params is None:
         extra_params = []
-    adjoint_params = tuple(p for p in func.parameters()) + tuple(extra_params)
+    adjoint_params = tuple(
+        p for p in (*func.parameters(), *extra_params) if p.requires_grad
+    )
 
     solver = FixedGridBlockSolver(
         func, y0, scheme=int_methods[method], adjoint_params=adjoint_params, **kwargs
-- 
2.43.0


From 60f6d75e89b0182e6cc373fc9d6ad5dfc87b4b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 05/27] fix: Newton solvers no longer overwrite the starting
 point

---
 pyoptmat/chunktime.py | 2 +-
 pyoptmat/solvers.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index c73c361..039b7a0 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -48,7 +48,7 @@ def newton_raphson_chunk(
     i = 0
 
     while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x -= solver.solve(J, R)
+        x = x - solver.solve(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
         i += 1
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 5044715..cb46282 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -114,7 +114,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
     i = 0
 
     while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x -= solver(J, R)
+        x = x - solver(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
         i += 1
@@ -418,7 +418,7 @@ class PreconditionerReuseNonlinearSolver:
                 return_iters=True,
                 tol=ltol,
             )
-            x -= dx
+            x = x - dx
             R, J = fn(x)
             if niter > l_refactor:
                 self._update_preconditioner(J)
-- 
2.43.0


From 730c2af84a16227a2ce10cc3307830b28a088ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 06/27] fix: Newton solvers report non-finite residuals, and
 only actual failures

---
 pyoptmat/chunktime.py |  3 ++-
 pyoptmat/solvers.py   | 28 +++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 039b7a0..6927b67 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -16,6 +16,7 @@ import torch
 from torch.nn.functional import pad
 import numpy as np
 
+from pyoptmat import solvers
 from pyoptmat.utility import mbmm
 
 
@@ -53,7 +54,7 @@ def newton_raphson_chunk(
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if solvers.solve_failed(nR, nR0, rtol, atol):
         if throw_on_fail:
             raise RuntimeError("Implicit solve did not succeed.")
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index cb46282..bd158d9 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -8,6 +8,28 @@ import warnings
 import torch
 
 
+def solve_failed(nR, nR0, rtol, atol):
+    """
+    Check the final residuals of a nonlinear solve
+
+    Args:
+      nR (torch.tensor):    norm of the final residuals
+      nR0 (torch.tensor):   norm of the initial residuals
+      rtol (float):         nonlinear relative tolerance
+      atol (float):         nonlinear absolute tolerance
+
+    Returns:
+      bool: false if all the residuals are within the absolute tolerance or all
+            of them are within the relative tolerance, and true otherwise,
+            including if any of them is not finite
+    """
+    if torch.all(nR <= atol):
+        return False
+    if not torch.all(torch.isfinite(nR) & torch.isfinite(nR0)):
+        return True
+    return bool(torch.any(nR / nR0 > rtol))
+
+
 def newton_raphson_bt(
     fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100, max_bt=5
 ):
@@ -69,7 +91,7 @@ def newton_raphson_bt(
         x = xp
         i += 1
 
-    if i == miter:
+    if solve_failed(nR, nR0, rtol, atol):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -119,7 +141,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if solve_failed(nR, nR0, rtol, atol):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -425,7 +447,7 @@ class PreconditionerReuseNonlinearSolver:
             nR = torch.norm(R, dim=-1)
             i += 1
 
-        if i == miter:
+        if solve_failed(nR, nR0, rtol, atol):
             warnings.warn(
                 "Implicit solve did not succeed.  Results may be inaccurate..."
             )
-- 
2.43.0


From cf330c1d0673871b3fc1ec164877bcda3e004b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 07/27] fix: plain AD gradients when the initial guess already
 solves the step

---
 pyoptmat/chunktime.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 6927b67..1e59572 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -48,7 +48,12 @@ def newton_raphson_chunk(
     nR0 = nR
     i = 0
 
-    while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
+    # When differentiating through the solution take at least one step, as it
+    # provides the derivative even if the starting point is already a solution
+    while (i < miter) and (
+        (torch.any(nR > atol) and torch.any(nR / nR0 > rtol))
+        or (i == 0 and R.requires_grad)
+    ):
         x = x - solver.solve(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
-- 
2.43.0


From 30c1855955f2418c7d5b9949554f57fad1096e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 08/27] fix: unrolled CSR matrices keep the shape of the matrix
 when trailing blocks are empty

---
 pyoptmat/chunktime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 1e59572..fe69484 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -698,6 +698,8 @@ class SquareBatchedBlockDiagonalMatrix:
         """
         coo = self.to_batched_coo()
         return [
-            torch.sparse_coo_tensor(coo.indices(), coo.values()[:, i]).to_sparse_csr()
+            torch.sparse_coo_tensor(
+                coo.indices(), coo.values()[:, i], size=(self.n, self.n)
+            ).to_sparse_csr()
             for i in range(self.sbat)
         ]
-- 
2.43.0


From 4466a5d71285318bf4e76cb041f4f4422760c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 09/27] fix: time-series interpolator accepts any number of
 query dimensions

---
 pyoptmat/utility.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 2e57e0c..329f211 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -310,11 +310,10 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
         Returns:
           torch.tensor:       batched values at :code:`t`
         """
-        squeeze = t.dim() == 1
+        shape = t.shape
 
-        t = t.t()  # Transpose so the common dimension is first
-        if squeeze:
-            t = t.unsqueeze(-1)
+        # Collapse and transpose so the common dimension is first
+        t = t.reshape(-1, shape[-1]).t()
 
         # Which dimensions to offset -- likely there is some efficiency
         # to be gained by flipping these, but probably depends on the
@@ -336,10 +335,7 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
             locs[..., 0], t == self.times[..., 0].unsqueeze(-1)
         )
 
-        if squeeze:
-            return poss[locs].squeeze(-1).t()
-
-        return poss[locs].reshape(t.shape).t()
+        return poss[locs].reshape(t.shape).t().reshape(shape)
 
 
 class BatchTimeSeriesInterpolator(nn.Module):
-- 
2.43.0


From 8947db54fcbe594a69555698a0969c2e80d8708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 10/27] fix: interpolators stay finite at repeated first and
 last times

---
 pyoptmat/utility.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 329f211..207f786 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -276,6 +276,27 @@ def differentiate(fn, x0, eps=1.0e-6):
     return d
 
 
+def segment_slopes(times, values, dim=0):
+    """
+    Slopes of a piecewise linear time series, defined as zero
+    for segments of zero length
+
+    Args:
+      times (torch.tensor):     input time series
+      values (torch.tensor):    input values series
+
+    Keyword Args:
+      dim (int):                time dimension, default 0
+
+    Returns:
+      torch.tensor:             slope of each segment
+    """
+    dt = torch.diff(times, dim=dim)
+    dv = torch.diff(values, dim=dim)
+
+    return torch.where(dt == 0, 0.0, dv / torch.where(dt == 0, 1.0, dt))
+
+
 class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
     """
     Interpolate :code:`data` located at discrete :code:`times`
@@ -298,7 +319,7 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
         self.times = times.t()
         self.values = data.t()
 
-        self.slopes = torch.diff(self.values, dim=-1) / torch.diff(self.times, dim=-1)
+        self.slopes = segment_slopes(self.times, self.values, dim=-1)
 
     def forward(self, t):
         """
@@ -360,7 +381,7 @@ class BatchTimeSeriesInterpolator(nn.Module):
         self.times = times
         self.values = data
 
-        self.slopes = torch.diff(self.values, dim=0) / torch.diff(self.times, dim=0)
+        self.slopes = segment_slopes(self.times, self.values, dim=0)
 
     def forward(self, t):
         """
@@ -405,7 +426,7 @@ class CheaterBatchTimeSeriesInterpolator(nn.Module):
         self.times = times
         self.values = data
 
-        self.slopes = torch.diff(self.values, dim=0) / torch.diff(self.times, dim=0)
+        self.slopes = segment_slopes(self.times, self.values, dim=0)
 
     def forward(self, t):
         """
-- 
2.43.0


From 5b02e70308231205748d5fbede864f0ba6666498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 11/27] fix: GMRES handles batch members with a zero residual

---
 pyoptmat/solvers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index bd158d9..49f10ce 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -335,9 +335,12 @@ def gmres(
     # Initial residual
     r = b - A.bmm(x.unsqueeze(-1)).squeeze(-1)
 
+    # Norm used to scale the residual, nonzero also for a zero residual
+    scale = torch.linalg.vector_norm(r, dim=-1) + eps
+
     # Basis
     V = torch.zeros((nbatch, b.shape[-1], maxiter + 1), device=A.device)
-    V[..., :, 0] = r / torch.linalg.norm(r, dim=-1)[:, None]
+    V[..., :, 0] = r / scale[:, None]
 
     # Preconditioned basis
     Z = torch.zeros((nbatch, b.shape[-1], maxiter + 1), device=A.device)
@@ -357,7 +360,7 @@ def gmres(
 
     # Unit vector
     e1 = torch.zeros((nbatch, maxiter + 1), device=A.device)
-    e1[:, 0] = nR
+    e1[:, 0] = scale
 
     # Start iterating
     for k in range(maxiter):
-- 
2.43.0


From 33f153ef2f4ff7e31c5d30c8ce9cc5ab486f2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 12/27] fix: piecewise temperature scaling reports the shape of
 its values

---
 pyoptmat/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/temperature.py b/pyoptmat/temperature.py
index 52ddc3f..1f64f57 100644
--- a/pyoptmat/temperature.py
+++ b/pyoptmat/temperature.py
@@ -576,7 +576,7 @@ class PiecewiseScaling(TemperatureParameter):
         """
         Shape of the underlying parameter
         """
-        return self.values.shape[1:]
+        return self.values.shape[:-1]
 
 
 class ArrheniusScaling(TemperatureParameter):
-- 
2.43.0


From 6046ac9394a46504c16b1649ef8a0828843e17b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 13/27] fix: Kocks-Mecking flow rules apply the scaling of the
 shear modulus

---
 pyoptmat/flowrules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 249ba36..9af4224 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -208,7 +208,7 @@ class KocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -473,7 +473,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -490,7 +490,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
             torch.tensor:       derivative of the activation energy
         """
         return -(
-            self.k * T / (self.mu.value(T) * self.b**3.0) / (torch.abs(e) + self.eps)
+            self.k * T / (self.mu(T) * self.b**3.0) / (torch.abs(e) + self.eps)
         ) * torch.sign(e)
 
     def f(self, T, e):
-- 
2.43.0


From 7efe9a1b8bf5c9bc38483372bcc6a58ae4214316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 14/27] fix: derivatives of the Hayhurst-Leckie damage rate

---
 pyoptmat/damage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index 32cce5c..3198952 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -111,9 +111,9 @@ class HayhurstLeckie(DamageModel):
         """
         return (torch.abs(s) / self.A(T)) ** self.xi(T) * (1 - d) ** (
             self.xi(T) - self.phi(T)
-        ), -((torch.abs(s) / self.A(T)) ** self.xi(T)) * (1 - d) ** (
-            self.xi(T) - self.phi(T) - 1
-        )
+        ), -(self.xi(T) - self.phi(T)) * (torch.abs(s) / self.A(T)) ** self.xi(T) * (
+            1 - d
+        ) ** (self.xi(T) - self.phi(T) - 1)
 
     def d_damage_rate_d_s(self, s, d, t, T, e):
         """
@@ -126,7 +126,9 @@ class HayhurstLeckie(DamageModel):
           T (torch.tensor):      temperature
         """
         return (
-            (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
+            self.xi(T)
+            / self.A(T)
+            * (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
             * (1 - d) ** (self.xi(T) - self.phi(T))
             * torch.sign(s)
         )
-- 
2.43.0


From 5f11dc44a164a2d8d0200044959b865d53e07113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 15/27] fix: derivative of the damage rate through the
 effective stress

---
 pyoptmat/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 19d4d1d..2dc3cdf 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -237,7 +237,12 @@ class DamagedInelasticModel(nn.Module):
                     / (1 - d)
                 )[..., None, None],
                 torch.zeros_like(h).unsqueeze(-2),
-                ddrate[..., None, None],
+                (
+                    ddrate
+                    + self.dmodel.d_damage_rate_d_s(stress / (1 - d), d, t, T, erate)
+                    * stress
+                    / (1 - d) ** 2
+                )[..., None, None],
             ],
             dim=-1,
         )
-- 
2.43.0


From 1dfe550ad1e3a08e3e2a07883f8816670af22ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 16/27] fix: Jacobian of stress-controlled models with
 rate-dependent internal variables

---
 pyoptmat/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 2dc3cdf..d278d09 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -555,8 +555,11 @@ class StressBasedModel(nn.Module):
         yp[..., 0] = cs
         ydot, J, Je, _ = self.model(t, yp, erate[..., 0], cT)
 
-        # Rescale the jacobian
-        J[..., 0, :] = -J[..., 0, :] / Je[..., 0][..., None]
+        # Rescale the jacobian: the strain rate depends on the internal variables
+        # through the stress equation, and the other rates on the strain rate
+        de = -J[..., 0, :] / Je[..., 0][..., None]
+        J = J + Je[..., :, None] * de[..., None, :]
+        J[..., 0, :] = de
         J[..., :, 0] = 0
 
         # Insert the strain rate
-- 
2.43.0


From f65e9096833332f65c64a04c7745cd82cf79e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 17/27] fix: no flow derivatives below yield for a rate
 sensitivity of one

---
 pyoptmat/flowrules.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 9af4224..5177587 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -1182,6 +1182,9 @@ class IsoKinViscoplasticity(FlowRule):
         ih = self.isotropic.value(h[..., : self.isotropic.nhist])
         kh = self.kinematic.value(h[..., self.isotropic.nhist :])
 
+        # No flow below yield, also if n = 1
+        active = torch.abs(s - kh) - self.s0(T) - ih > 0
+
         return (
             utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
             ** self.n(T)
@@ -1189,7 +1192,8 @@ class IsoKinViscoplasticity(FlowRule):
             self.n(T)
             * utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
             ** (self.n(T) - 1)
-            / self.eta(T),
+            / self.eta(T)
+            * active,
         )
 
     def dflow_diso(self, s, h, t, T, e):
@@ -1218,6 +1222,7 @@ class IsoKinViscoplasticity(FlowRule):
             * utility.macaulay(iv) ** (self.n(T) - 1)
             / self.eta(T)
             * torch.sign(s - kh)
+            * (iv > 0)
         )
 
     def dflow_dkin(self, s, h, t, T, e):
@@ -1244,6 +1249,7 @@ class IsoKinViscoplasticity(FlowRule):
             * utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
             ** (self.n(T) - 1)
             / self.eta(T)
+            * (torch.abs(s - kh) - self.s0(T) - ih > 0)
         )
 
     @property
-- 
2.43.0


From 196d0ba29518772e2f305008e66bdd05a4886147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:12 +0000
Subject: [PATCH 18/27] fix: relaxation and cyclic results use the cycles of
 each experiment

---
 pyoptmat/experiments.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 4a9afd0..d2af3f2 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -252,15 +252,12 @@ def format_relaxation(cycles, predictions):
     Returns:
       torch.tensor:                 processed results
     """
-    result = torch.zeros_like(predictions)
-    rcurve = cycles[:, 0] == 1  # This is right, but dangerous in the future
-
-    curve = predictions[rcurve]
-    curve = curve - curve[0]
+    hold = cycles == 1
 
-    result[rcurve] = curve
+    # Each test has its own start of hold
+    start = torch.argmax(hold.int(), dim=0, keepdim=True)
 
-    return result
+    return torch.where(hold, predictions - predictions.gather(0, start), 0.0)
 
 
 def format_cyclic(cycles, predictions):
@@ -279,15 +276,18 @@ def format_cyclic(cycles, predictions):
     Returns:
       torch.tensor:                 processed results
     """
-    # If this is slow we can probably remove the for loop
-    result = torch.zeros_like(predictions)
-    uc = cycles[:, 0]  # Correct but dangerous for future expansion
-    for i in range(uc[-1] + 1):
-        curr = uc == i
-        vals, _ = torch.max(predictions[curr], axis=0)
-        result[curr] = vals
-
-    return result
+    ncycles = int(torch.max(cycles)) + 1
+
+    # Each test has its own cycles, points outside of any cycle are zero
+    index = torch.where(cycles < 0, ncycles, cycles).long()
+    vals = torch.full(
+        (ncycles + 1, predictions.shape[1]),
+        -torch.inf,
+        dtype=predictions.dtype,
+        device=predictions.device,
+    ).scatter_reduce(0, index, predictions, "amax")
+
+    return torch.where(cycles < 0, 0.0, vals.gather(0, index))
 
 
 def make_tension_tests(rates, temperatures, elimits, nsteps):
-- 
2.43.0


From 3a9c888ae75dacffb5f58f5beb570a2189e0a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 19/27] fix: numerical differentiation of matrix-valued
 functions and arguments

---
 pyoptmat/utility.py | 43 +++++++++++++------------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 207f786..8cd6614 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -132,43 +132,26 @@ def batch_differentiate(fn, x0, eps=1.0e-6, nbatch_dim=1):
 
     s1 = v0.shape[nbatch_dim:]
     s2 = x0.shape[nbatch_dim:]
-    squeeze1 = False
-    squeeze2 = False
 
-    if len(s1) == 0:
-        s1 = (1,)
-        squeeze1 = True
-
-    if len(s2) == 0:
-        s2 = (1,)
-        squeeze2 = True
+    # Work with flattened values and arguments
+    n1 = int(np.prod(s1))
+    n2 = int(np.prod(s2))
 
-    d = torch.empty(bs + s1 + s2, device=x0.device)
+    d = torch.empty(bs + (n1, n2), device=x0.device)
 
-    x0 = x0.reshape(bs + s2)
-    v0 = v0.reshape(bs + s1)
+    xf = x0.reshape(bs + (n2,))
+    vf = v0.reshape(bs + (n1,))
 
-    for i2 in np.ndindex(s2):
-        dx = torch.zeros_like(x0)
-        inc = torch.abs(x0[..., i2]) * eps
+    for i2 in range(n2):
+        dx = torch.zeros_like(xf)
+        inc = torch.abs(xf[..., i2]) * eps
         inc[inc < eps] = eps
         dx[..., i2] = inc
 
-        x = x0 + dx
-        if squeeze2:
-            x = x.squeeze(-1)
-
-        v1 = fn(x).reshape(bs + s1)
-        d[..., i2] = (v1 - v0).unsqueeze(-1).expand(d[..., i2].shape) / inc.unsqueeze(
-            -2
-        ).expand(d[..., i2].shape)
-
-    if squeeze1 and squeeze2:
-        d = d.squeeze(-1).squeeze(-1)
-    elif squeeze2:
-        d = d.squeeze(-1)
-    elif squeeze1:
-        d = d.squeeze(-len(s2) - 1)
+        v1 = fn((xf + dx).reshape(x0.shape)).reshape(bs + (n1,))
+        d[..., i2] = (v1 - vf) / inc.unsqueeze(-1)
+
+    d = d.reshape(bs + s1 + s2)
 
     return d
 
-- 
2.43.0


From 838302dc6d20b090e64bc882c14b6bbec802a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 20/27] fix: keep the prior means of the hierarchical model out
 of the parameter store

The guide handed the caller's prior location tensor to pyro.param without a
copy, so every optimisation step moved the prior along with the posterior
location (and modified the caller's tensor).
---
 pyoptmat/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/optimize.py b/pyoptmat/optimize.py
index c9d80e9..c4715bb 100644
--- a/pyoptmat/optimize.py
+++ b/pyoptmat/optimize.py
@@ -433,7 +433,8 @@ class HierarchicalStatisticalModel(PyroModule):
             ):
                 dim = loc_loc.dim()
                 loc_param = pyro.param(
-                    var + self.loc_suffix + self.param_suffix, loc_loc
+                    var + self.loc_suffix + self.param_suffix,
+                    loc_loc.detach().clone(),
                 )
                 scale_param = pyro.param(
                     var + self.scale_suffix + self.param_suffix,
-- 
2.43.0


From f5632d4827f8453534cc751f749ee650957dc910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:48 +0000
Subject: [PATCH 21/27] fix: finite derivatives of the rate laws where the base
 of a power is zero

---
 pyoptmat/damage.py    |  4 +++-
 pyoptmat/flowrules.py | 16 ++++++++++------
 pyoptmat/hardening.py | 14 +++++++-------
 pyoptmat/utility.py   | 21 +++++++++++++++++++++
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index 3198952..afaaef4 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -9,6 +9,8 @@
 import torch
 from torch import nn
 
+from pyoptmat import utility
+
 
 class DamageModel(nn.Module):
     """
@@ -128,7 +130,7 @@ class HayhurstLeckie(DamageModel):
         return (
             self.xi(T)
             / self.A(T)
-            * (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
+            * utility.power(s / self.A(T), self.xi(T) - 1)
             * (1 - d) ** (self.xi(T) - self.phi(T))
             * torch.sign(s)
         )
diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 5177587..e288b93 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -1095,7 +1095,7 @@ class PerfectViscoplasticity(FlowRule):
         """
         return (
             (torch.abs(s) / self.eta(T)) ** self.n(T) * torch.sign(s),
-            self.n(T) * (torch.abs(s) / self.eta(T)) ** (self.n(T) - 1) / self.eta(T),
+            self.n(T) * utility.power(s / self.eta(T), self.n(T) - 1) / self.eta(T),
         )
 
     @property
@@ -1190,8 +1190,10 @@ class IsoKinViscoplasticity(FlowRule):
             ** self.n(T)
             * torch.sign(s - kh),
             self.n(T)
-            * utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
-            ** (self.n(T) - 1)
+            * utility.power(
+                utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T)),
+                self.n(T) - 1,
+            )
             / self.eta(T)
             * active,
         )
@@ -1219,7 +1221,7 @@ class IsoKinViscoplasticity(FlowRule):
 
         return (
             -self.n(T)
-            * utility.macaulay(iv) ** (self.n(T) - 1)
+            * utility.power(utility.macaulay(iv), self.n(T) - 1)
             / self.eta(T)
             * torch.sign(s - kh)
             * (iv > 0)
@@ -1246,8 +1248,10 @@ class IsoKinViscoplasticity(FlowRule):
 
         return (
             -self.n(T)
-            * utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
-            ** (self.n(T) - 1)
+            * utility.power(
+                utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T)),
+                self.n(T) - 1,
+            )
             / self.eta(T)
             * (torch.abs(s - kh) - self.s0(T) - ih > 0)
         )
diff --git a/pyoptmat/hardening.py b/pyoptmat/hardening.py
index 6492e2e..67bff00 100644
--- a/pyoptmat/hardening.py
+++ b/pyoptmat/hardening.py
@@ -18,7 +18,7 @@ import numpy as np
 import torch
 from torch import nn
 
-from pyoptmat import temperature
+from pyoptmat import temperature, utility
 
 
 class HardeningModel(nn.Module):
@@ -387,7 +387,7 @@ class Theta0RecoveryVoceIsotropicHardeningModel(IsotropicHardeningModel):
             self.theta(T) * (1.0 - h[..., 0] / self.tau(T)) * torch.abs(ep)
             + self.r1(T)
             * (self.R0(T) - h[..., 0])
-            * torch.abs(self.R0(T) - h[..., 0]) ** (self.r2(T) - 1.0),
+            * utility.power(self.R0(T) - h[..., 0], self.r2(T) - 1.0),
             -1,
         )
 
@@ -420,7 +420,7 @@ class Theta0RecoveryVoceIsotropicHardeningModel(IsotropicHardeningModel):
         recovery = (
             self.r2(T)
             * self.r1(T)
-            * torch.abs(self.R0(T) - h[..., 0]) ** (self.r2(T) - 1.0)
+            * utility.power(self.R0(T) - h[..., 0], self.r2(T) - 1.0)
         )[..., None, None]
         return (
             -self.theta(T) / self.tau(T) * torch.ones_like(h[..., 0]) * torch.abs(ep)
@@ -642,7 +642,7 @@ class FAKinematicHardeningModel(KinematicHardeningModel):
         return torch.unsqueeze(
             self.C(T) * torch.ones_like(h[..., 0]) * ep
             - self.g(T) * h[..., 0] * torch.abs(ep)
-            - self.b(T) * torch.abs(h[..., 0]) ** (self.r(T) - 1.0) * h[..., 0],
+            - self.b(T) * utility.power(h[..., 0], self.r(T) - 1.0) * h[..., 0],
             -1,
         )
 
@@ -680,7 +680,7 @@ class FAKinematicHardeningModel(KinematicHardeningModel):
         """
         return (
             -self.g(T) * torch.ones_like(h[..., 0]) * torch.abs(ep)
-            - (self.b(T) * self.r(T) * torch.abs(h[..., 0]) ** (self.r(T) - 1.0))
+            - (self.b(T) * self.r(T) * utility.power(h[..., 0], self.r(T) - 1.0))
         )[..., None, None]
 
     def dhistory_rate_derate(self, s, h, t, ep, T, e):
@@ -1069,7 +1069,7 @@ class ChabocheHardeningModelRecovery(KinematicHardeningModel):
         return (
             self.C(T)[None, ...] * ep[..., None]
             - self.g(T)[None, ...] * h * torch.abs(ep)[..., None]
-            - self.b(T)[None, ...] * torch.abs(h) ** (self.r(T)[None, ...] - 1.0) * h
+            - self.b(T)[None, ...] * utility.power(h, self.r(T)[None, ...] - 1.0) * h
         ).reshape(h.shape)
 
     def dhistory_rate_dstress(self, s, h, t, ep, T, e):
@@ -1109,7 +1109,7 @@ class ChabocheHardeningModelRecovery(KinematicHardeningModel):
         ).reshape(h.shape + (self.nback,)) + torch.diag_embed(
             -self.b(T)[None, ...]
             * self.r(T)[None, ...]
-            * torch.abs(h) ** (self.r(T)[None, ...] - 1.0)
+            * utility.power(h, self.r(T)[None, ...] - 1.0)
         ).reshape(
             h.shape + (self.nback,)
         )
diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 8cd6614..6ee797f 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -509,6 +509,27 @@ def macaulay(X):
     return X * heaviside(X)
 
 
+def power(X, p):
+    """
+    The power of the absolute value of a tensor, :math:`\\left|x\\right|^p`, with
+    zero derivatives where the tensor is zero.  There automatic differentiation
+    of the plain expression gives infinite or NaN values for small exponents.
+
+    Args:
+      X (torch.tensor): tensor input
+      p (torch.tensor): exponent
+
+    Returns:
+      torch.tensor:     the absolute value of the input raised to the exponent
+    """
+    zero = X == 0
+    return torch.where(
+        zero,
+        torch.zeros_like(X) ** p,
+        torch.abs(torch.where(zero, torch.ones_like(X), X)) ** p,
+    )
+
+
 def add_id(df):
     """
     Add the identity to a tensor with the shape of the Jacobian
-- 
2.43.0


From ee25e35d18b9290d15427b920b939f7318e17515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 22/27] fix: plain AD gradients come from a Newton step at the
 converged solution

---
 pyoptmat/chunktime.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index fe69484..49365d5 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -48,12 +48,7 @@ def newton_raphson_chunk(
     nR0 = nR
     i = 0
 
-    # When differentiating through the solution take at least one step, as it
-    # provides the derivative even if the starting point is already a solution
-    while (i < miter) and (
-        (torch.any(nR > atol) and torch.any(nR / nR0 > rtol))
-        or (i == 0 and R.requires_grad)
-    ):
+    while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
         x = x - solver.solve(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
@@ -64,6 +59,14 @@ def newton_raphson_chunk(
             raise RuntimeError("Implicit solve did not succeed.")
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
+    # When differentiating through the solution take the derivative of one more
+    # step from the converged point: it is the derivative of the solution, even if
+    # the starting point is already a solution or the Jacobian is not
+    # differentiable along the way
+    if R.requires_grad:
+        dx = solver.solve(J, R)
+        x = x - (dx - dx.detach())
+
     return x
 
 
-- 
2.43.0


From 778b130919749e7c46a074fd7ffeb37b4e7ad9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 23/27] fix: gradients of stress-controlled models when the
 strain rate needs no iteration

---
 pyoptmat/solvers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 49f10ce..2da2d95 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -94,6 +94,12 @@ def newton_raphson_bt(
     if solve_failed(nR, nR0, rtol, atol):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
+    # The derivative of one more step from the converged point is the derivative
+    # of the solution, even if the starting point is already a solution
+    if R.requires_grad:
+        dx = solver(J, R)
+        x = x - (dx - dx.detach())
+
     return x, J
 
 
@@ -144,6 +150,12 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
     if solve_failed(nR, nR0, rtol, atol):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
+    # The derivative of one more step from the converged point is the derivative
+    # of the solution, even if the starting point is already a solution
+    if R.requires_grad:
+        dx = solver(J, R)
+        x = x - (dx - dx.detach())
+
     return x, J
 
 
-- 
2.43.0


From 7b5926abe52403ddc28e13a8f09d6493d9629e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:49 +0000
Subject: [PATCH 24/27] fix: products with bidiagonal operators whose blocks
 are not stored contiguously

---
 pyoptmat/chunktime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 49365d5..64266d7 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -448,16 +448,16 @@ class BidiagonalForwardOperator(BidiagonalOperator):
         """
         # Reshaped v
         vp = (
-            v.view(self.sbat, self.nblk, self.sblk)
+            v.reshape(self.sbat, self.nblk, self.sblk)
             .transpose(0, 1)
             .reshape(self.sbat * self.nblk, self.sblk)
             .unsqueeze(-1)
         )
 
         # Actual calculation
-        b = torch.bmm(self.A.view(-1, self.sblk, self.sblk), vp)
+        b = torch.bmm(self.A.reshape(-1, self.sblk, self.sblk), vp)
         b[self.sbat :] += torch.bmm(
-            self.B.view(-1, self.sblk, self.sblk), vp[: -self.sbat]
+            self.B.reshape(-1, self.sblk, self.sblk), vp[: -self.sbat]
         )
 
         return (
-- 
2.43.0


From 4d2609301de05884f23fff0dabc4384c5f84c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:24 +0000
Subject: [PATCH 25/27] fix: adjoint gradients count a parameter listed twice
 once

---
 pyoptmat/ode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index cfe4a6a..568623e 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -666,9 +666,9 @@ def odeint_adjoint(
     # Grab parameters for backward
     if extra_params is None:
         extra_params = []
-    adjoint_params = tuple(
-        p for p in (*func.parameters(), *extra_params) if p.requires_grad
-    )
+    # (an extra parameter may also be one of the parameters of the function)
+    params = {id(p): p for p in (*func.parameters(), *extra_params)}
+    adjoint_params = tuple(p for p in params.values() if p.requires_grad)
 
     solver = FixedGridBlockSolver(
         func, y0, scheme=int_methods[method], adjoint_params=adjoint_params, **kwargs
-- 
2.43.0


From 00601dbfde22c97d12578706d4fea3e7b4957e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:51 +0000
Subject: [PATCH 26/27] fix: data sets with histories stored as integers could
 not be loaded

---
 pyoptmat/experiments.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index d2af3f2..7b5ae35 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -108,10 +108,13 @@ def load_results(xdata, device=torch.device("cpu")):
         Maps the string control type ("strain" or "stress") to an integer
         using the dict above
     """
-    time = torch.tensor(xdata["time"].values, device=device)
-    temp = torch.tensor(xdata["temperature"].values, device=device)
-    strain = torch.tensor(xdata["strain"].values, device=device)
-    stress = torch.tensor(xdata["stress"].values, device=device)
+    # The stored data may be integers
+    dtype = torch.get_default_dtype()
+
+    time = torch.tensor(xdata["time"].values, dtype=dtype, device=device)
+    temp = torch.tensor(xdata["temperature"].values, dtype=dtype, device=device)
+    strain = torch.tensor(xdata["strain"].values, dtype=dtype, device=device)
+    stress = torch.tensor(xdata["stress"].values, dtype=dtype, device=device)
 
     cycle = torch.tensor(xdata["cycle"].values, device=device)
     types = torch.tensor([exp_map[t] for t in xdata["type"].values], device=device)
-- 
2.43.0


From 74e3770214d061b48efe168f0c796af38b285ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:45 +0000
Subject: [PATCH 27/27] fix: integer initial conditions truncated the results
 to integers

---
 pyoptmat/ode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index 568623e..a7beda8 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -304,7 +304,8 @@ class FixedGridBlockSolver:
     ):
         # Store basic info about the system
         self.func = func
-        self.y0 = y0
+        # The results are no integers, even if the initial condition is
+        self.y0 = y0.to(torch.result_type(y0, 1.0))
 
         # Time integration scheme
         self.scheme = scheme
-- 
2.43.0

