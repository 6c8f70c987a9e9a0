From 931d7aee35bae6ac9d17473b4513a20c59881be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 01/46] fix: reject A whose time or batch size differs from x
 in the CPU recurrence kernels

recurN/recur2 and lti_recurN/lti_recur2 read past the end of A when its time
or batch size is smaller than that of x.
---
 philtorch/csrc/host_lti_recurN.cpp | 2 ++
 philtorch/csrc/host_recurN.cpp     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 2ba902e..0aba2f6 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -73,6 +73,8 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.dim() == 2 || A.size(0) == x.size(0),
+                "Batched A must have the same batch size as x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 6c397c9..9514490 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -246,6 +246,10 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "A must have the same number of time steps as x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "Batched A must have the same batch size as x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
-- 
2.43.0


From 11b80fa7ab13d135ef9b357c0a0d058117320af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 02/46] fix: comb_filter without the compiled extension

The extension check was inverted, so that without the extension comb_filter
called the compiled operator (and ignored unroll_factor).
---
 philtorch/lti/filtering.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 2078bef..d8a92e7 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -8,8 +8,7 @@ from .ssm import state_space, state_space_recursion, diag_state_space
 from ..mat import companion
 from ..utils import chain_functions
 from ..poly import polydiv
-from .recur import linear_recurrence, LTIRecurrence
-from .. import EXTENSION_LOADED
+from .recur import linear_recurrence
 
 
 def comb_filter(
@@ -56,11 +55,7 @@ def comb_filter(
         zi = torch.zeros_like(a)
 
     y = (
-        (
-            linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
-            if EXTENSION_LOADED
-            else LTIRecurrence.apply(-a, zi, folded_x.flatten(0, 1))
-        )
+        linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
         .unflatten(0, (-1, delay))
         .mT.flatten(1, 2)
     )
-- 
2.43.0


From 5beeb89957b6f016e1860f4a15d0ffbcec21c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 03/46] fix: comb_filter returns the final state for delay 1
 too

With zi given, every other delay returns (y, zf).
---
 philtorch/lti/filtering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index d8a92e7..9f52fd2 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -33,9 +33,10 @@ def comb_filter(
         ), "The first dimension of a must match the batch size of x."
 
     if delay == 1:
-        return linear_recurrence(
+        y = linear_recurrence(
             -a, torch.zeros_like(a) if zi is None else zi.squeeze(-1), x, **kwargs
         )
+        return y if zi is None else (y, y[:, -1:])
 
     remainder = x.size(1) % delay
     if remainder != 0:
-- 
2.43.0


From 6c107b42518d2fd5d6103858d7b202192cd04da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 04/46] fix: comb_filter final state of inputs shorter than the
 delay

The final state must keep the part of zi that is still in the delay line.
---
 philtorch/lti/filtering.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 9f52fd2..c1f746a 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -38,7 +38,8 @@ def comb_filter(
         )
         return y if zi is None else (y, y[:, -1:])
 
-    remainder = x.size(1) % delay
+    N = x.size(1)
+    remainder = N % delay
     if remainder != 0:
         x = F.pad(x, (0, delay - remainder))
 
@@ -47,10 +48,8 @@ def comb_filter(
         a = a.repeat_interleave(delay)
     if zi is not None:
         return_zf = True
-        if zi.dim() == 1:
-            zi = zi.flip(0).repeat(x.size(0))
-        else:
-            zi = zi.flip(1).flatten()
+        past_y = zi.flip(-1).expand(x.size(0), -1)
+        zi = past_y.flatten()
     else:
         return_zf = False
         zi = torch.zeros_like(a)
@@ -63,7 +62,7 @@ def comb_filter(
     if remainder != 0:
         y = y[:, : -(delay - remainder)]
     if return_zf:
-        return y, y[:, -delay:].flip(1)
+        return y, torch.cat([past_y, y], dim=1)[:, N:].flip(1)
     return y
 
 
-- 
2.43.0


From 403d4c5020c4d4e24534991388a711da9a275129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 05/46] fix: comb_filter accepts the documented coefficient
 shape (1,)

---
 philtorch/lti/filtering.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index c1f746a..c11595d 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -28,9 +28,10 @@ def comb_filter(
     assert x.dim() == 2, "Input signal x must be 2D."
     assert delay >= 0, "Delay must be non-negative."
     if a.dim() == 1:
-        assert a.size(0) == x.size(
-            0
-        ), "The first dimension of a must match the batch size of x."
+        assert a.size(0) in (
+            1,
+            x.size(0),
+        ), "The first dimension of a must be 1 or match the batch size of x."
 
     if delay == 1:
         y = linear_recurrence(
@@ -45,7 +46,7 @@ def comb_filter(
 
     folded_x = x.unflatten(1, (-1, delay)).mT
     if a.dim() == 1:
-        a = a.repeat_interleave(delay)
+        a = a.expand(x.size(0)).repeat_interleave(delay)
     if zi is not None:
         return_zf = True
         past_y = zi.flip(-1).expand(x.size(0), -1)
-- 
2.43.0


From 1d77fc67ec117d11c37fe886e8a9d7d14f378694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 06/46] fix: lti.fir with order 0 or with inputs shorter than
 the order

y[:, :-M] is empty for M == 0, and for N < M zi did not fit into the output
and its tail got lost from the final state.
---
 philtorch/lti/filtering.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index c11595d..00b5199 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -181,18 +181,16 @@ def fir(
             groups=B,
         ).squeeze(0)
         if zi is not None:
-            zf = y[:, -M:]
-            y = y[:, :-M]
             y = torch.cat([zi + y[:, :M], y[:, M:]], dim=1)
-            return y, zf
-        return y[:, :-M]
+            return y[:, :N], y[:, N:]
+        return y[:, :N]
 
     if zi is None:
         zf = None
         padded_x = F.pad(x, (M, 0))
     else:
         padded_x = torch.cat([zi.flip(1), x], dim=1)
-        zf = padded_x[:, -M:].flip(1)
+        zf = padded_x[:, N:].flip(1)
 
     y = F.conv1d(
         padded_x.unsqueeze(0),
-- 
2.43.0


From e80dbf60e8d2f904a23713739cde282aabd4b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 07/46] fix: lfiltic for a filter with a single numerator
 coefficient or none in the denominator

---
 philtorch/lti/filtering.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 00b5199..ea3f1cb 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -88,10 +88,16 @@ def lfiltic(b: Tensor, a: Tensor, y: Tensor, x: Optional[Tensor] = None) -> Tens
     if x is None:
         x = b.new_zeros(m)
 
-    b_mat = F.pad(b[..., 1:], (0, m - 1), value=0.0).unfold(-1, m, 1)
-    a_mat = F.pad(a, (0, n - 1), value=0.0).unfold(-1, n, 1)
-    zi_b = (b_mat @ x.unsqueeze(-1)).squeeze(-1)
-    zi_a = (a_mat @ y.unsqueeze(-1)).squeeze(-1)
+    if m > 0:
+        b_mat = F.pad(b[..., 1:], (0, m - 1), value=0.0).unfold(-1, m, 1)
+        zi_b = (b_mat @ x.unsqueeze(-1)).squeeze(-1)
+    else:
+        zi_b = b[..., 1:]
+    if n > 0:
+        a_mat = F.pad(a, (0, n - 1), value=0.0).unfold(-1, n, 1)
+        zi_a = (a_mat @ y.unsqueeze(-1)).squeeze(-1)
+    else:
+        zi_a = a
     if zi_b.size(-1) < k:
         zi_b = F.pad(zi_b, (0, k - zi_b.size(-1)), value=0.0)
     if zi_a.size(-1) < k:
-- 
2.43.0


From a4d7ecd133f7b15c4d01c2ea5b73c96424799605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 08/46] fix: lfilter_zi(transpose=False) for numerators longer
 than the denominator

lfilter pads a to the length of b, and then rejects the shorter state that
lfilter_zi returned; filtfilt(form="df2") failed for such filters.
---
 philtorch/lti/filtering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index ea3f1cb..0ea7d5f 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -118,6 +118,8 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
     assert a.dim() >= 1, "Denominator coefficients a must be at least 1D."
 
     if not transpose:
+        if b is not None and b.size(-1) > a.size(-1) + 1:
+            a = F.pad(a, (0, b.size(-1) - a.size(-1) - 1), value=0.0)
         n = a.size(-1) + 1
         A = companion(a)
         B = a.new_zeros(n - 1)
-- 
2.43.0


From a9319b03f60b49554a7a4e89af4f2014ada8ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 09/46] fix: filtfilt with the forms df1 and tdf1

lfilter returns no final state for them: filtfilt failed, or took the first
channel for the output when the batch size was two.
---
 philtorch/lti/filtering.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 0ea7d5f..6ea3158 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -475,10 +475,14 @@ def filtfilt(
     zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
     x0 = ext[..., :1]
 
-    y, _ = lfilter(b, a, ext, zi=zi * x0, form=form, **kwargs)
+    y = lfilter(b, a, ext, zi=zi * x0, form=form, **kwargs)
+    if isinstance(y, tuple):
+        y, _ = y
     y0 = y[..., -1:]
 
-    y, _ = lfilter(b, a, y.flip(-1), zi=zi * y0, form=form, **kwargs)
+    y = lfilter(b, a, y.flip(-1), zi=zi * y0, form=form, **kwargs)
+    if isinstance(y, tuple):
+        y, _ = y
 
     if edge > 0:
         y = y[..., edge:-edge]
-- 
2.43.0


From 987211b5ae23fb79d0101b69e8e756946d7abde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 10/46] fix: lfilter(backend="diag_ssm") with a long numerator
 shared by the batch

fir() takes only a batch of coefficients.
---
 philtorch/lti/filtering.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 6ea3158..2c4e9fb 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -347,6 +347,7 @@ def _diag_ssm_lfilter(
     """Apply a batch of time-invariant linear filters to input signal using state-space model."""
 
     if b.size(-1) > a.size(-1) + 1:
+        b = b.broadcast_to((x.size(0), -1))
         zi = None
         if delayed_form:
             q, r = polydiv(b, F.pad(a, (1, 0), value=1.0))
-- 
2.43.0


From 6976ccf9e9fc19d2a53ce7d0fadc1635c07dd59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 11/46] fix: delayed_form of the diag_ssm backend for inputs
 shorter than the delay

---
 philtorch/lti/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 2c4e9fb..891e3c2 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -405,7 +405,7 @@ def _diag_ssm_lfilter(
     y = results
 
     if delay > 0:
-        y = F.pad(y[:, :-delay], (delay, 0))
+        y = F.pad(y, (delay, 0))[:, : x.size(1)]
 
     if direct_filt is not None:
         y = y + direct_filt(x)
-- 
2.43.0


From 39d0c2d5c59eb3c49bf4e0fccb669e65d6b431cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 12/46] fix: diag_state_space drops the imaginary part of
 complex signals

With a real C the state was reduced to its real part even when x, zi, A or B
is complex.
---
 philtorch/lti/ssm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 9bccf7f..bcb8eca 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -729,6 +729,7 @@ def diag_state_space(
         zi = zi.unsqueeze(0).expand(batch_size, -1)
 
     x_orig = x
+    real_system = not any(t.is_complex() for t in (x, zi, A, B, C) if t is not None)
     if Vinv.is_complex():
         if not zi.is_complex():
             zi = zi + 0j  # Ensure zi is complex if Vinv is complex
@@ -823,7 +824,7 @@ def diag_state_space(
             dim=1,
         )
 
-    if C is not None and not C.is_complex():
+    if C is not None and real_system:
         h = h.real
         zf = zf.real if return_zf else None
 
-- 
2.43.0


From e238c0c4c5ef249d0913924b1575d64960f0bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 13/46] fix: polydiv with a divisor of higher degree than the
 dividend

It is documented to return an empty quotient, but failed.
---
 philtorch/poly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/philtorch/poly.py b/philtorch/poly.py
index 36e3532..06b8571 100644
--- a/philtorch/poly.py
+++ b/philtorch/poly.py
@@ -23,6 +23,8 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     # w has the common type
     m = u.size(-1) - 1
     n = v.size(-1) - 1
+    if m < n:
+        return u[..., :0], u.clone()
     scale = v[..., 0].reciprocal()
     r = u.clone()
     q = []
-- 
2.43.0


From 349b55e1412ee64d44ced9b1589ce01d6540cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 14/46] fix: cubic_spline for factors m where 1 / m is rounded
 down

torch.arange(-2, 2, 1 / m) then has 4 * m + 1 elements, for m = 49 for instance.
---
 philtorch/lti/interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/lti/interp.py b/philtorch/lti/interp.py
index d4b784b..9722ee7 100644
--- a/philtorch/lti/interp.py
+++ b/philtorch/lti/interp.py
@@ -121,8 +121,8 @@ def cubic_spline(x: Tensor, m: int, scipy_padding: bool = False, **kwargs) -> Te
 
     c = cspline(x, scipy_padding=scipy_padding, **kwargs)
 
-    kernel_idx = torch.arange(-2, 2, 1 / m, device=x.device, dtype=x.dtype).reshape(
-        4, m
+    kernel_idx = (
+        torch.arange(-2 * m, 2 * m, device=x.device, dtype=x.dtype).reshape(4, m) / m
     )
     kernel = _cubic_spline_kernel(kernel_idx).flip(0).T
 
-- 
2.43.0


From ae1bc89014b0cc3bce5b83788806fd5813bbf588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:42 +0000
Subject: [PATCH 15/46] fix: lpv.state_space takes C (B, N, M) and D (B, N) as
 such when B == N

They were taken for (N, _, M) and (N, _), so that lpv.lfilter returned a
(B, N, N) output when the batch is as large as the number of time steps.
---
 philtorch/lpv/ssm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index c37294a..319202c 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -502,16 +502,16 @@ def state_space(
                 Dx = torch.linalg.vecdot(D.conj(), x)
             case (D_batch, F) if D_batch == batch_size and F == features:
                 Dx = torch.linalg.vecdot(D.conj().unsqueeze(1), x)
-            case (DN, _) if DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
-                Dx = D * x.unsqueeze(-1)
             case (D_batch, DN) if D_batch == batch_size and DN == N:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size, N}, got {x.shape}"
                 Dx = D * x
+            case (DN, _) if DN == N:
+                assert (
+                    x.dim() == 2
+                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
+                Dx = D * x.unsqueeze(-1)
             case (D_batch, _) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
@@ -556,10 +556,10 @@ def state_space(
                 Ch = torch.linalg.vecdot(C.unsqueeze(1).conj(), h)
             case (_, CM) if CM == M:
                 Ch = h @ C.T
-            case (CN, _, CM) if CN == N and CM == M:
-                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, CN, CM) if C_batch == batch_size and CM == M and CN == N:
                 Ch = torch.linalg.vecdot(C.conj(), h)
+            case (CN, _, CM) if CN == N and CM == M:
+                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, _, CM) if C_batch == batch_size and CM == M:
                 Ch = h @ C.mT
             case (C_batch, CN, _, CM) if C_batch == batch_size and CM == M and CN == N:
-- 
2.43.0


From c2ebf0e0c5d331223cdf574df80a5bc63f556fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:09 +0000
Subject: [PATCH 16/46] fix: lpv.fir(transpose=True) with zi and inputs shorter
 than the order

---
 philtorch/lpv/filtering.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 277b9c9..92fbc93 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -64,17 +64,14 @@ def fir(
             ).unfold(1, shifted_b.size(2), 1),
         )
         if return_zf:
-            y, zf = torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
-            return (
-                torch.cat(
-                    [
-                        y[..., : b.size(2) - 1] + zi,
-                        y[..., b.size(2) - 1 :],
-                    ],
-                    dim=-1,
-                ),
-                zf,
+            y = torch.cat(
+                [
+                    y[..., : b.size(2) - 1] + zi,
+                    y[..., b.size(2) - 1 :],
+                ],
+                dim=-1,
             )
+            return torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
         return y
 
     unfolded_x = torch.cat([zi.flip(1), x], dim=1).unfold(1, b.size(2), 1)
-- 
2.43.0


From 87392c76275964dbf91cb4d4a9e1843b8997d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:09 +0000
Subject: [PATCH 17/46] fix: lpv.allpole with inputs shorter than the order

The transposed form failed, and the final state of the direct form missed the
part of zi that is still in the delay line.
---
 philtorch/lpv/filtering.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 92fbc93..522f662 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -119,17 +119,17 @@ def allpole(
 
     if transpose:
         a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
-        x = torch.cat(
-            [zi + x[:, : a.size(2)], x[:, a.size(2) :]]
-            + ([torch.zeros_like(zi)] if return_zf else []),
-            dim=1,
-        )
+        if not return_zf:
+            return sample_wise_lpc(x, a)
+        x = F.pad(x, (0, a.size(2)))
+        x = torch.cat([zi + x[:, : a.size(2)], x[:, a.size(2) :]], dim=1)
         y = sample_wise_lpc(x, a)
-        if return_zf:
-            return torch.split_with_sizes(y, [T, a.size(2)], 1)
-        return y
+        return torch.split_with_sizes(y, [T, a.size(2)], 1)
 
-    return sample_wise_lpc(x, a, zi=zi, return_zf=return_zf)
+    y = sample_wise_lpc(x, a, zi=zi)
+    if return_zf:
+        return y, torch.cat([zi.flip(1), y], dim=1)[:, T:].flip(1)
+    return y
 
 
 def lfilter(
-- 
2.43.0


From edbee94581ef697da822bf9ea4ec9ee75b2f127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 18/46] fix: diag_shift(discard_end=True) with a single column

y[..., :-0] is empty: lpv.fir(transpose=True) of order 0 failed.
---
 philtorch/lpv/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lpv/utils.py b/philtorch/lpv/utils.py
index ccbb084..b6e5e9f 100644
--- a/philtorch/lpv/utils.py
+++ b/philtorch/lpv/utils.py
@@ -29,5 +29,5 @@ def diag_shift(coef: Tensor, offset: int = 0, discard_end: bool = False) -> Tens
         .unflatten(-1, (M, T + M + offset - 1))
     )
     if discard_end:
-        y = y[..., : -(M - 1 + offset)]
+        y = y[..., :T]
     return y.mT
-- 
2.43.0


From b6c007431b94bb70c83da69d12575aae89e2cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 19/46] fix: fake kernels describe the contiguous output of the
 recurrence kernels

empty_like(x) keeps the strides of a non-contiguous x, but the kernels always
return a contiguous tensor (torch.library.opcheck fails on a permuted x).
---
 philtorch/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 7ea621d..3f0d420 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -174,7 +174,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::recurN")
     def _(A, zi, x):
@@ -195,7 +195,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recur2")
     def _(A, zi, x):
@@ -211,7 +211,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recurN")
     def _(A, zi, x):
@@ -228,7 +228,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recur")
     def _(A, zi, x):
@@ -241,7 +241,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 1D, its length must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     torch.library.register_autograd(
         "philtorch::recur2",
-- 
2.43.0


From 9e5b85d3840ba8780fc9a67a5a12ba4ca6d4e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:59 +0000
Subject: [PATCH 20/46] fix: complex coefficients in the transposed filter
 forms

tdf2, tdf1 and the transposed fir filtered with the conjugate of b and a (some
forms with only one of them), so that the result depended on the form and
backend and differed from scipy.signal.lfilter; lfilter_zi mixed both.
---
 philtorch/lpv/filtering.py | 14 +++++++-------
 philtorch/lti/filtering.py | 20 ++++++++++----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 522f662..63814ed 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -57,7 +57,7 @@ def fir(
     if transpose:
         shifted_b = diag_shift(b, discard_end=not return_zf)
         y = torch.linalg.vecdot(
-            shifted_b.flip(2),
+            shifted_b.flip(2).conj(),
             F.pad(
                 x,
                 (shifted_b.size(2) - 1, 0 if not return_zf else shifted_b.size(2) - 1),
@@ -118,7 +118,7 @@ def allpole(
         return_zf = True
 
     if transpose:
-        a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
+        a = diag_shift(a, offset=1, discard_end=not return_zf)
         if not return_zf:
             return sample_wise_lpc(x, a)
         x = F.pad(x, (0, a.size(2)))
@@ -319,10 +319,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -352,13 +352,13 @@ def _ssm_lfilter(
                         if extension_backend_indicator(x, A.size(-1))
                         else state_space_recursion
                     ),
-                    A.mT.conj(),
+                    A.mT,
                     zi,
                     out_idx=0,
                     **kwargs,
                 ),
                 partial(
-                    fir, b.conj().broadcast_to((x.size(0), -1, -1)), transpose=True
+                    fir, b.broadcast_to((x.size(0), -1, -1)), transpose=True
                 ),
             )
         case _:
diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 891e3c2..adfb4c4 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -131,7 +131,7 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
             b = F.pad(b, (0, n - b.size(-1)), value=0.0)
         if a.size(-1) < n - 1:
             a = F.pad(a, (0, n - 1 - a.size(-1)), value=0.0)
-        A = companion(a).mT.conj()
+        A = companion(a).mT
         B = b[..., 1:] - b[..., :1] * a
     else:
         raise ValueError(
@@ -184,7 +184,7 @@ def fir(
     if transpose:
         y = F.conv_transpose1d(
             x.unsqueeze(0),
-            b.unsqueeze(1).conj(),
+            b.unsqueeze(1),
             stride=1,
             groups=B,
         ).squeeze(0)
@@ -309,10 +309,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -326,8 +326,8 @@ def _ssm_lfilter(
         case "tdf1":
             zi = x.new_zeros((x.size(0), A.size(-1)))
             filt = chain_functions(
-                partial(state_space_recursion, A.mT.conj(), zi, out_idx=0, **kwargs),
-                partial(fir, b.conj().broadcast_to((x.size(0), -1)), transpose=True),
+                partial(state_space_recursion, A.mT, zi, out_idx=0, **kwargs),
+                partial(fir, b.broadcast_to((x.size(0), -1)), transpose=True),
             )
         case _:
             raise ValueError(f"Unknown filter form: {form}")
@@ -388,10 +388,10 @@ def _diag_ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 diag_state_space,
-                A=A.mT.conj(),
-                B=B.conj(),
+                A=A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
-- 
2.43.0


From b2404438cbd32680de85325524e67907e386662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 21/46] fix: lpv.lfilter(form="tdf1") with the ssm backend used
 the feedback coefficients one sample late

In the transposed structure the coefficients of time n multiply the output of
time n, as in the torchlpc backend and in tdf2; y[n - 1] was multiplied with
those of time n instead.
---
 philtorch/lpv/filtering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 63814ed..6953c34 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -352,7 +352,8 @@ def _ssm_lfilter(
                         if extension_backend_indicator(x, A.size(-1))
                         else state_space_recursion
                     ),
-                    A.mT,
+                    # the feedback of y[n - 1] uses the coefficients of time n - 1
+                    A.roll(1, dims=-3).mT,
                     zi,
                     out_idx=0,
                     **kwargs,
-- 
2.43.0


From fb344a180f1ae8e4167b1ede0fc41c7b7efe68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 22/46] fix: matrices_cumdot for composite numbers of matrices

The factorised accumulation multiplied the products of earlier blocks from
the wrong side and did not carry them across more than two factors, so that
time-varying state-space recursions with e.g. unroll_factor=5 were wrong.
---
 philtorch/mat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 8fe0549..ba2e9ef 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -155,8 +155,12 @@ def _mat_cumdot_runner(A: Tensor, leading_dims: int) -> Tensor:
     if A.dim() == leading_dims + 3:
         return accums
 
-    higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], leading_dims)
-    tmp = accums[..., 1:, :-1, :, :] @ higher_powers[..., :-1, None, :, :]
+    # products up to the end of every block, which is what the next block starts with
+    higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], leading_dims).flatten(
+        leading_dims, -3
+    )
+    accums = accums.flatten(leading_dims, -4)
+    tmp = higher_powers[..., :-1, None, :, :] @ accums[..., 1:, :-1, :, :]
     return torch.cat(
         [
             accums[..., :1, :, :, :],
-- 
2.43.0


From 9c0a8ff86f0a63697dcec0f35e5710a0981d84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 23/46] fix: state_space and diag_state_space with B (M, F)
 when batch size, M and F coincide

The shape was taken for (batch, M), which is rejected for a 3D input.
---
 philtorch/lti/ssm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index bcb8eca..96d6da5 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -464,13 +464,13 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {M,}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B
+            case (BM, F) if BM == M and F == features:
+                Bx = x @ B.T
             case (B_batch, BM) if B_batch == batch_size and BM == M:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
-            case (BM, F) if BM == M and F == features:
-                Bx = x @ B.T
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
@@ -761,6 +761,9 @@ def diag_state_space(
                 if VinvB.dim() == 2:
                     VinvB = VinvB.unsqueeze(1)
                 VinvBx = x.unsqueeze(-1) * VinvB
+            case (BM, F) if BM == M and F == features:
+                VinvB = Vinv @ B
+                VinvBx = x @ VinvB.mT
             case (B_batch, BM) if B_batch == batch_size and BM == M:
                 assert (
                     x.dim() == 2
@@ -771,9 +774,6 @@ def diag_state_space(
                     else torch.linalg.vecdot(Vinv.conj(), B.unsqueeze(1))
                 )
                 VinvBx = x.unsqueeze(-1) * VinvB.unsqueeze(1)
-            case (BM, F) if BM == M and F == features:
-                VinvB = Vinv @ B
-                VinvBx = x @ VinvB.mT
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
-- 
2.43.0


From 9ce192ccab29e4a40d1beef2e05d7895996135fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 24/46] fix: state_space with D of shape (1,) and a 3D input of
 one signal or one step

The shape was taken for (batch,) or (time,), which is rejected for a 3D input.
---
 philtorch/lpv/ssm.py | 4 ++--
 philtorch/lti/ssm.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index 319202c..36f4cd9 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -481,6 +481,8 @@ def state_space(
         match D.shape:
             case (F,) if F == features:
                 Dx = x @ D
+            case (1,) | ():
+                Dx = x * D
             case (DN,) if DN == N:
                 assert (
                     x.dim() == 2
@@ -491,8 +493,6 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
                 Dx = D.unsqueeze(1) * x
-            case (1,) | ():
-                Dx = x * D
             case (_,):
                 assert (
                     x.dim() == 2
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 96d6da5..616099e 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -535,13 +535,13 @@ def _ssm_C_D(h, x, C, D, batch_size, M):
         match D.shape:
             case (F,) if F == features:
                 Dx = x @ D
+            case (1,) | ():
+                Dx = x * D
             case (D_batch,) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
                 Dx = D.unsqueeze(1) * x
-            case (1,) | ():
-                Dx = x * D
             case (_,):
                 assert (
                     x.dim() == 2
-- 
2.43.0


From 5ae1712bb1cb68089daa6ce4bd4583c11b972e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 25/46] fix: lpv.state_space with B (B, M, F) when length, M
 and F coincide

The shape was taken for (B, N, M), which is rejected for a 3D input.
---
 philtorch/lpv/ssm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index 36f4cd9..b4cf07a 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -431,17 +431,17 @@ def state_space(
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
             case (BN, BM, F) if BN == N and BM == M and F == features:
                 Bx = torch.linalg.vecdot(B.conj(), x.unsqueeze(-2))
-            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
-                Bx = x.unsqueeze(-1) * B
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
                 Bx = torch.linalg.vecdot(
                     B.unsqueeze(1).conj(), x.unsqueeze(-2)
                 )  # (batch_size, N, M)
+            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
+                assert (
+                    x.dim() == 2
+                ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
+                Bx = x.unsqueeze(-1) * B
             case (B_batch, BN, BM, F) if (
                 B_batch == batch_size and BM == M and BN == N and F == features
             ):
-- 
2.43.0


From d01e04dd34da0a4499b5fd036a7586679e385eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:58 +0000
Subject: [PATCH 26/46] fix: double backward of scalar recurrences of one
 sample

---
 philtorch/__init__.py  | 13 ++-----------
 philtorch/lti/recur.py | 13 ++-----------
 2 files changed, 4 insertions(+), 22 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 3f0d420..2865dc9 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -118,17 +118,8 @@ def _lti_recur_backward(
     a, init, out = ctx.saved_tensors
     grad_a = grad_x = grad_init = None
 
-    bp_init = grad_out[:, -1]
-    flipped_grad_x = torch.cat(
-        [
-            bp_init.unsqueeze(1),
-            torch.ops.philtorch.lti_recur(
-                a.conj_physical(),
-                bp_init,
-                grad_out[:, :-1].flip(1),
-            ),
-        ],
-        dim=1,
+    flipped_grad_x = torch.ops.philtorch.lti_recur(
+        a.conj_physical(), torch.zeros_like(init), grad_out.flip(1)
     )
 
     if ctx.needs_input_grad[1]:
diff --git a/philtorch/lti/recur.py b/philtorch/lti/recur.py
index 6ac3094..e6e3622 100644
--- a/philtorch/lti/recur.py
+++ b/philtorch/lti/recur.py
@@ -29,17 +29,8 @@ class LTIRecurrence(Function):
         a, init, out = ctx.saved_tensors
         grad_a = grad_x = grad_init = None
 
-        bp_init = grad_out[:, -1]
-        flipped_grad_x = torch.cat(
-            [
-                bp_init.unsqueeze(1),
-                LTIRecurrence.apply(
-                    a.conj_physical(),
-                    bp_init,
-                    grad_out[:, :-1].flip(1),
-                ),
-            ],
-            dim=1,
+        flipped_grad_x = LTIRecurrence.apply(
+            a.conj_physical(), torch.zeros_like(init), grad_out.flip(1)
         )
 
         if ctx.needs_input_grad[1]:
-- 
2.43.0


From 47f91348c333d730678f48a1832f6b8ec3a54a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 27/46] fix: find_eigenvectors for eigenvectors whose first
 component is zero

---
 philtorch/mat.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index ba2e9ef..d42ad89 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -27,14 +27,10 @@ def find_eigenvectors(A: Tensor, eigenvalues: Tensor) -> Tensor:
     n = A.size(-1)
     I = torch.eye(n, device=A.device, dtype=A.dtype)
     W = A.unsqueeze(-3) - eigenvalues[..., None, None] * I
-    B, W = torch.split(W, [1, n - 1], dim=-1)
 
-    WtW = W.mT.conj() @ W
-    WtB = W.mT.conj() @ -B
-
-    X = torch.linalg.solve(WtW, WtB)
-    X = X.reshape(A.shape[:-2] + (n, n - 1))
-    X = torch.cat([X.new_ones(X.shape[:-1] + (1,)), X], dim=-1)
+    # fix the scale by c^H v = 1, where c is not orthogonal to the eigenvector
+    c = torch.linalg.svd(W.detach()).Vh[..., -1:, :]
+    X = torch.linalg.solve(W.mH @ W + c.mH @ c, c.mH).squeeze(-1)
     X = X / torch.linalg.vector_norm(X, dim=-1, keepdim=True)
     return X.mT
 
-- 
2.43.0


From ded4c1d05b68066f4485599e4b82ff95cd33ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 28/46] fix: cubic_spline of two samples in the reflect
 convention

---
 philtorch/lti/interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/interp.py b/philtorch/lti/interp.py
index 9722ee7..9f0a7fa 100644
--- a/philtorch/lti/interp.py
+++ b/philtorch/lti/interp.py
@@ -130,7 +130,8 @@ def cubic_spline(x: Tensor, m: int, scipy_padding: bool = False, **kwargs) -> Te
         (
             torch.cat([c[:, :1], c, c[:, -2:].flip(-1)], dim=1).unsqueeze(1)
             if scipy_padding
-            else F.pad(c.unsqueeze(1), (1, 2), mode="reflect")
+            # the last sample is padded with zero since the kernel vanishes there
+            else F.pad(F.pad(c.unsqueeze(1), (1, 1), mode="reflect"), (0, 1))
         ),
         kernel.unsqueeze(1),
     ).mT.flatten(1, 2)
-- 
2.43.0


From f6ed66aa3034a05e73539d22269e0baaa6f5d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 29/46] fix: vandermonde for batches of poles

---
 philtorch/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index d42ad89..028fcd0 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -72,7 +72,7 @@ def vandermonde(poles: Tensor) -> Tensor:
     """
     if poles.size(-1) == 1:
         return torch.ones_like(poles).unsqueeze(-1)
-    return torch.vander(poles).mT
+    return torch.linalg.vander(poles).flip(-1).mT
 
 
 def matrix_power_accumulate(A: Tensor, n: int) -> Tensor:
-- 
2.43.0


From 098d31cfe122b5ff4ea2595b816a7947102b138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 30/46] fix: prototype polyval of a constant polynomial has the
 shape of x

---
 philtorch/prototype/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 4a715d6..5561b08 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -122,7 +122,7 @@ def polyval(p: Tensor, x: Tensor) -> Tensor:
     """
     p = trim_zeros(p)
     if p.numel() == 1:
-        return p
+        return p.reshape(()) + torch.zeros_like(x)
     return reduce(lambda y, pv: y * x + pv, p.unbind(0))
 
 
-- 
2.43.0


From 72c94fee02913426b6747b5f6e70b60513cf1a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 31/46] fix: prototype roots of polynomials with one
 coefficient that is not zero

---
 philtorch/prototype/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 5561b08..4554e76 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -31,7 +31,7 @@ def roots(p: Tensor) -> Tensor:
         raise ValueError("Input must be a rank-1 array.")
 
     # find non-zero array entries
-    non_zero = torch.nonzero(p).squeeze()
+    non_zero = torch.nonzero(p).squeeze(-1)
 
     # Return an empty array if polynomial is all zeros
     if non_zero.numel() == 0:
-- 
2.43.0


From e0573c82c3794c5b11f97af247ffd6b8c59051ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:15 +0000
Subject: [PATCH 32/46] fix: CPU recurrence kernels on tensors of more than
 2^31 elements

---
 philtorch/csrc/host_lti_recur.cpp  | 12 ++++++------
 philtorch/csrc/host_lti_recurN.cpp | 12 ++++++------
 philtorch/csrc/host_recurN.cpp     | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/philtorch/csrc/host_lti_recur.cpp b/philtorch/csrc/host_lti_recur.cpp
index 96615f9..5815b07 100644
--- a/philtorch/csrc/host_lti_recur.cpp
+++ b/philtorch/csrc/host_lti_recur.cpp
@@ -2,19 +2,19 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_linear_recurrence(int B, int T,
+void host_lti_batch_linear_recurrence(int64_t B, int64_t T,
                                       const scalar_t *a,
                                       scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t a_b = a[b];
         scalar_t *out_b = out + b * T;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a_b * out_b[t - 1];
         }
@@ -22,17 +22,17 @@ void host_lti_batch_linear_recurrence(int B, int T,
 }
 
 template <typename scalar_t>
-void host_lti_shared_linear_recurrence(int B, int T,
+void host_lti_shared_linear_recurrence(int64_t B, int64_t T,
                                        const scalar_t a,
                                        scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *out_b = out + b * T;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a * out_b[t - 1];
         }
diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 0aba2f6..0323f45 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -2,20 +2,20 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_mat_recur_N_order(int B, int T, int N,
+void host_lti_batch_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
@@ -33,18 +33,18 @@ void host_lti_batch_mat_recur_N_order(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_lti_share_mat_recur_N_order(int B, int T, int N,
+void host_lti_share_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 9514490..d023233 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -79,20 +79,20 @@ void host_batch_mat_recur_N_order(const scalar_t *Ax, scalar_t *out,
 }
 
 template <typename scalar_t>
-void host_batch_mat_recur_N_order_omp(int B, int T, int N,
+void host_batch_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * T * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A_b + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
@@ -111,18 +111,18 @@ void host_batch_mat_recur_N_order_omp(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_share_mat_recur_N_order_omp(int B, int T, int N,
+void host_share_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
-- 
2.43.0


From 5b3fc2d83001251745e9cb7a0f76edb102586e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 33/46] fix: comb_filter with delay 1 returns a final state
 that does not share memory with the output

---
 philtorch/lti/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index adfb4c4..5f71e8f 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -37,7 +37,7 @@ def comb_filter(
         y = linear_recurrence(
             -a, torch.zeros_like(a) if zi is None else zi.squeeze(-1), x, **kwargs
         )
-        return y if zi is None else (y, y[:, -1:])
+        return y if zi is None else (y, y[:, -1:].clone())
 
     N = x.size(1)
     remainder = N % delay
-- 
2.43.0


From 36fc78e570c1539a5137e050fb14b7f8e7e8503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 34/46] fix: newton_solve differentiates the function also in
 inference mode

---
 philtorch/prototype/nl.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/philtorch/prototype/nl.py b/philtorch/prototype/nl.py
index db1ecd5..ff989b0 100644
--- a/philtorch/prototype/nl.py
+++ b/philtorch/prototype/nl.py
@@ -51,13 +51,15 @@ def newton_solve(
         if fprime is not None:
             Jac = fprime(y[:, 1:-1], x[:, i + 1 :])
         else:
-            # Compute the Jacobian using autograd
-            Jac = torch.autograd.functional.jacobian(
-                lambda y: func(y, x[:, i + 1 :]).sum((0, 1)),
-                y[:, 1:-1],
-                create_graph=True,
-                vectorize=True,
-            ).permute(1, 2, 0, 3)
+            # Compute the Jacobian using autograd, which inference mode would disable
+            with torch.inference_mode(False):
+                next_x, prev_y = x[:, i + 1 :].clone(), y[:, 1:-1].clone()
+                Jac = torch.autograd.functional.jacobian(
+                    lambda y: func(y, next_x).sum((0, 1)),
+                    prev_y,
+                    create_graph=True,
+                    vectorize=True,
+                ).permute(1, 2, 0, 3)
         # Solve for the update step
         delta = recur_runner(Jac, res[:, 0], res[:, 1:])
         new_y = torch.cat([next_y[:, :1], y[:, 2:] + delta], dim=1)
-- 
2.43.0


From 5ef2f301b5ceb00e516b91801cc757089234bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 35/46] fix: the CPU recurrence operators reject inputs of more
 than three dimensions

---
 philtorch/csrc/host_lti_recurN.cpp | 1 +
 philtorch/csrc/host_recurN.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 0323f45..15bfa07 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -69,6 +69,7 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 2 || A.dim() == 3, "A must be a 2D or 3D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index d023233..5e8e59b 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -242,6 +242,7 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
-- 
2.43.0


From a685f77e5f8e7ad610500f6c1357ff682fb22c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:59 +0000
Subject: [PATCH 36/46] fix: the fake kernels reject operands of the wrong rank

---
 philtorch/__init__.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 2865dc9..6051042 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -151,6 +151,8 @@ if EXTENSION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
+        torch._check(zi.ndim == 2, "zi must be 2D.")
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
         torch._check(x.shape[2] == 2, "x must have last dimension of size 2.")
         torch._check(
@@ -171,6 +173,8 @@ if EXTENSION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
+        torch._check(zi.ndim == 2, "zi must be 2D.")
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(
             zi.shape[1] == x.shape[2], "zi must have last dimension of size 2."
         )
@@ -192,6 +196,8 @@ if EXTENSION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
+        torch._check(zi.ndim == 2, "zi must be 2D.")
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
         torch._check(x.shape[2] == 2, "x must have last dimension of size 2.")
         torch._check(
@@ -208,6 +214,8 @@ if EXTENSION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
+        torch._check(zi.ndim == 2, "zi must be 2D.")
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(
             zi.shape[1] == x.shape[2], "zi must have last dimension of size 2."
         )
@@ -224,6 +232,8 @@ if EXTENSION_LOADED:
     @torch.library.register_fake("philtorch::lti_recur")
     def _(A, zi, x):
         torch._check(A.ndim <= 1, "A must be 1D or scalar.")
+        torch._check(zi.ndim == 1, "zi must be 1D.")
+        torch._check(x.ndim == 2, "x must be 2D.")
         torch._check(
             zi.shape[0] == x.shape[0], "x and zi must have the same batch size."
         )
@@ -278,6 +288,8 @@ if HELION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
+        torch._check(zi.ndim == 2, "zi must be 2D.")
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(
             zi.shape[1] == x.shape[2], "zi must have last dimension of size 2."
         )
@@ -296,6 +308,8 @@ if HELION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
+        torch._check(zi.ndim == 2, "zi must be 2D.")
+        torch._check(x.ndim == 3, "x must be 3D.")
         torch._check(
             zi.shape[1] == x.shape[2], "zi must have last dimension of size 2."
         )
-- 
2.43.0


From cda6d806c2211d41140ab9490f11abed2bd69683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:08 +0000
Subject: [PATCH 37/46] fix: the Helion operators reject operands of
 incompatible shapes instead of computing garbage

---
 philtorch/__init__.py | 48 +++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 6051042..cc3b5e2 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -270,22 +270,7 @@ if EXTENSION_LOADED:
 
 if HELION_LOADED:
 
-    @torch.library.custom_op("philtorch::hl_lti_recurN", mutates_args=())
-    def hl_lti_recurN(
-        A: torch.Tensor, zi: torch.Tensor, x: torch.Tensor
-    ) -> torch.Tensor:
-        if A.ndim == 2:
-            return lti_shared_A_recursion_loop(A, zi, x)
-        return lti_recursion_loop(A, zi, x)
-
-    @torch.library.custom_op("philtorch::hl_recurN", mutates_args=())
-    def hl_recurN(A: torch.Tensor, zi: torch.Tensor, x: torch.Tensor) -> torch.Tensor:
-        if A.ndim == 3:
-            return lpv_shared_A_recursion_loop(A, zi, x)
-        return lpv_recursion_loop(A, zi, x)
-
-    @hl_lti_recurN.register_fake
-    def _(A, zi, x):
+    def _check_hl_lti_recurN(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
         torch._check(zi.ndim == 2, "zi must be 2D.")
@@ -301,11 +286,8 @@ if HELION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        # return torch.empty_like(x)
-        return x.new_empty(x.shape[0], x.shape[1] + 1, x.shape[2])[:, 1:]
 
-    @hl_recurN.register_fake
-    def _(A, zi, x):
+    def _check_hl_recurN(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
         torch._check(zi.ndim == 2, "zi must be 2D.")
@@ -325,6 +307,32 @@ if HELION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
+
+    @torch.library.custom_op("philtorch::hl_lti_recurN", mutates_args=())
+    def hl_lti_recurN(
+        A: torch.Tensor, zi: torch.Tensor, x: torch.Tensor
+    ) -> torch.Tensor:
+        _check_hl_lti_recurN(A, zi, x)
+        if A.ndim == 2:
+            return lti_shared_A_recursion_loop(A, zi, x)
+        return lti_recursion_loop(A, zi, x)
+
+    @torch.library.custom_op("philtorch::hl_recurN", mutates_args=())
+    def hl_recurN(A: torch.Tensor, zi: torch.Tensor, x: torch.Tensor) -> torch.Tensor:
+        _check_hl_recurN(A, zi, x)
+        if A.ndim == 3:
+            return lpv_shared_A_recursion_loop(A, zi, x)
+        return lpv_recursion_loop(A, zi, x)
+
+    @hl_lti_recurN.register_fake
+    def _(A, zi, x):
+        _check_hl_lti_recurN(A, zi, x)
+        # return torch.empty_like(x)
+        return x.new_empty(x.shape[0], x.shape[1] + 1, x.shape[2])[:, 1:]
+
+    @hl_recurN.register_fake
+    def _(A, zi, x):
+        _check_hl_recurN(A, zi, x)
         # return torch.empty_like(x)
         return x.new_empty(x.shape[0], x.shape[1] + 1, x.shape[2])[:, 1:]
 
-- 
2.43.0


From c4318c78598b5e279ac81c4e946301f0032be248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 38/46] fix: lpv.linear_recurrence rejects batched coefficients
 of another length than the input

---
 philtorch/lpv/recur.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/lpv/recur.py b/philtorch/lpv/recur.py
index 1dc9fcd..aab92ac 100644
--- a/philtorch/lpv/recur.py
+++ b/philtorch/lpv/recur.py
@@ -38,9 +38,9 @@ def linear_recurrence(
     """
     assert x.dim() == 2, f"Input x must be 2D, got {x.shape}"
     assert a.dim() in (1, 2), f"State matrix a must be 1D or 2D, got {a.shape}"
-    if a.dim() == 1 and a.size(0) != x.size(1):
+    if a.size(-1) != x.size(1):
         raise ValueError(
-            f"State matrix a must be 1D with the same length as x, got a: {a.size(0)}, x: {x.size(1)}"
+            f"State matrix a must have the same length as x, got a: {a.size(-1)}, x: {x.size(1)}"
         )
 
     batch_size, N = x.size(0), x.size(1)
-- 
2.43.0


From 2fcf366ac1a8c52797dc4a2cbd14f5fc38ddd5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:43 +0000
Subject: [PATCH 39/46] fix: lfilter rejects numerators whose batch size does
 not match the input instead of returning extra outputs

---
 philtorch/lpv/filtering.py | 7 +++++++
 philtorch/lti/filtering.py | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 6953c34..c8c2d39 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -291,6 +291,13 @@ def _ssm_lfilter(
     **kwargs,
 ) -> Union[Tensor, tuple[Tensor, Tensor]]:
     """Apply a batch of time-invariant linear filters to input signal using state-space model."""
+    assert (
+        b.size(-2) == a.size(-2) == x.size(1)
+    ), "The number of time steps in b and a must match the input signal x."
+    if b.dim() == 3:
+        # one filter per sequence; also keeps it from being taken as many outputs
+        b = b.broadcast_to((x.size(0), -1, -1))
+
     if b.size(-1) < a.size(-1) + 1:
         b = F.pad(b, (0, a.size(-1) + 1 - b.size(-1)))
     elif b.size(-1) > a.size(-1) + 1:
diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 5f71e8f..1185967 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -254,6 +254,9 @@ def lfilter(
 
     assert b.dim() in (1, 2), "Numerator coefficients b must be 1D or 2D."
     assert a.dim() in (1, 2), "Denominator coefficients a must be 1D or 2D."
+    if b.dim() == 2:
+        # one filter per sequence; also keeps it from being taken as many outputs
+        b = b.broadcast_to((x.size(0), -1))
 
     match backend:
         case "ssm":
-- 
2.43.0


From 55bb2b6f063da98e79b44af1776fb1b5549bb37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:10 +0000
Subject: [PATCH 40/46] fix: state spaces reject a feedthrough whose output has
 another number of dimensions than that of the states

---
 philtorch/lpv/ssm.py | 4 ++++
 philtorch/lti/ssm.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index b4cf07a..884df68 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -572,6 +572,10 @@ def state_space(
         Ch = h
 
     if Dx is not None:
+        if Ch.dim() != Dx.dim():
+            raise ValueError(
+                f"The feedthrough and the output must both have features or both have none, got D x: {Dx.shape}, C h: {Ch.shape}"
+            )
         y = Ch + Dx
     else:
         y = Ch
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 616099e..9df3863 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -583,6 +583,10 @@ def _ssm_C_D(h, x, C, D, batch_size, M):
         Ch = h
 
     if Dx is not None:
+        if Ch.dim() != Dx.dim():
+            raise ValueError(
+                f"The feedthrough and the output must both have features or both have none, got D x: {Dx.shape}, C h: {Ch.shape}"
+            )
         y = Ch + Dx
     else:
         y = Ch
-- 
2.43.0


From 6db57583826f91d1193542dc6d98d549614c6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:10 +0000
Subject: [PATCH 41/46] fix: filtfilt rejects inputs of more than two
 dimensions instead of flattening them

---
 philtorch/lti/filtering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 1185967..98b1ecc 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -452,6 +452,9 @@ def filtfilt(
     if method == "gust":
         raise NotImplementedError("Gustafsson's method is not implemented yet.")
 
+    if x.dim() not in (1, 2):
+        raise ValueError("Input signal x must be 1D or 2D.")
+
     if padmode is None:
         padlen = 0
 
-- 
2.43.0


From 64bc9a33da866803447551dbe2c173e6e01ecb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:06 +0000
Subject: [PATCH 42/46] fix: lfilter_zi with more leading dimensions in b than
 in a

---
 philtorch/lti/filtering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 98b1ecc..7ed05a6 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -140,9 +140,9 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
 
     IminusA = torch.eye(n - 1, device=a.device, dtype=a.dtype) - A
 
-    if IminusA.ndim == 2 and B.ndim > 1:
-        IminusA = IminusA.expand(*B.shape[:-1], -1, -1)
-    zi = torch.linalg.solve(IminusA, B)
+    batch = torch.broadcast_shapes(IminusA.shape[:-2], B.shape[:-1])
+    IminusA = IminusA.expand(*batch, -1, -1)
+    zi = torch.linalg.solve(IminusA, B.expand(*batch, -1))
     return zi
 
 
-- 
2.43.0


From 97bde50c4130f7a4485e61e0ec9e35fc54db46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:23 +0000
Subject: [PATCH 43/46] fix: polydiv can be differentiated with respect to both
 polynomials

---
 philtorch/poly.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/philtorch/poly.py b/philtorch/poly.py
index 06b8571..5fad1a5 100644
--- a/philtorch/poly.py
+++ b/philtorch/poly.py
@@ -1,4 +1,5 @@
 import torch
+import torch.nn.functional as F
 from torch import Tensor
 
 
@@ -26,12 +27,12 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     if m < n:
         return u[..., :0], u.clone()
     scale = v[..., 0].reciprocal()
-    r = u.clone()
+    r = u
     q = []
     for k in range(0, m - n + 1):
-        d = scale * r[..., k]
+        d = scale * r[..., 0]
         q.append(d)
-        r[..., k : k + n + 1] -= d.unsqueeze(-1) * v
+        # out of place, so that both operands can be differentiated
+        r = r[..., 1:] - F.pad(d.unsqueeze(-1) * v[..., 1:], (0, m - n - k))
 
-    r = r[..., m - n + 1 :]
     return torch.stack(q, dim=-1), r
-- 
2.43.0


From 6c708678f048c3dd1acaea593e71d24640fca514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:21 +0000
Subject: [PATCH 44/46] fix: prototype polydiv can be differentiated with
 respect to both polynomials

---
 philtorch/prototype/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 4554e76..0e94796 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -79,7 +79,7 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     q = u.new_zeros(max(m - n + 1, 1))
     r = u.clone()
     for k in range(0, m - n + 1):
-        d = scale * r[k]
+        d = scale * r[k].clone()
         q[k] = d
         r[k : k + n + 1] -= d * v
     while torch.abs(r[0]) < 1e-8 and (r.shape[-1] > 1):
-- 
2.43.0


From 8b25e399192dfcc95a34fc8b250f3ce034cc68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:21 +0000
Subject: [PATCH 45/46] fix: diag_state_space rejects an initial state of the
 wrong length

Matrix products and broadcasting let a zi of length 1 (or a zi of any length
with one state) through, and returned results for another system.
---
 philtorch/lti/ssm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 9df3863..754f356 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -732,6 +732,11 @@ def diag_state_space(
     elif zi.dim() == 1:
         zi = zi.unsqueeze(0).expand(batch_size, -1)
 
+    assert zi.shape == (
+        batch_size,
+        M,
+    ), f"Initial state zi must be of shape {(M,)} or {(batch_size, M)}, got {zi.shape}"
+
     x_orig = x
     real_system = not any(t.is_complex() for t in (x, zi, A, B, C) if t is not None)
     if Vinv.is_complex():
-- 
2.43.0


From 2392951476bd9b5d96f2c1a2e94adf959f0fb2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:21 +0000
Subject: [PATCH 46/46] fix: comb_filter rejects initial conditions of the
 wrong length

With a batch of one and a delay above one, a single initial value was used
for every position of the delay line.
---
 philtorch/lti/filtering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 7ed05a6..8aa6352 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -39,6 +39,11 @@ def comb_filter(
         )
         return y if zi is None else (y, y[:, -1:].clone())
 
+    if zi is not None:
+        assert (
+            zi.size(-1) == delay
+        ), f"Initial conditions zi must have {delay} values in the last dimension, got {zi.shape}"
+
     N = x.size(1)
     remainder = N % delay
     if remainder != 0:
-- 
2.43.0

