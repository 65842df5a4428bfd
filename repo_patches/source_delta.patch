From 78a7d92e9ea834e47c5b093dea466ba494f480e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 01/36] fix: window signals whose variances are given as a
 vector in GUM_DFT

_apply_window indexed Ux.shape[1] although GUM_DFT accepts a one-dimensional Ux.
---
 PyDynamic/uncertainty/propagate_DFT.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index d19e458..1ac9594 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -80,10 +80,10 @@ def _apply_window(
         If the dimensions of x, Ux and window do not match or Ux is not square.
     """
     assert len(x) == len(window)
-    if not isinstance(Ux, float):
-        assert Ux.shape[0] == Ux.shape[1] and Ux.shape[0] == len(x)
+    if isinstance(Ux, np.ndarray):
+        assert Ux.shape in ((len(x),), (len(x), len(x)))
     xw = x.copy() * window
-    if isinstance(Ux, float):
+    if isinstance(Ux, float) or len(Ux.shape) == 1:
         Uxw = Ux * window ** 2
     else:
         Uxw = _prod(window, _prod(Ux, window))
-- 
2.43.0


From 9ddb9213f33948bc5648a8a240e110a1e38ffb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 02/36] fix: do not truncate the scaled covariance to integers
 in _prod

---
 PyDynamic/uncertainty/propagate_DFT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 1ac9594..3a68cfc 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -113,12 +113,12 @@ def _prod(A: np.ndarray, B: np.ndarray) -> np.ndarray:
         If the dimensions of A and B do not match.
     """
     if len(A.shape) == 1 and len(B.shape) == 2:  # A is the vector and B the matrix
-        C = np.zeros_like(B)
+        C = np.zeros_like(B, dtype=np.result_type(A, B))
         for k in range(C.shape[0]):
             C[k, :] = A[k] * B[k, :]
         return C
     elif len(A.shape) == 2 and len(B.shape) == 1:  # A is the matrix and B the vector
-        C = np.zeros_like(A)
+        C = np.zeros_like(A, dtype=np.result_type(A, B))
         for k in range(C.shape[1]):
             C[:, k] = A[:, k] * B[k]
         return C
-- 
2.43.0


From e77ae9373edfade4465d2caf8f79ccc361db3250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 03/36] fix: add both cross terms of the covariance in GUM_iDFT

---
 PyDynamic/uncertainty/propagate_DFT.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 3a68cfc..aeb2eb5 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -441,7 +441,8 @@ def GUM_iDFT(
         II = UF[N // 2 + 1 :, N // 2 + 1 :]
         # propagate uncertainties
         Ux = np.dot(Cc, np.dot(RR, Cc.T))
-        Ux = Ux + 2 * np.dot(Cc, np.dot(RI, Cs.T))
+        CRICs = np.dot(Cc, np.dot(RI, Cs.T))
+        Ux = Ux + CRICs + CRICs.T
         Ux = Ux + np.dot(Cs, np.dot(II, Cs.T))
     else:
         RR = UF[: N // 2 + 1]
-- 
2.43.0


From 8bb36eadc1f0237b998bf05fe12d3a12b62444b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 04/36] fix: add both cross terms of the covariance in
 AmpPhase2Time

---
 PyDynamic/uncertainty/propagate_DFT.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index aeb2eb5..5b71a44 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -869,9 +869,11 @@ def AmpPhase2Time(
             AA = diags[0][:n]
             AP = diags[1][offset[1] : nrows + offset[1]]
             PP = diags[0][n:]
+            CAPCs = np.dot(Cc, _prod(AP, Cs.T))
             Ux = (
                 np.dot(Cc, _prod(AA, Cc.T))
-                + 2 * np.dot(Cc, _prod(AP, Cs.T))
+                + CAPCs
+                + CAPCs.T
                 + np.dot(Cs, _prod(PP, Cs.T))
             )
         else:
@@ -879,9 +881,11 @@ def AmpPhase2Time(
             AP = UAP[: N // 2 + 1, N // 2 + 1 :]
             PP = UAP[N // 2 + 1 :, N // 2 + 1 :]
             # propagate uncertainties
+            CAPCs = np.dot(Cc, np.dot(AP, Cs.T))
             Ux = (
                 np.dot(Cc, np.dot(AA, Cc.T))
-                + 2 * np.dot(Cc, np.dot(AP, Cs.T))
+                + CAPCs
+                + CAPCs.T
                 + np.dot(Cs, np.dot(PP, Cs.T))
             )
 
-- 
2.43.0


From e54d1c567ea96ccc404d49f3c98b6c308df26041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 05/36] fix: correct the sensitivity to the imaginary part of H
 in DFT_deconv

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 5b71a44..d2e799b 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1009,7 +1009,7 @@ def DFT_deconv(
     IY = np.r_[-iH / norm, rH / norm]
     RH = np.r_[
         (-rY * rH ** 2 + rY * iH ** 2 - 2 * iY * iH * rH) / norm ** 2,
-        (iY * rH ** 2 - iH * iH ** 2 - 2 * rY * rH * iH) / norm ** 2,
+        (iY * rH ** 2 - iY * iH ** 2 - 2 * rY * rH * iH) / norm ** 2,
     ]
     IH = np.r_[
         (-iY * rH ** 2 + iY * iH ** 2 + 2 * rY * iH * rH) / norm ** 2,
-- 
2.43.0


From 62f00d3284f78fb295ad3ac9566a5324e71161de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 06/36] fix: correct the cross covariance of AmpPhase2DFT for
 sparse input

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index d2e799b..bcfee86 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -674,7 +674,7 @@ def AmpPhase2DFT(
             Upp = diags[0][N:]
 
             U11 = Uaa * CRA ** 2 + CRP * Uap * CRA + CRA * Uap * CRP + Upp * CRP ** 2
-            U12 = CRA * Uaa * CIA + CRP * Uap * CIA + CRA * Uap * CIA + CRP * Upp * CIP
+            U12 = CRA * Uaa * CIA + CRP * Uap * CIA + CRA * Uap * CIP + CRP * Upp * CIP
             U22 = Uaa * CIA ** 2 + CIP * Uap * CIA + CIA * Uap * CIP + Upp * CIP ** 2
 
             UF = sparse.diags(
-- 
2.43.0


From c23ca2cd9bcf25a7847c0548413a92ef29c6b7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 07/36] fix: return the covariance matrix for uncorrelated
 factors in DFT_multiply

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index bcfee86..1aba9a2 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1084,12 +1084,14 @@ def DFT_multiply(
             uRR = RA * UB * RA + IA * UB * IA
             uRI = RA * UB * IA - IA * UB * RA
             uII = IA * UB * IA + RA * UB * RA
+            uRR, uRI, uII = np.diag(uRR), np.diag(uRI), np.diag(uII)
         elif len(UB.shape) == 1:  # simpler calculation if no correlation
             UBRR = UB[: n // 2]
             UBII = UB[n // 2 :]
             uRR = RA * UBRR * RA + IA * UBII * IA
             uRI = RA * UBRR * IA - IA * UBII * RA
             uII = IA * UBRR * IA + RA * UBII * RA
+            uRR, uRI, uII = np.diag(uRR), np.diag(uRI), np.diag(uII)
         else:  # full calculation because of full input covariance
             UBRR = UB[: n // 2, : n // 2]
             UBRI = UB[: n // 2, n // 2 :]
-- 
2.43.0


From c3dd6288f2ad70623239f914faf03bed6949a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 08/36] fix: accept FIR filters with a single coefficient

---
 PyDynamic/uncertainty/propagate_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index ddaac6a..01f11e8 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -87,7 +87,8 @@ def _fir_filter(x, theta, Ux=None, Utheta=None, initial_conditions="constant"):
         )
 
     # propagate filter
-    y, _ = lfilter(theta, 1.0, x, zi=x0 * lfilter_zi(theta, 1.0))
+    zi = x0 * lfilter_zi(theta, 1.0) if Ntheta > 1 else np.zeros(0)
+    y, _ = lfilter(theta, 1.0, x, zi=zi)
 
     # propagate uncertainty
     Uy = np.zeros((len(x), len(x)))
@@ -189,7 +190,8 @@ def _fir_filter_diag(
         )
 
     # propagate filter
-    y, _ = lfilter(theta, 1.0, x, zi=x0 * lfilter_zi(theta, 1.0))
+    zi = x0 * lfilter_zi(theta, 1.0) if Ntheta > 1 else np.zeros(0)
+    y, _ = lfilter(theta, 1.0, x, zi=zi)
 
     # propagate uncertainty
     Uy_diag = np.zeros(len(x))
-- 
2.43.0


From 2734e981a1e95dd0000f48715ac6ecc1344978bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 09/36] fix: shift values and uncertainties alike in
 FIRuncFilter

---
 PyDynamic/uncertainty/propagate_filter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 01f11e8..7a33640 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -356,6 +356,12 @@ def FIRuncFilter(
         x, Ux_diag = _fir_filter_diag(
             y, theta, Uy_diag, Utheta_diag, initial_conditions="constant"
         )
+
+        # shift result
+        if shift != 0:
+            x = np.roll(x, -int(shift))
+            Ux_diag = np.roll(Ux_diag, -int(shift))
+
         return x, np.sqrt(np.abs(Ux_diag))
 
     # otherwise, the method computes full covariance information
@@ -401,7 +407,7 @@ def FIRuncFilter(
         # shift result
         if shift != 0:
             x = np.roll(x, -int(shift))
-            Ux = np.roll(Ux, (-int(shift), -int(shift)))
+            Ux = np.roll(Ux, (-int(shift), -int(shift)), axis=(0, 1))
 
         if return_full_covariance:
             return x, Ux
-- 
2.43.0


From d737221c91f6226bdf7dd501d486f220c7eebe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 10/36] fix: do not truncate the noise variance for integer
 signals in FIRuncFilter

---
 PyDynamic/uncertainty/propagate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 7a33640..237a198 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -340,7 +340,7 @@ def FIRuncFilter(
     ):
 
         if isinstance(sigma_noise, float):
-            Uy_diag = np.full_like(y, sigma_noise ** 2)
+            Uy_diag = np.full(len(y), sigma_noise ** 2)
         elif isinstance(sigma_noise, np.ndarray):
             Uy_diag = np.square(sigma_noise)
         else:
-- 
2.43.0


From 10a5247101c33666e185cd3f0742f68b41b982cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 11/36] fix: accept coefficient-wise uncertainties with full
 covariance in FIRuncFilter

---
 PyDynamic/uncertainty/propagate_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 237a198..0408879 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -390,6 +390,10 @@ def FIRuncFilter(
                 "Unsupported value of sigma_noise. Please check the documentation."
             )
 
+        # coefficient-wise standard uncertainties are a diagonal covariance
+        if isinstance(Utheta, np.ndarray) and len(Utheta.shape) == 1:
+            Utheta = np.diag(Utheta ** 2)
+
         # filter operation(s)
         if isinstance(blow, np.ndarray):
             # apply (fully certain) lowpass-filter
-- 
2.43.0


From cddbfb4e7739288bf4ddfa22343bd9f157037502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 12/36] fix: extrapolate by default if fill_value says so in
 interp1d_unc

---
 PyDynamic/uncertainty/interpolate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index ccb0267..df0c2ac 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -166,6 +166,7 @@ def interp1d_unc(
         # respectively but handle those cases separately.
         if fill_value == "extrapolate":
             fill_value = y[0], y[-1]
+            interp1d_params["bounds_error"] = False
 
         if fill_unc == "extrapolate":
             fill_unc = uy[0], uy[-1]
-- 
2.43.0


From 2dd5eeadab32b06b7305e5e11ed52213b0b371f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 13/36] fix: ARMA applies the j-th coefficient to the value j
 steps back

---
 PyDynamic/misc/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/noise.py b/PyDynamic/misc/noise.py
index a122ee1..eafdc40 100644
--- a/PyDynamic/misc/noise.py
+++ b/PyDynamic/misc/noise.py
@@ -200,6 +200,6 @@ def ARMA(length, phi=0.0, theta=0.0, std=1.0):
     for n, wn in enumerate(w):
         min_pn = min(p, n)
         min_qn = min(q, n)
-        e[n] = np.sum(phi[:min_pn].dot(e[n-min_pn:n])) + np.sum(theta[:min_qn].dot(w[n-min_qn:n])) + wn
+        e[n] = np.sum(phi[:min_pn].dot(e[n-min_pn:n][::-1])) + np.sum(theta[:min_qn].dot(w[n-min_qn:n][::-1])) + wn
 
     return e
-- 
2.43.0


From d3dcaba84cc49b0daff0653948534fda24afd399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 14/36] fix: FreqResp2RealImag averages over the Monte Carlo
 runs only

---
 PyDynamic/misc/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 35a81e0..26a9112 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -268,8 +268,8 @@ def FreqResp2RealImag(Abs, Phase, Unc, MCruns=1e4):
     )  # calculate complex frequency response values
     RI = np.hstack((np.real(H), np.imag(H)))  # transform to real, imag
 
-    Re = np.mean(RI[:, :Nf])
-    Im = np.mean(RI[:, Nf:])
+    Re = np.mean(RI[:, :Nf], axis=0)
+    Im = np.mean(RI[:, Nf:], axis=0)
     URI = np.cov(RI, rowvar=False)
 
     return Re, Im, URI
-- 
2.43.0


From 5565e49a629d1ba50f8e30933efe48295c203557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 15/36] fix: isstable for analog filters looks for poles in the
 right half plane

---
 PyDynamic/misc/filterstuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/filterstuff.py b/PyDynamic/misc/filterstuff.py
index c719425..65c2f09 100644
--- a/PyDynamic/misc/filterstuff.py
+++ b/PyDynamic/misc/filterstuff.py
@@ -169,7 +169,7 @@ def isstable(b, a, ftype="digital"):
     if ftype == "digital":
         return not np.any(np.abs(v) > 1.0)
     elif ftype == "analog":
-        return not np.any(np.real(v) < 0)
+        return not np.any(np.real(v) > 0)
     else:
         raise ValueError(f"isstable: filter type 'ftype={ftype}'unknown. Please "
                          f"check documentation and choose a valid assignment for "
-- 
2.43.0


From 41370391cd3ce43ecfb6cef60841e2b256bc74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 16/36] fix: LSFIR fits the frequency response instead of its
 reciprocal

---
 PyDynamic/model_estimation/fit_filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 7a0bc7e..0db39d1 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -194,8 +194,8 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
 
     """
 
-    print("\nLeast-squares fit of an order %d digital FIR filter to the" % N)
-    print("reciprocal of a frequency response given by %d values.\n" % len(H))
+    print("\nLeast-squares fit of an order %d digital FIR filter to a" % N)
+    print("frequency response given by %d values.\n" % len(H))
 
     H = H[:, np.newaxis]
 
@@ -217,8 +217,8 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
     else:
         X = np.vstack([np.real(E), np.imag(E)])
 
-    H = H * np.exp(1j * w * tau)
-    iRI = np.vstack([np.real(1.0 / H), np.imag(1.0 / H)])
+    Hs = H * np.exp(-1j * w * tau)
+    iRI = np.vstack([np.real(Hs), np.imag(Hs)])
 
     bFIR, res = np.linalg.lstsq(X, iRI)[:2]
 
-- 
2.43.0


From b59b7c649f50e08ed61a18b08cd2245694aa28eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 17/36] fix: weighted FIR fits weight the fitted values like
 the design matrix

---
 PyDynamic/model_estimation/fit_filter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 0db39d1..d904061 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -209,7 +209,7 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
 
     if Wt is not None:
         if len(np.shape(Wt)) == 2:  # is matrix
-            weights = np.diag(Wt)
+            weights = Wt
         else:
             weights = np.eye(len(f)) * Wt
         X = np.vstack(
@@ -218,6 +218,8 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
         X = np.vstack([np.real(E), np.imag(E)])
 
     Hs = H * np.exp(-1j * w * tau)
+    if Wt is not None:
+        Hs = np.dot(weights, Hs)
     iRI = np.vstack([np.real(Hs), np.imag(Hs)])
 
     bFIR, res = np.linalg.lstsq(X, iRI)[:2]
@@ -276,7 +278,7 @@ def invLSFIR(H, N, tau, f, Fs, Wt=None):
 
     if Wt is not None:  # set up weighted design matrix if necessary
         if len(np.shape(Wt)) == 2:  # is matrix
-            weights = np.diag(Wt)
+            weights = Wt
         else:
             weights = np.eye(len(f)) * Wt
         X = np.vstack([np.real(np.dot(weights, E)), np.imag(np.dot(weights, E))])
@@ -284,7 +286,10 @@ def invLSFIR(H, N, tau, f, Fs, Wt=None):
         X = np.vstack([np.real(E), np.imag(E)])
 
     Hs = H * np.exp(1j * w * tau)  # apply time delay for improved fit quality
-    iRI = np.vstack([np.real(1.0 / Hs), np.imag(1.0 / Hs)])
+    iH = 1.0 / Hs
+    if Wt is not None:  # weight the values to be fitted as well
+        iH = np.dot(weights, iH)
+    iRI = np.vstack([np.real(iH), np.imag(iH)])
 
     bFIR, res = np.linalg.lstsq(X, iRI)[:2]  # the actual fitting
 
-- 
2.43.0


From ca48917905df2878cd4d14c2725fa8ed4fb8e77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 18/36] fix: invLSFIR_unc samples the reciprocal of the delayed
 frequency response

---
 PyDynamic/model_estimation/fit_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index d904061..85fd8fe 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -373,11 +373,11 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
 
     # Vectorized Monte Carlo for propagation to inverse
     absHMC = HRI[:, :Nf] ** 2 + HRI[:, Nf:] ** 2
-    HiMC = np.hstack(((HRI[:, :Nf] * np.tile(np.cos(omtau), (runs, 1)) +
+    HiMC = np.hstack(((HRI[:, :Nf] * np.tile(np.cos(omtau), (runs, 1)) -
                        HRI[:, Nf:] * np.tile(np.sin(omtau), (runs, 1))) /
                       absHMC,
-                      (HRI[:, Nf:] * np.tile(np.cos(omtau), (runs, 1)) -
-                       HRI[:, :Nf] * np.tile(np.sin(omtau), (runs, 1))) /
+                      -(HRI[:, Nf:] * np.tile(np.cos(omtau), (runs, 1)) +
+                        HRI[:, :Nf] * np.tile(np.sin(omtau), (runs, 1))) /
                       absHMC))
     UiH = np.cov(HiMC, rowvar=False)
 
-- 
2.43.0


From bd5d62f8c3719ccc5b515bc3c0a8b6947cd5bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 19/36] fix: invLSFIR_unc accepts weights and weights the
 fitted values

---
 PyDynamic/model_estimation/fit_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 85fd8fe..2ad941e 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -383,7 +383,7 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
 
     # Step 2: Fit filter coefficients and evaluate uncertainties
     if isinstance(wt, np.ndarray):
-        if wt.shape != np.diag(UiH).shape[0]:
+        if wt.shape != np.diag(UiH).shape:
             raise ValueError("User-defined weighting has wrong dimension.")
     else:
         wt = np.ones(2 * Nf)
@@ -402,6 +402,7 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
     StSInv[s > 0] = s[s > 0] ** (-2)
 
     M = np.dot(np.dot(np.dot(v.T, np.diag(StSInv)), np.diag(s)), u.T)
+    M = np.dot(M, np.diag(wt))  # weighted values are fitted
 
     bFIR = np.dot(M, Hri[:, np.newaxis])  # actual fitting
     UbFIR = np.dot(np.dot(M, UiH), M.T)  # evaluation of uncertainties
-- 
2.43.0


From 04382573fdf347194c372b475cefa2846fe8c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 20/36] fix: Signal.apply_filter passes its pointwise
 uncertainties as such

They were taken as an autocovariance (the default kind of FIRuncFilter).
---
 PyDynamic/signals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 27b5006..100fb0d 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -124,7 +124,11 @@ class Signal:
             if len(self.uncertainty.shape) == 1:
                 if not isinstance(MonteCarloRuns, int):
                     self.values, self.uncertainty = FIRuncFilter(
-                        self.values, self.uncertainty, b, Utheta=filter_uncertainty
+                        self.values,
+                        self.uncertainty,
+                        b,
+                        Utheta=filter_uncertainty,
+                        kind="diag",
                     )
                 else:
                     self.values, self.uncertainty = MC(
-- 
2.43.0


From 4904c71d1508e9db8a99686cea0b74fea87a9184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 21/36] fix: Signal.apply_filter filters with IIR filters for
 any number of runs

With an explicit number of runs the signal was left unfiltered.
---
 PyDynamic/signals.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 100fb0d..ba8aeff 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -153,11 +153,11 @@ class Signal:
         else:  # IIR-type filter
             if not isinstance(MonteCarloRuns, int):
                 MonteCarloRuns = 10000
-                self.values, self.uncertainty = MC(
-                    self.values,
-                    self.uncertainty,
-                    b,
-                    a,
-                    filter_uncertainty,
-                    runs=MonteCarloRuns,
-                )
+            self.values, self.uncertainty = MC(
+                self.values,
+                self.uncertainty,
+                b,
+                a,
+                filter_uncertainty,
+                runs=MonteCarloRuns,
+            )
-- 
2.43.0


From 25c28d095a6bfe5073fef5d0e6301b9361f81b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 22/36] fix: Monte Carlo in Signal.apply_filter with FIR
 filters and with exact filters

MC() needs the denominator as an array and a covariance matrix; both
documented calls (a=1, filter_uncertainty=None) raised exceptions.
---
 PyDynamic/signals.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index ba8aeff..16b750a 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -120,6 +120,11 @@ class Signal:
         """
         if isinstance(a, list):
             a = np.array(a)
+        # covariance of the coefficients (a[1:], b) for the Monte Carlo method
+        Uab = filter_uncertainty
+        if Uab is None:
+            n_theta = len(b) + (len(a) - 1 if isinstance(a, np.ndarray) else 0)
+            Uab = np.zeros((n_theta, n_theta))
         if not (isinstance(a, np.ndarray)):  # FIR type filter
             if len(self.uncertainty.shape) == 1:
                 if not isinstance(MonteCarloRuns, int):
@@ -135,8 +140,8 @@ class Signal:
                         self.values,
                         self.uncertainty,
                         b,
-                        a,
-                        filter_uncertainty,
+                        np.ones(1),
+                        Uab,
                         runs=MonteCarloRuns,
                     )
             else:
@@ -146,8 +151,8 @@ class Signal:
                     self.values,
                     self.uncertainty,
                     b,
-                    a,
-                    filter_uncertainty,
+                    np.ones(1),
+                    Uab,
                     runs=MonteCarloRuns,
                 )
         else:  # IIR-type filter
@@ -158,6 +163,6 @@ class Signal:
                 self.uncertainty,
                 b,
                 a,
-                filter_uncertainty,
+                Uab,
                 runs=MonteCarloRuns,
             )
-- 
2.43.0


From b71def0989469f85aae86f029552135612650a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 23/36] fix: Signal always has a sampling interval and a
 sampling frequency

---
 PyDynamic/signals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 16b750a..f8f40ae 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -35,11 +35,15 @@ class Signal:
         if (Ts is None) and (Fs is None):
             self.Ts = np.unique(np.diff(self.time)).mean()
             self.Fs = 1 / self.Ts
-        elif isinstance(Ts, float):
+        elif Ts is None:
+            self.Fs = Fs
+            self.Ts = 1 / Fs
+        else:
             self.Ts = Ts
             if Fs is None:
                 self.Fs = 1 / Ts
             else:
+                self.Fs = Fs
                 assert np.abs(Fs * self.Ts - 1) < 1e-5, (
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
-- 
2.43.0


From 437af3c38e768bfd359d407d80d90c43d120dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 24/36] fix: Signal accepts an integer uncertainty

It was silently replaced by zero.
---
 PyDynamic/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index f8f40ae..6325130 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -48,7 +48,7 @@ class Signal:
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
         # set initial uncertainty
-        if isinstance(uncertainty, float):
+        if isinstance(uncertainty, (float, int)):
             self.uncertainty = np.ones_like(values) * uncertainty
         elif isinstance(uncertainty, np.ndarray):
             uncertainty = uncertainty.squeeze()
-- 
2.43.0


From e8c510a13e201d0de5aa9c6fc8a8ac863c16162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 25/36] fix: sensitivities of the damping in fit_som

The damping is mu1 / sqrt(|mu0 mu2|), not mu1 / sqrt(|mu0 + mu2|).
---
 PyDynamic/model_estimation/fit_transfer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_transfer.py b/PyDynamic/model_estimation/fit_transfer.py
index 4df7a06..1327d33 100644
--- a/PyDynamic/model_estimation/fit_transfer.py
+++ b/PyDynamic/model_estimation/fit_transfer.py
@@ -154,9 +154,9 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
                 [
                     [-1 / mu[0] ** 2, 0, 0],
                     [
-                        -mu[1] / (2 * (np.abs(mu[0] + mu[2])) ** (3 / 2)),
-                        1 / np.sqrt(np.abs(mu[0] + mu[2])),
-                        -mu[1] / (2 * np.abs(mu[0] + mu[2]) ** (3 / 2)),
+                        -mu[1] * mu[2] / (2 * np.abs(mu[0] * mu[2]) ** (3 / 2)),
+                        1 / np.sqrt(np.abs(mu[0] * mu[2])),
+                        -mu[1] * mu[0] / (2 * np.abs(mu[0] * mu[2]) ** (3 / 2)),
                     ],
                     [
                         1 / (4 * np.pi * mu[2] * np.sqrt(np.abs(mu[0] / mu[2]))),
-- 
2.43.0


From 1b93e940794fc8fb55c6647aa228f795db403df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 26/36] fix: state-space recursion of IIRuncFilter

The function failed for every input (tf2ss was not imported, matrix shapes
did not fit).  The derivative with respect to b_0 was stored in the wrong
place, the state derivatives shared one buffer, and the noise covariance of
the state was one step ahead of the output it was used for.
---
 PyDynamic/uncertainty/propagate_filter.py | 48 +++++++++++------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 0408879..9a19b02 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -17,7 +17,7 @@ This modules contains the following functions:
 
 import numpy as np
 from scipy.linalg import toeplitz
-from scipy.signal import lfilter, lfilter_zi, dimpulse
+from scipy.signal import lfilter, lfilter_zi, dimpulse, tf2ss
 from scipy.signal import convolve
 from ..misc.tools import trimOrPad
 
@@ -453,44 +453,40 @@ def IIRuncFilter(x, noise, b, a, Uab):
         noise = noise * np.ones_like(x)  # translate iid noise to vector
 
     p = len(a) - 1
+    Nb = len(b)
 
     # Adjust dimension for later use.
     if not len(b) == len(a):
         b = np.hstack((b, np.zeros((len(a) - len(b),))))
 
     # From discrete-time transfer function to state space representation.
-    [A, bs, c, b0] = tf2ss(b, a)
+    A, bs, c, d = tf2ss(b, a)
+    bs, c, b0 = bs[:, 0], c[0, :], d[0, 0]
 
-    A = np.matrix(A)
-    bs = np.matrix(bs)
-    c = np.matrix(c)
-
-    phi = np.zeros((2 * p + 1, 1))
-    dz = np.zeros((p, p))
-    dz1 = np.zeros((p, p))
-    z = np.zeros((p, 1))
-    P = np.zeros((p, p))
+    phi = np.zeros(2 * p + 1)  # sensitivities w.r.t. a_1,...,a_p,b_0,...,b_p
+    dz = np.zeros((p, p))  # derivatives of the state w.r.t. a_1,...,a_p
+    z = np.zeros(p)
+    P = np.zeros((p, p))  # covariance of the state due to the signal noise
 
     y = np.zeros((len(x),))
     Uy = np.zeros((len(x),))
 
-    Aabl = np.zeros((p, p, p))
-    for k in range(p):
-        Aabl[0, k, k] = -1
-
     # implementation of the state-space formulas from the paper
     for n in range(len(y)):
-        for k in range(p):  # derivative w.r.t. a_1,...,a_p
-            dz1[:, k] = A * dz[:, k] + np.squeeze(Aabl[:, :, k]) * z
-            phi[k] = c * dz[:, k] - b0 * z[k]
-        phi[p + 1] = -np.matrix(a[1:]) * z + x[n]  # derivative w.r.t. b_0
-        for k in range(p + 2, 2 * p + 1):  # derivative w.r.t. b_1,...,b_p
-            phi[k] = z[k - (p + 1)]
-        P = A * P * A.T + noise[n] ** 2 * (bs * bs.T)
-        y[n] = c * z + b0 * x[n]
-        Uy[n] = phi.T * Uab * phi + c * P * c.T + b[0] ** 2 * noise[n] ** 2
-        z = A * z + bs * x[n]  # update of the state equations
-        dz = dz1
+        phi[:p] = np.dot(c, dz) - b0 * z  # derivative w.r.t. a_1,...,a_p
+        phi[p] = x[n] - np.dot(a[1:], z)  # derivative w.r.t. b_0
+        phi[p + 1 :] = z  # derivative w.r.t. b_1,...,b_p
+        y[n] = np.dot(c, z) + b0 * x[n]
+        Uy[n] = (
+            np.dot(phi[: p + Nb], np.dot(Uab, phi[: p + Nb]))
+            + np.dot(c, np.dot(P, c))
+            + b0 ** 2 * noise[n] ** 2
+        )
+        # update of the state equations
+        dz = np.dot(A, dz)
+        dz[0, :] -= z
+        P = np.dot(A, np.dot(P, A.T)) + noise[n] ** 2 * np.outer(bs, bs)
+        z = np.dot(A, z) + bs * x[n]
 
     Uy = np.sqrt(np.abs(Uy))  # calculate point-wise standard uncertainties
 
-- 
2.43.0


From f6834a2ae015391aabcf3b1956cb3ed2458e17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 27/36] fix: delay of the low-pass filter of kaiser_lowpass

The window has an odd number L of coefficients, its delay is (L - 1) / 2
samples; L / 2 is half a sample off and not an integer as documented.
---
 PyDynamic/misc/filterstuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/filterstuff.py b/PyDynamic/misc/filterstuff.py
index 65c2f09..66c1d63 100644
--- a/PyDynamic/misc/filterstuff.py
+++ b/PyDynamic/misc/filterstuff.py
@@ -141,7 +141,7 @@ def kaiser_lowpass(L, fcut, Fs, beta=8.0):
     if np.mod(L, 2) == 0:
         L = L + 1
     blow = firwin(L, 2 * fcut / Fs, window=("kaiser", beta))
-    shift = L / 2
+    shift = (L - 1) // 2
     return blow, shift
 
 
-- 
2.43.0


From d9a81a2ebe898c3978e47123416f4b2add0076f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 28/36] fix: covariance of the first block in UMC_generic

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index f64a762..8e35851 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -701,7 +701,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
 
         if m == 0:  # first block
             y = np.mean(Y, axis=0)
-            Uy = np.matmul((Y - y).T, (Y - y))
+            Uy = np.matmul((Y - y).T, (Y - y)) / max(curr_block - 1, 1)
 
         else:  # updating y and Uy from results of current block
             K0 = m * blocksize
-- 
2.43.0


From 76b4e3ab3eb12988bc2a224806c307af9508ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 29/36] fix: length of the last block in UMC_generic

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 8e35851..d033f2d 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -687,10 +687,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         sims = {"samples": np.empty((runs, *input_shape)), "results": np.empty((runs, *output_shape))}
 
     for m in range(nblocks):
-        if m == nblocks:
-            curr_block = runs % blocksize
-        else:
-            curr_block = blocksize
+        curr_block = min(blocksize, runs - m * blocksize)
 
         Y = np.empty((curr_block, np.prod(output_shape)))
         samples = draw_samples(curr_block)
-- 
2.43.0


From 73cd48a63e3b34c2388f47f9cb65e2611aca0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 30/36] fix: last bin edge in UMC_generic

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index d033f2d..60e1bcc 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -734,7 +734,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     # replace edge limits by ymin and ymax, resp.
     for h in happr.values():
         h["bin-edges"][0, :] = np.min(np.vstack((ymin, h["bin-edges"][0, :])), axis=0)
-        h["bin-edges"][-1, :] = np.min(np.vstack((ymax, h["bin-edges"][-1, :])), axis=0)
+        h["bin-edges"][-1, :] = np.max(np.vstack((ymax, h["bin-edges"][-1, :])), axis=0)
 
     if return_samples:
         return y, Uy, happr, output_shape, sims
-- 
2.43.0


From e399004c929fc897ab68a7949a510a2dd7ccaddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 31/36] fix: order of the results in UMC_generic

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 60e1bcc..a4ce005 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -645,7 +645,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     else:
         nPool = min(n_cpu, blocksize)
         pool = multiprocessing.Pool(nPool)
-        map_func = pool.imap_unordered
+        map_func = pool.imap
 
     # ------------ preparations for update formulae ------------
 
-- 
2.43.0


From fb5b893886e088296c8bf5eb7723f6697e54694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 32/36] fix: standard deviation of the noise of multi_sine

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index e2fc16a..eacc0f9 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -211,7 +211,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
     x = np.zeros_like(time)
     for amp, freq in zip(amps, freqs):
         x += amp * np.sin(freq * time)
-    x += np.random.randn(len(x)) * noise ** 2
+    x += np.random.randn(len(x)) * noise
     return x
 
 
-- 
2.43.0


From 4c2994dfb271ace5999bd03934d9d4e8a0a845f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 33/36] fix: squarepulse places its pulses relative to the
 first time instant

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index eacc0f9..22447a0 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -157,7 +157,7 @@ def squarepulse(time, height, numpulse=4, noise=0.0):
     width = (time[-1] - time[0]) / (2 * numpulse + 1)  # width of each individual rect
     x = np.zeros_like(time)
     for k in range(numpulse):
-        x += rect(time, (2 * k + 1) * width, (2 * k + 2) * width, height)
+        x += rect(time, time[0] + (2 * k + 1) * width, time[0] + (2 * k + 2) * width, height)
     if noise > 0:
         x += np.random.randn(len(time)) * noise
     return x
-- 
2.43.0


From 64f5f637ad461bba44554270a5d081407ec5820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 34/36] fix: squarepulse and multi_sine accept integer time
 instants

---
 PyDynamic/misc/testsignals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index 22447a0..0cb1a99 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -155,7 +155,7 @@ def squarepulse(time, height, numpulse=4, noise=0.0):
             signal amplitude at time instants
     """
     width = (time[-1] - time[0]) / (2 * numpulse + 1)  # width of each individual rect
-    x = np.zeros_like(time)
+    x = np.zeros_like(time, dtype=float)
     for k in range(numpulse):
         x += rect(time, time[0] + (2 * k + 1) * width, time[0] + (2 * k + 2) * width, height)
     if noise > 0:
@@ -208,7 +208,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
             signal amplitude at time instants
     """
 
-    x = np.zeros_like(time)
+    x = np.zeros_like(time, dtype=float)
     for amp, freq in zip(amps, freqs):
         x += amp * np.sin(freq * time)
     x += np.random.randn(len(x)) * noise
-- 
2.43.0


From ad9e560efdaf220a4bbe13942fdf69aacb08bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 35/36] fix: make_semiposdef counts its iterations for dense
 matrices

---
 PyDynamic/misc/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 26a9112..962878a 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -216,8 +216,9 @@ def make_semiposdef(
         count = 0
         e = np.real(np.linalg.eigvals(matrix)).min()
         while e < tol and count < maxiter:
-            e = np.real(np.linalg.eigvals(matrix)).min()
             matrix += (np.absolute(e) + tol) * np.eye(n)
+            e = np.real(np.linalg.eigvals(matrix)).min()
+            count += 1
         e = np.real(np.linalg.eigvals(matrix)).min()
     if verbose:
         print("Final result of make_semiposdef: smallest eigenvalue is %e" % e)
-- 
2.43.0


From 637e2754e75399d269412b1025a6f449badbf986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 36/36] fix: GUM_DFT accepts integer noise variances

Time2AmpPhase_multi passes the elements of its array of variances on to GUM_DFT,
which failed for integer elements because np.int64 is no float.
---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 1aba9a2..cb11ab5 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -296,7 +296,7 @@ def GUM_DFT(
     # sensitivity matrix wrt sinus part
     Cxks = lambda k: -np.sin(k * beta)[np.newaxis, :]
 
-    if isinstance(Ux, float):
+    if np.ndim(Ux) == 0:
         UF = np.zeros(Nm)
         km = 0
         for k in range(M // 2):  # Block cos/cos
-- 
2.43.0

