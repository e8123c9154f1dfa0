From 782aaf29eabc4a5ecdbde4524913e12bb278968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 01/33] fix: StructureFunction without q=2 sets H to None
 instead of raising

The documentation promises H = None when 2 is not in q, but the lookup raised
IndexError, for a list of q values too, and with it every p-leader analysis
with p_exp != 2 (eta_p is a structure function of the single exponent p).
---
 pymultifracs/structurefunction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 53ac51b..ffb2c7a 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -74,6 +74,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
     def __post_init__(self, mrq):
 
+        self.q = np.asarray(self.q)
         self.formalism = mrq.formalism
         self.gamint = mrq.gamint
         self.nrep = mrq.nrep
@@ -123,6 +124,9 @@ class StructureFunction(MultiResolutionQuantityBase):
             self.intercept[ind_q] = intercept
 
     def _get_H(self):
+        if 2 not in self.q:
+            return None
+
         return (self.zeta[self.q == 2][0] / 2) - self.gamint
 
     def get_intercept(self):
-- 
2.43.0


From c25f88cb9ef1199cccb46633511bd84b64cc527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 02/33] fix: StructureFunction stores its documented values and
 nj

compute_hurst and Signal.hurst read StructureFunction.values, which was never
set, and so raised AttributeError on every signal; nj stayed an empty dict.
---
 pymultifracs/structurefunction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index ffb2c7a..d59983c 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -67,6 +67,7 @@ class StructureFunction(MultiResolutionQuantityBase):
     j2: int
     weighted: bool
     j: np.array = field(init=False)
+    values: np.array = field(init=False)
     logvalues: np.array = field(init=False)
     zeta: np.array = field(init=False)
     H: np.array = field(init=False)
@@ -77,6 +78,7 @@ class StructureFunction(MultiResolutionQuantityBase):
         self.q = np.asarray(self.q)
         self.formalism = mrq.formalism
         self.gamint = mrq.gamint
+        self.nj = mrq.nj
         self.nrep = mrq.nrep
         self.j = np.array(list(mrq.values))
 
@@ -98,6 +100,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             values[:, ind_j, :] = s_j
 
+        self.values = values
         self.logvalues = np.log2(values)
 
     def _compute_zeta(self, mrq):
-- 
2.43.0


From fa04b891835ff6c8f561baefb4f60894c00cd4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 03/33] fix: p-leader analysis with eta_p <= 0 returns
 uncorrected leaders

The early return lacked eta_p, so the caller failed to unpack it: the warning
was followed by a TypeError instead of the uncorrected p-leaders.
---
 pymultifracs/wavelet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/wavelet.py b/pymultifracs/wavelet.py
index 661f6c9..5a67f37 100644
--- a/pymultifracs/wavelet.py
+++ b/pymultifracs/wavelet.py
@@ -52,7 +52,7 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
         warnings.warn(f"eta(p) = {eta_p} <= 0, p-Leaders correction was not\
                         applied. A smaller value of p (or larger value of\
                         gamint) should be selected.")
-        return wt_leaders
+        return wt_leaders, eta_p
 
     JJ = np.arange(1, max_level + 1)
     J1LF = 1
-- 
2.43.0


From b246eec7be81b992d3e7391106dfc036c62deda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 04/33] fix: bivariate analysis without leaders returns
 lwt=None

With p_exp=None, the default, lwt was never assigned (UnboundLocalError).
---
 pymultifracs/bivariate/bimfa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 7c983b1..0259264 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -38,6 +38,10 @@ def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
         lwt = MFractalBiVar(lwt_bisf, lwt_bicm)
 
+    else:
+
+        lwt = None
+
     return MFractalData(dwt, lwt)
 
 
-- 
2.43.0


From 19bb73f79ff71dd7323f5aa40af64ca66fc56e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 05/33] fix: gaussian_chol synthesises the requested
 autocovariance

scipy's cholesky returns the upper factor U (cov = U^T U) by default, and U @ z
has covariance U U^T, not cov. The lower factor gives L L^T = cov.
---
 pymultifracs/simul/pzutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/pzutils.py b/pymultifracs/simul/pzutils.py
index 6f620d6..50bd86e 100644
--- a/pymultifracs/simul/pzutils.py
+++ b/pymultifracs/simul/pzutils.py
@@ -51,6 +51,6 @@ def gaussian_chol(cov, N, R, z=None):
     '''
     if z is None:
         z = np.random.randn(N, R)
-    L = spla.cholesky(spla.toeplitz(cov))
+    L = spla.cholesky(spla.toeplitz(cov), lower=True)
     x = L @ z
     return x
-- 
2.43.0


From e42241b6c65013e501df537c4f8fb6b42427d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 06/33] fix: fgn passes its initial noise z0 to the circulant
 embedding

z0 was ignored with method='cme', so that mrw(z0=(z_e, z_w)) was only half
determined by the noise it was given.
---
 pymultifracs/simul/fbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/fbm.py b/pymultifracs/simul/fbm.py
index 4921210..813614a 100644
--- a/pymultifracs/simul/fbm.py
+++ b/pymultifracs/simul/fbm.py
@@ -65,7 +65,7 @@ def fgn(shape, H, sigma=1, dt=None, method='cme', z0=None):
     # fbm = np.cumsum(x[:N, :], axis=0)
 
     if method == 'cme':
-        fgn = gaussian_cme(r, N, R)
+        fgn = gaussian_cme(r, N, R, z0)
     elif method == 'chol':
         fgn = gaussian_chol(r, N, R, z0)
     else:
-- 
2.43.0


From c49be8b43bd2fa3f4312c8812d7503c22f31ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 07/33] fix: mrw with an unknown synthesis method raises
 ValueError

It raised UnboundLocalError where fgn raises ValueError.
---
 pymultifracs/simul/mrw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index f70fc4d..5f0d9fc 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -173,6 +173,8 @@ def gaussian_w(N, R, L, lam, dt=1, method='cme', z0=None):
         w = gaussian_cme(cov, N, R, z0)
     elif method == 'chol':
         w = gaussian_chol(cov, N, R, z0)
+    else:
+        raise ValueError('Unknown synthesis method')
 
     return w
 
-- 
2.43.0


From 3f6e67b588ee04b090a8b26daeafb0d7a675139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 08/33] fix: scale2freq accepts numpy integers

Numpy refuses to raise an integer to a negative integer power, so that
scale2freq(np.arange(1, 5), fs) raised ValueError.
---
 pymultifracs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index 2f9dcd9..3ba564d 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -11,7 +11,7 @@ import numpy as np
 
 
 def scale2freq(scale, sfreq):
-    return (3/4) * sfreq * (2 ** -scale)
+    return (3/4) * sfreq * (2. ** -scale)
 
 
 def freq2scale(freq, sfreq):
-- 
2.43.0


From c0bbb0c778707fcc2b1afa6d9367621a3461d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 09/33] fix: minimal_mf_analysis without leaders returns
 lwt=None

mf_analysis_full(minimal=True) raised AttributeError with p_exp=None, its
default, where the full analysis sets lwt to None. q is converted to an array
as in mf_analysis.
---
 pymultifracs/mfa.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/mfa.py b/pymultifracs/mfa.py
index 697053c..95ca5f4 100644
--- a/pymultifracs/mfa.py
+++ b/pymultifracs/mfa.py
@@ -154,6 +154,9 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     if q is None:
         q = [2]
 
+    if isinstance(q, list):
+        q = np.array(q)
+
     parameters = {
         'q': q,
         'n_cumul': n_cumul,
@@ -165,8 +168,14 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     dwt_struct = StructureFunction.from_dict({'mrq': wt_coefs, **parameters})
     dwt = MFractalVar(dwt_struct, None, None, None)
 
-    lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
-    lwt = MFractalVar(None, lwt_cumul, None, None)
+    if wt_leaders is not None:
+
+        lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
+        lwt = MFractalVar(None, lwt_cumul, None, None)
+
+    else:
+
+        lwt = None
 
     return MFractalData(dwt, lwt)
 
-- 
2.43.0


From 61a42b152b83534a447cddda2d2dc99a93491a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 10/33] fix: p-leader correction is decided for each
 realisation

One realisation with eta_p <= 0 suppressed the correction of all the others,
so that the p-leaders of a signal depended on those analysed along with it.
---
 pymultifracs/wavelet.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pymultifracs/wavelet.py b/pymultifracs/wavelet.py
index 5a67f37..af4421f 100644
--- a/pymultifracs/wavelet.py
+++ b/pymultifracs/wavelet.py
@@ -48,11 +48,15 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
 
     eta_p = _estimate_eta_p(wt_coefs, p_exp, j1, j2_eff, weighted)
 
-    if eta_p.min() <= 0:
+    # realisations whose eta_p does not allow the correction
+    idx_skip = eta_p <= 0
+
+    if idx_skip.any():
         warnings.warn(f"eta(p) = {eta_p} <= 0, p-Leaders correction was not\
                         applied. A smaller value of p (or larger value of\
                         gamint) should be selected.")
-        return wt_leaders, eta_p
+
+    eta_p_corr = np.where(idx_skip, 1., eta_p)
 
     JJ = np.arange(1, max_level + 1)
     J1LF = 1
@@ -61,9 +65,10 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
     # eta_p shape (n_rep,)
     # JJ0 shape (n_level,)
 
-    zqhqcorr = np.log2((1 - np.power(2., -JJ0[None, :] * eta_p[:, None]))
-                       / (1 - np.power(2., -eta_p[:, None])))
+    zqhqcorr = np.log2((1 - np.power(2., -JJ0[None, :] * eta_p_corr[:, None]))
+                       / (1 - np.power(2., -eta_p_corr[:, None])))
     ZPJCorr = np.power(2, (-1.0 / p_exp) * zqhqcorr)
+    ZPJCorr[idx_skip] = 1.
 
     # ZPJCorr shape (n_rep, n_level)
 
-- 
2.43.0


From 69413e69f16fae10c69a5ada22a22c35666d2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 11/33] fix: computing leaders does not touch the process-wide
 warning filters

warnings.catch_warnings is not thread safe: two threads computing leaders at
the same time could leave all the warnings of the process ignored for good.
---
 pymultifracs/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index 3ba564d..9743554 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -5,7 +5,6 @@ Authors: Omar D. Domingues <omar.darwiche-domingues@inria.fr>
 
 from __future__ import print_function
 from __future__ import unicode_literals
-import warnings
 
 import numpy as np
 
@@ -146,7 +145,6 @@ def fixednansum(a, **kwargs):
 
 
 def fixednanmax(a, **kwargs):
-    with warnings.catch_warnings():
-        warnings.simplefilter("ignore")
-        a = np.nanmax(a, **kwargs)
-    return a
+    # fmax ignores nans unless all values are nan, and does not warn: hiding
+    # the warning of nanmax would modify the (process-wide) warning filters
+    return np.fmax.reduce(a, **kwargs)
-- 
2.43.0


From bcd88c516cd92d92640a4c107cabb047837c1caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 12/33] fix: skewed_mrw draws noise of the length its
 convolution expects

skewness_convolution needs 2N samples; with 2N + 1 every call raised
ValueError (operands could not be broadcast together).
---
 pymultifracs/simul/mrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 5f0d9fc..9454921 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -137,7 +137,7 @@ def skewed_mrw(shape, H, lam, L,  K0=1, alpha=1, sigma=1, dt=1, beta=1,
     w = w - np.mean(w, axis=0) - r * lam**2 * np.log(L / dt)
 
     # 2) fGn e
-    e = fgn((2*N + 1, R), H, sigma, dt)
+    e = fgn((2*N, R), H, sigma, dt)
 
     # 3) Correlate components
     past = skewness_convolution(e, K0, alpha, beta, dt)
-- 
2.43.0


From 1e33933654e49ca164791b032c3528e7cb771611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 13/33] fix: welch_estimation with short signals and odd n_fft

A signal shorter than the segment length (4096 by default) raised ValueError,
and for odd n_fft the frequencies reached 0.5 fs instead of (n_fft - 1) /
(2 n_fft) fs, so that none but 0 matched the PSD values.
---
 pymultifracs/psd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 174c06f..0868389 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -206,8 +206,11 @@ def welch_estimation(signal, fs, n_fft=4096, seg_size=None):
     if n_fft < seg_size:
         n_fft = seg_size
 
+    # Segments can not be longer than the signal
+    seg_size = min(seg_size, len(signal))
+
     # Frequency
-    freq = fs * np.linspace(0, 0.5, n_fft // 2 + 1)
+    freq = fs * np.fft.rfftfreq(n_fft)
 
     # PSD
     _, psd = welch(signal,
-- 
2.43.0


From 8ffb9b248e88c45cf7596d86958a5aad05c3adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 14/33] fix: estimate_wavelet_psd stores its parameters in
 wt_psd_param

They overwrote wt_param, the parameters of the wavelet transform, so that
hurst, hmin and mf_analysis failed after a PSD estimate, and the PSD was
recomputed on every call.
---
 pymultifracs/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 53cde98..485f056 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -113,7 +113,7 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_param = param
+            self.wt_psd_param = param
 
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
-- 
2.43.0


From 10524caa3bd8aa337ca0244710bc9ebd72a10b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 15/33] fix: Signal.mf_analysis runs, and caches only what it
 was asked for

It passed mf_analysis arguments which that does not accept (TypeError), failed
on a cache hit (UnboundLocalError), kept serving the results of a previous
wavelet transform, recorded the parameters of results it did not save, and
could not compare q arrays of different lengths.
---
 pymultifracs/signal.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 485f056..a0ec1b2 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -39,9 +39,9 @@ def same_params(old_params, new_params):
         new_param = getattr(new_params, param)
 
         if (isinstance(old_param, np.ndarray)
-           or isinstance(new_params, np.ndarray)):
+           or isinstance(new_param, np.ndarray)):
 
-            same = (old_param == new_param).all()
+            same = np.array_equal(old_param, new_param)
 
         else:
 
@@ -179,6 +179,10 @@ class Signal:
             self.wt_transform = wavelet_analysis(self.data,
                                                  **self.wt_param._asdict())
 
+            # Computed from the previous transform
+            self.mf_param = None
+            self.multi_fractal = None
+
         return self.wt_transform
 
     def wavelet_analysis(self, j1, j2, normalization, gamint, weighted,
@@ -228,22 +232,23 @@ class Signal:
 
         new_param = MFParameters(q, n_cumul)
 
-        if self.multi_fractal is None or not(same_params(self.mf_param,
-                                                         new_param)):
-
+        if self.multi_fractal is not None and same_params(self.mf_param,
+                                                          new_param):
+            return self.multi_fractal
+
+        multi_fractal = mf_analysis(
+            self.wt_transform.wt_coefs,
+            self.wt_transform.wt_leaders,
+            self.wt_transform.j2_eff,
+            j1=self.wt_param.j1,
+            weighted=self.wt_param.weighted,
+            q=q,
+            n_cumul=n_cumul
+        )
+
+        if save:
             self.mf_param = new_param
-
-            multi_fractal = mf_analysis(
-                **self.wt_transform._asdict(),
-                p_exp=self.wt_param.p_exp,
-                j1=self.wt_param.j1,
-                weighted=self.wt_param.weighted,
-                q=q,
-                n_cumul=n_cumul
-            )
-
-            if save:
-                self.multi_fractal = multi_fractal
+            self.multi_fractal = multi_fractal
 
         return multi_fractal
 
-- 
2.43.0


From da52a5072af8bbf5d75ee6e9b53438d072c19d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 16/33] fix: Signal.mf_analysis keeps its own copy of q

The cached parameters were the array of the caller: modified in place, it
compared equal to itself and the results for the old values were returned.
---
 pymultifracs/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index a0ec1b2..6c03f7c 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -230,6 +230,8 @@ class Signal:
 
         self._check_wt_transform()
 
+        # The caller may modify its q afterwards
+        q = None if q is None else np.array(q)
         new_param = MFParameters(q, n_cumul)
 
         if self.multi_fractal is not None and same_params(self.mf_param,
-- 
2.43.0


From 51b804becac8a896a51e7a6ec700a574eacde0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 17/33] fix: StructureFunction.plot with q=0 among the
 exponents

The panel of q=0 is left out, but the others were still placed by their index
in q: IndexError with q=[-2, -1, 0, 1, 2], an empty panel otherwise.
---
 pymultifracs/structurefunction.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index d59983c..a4706e3 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -146,8 +146,10 @@ class StructureFunction(MultiResolutionQuantityBase):
         Plots the structure functions.
         """
 
-        nrow = min(nrow, len(self.q))
-        nq = len(self.q) + (-1 if 0.0 in self.q and ignore_q0 else 0)
+        ind_plotted = [ind_q for ind_q, q in enumerate(self.q)
+                       if not (q == 0.0 and ignore_q0)]
+        nq = len(ind_plotted)
+        nrow = min(nrow, nq)
 
         if nq > 1:
             plot_dim_1 = nrow
@@ -167,14 +169,12 @@ class StructureFunction(MultiResolutionQuantityBase):
                      r' - structure functions $\log_2(S(j,q))$')
 
         x = self.j
-        for ind_q, q in enumerate(self.q):
-
-            if q == 0.0 and ignore_q0:
-                continue
+        for ind_plot, ind_q in enumerate(ind_plotted):
 
+            q = self.q[ind_q]
             y = self.logvalues[ind_q, :]
 
-            ax = axes[ind_q % nrow][ind_q // nrow]
+            ax = axes[ind_plot % nrow][ind_plot // nrow]
             ax.plot(x, y, 'r--.')
             ax.set_xlabel('j')
             ax.set_ylabel(f'q = {q:.3f}')
@@ -193,7 +193,7 @@ class StructureFunction(MultiResolutionQuantityBase):
                         linestyle='-', linewidth=2, label=legend)
                 ax.legend()
 
-        for j in range(ind_q + 1, len(axes.flat)):
+        for j in range(nq, len(axes.flat)):
             fig.delaxes(axes[j % nrow][j // nrow])
         plt.draw()
 
-- 
2.43.0


From 01c9fb729de6640ec301e524f07cff0d6344c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 18/33] fix: plot_fractal formats the slope of the wavelet PSD

The slope is an array of one element, which has no format: TypeError.
---
 pymultifracs/fractal_analysis.py | 2 +-
 pymultifracs/signal.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index af1b8a4..8787c37 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -59,7 +59,7 @@ def plot_fractal(signal, s_freq, log='log2', freq_band=(0.01, 2), n_moments=2,
     # Plot
     freq = [freq_fourier, freq_wavelet]
     psd = [psd_fourier, psd_wavelet]
-    legend = ['Fourier', 'Wavelet', f'Slope: {slope.beta:.2f}']
+    legend = ['Fourier', 'Wavelet', f'Slope: {slope.beta.item():.2f}']
 
     log_plot(freq, psd, legend, slope=[(slope.freq, psd_slope)], log=log,
              lowpass_freq=lowpass_freq)
diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 6c03f7c..dd04184 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -156,7 +156,7 @@ class Signal:
 
         log_plot([self.welch_psd.freq, self.wt_psd.freq],
                  [self.welch_psd.psd, self.wt_psd.psd],
-                 ['Fourier', 'Wavelet', f'Slope: {self.fractal.beta:.2f}'],
+                 ['Fourier', 'Wavelet', f'Slope: {self.fractal.beta.item():.2f}'],
                  slope=[(self.fractal.freq, psd_slope)],
                  log=self.log)
 
-- 
2.43.0


From 69f42b9b3085a11469debca1e82fcc6a620d102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 19/33] fix: plot_legendre with current matplotlib

Figure.gca takes no projection argument since matplotlib 3.6.
---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 6190d66..2c724b9 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -245,7 +245,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         cmap = cmap or plt.cm.coolwarm  # pylint: disable=no-member
 
         fig = plt.figure(figsize=(10, 10))
-        ax = fig.gca(projection='3d')
+        ax = fig.add_subplot(projection='3d')
 
         h_x = h[L.max(axis=0) >= 0]
         h_y = h[L.max(axis=1) >= 0]
-- 
2.43.0


From 79c0597b1f136bc930d86e5750cb64b3c205125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 20/33] fix: the bivariate cumulant plot labels c11 with the
 log-cumulant

It showed the slope of C11(j), without the log2(e) factor that the labels of
the other log-cumulants include.
---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 2c724b9..ae2bb63 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -187,7 +187,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         plt.plot(j_support, ((j_support * self.slope[1, 1])
                              + self.intercept[1, 1]),
                  **slope_param,
-                 label=f'c11: {self.slope[1, 1]:.2f}')
+                 label=f'c11: {self.log_cumulants[1, 1]:.2f}')
         plt.legend()
         plt.ylabel('$C11$(j)', size='large')
         plt.xlabel('j', size='large')
-- 
2.43.0


From d75186b46a3ba7bd8edf2fe820730185b0eab532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 21/33] fix: plot_hmin draws its figure

It unpacked three values from estimate_hmin, which returns two unless asked
for y, plotted a map object, and formatted the builtin min in its legend.
---
 pymultifracs/estimation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/estimation.py b/pymultifracs/estimation.py
index a4f7b89..e81c631 100644
--- a/pymultifracs/estimation.py
+++ b/pymultifracs/estimation.py
@@ -52,7 +52,9 @@ def estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn=True,
 
 def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
-    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn)
+    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn,
+                                       return_y=True)
+    hmin, intercept = hmin.item(), intercept.item()
     x = np.arange(j1, j2_eff+1)
 
     # plot log_sup_coeffs
@@ -68,9 +70,9 @@ def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
     # plot regression line
     reg_x = [j1, j2_eff]
-    reg_y = map(lambda x: hmin*x + intercept, reg_x)
+    reg_y = [hmin*x + intercept for x in reg_x]
 
-    legend = f'$h_\\mathrm{min}$ = {hmin:.5f}'
+    legend = f'$h_\\mathrm{{min}}$ = {hmin:.5f}'
     plt.plot(reg_x, reg_y, color='k', linestyle='-', linewidth=2, label=legend)
     plt.legend()
     plt.draw()
-- 
2.43.0


From 26237b5f2e24d88727c4838128a0ced3b5835861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 22/33] fix: plot_legendre passes its edge colour in a way
 matplotlib accepts

plot_surface passes edgecolors itself when facecolors is given: TypeError.
---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index ae2bb63..2d63177 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -264,7 +264,7 @@ class BiCumulants(MultiResolutionQuantityBase):
                                vmin=0, vmax=1,
                                rstride=1, cstride=1,
                                facecolors=colors, shade=False, linestyle='-',
-                               edgecolors='black', zorder=1)
+                               edgecolor='black', zorder=1)
         ax.set_zlim(0, 1)
         ax.view_init(elev=45)
 
-- 
2.43.0


From 47c93ab7c4d5e346060d7a49f8e26a737aafcc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 23/33] fix: a failed analysis of a Signal is not remembered as
 done

The parameters were stored before the analysis ran: after an exception the
same call answered with the previous result, or None, and mf_analysis used
the parameters of the failed transform.
---
 pymultifracs/signal.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index dd04184..ad8f80d 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -113,12 +113,13 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_psd_param = param
-
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
                                              j2=j2)
 
+            # Only once it is computed: the estimation may fail
+            self.wt_psd_param = param
+
         return self.wt_psd
 
     def estimate_welch_psd(self, n_fft=4096, seg_size=None):
@@ -127,12 +128,13 @@ class Signal:
 
         if self.welch_psd is None or self.welch_param != param:
 
-            self.welch_param = param
-
             self.welch_psd = welch_estimation(self.data, self.fs,
                                               n_fft=n_fft,
                                               seg_size=seg_size)
 
+            # Only once it is computed: the estimation may fail
+            self.welch_param = param
+
         return self.welch_psd
 
     def plot_psd(self, n_fft=4096, seg_size=None, n_moments=2, j2=None):
@@ -175,9 +177,11 @@ class Signal:
 
         if self.wt_param is None or self.wt_param != new_param:
 
-            self.wt_param = new_param
             self.wt_transform = wavelet_analysis(self.data,
-                                                 **self.wt_param._asdict())
+                                                 **new_param._asdict())
+
+            # Only once it is computed: the analysis may fail
+            self.wt_param = new_param
 
             # Computed from the previous transform
             self.mf_param = None
-- 
2.43.0


From 9292d4d2e89a64ca7d583408055e798dc3f1fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 24/33] fix: estimate_beta accepts a band that includes the
 zero frequency

It is left out, as _log_psd intends, but the frequencies were reshaped before:
the call failed with an IndexError or a ValueError.
---
 pymultifracs/fractal_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index 8787c37..5d50391 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -127,7 +127,7 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
     # Band-pass the PSD
 
     support = np.logical_and(freq_band[0] <= freq, freq <= freq_band[1])
-    freq = freq[support].reshape(-1, 1)
+    freq = freq[support]
     psd = psd[support]
 
 # Move this input sanitization to the megfractal package instead
@@ -137,6 +137,7 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
 
     # Log the values
     freq, psd = _log_psd(freq, psd, log)
+    freq = freq.reshape(-1, 1)
 
     # Fit ridge regressor
     # regressor = Ridge()
-- 
2.43.0


From 81f23670165b111a6fbb50c4b40a57e21430e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 25/33] fix: StructureFunction.plot when q=0 is the only
 exponent, and left out

---
 pymultifracs/structurefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index a4706e3..eca1dca 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -149,7 +149,7 @@ class StructureFunction(MultiResolutionQuantityBase):
         ind_plotted = [ind_q for ind_q, q in enumerate(self.q)
                        if not (q == 0.0 and ignore_q0)]
         nq = len(ind_plotted)
-        nrow = min(nrow, nq)
+        nrow = max(min(nrow, nq), 1)
 
         if nq > 1:
             plot_dim_1 = nrow
-- 
2.43.0


From 5d563f33cbeb7ac0e408685c7ad216c5fe0fdc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 26/33] fix: the volatility of mrw2D has the covariance lam^2
 log(L / (1 + d))

---
 pymultifracs/simul/mrw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 9454921..beb3735 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -262,7 +262,9 @@ def mrw2D(shape, H, lam, L,  sigma=1):
     L = np.fft.fft2(corr)
 
     z1 = np.random.randn(N, N, R) + 1j * np.random.randn(N, N, R)
-    w = np.exp(np.real(np.fft.ifft2(z1 * np.sqrt(L[..., None]), axes=(0, 1))))
+    # ifft2 divides by N**2: the covariance of N * ifft2(...) is corr
+    w = np.exp(np.real(np.fft.ifft2(z1 * N * np.sqrt(L[..., None]),
+                                    axes=(0, 1))))
 
     # Increment process:
     X = np.random.randn(N, N, R) * w
-- 
2.43.0


From e4b0ed631948df62fcb1d365f9d5ce59c3e3c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 27/33] fix: BiCumulants of leaders accepts n_cumul=1, without
 rho

---
 pymultifracs/bivariate/bivariate_cumulants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 2d63177..f27e93d 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -133,7 +133,8 @@ class BiCumulants(MultiResolutionQuantityBase):
 
     def _compute_rho(self):
 
-        if self.formalism == 'wavelet coef':
+        # rho needs the cumulants of order 2
+        if self.formalism == 'wavelet coef' or self.n_cumul < 2:
             self.RHO_MF = None
             self.rho_mf = None
         else:
-- 
2.43.0


From eca52dad06c7270d04e9be9bae9d59a50865e62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 28/33] fix: BiCumulants.plot when only the first cumulant was
 computed

---
 pymultifracs/bivariate/bivariate_cumulants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index f27e93d..b3052e7 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -143,7 +143,8 @@ class BiCumulants(MultiResolutionQuantityBase):
 
     def plot(self):
 
-        fig_m, ax = plt.subplots(self.n_cumul, 2, sharex=True, figsize=(12, 7))
+        fig_m, ax = plt.subplots(self.n_cumul, 2, sharex=True, squeeze=False,
+                                 figsize=(12, 7))
 
         j_support = np.arange(self.j1, self.j2 + 1)
 
-- 
2.43.0


From ff896210170b592ae151b13572ed79202ffb0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 29/33] fix: plot_legendre uses the support and figure size it
 is given

---
 pymultifracs/bivariate/bivariate_cumulants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index b3052e7..b273b62 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -233,7 +233,7 @@ class BiCumulants(MultiResolutionQuantityBase):
     def plot_legendre(self, h_support=(0, 1.5), resolution=30,
                       figsize=(10, 10), cmap=None):
 
-        h, L = self.compute_legendre(h_support=(0, 1.5),
+        h, L = self.compute_legendre(h_support=h_support,
                                      resolution=200)
 
         h_x = h[L.max(axis=0) >= 0]
@@ -246,7 +246,7 @@ class BiCumulants(MultiResolutionQuantityBase):
 
         cmap = cmap or plt.cm.coolwarm  # pylint: disable=no-member
 
-        fig = plt.figure(figsize=(10, 10))
+        fig = plt.figure(figsize=figsize)
         ax = fig.add_subplot(projection='3d')
 
         h_x = h[L.max(axis=0) >= 0]
-- 
2.43.0


From 57f56d3520420e763ae2770aab223ee7c994b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 30/33] fix: bivariate structure functions accept lists of
 exponents

---
 pymultifracs/bivariate/bivariate_structurefunction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index e9b5169..864eb2b 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -32,6 +32,9 @@ class BiStructureFunction(MultiResolutionQuantityBase):
 
     def __post_init__(self, mrq1, mrq2):
 
+        self.q1 = np.asarray(self.q1)
+        self.q2 = np.asarray(self.q2)
+
         self.nrep = 1
 
         assert mrq1.formalism == mrq2.formalism
-- 
2.43.0


From 168fca7a5b53457d2379ded7a69aca738e324878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 31/33] fix: bivariate structure functions without the
 exponents 0, 1 and 2

They have no coherence, as H is None without the exponent 2.
---
 pymultifracs/bivariate/bivariate_structurefunction.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index 864eb2b..0991b1f 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -68,12 +68,17 @@ class BiStructureFunction(MultiResolutionQuantityBase):
                         np.nanmean(fast_power(np.abs(mrq1.values[j]), q1)
                                    * fast_power(np.abs(mrq2.values[j]), q2))
 
+        self.logvalues = np.log2(abs_values)
+
+        # The coherence needs the exponents 0, 1 and 2 of both signals
+        if not all(q in q_ for q in (0, 1, 2) for q_ in (self.q1, self.q2)):
+            self.coherence = None
+            return
+
         self.coherence = (values[self.q1 == 1, self.q2 == 1][0]
                           / np.sqrt((values[self.q1 == 2, self.q2 == 0])
                                     * (values[self.q1 == 0, self.q2 == 2])))[0]
 
-        self.logvalues = np.log2(abs_values)
-
     def _compute_zeta(self):
         """
         Compute the value of the scale function zeta(q_1, q_2) for all q_1, q_2
-- 
2.43.0


From 2e578e59f59034ce415b545244a2937007a92e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 32/33] fix: bivariate analysis with the default exponents

---
 pymultifracs/bivariate/bimfa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 0259264..fd6d458 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -10,6 +10,11 @@ MFractalBiVar = namedtuple('MFractalBiVar', 'structure cumulants')
 
 def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
+    # In case no exponents are specified, we still include those that the
+    # coherence is made of
+    q1 = [0, 1, 2] if q1 is None else q1
+    q2 = [0, 1, 2] if q2 is None else q2
+
     j2 = min(WT1.j2_eff, WT2.j2_eff)
 
     parameters = {
-- 
2.43.0


From 55d92b34e6c6a5cfb8f702ba70b3cfe3593d411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 33/33] fix: BiStructureFunction.plot with one exponent for a
 signal

---
 pymultifracs/bivariate/bivariate_structurefunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index 0991b1f..7c883e5 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -107,6 +107,7 @@ class BiStructureFunction(MultiResolutionQuantityBase):
     def plot(self):
 
         fig, ax = plt.subplots(len(self.q1), len(self.q2), sharex=True,
+                               squeeze=False,
                                figsize=(len(self.q1) * 5 + 2,
                                         len(self.q2) * 3 + 2))
 
-- 
2.43.0

