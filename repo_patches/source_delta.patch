From 7db65c8e93dce6e7249c3b61eb789b25d1a5649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 01/27] fix: bose_fct truncated results to integers for integer
 beta*eps

---
 gftool/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 41d4654..89a17af 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -47,7 +47,7 @@ def bose_fct(eps, beta):
     >>> plt.show()
     """
     betaeps = np.asanyarray(beta*eps)
-    res = np.empty_like(betaeps)
+    res = np.empty_like(betaeps, dtype=np.result_type(betaeps, np.float64))
     small = betaeps < 700
 
     with catch_warnings():
-- 
2.43.0


From 6477679257d0661237b89a7997403f11edf85f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 02/27] fix: bcc.dos truncated the DOS to integers for integer
 eps

---
 gftool/lattice/bcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/bcc.py b/gftool/lattice/bcc.py
index e44cc85..aa4fd4e 100644
--- a/gftool/lattice/bcc.py
+++ b/gftool/lattice/bcc.py
@@ -147,7 +147,7 @@ def dos(eps, half_bandwidth):
     """
     eps = np.asarray(eps)
     eps_rel = eps / half_bandwidth
-    dos_ = np.zeros_like(eps)
+    dos_ = np.zeros_like(eps_rel)
     singular = eps_rel == 0
     finite = (abs(eps_rel) <= 1) & ~singular
     # identity `K(m) = (1/m) [K(m) + iK'(1/m)]` could be used to avoid 1/0
-- 
2.43.0


From a3f195e29e8c0b47a2b13248e8b0b20ed0119d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 03/27] fix: fcc.dos truncated the DOS to integers for integer
 eps

---
 gftool/lattice/fcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index c0af611..9634db4 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -176,7 +176,7 @@ def dos(eps, half_bandwidth):
     eps = np.asarray(eps)
     singular = eps == -0.5*half_bandwidth
     finite = (-0.5*half_bandwidth < eps) & (eps < 1.5*half_bandwidth) & ~singular
-    dos_ = np.zeros_like(eps)
+    dos_ = np.zeros_like(eps, dtype=np.result_type(eps, np.float64))
     dos_[finite] = 1 / np.pi * gf_z(eps[finite], half_bandwidth=half_bandwidth).imag
     dos_[singular] = np.inf
     return abs(dos_)  # at 0.5D wrong sign
-- 
2.43.0


From 597b76fcc10e856e506081ed3278129aa0a65be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 04/27] fix: triangular.gf_z checked singularity on wrong scale

---
 gftool/lattice/triangular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index c410cf9..47c91eb 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -76,7 +76,7 @@ def gf_z(z, half_bandwidth):
     z = z.reshape(-1)
     advanced = z.imag < 0
     z = np.where(advanced, np.conj(z), z)  # calculate retarded only, and use symmetry
-    singular = D * z == -1  # try singularity which needs to be avoided
+    singular = z == -1  # try singularity which needs to be avoided
     z[singular] = 0  # mock value to avoid errors
     rr = _signed_sqrt(2*z + 3)
     gg = 4.0 / (_signed_sqrt(rr - 1)**3 * _signed_sqrt(rr + 3))  # eq (2.9)
-- 
2.43.0


From 2d7c6b10327844f8d915efedb4957d8b0c9e4b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 05/27] fix: hermpade.pader dropped numerator for den_deg=0

---
 gftool/hermpade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index 089f668..4f57164 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -535,13 +535,13 @@ def pader(an, num_deg: int, den_deg: int, rcond: float = 1e-14) -> RatPol:
     an = an[:l_max]
     # TODO: do rescaling, haven't found it in the reference
     tol = rcond * np.linalg.norm(an)
-    if np.all(abs(an[:num_deg]) <= tol):  # up to tolerance function is 0
+    if np.all(abs(an[:num_deg+1]) <= tol):  # up to tolerance function is 0
         return RatPol(Polynom([0]), Polynom([1]))
     row = np.r_[an[0], np.zeros(den_deg)]
     col = an
     while True:
         if den_deg == 0:
-            pcoeff, qcoeff = an[:den_deg], np.array([1])
+            pcoeff, qcoeff = an[:num_deg+1], np.array([1])
             break
         # top = np.r_[an[num_deg+1:num_deg+1-den_deg:-1], [0]*(den_deg-num_deg)]
         # amat = toeplitz(an[num_deg+1:], top)
-- 
2.43.0


From a45717e45edc60f9bc2b90cc8298b6d3ad15893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 06/27] fix: FilterNegImagNum failed for rel_num

---
 gftool/pade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 01f991f..9f0324c 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -171,7 +171,7 @@ def FilterNegImagNum(abs_num=None, rel_num=None):
 
     def filter_neg_imag_num(pade_iter):
         badness = np.array([np.max(pade.imag, axis=-1) for pade in pade_iter])
-        abs_num_ = rel_num * badness.shape[0] if abs_num is None else abs_num
+        abs_num_ = int(rel_num * badness.shape[0]) if abs_num is None else abs_num
         if abs_num_ >= badness.shape[0]:
             LOGGER.warning("Skipping filter, not enough Padés (#Padés = %s)",
                            badness.shape[0])
-- 
2.43.0


From e256d92a7a15db1fad5579ce250d0ee51e51e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 07/27] fix: check_convergence failed for matrix=True

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index b4d24dc..696fdba 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -579,7 +579,7 @@ def check_convergence(gf_iw, potential, beta, order=2, matrix=False, total=False
 
     if matrix:
         dec = gtmatrix.decompose_her(potential)
-        tail = dec.reconstruct(1./np.add.outer(dec.eig, iw), kind="diag")
+        tail = np.moveaxis(dec.reconstruct(1./np.add.outer(iw, dec.eig), kind="diag"), 0, -1)
     else:
         tail = 1/np.add.outer(potential, iw)
 
-- 
2.43.0


From 0f1a2fb7f736784d933d9def2a3e48f257b4ae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 08/27] fix: cpa failed for scalar arguments with fixed
 occupation

---
 gftool/cpa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/cpa.py b/gftool/cpa.py
index 707997c..75946a7 100644
--- a/gftool/cpa.py
+++ b/gftool/cpa.py
@@ -51,7 +51,7 @@ def _join(*args):
 
 def _split(joined, shapes):
     """Inverse operation to `_join` separating arrays."""
-    sizes = [np.prod(sh) for sh in shapes[:-1]]
+    sizes = [np.prod(sh, dtype=int) for sh in shapes[:-1]]
     split = np.split(joined, indices_or_sections=np.cumsum(sizes))
     return [array.reshape(sh) for array, sh in zip(split, shapes)]
 
-- 
2.43.0


From dce070d1c2cf459218c37635ef5b5bd239104fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:13 +0000
Subject: [PATCH 09/27] fix: siam.hamiltonian_matrix truncated energies to
 dtype of hopping

---
 gftool/siam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/siam.py b/gftool/siam.py
index 5eec126..a95595e 100644
--- a/gftool/siam.py
+++ b/gftool/siam.py
@@ -176,7 +176,8 @@ def hamiltonian_matrix(e_onsite, e_bath, hopping):
     """
     broadcast = np.broadcast(e_onsite[..., np.newaxis], e_bath, hopping)
     n_bath = broadcast.shape[-1]
-    ham = np.zeros([*broadcast.shape[:-1], n_bath+1, n_bath+1], dtype=hopping.dtype)
+    ham = np.zeros([*broadcast.shape[:-1], n_bath+1, n_bath+1],
+                   dtype=np.result_type(e_onsite, e_bath, hopping))
     ham[..., 0, 0] = e_onsite
     ham[..., 0, 1:] = hopping
     ham[..., 1:, 0] = np.conj(hopping)
-- 
2.43.0


From adda1e48b26b4f3ccfe76c8e378451946dc3f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:13 +0000
Subject: [PATCH 10/27] fix: polepade.number_poles violated its own assertion
 for few points

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c02656c..c660109 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -202,7 +202,7 @@ def number_poles(z, fct_z, *, degree=-1, weight=None, n_poles0: Opt[int] = None,
        https://doi.org/10.1007/s00211-018-0948-4
     """
     tol = np.finfo(fct_z.dtype).eps
-    max_n_poles = abs_max_n_poles = (z.size - degree)//2
+    max_n_poles = abs_max_n_poles = (z.size - degree - 1)//2
     if n_poles0 is None:
         n_poles = min(max_n_poles, 50)
     else:
-- 
2.43.0


From 4f694281051ac1bc2ee811c18dd464668f34e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:13 +0000
Subject: [PATCH 11/27] fix: gf_from_tau failed to fix occupation without
 moments or if it is 0

---
 gftool/basis/pole.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 1ee5c64..5b9bcb1 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -643,19 +643,22 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
     if weight is not None:
         gf_sp_mat *= weight[..., np.newaxis]
         gf_tau = gf_tau * weight
-    if moments.shape[-1] > 0 or occ:  # constrained
-        if moments.shape[-1] + int(occ) > n_pole:
+    fix_occ = occ is not False
+    if moments.shape[-1] > 0 or fix_occ:  # constrained
+        if moments.shape[-1] + fix_occ > n_pole:
             msg = (
                 "Too many poles given, system is over constrained. "
                 f"poles: {n_pole}, moments: {moments.shape[-1]}"
             )
             raise ValueError(msg)
-        constrain_mat = np.polynomial.polynomial.polyvander(poles, deg=moments.shape[-1]-1).T
-        if occ:
+        n_mom = moments.shape[-1]
+        constrain_mat = np.polynomial.polynomial.polyvander(poles, deg=max(n_mom-1, 0)).T[:n_mom]
+        if fix_occ:
             constrain_mat = np.concatenate(
-                np.broadcast_arrays(constrain_mat, fermi_fct(poles, beta=beta)), axis=-2
+                [constrain_mat, fermi_fct(poles, beta=beta)[newaxis]], axis=-2
             )
-            moments = np.concatenate(np.broadcast_arrays(moments, occ), axis=-1)
+            occ = np.broadcast_to(occ, [*moments.shape[:-1], 1])
+            moments = np.concatenate([moments, occ], axis=-1)
         _lstsq_ec = np.vectorize(linalg.lstsq_ec, signature="(m,n),(m),(l,n),(l)->(n)",
                                  otypes=[otype], excluded={"rcond"})
         resid = _lstsq_ec(gf_sp_mat, gf_tau, constrain_mat, moments)
-- 
2.43.0


From 6df706ce619dd49dbb9b030fce44a249d8b21500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:37 +0000
Subject: [PATCH 12/27] fix: pade.averaged dropped the last of the n_max input
 points

The approximant using all n_max points was not available, such that stacked
input without filter failed with an IndexError if it was selected by kind.
---
 gftool/pade.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 9f0324c..0c9b638 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -713,9 +713,10 @@ def averaged(z_out, z_in, *, valid_z=None, fct_z=None, coeff=None,
         Variance associated with the function values `pade.x` at points `z`.
     """
     assert fct_z is None or coeff is None
-    z_in = z_in[:kind.stop]
-    coeff = (coefficients(z_in, fct_z=fct_z[..., :kind.stop]) if coeff is None
-             else coeff[..., :kind.stop])
+    n_max = kind.stop + 1  # approximant with index `ii` uses `ii + 2` points
+    z_in = z_in[:n_max]
+    coeff = (coefficients(z_in, fct_z=fct_z[..., :n_max]) if coeff is None
+             else coeff[..., :n_max])
     if valid_z is None:
         valid_z = z_out
     valid_z = valid_z.reshape(-1)
-- 
2.43.0


From a8436a12db367f3d20969dc448a9e0956340f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:25 +0000
Subject: [PATCH 13/27] fix: density(matrix=True) raised for complex hermitian
 potentials

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index 696fdba..2a8e5b6 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -454,7 +454,7 @@ def density(gf_iw, potential, beta, return_err=True, matrix=False, total=False):
         eig = dec.eig
         tail = dec.reconstruct(1./np.add.outer(iw, eig), kind="diag")
         tail = np.moveaxis(tail, source=0, destination=-1)
-        analytic = dec.reconstruct(fermi_fct(-eig, beta=beta), kind="diag")
+        analytic = dec.reconstruct(fermi_fct(-eig, beta=beta), kind="diag").real
     else:
         tail = 1/np.add.outer(potential, iw)
         analytic = fermi_fct(-potential, beta=beta)
-- 
2.43.0


From 95e5eb0577236a56d724af367f30479d631a9e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 14/27] fix: polepade.asymptotic with weight returned the
 variance instead of the standard deviation

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c660109..357e63f 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -385,7 +385,7 @@ def asymptotic(z, fct_z, zeros, poles, weight=None):
         std = np.std(ratios, ddof=1, axis=-1)
     else:
         asym = np.average(ratios, weights=weight, axis=-1)
-        std = np.average(abs(ratios - asym)**2, weights=weight, axis=-1)
+        std = np.sqrt(np.average(abs(ratios - asym)**2, weights=weight, axis=-1))
     return asym, std
 
 
-- 
2.43.0


From 8b353390e89d75ef6fe7cccc57c02ea4469be0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:21 +0000
Subject: [PATCH 15/27] fix: ZeroPole.to_ratpol raised ValueError without zeros
 or poles

---
 gftool/basis/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/__init__.py b/gftool/basis/__init__.py
index ab373d0..1450d4f 100644
--- a/gftool/basis/__init__.py
+++ b/gftool/basis/__init__.py
@@ -80,8 +80,9 @@ class ZeroPole(NamedTuple):
 
     def to_ratpol(self) -> "RatPol":
         """Represent the rational polynomial as fraction of two polynomial."""
-        numerator = np.polynomial.Polynomial.fromroots(self.zeros)*self.amplitude
-        denominator = np.polynomial.Polynomial.fromroots(self.poles)
+        polynomial = np.polynomial.polynomial
+        numerator = np.polynomial.Polynomial(polynomial.polyfromroots(self.zeros))*self.amplitude
+        denominator = np.polynomial.Polynomial(polynomial.polyfromroots(self.poles))
         return RatPol(numer=numerator, denom=denominator)
 
 
-- 
2.43.0


From 9fa1d6326fed3bbbb72a683485e907c88a4e1e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:29 +0000
Subject: [PATCH 16/27] fix: polepade.zeros raised ValueError for functions
 without zeros

---
 gftool/polepade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index 357e63f..1967f2d 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -343,6 +343,8 @@ def zeros(z, fct_z, poles, *, n: Opt[int] = None, vandermond=polynomial.polyvand
     """
     if n is None:
         n = poles.size - 1
+    if n == 0:  # no zeros to determine, the eigenvalue problem is empty
+        return np.array([], dtype=complex)
     fct_z = fct_z/np.median(fct_z)
     denom = np.prod(np.subtract.outer(z, poles), axis=-1)
     numer = vandermond(z, deg=n-1)
-- 
2.43.0


From bb836f400e0a4f68b66212d9a0244ad5e24d1a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:39 +0000
Subject: [PATCH 17/27] fix: lstsq_ec ignored rcond in the absence of
 constraints

---
 gftool/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index e6c943d..b0cb706 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -93,7 +93,7 @@ def lstsq_ec(a, b, c, d, rcond=None):
                 f"Expected (L, N), (L), got {c.shape}, {d.shape}."
             )
             raise ValueError(msg)
-        return np.linalg.lstsq(a, b, rcond=None)[0]
+        return np.linalg.lstsq(a, b, rcond=rcond)[0]
     constrains = d.shape[-1]
     q_ct, r_ct = np.linalg.qr(transpose(c).conj(), mode='complete')
     r_ct = r_ct[..., :constrains, :]
-- 
2.43.0


From 1a1f349170327f8e4e18c9ce8d2fae1965506c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:39 +0000
Subject: [PATCH 18/27] fix: lstsq_ec raises for contradictory constraints

The residuals returned by numpy.linalg.lstsq are empty for the singular matrix,
so the intended check could never trigger and the constraint was silently violated.
---
 gftool/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index b0cb706..c57e106 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -100,8 +100,9 @@ def lstsq_ec(a, b, c, d, rcond=None):
     try:
         y = spla.solve_triangular(r_ct, d, trans='C')
     except np.linalg.LinAlgError as lin_err:  # try fall back to pseudo-inverse for singular values
-        y, err, *__ = np.linalg.lstsq(transpose(r_ct).conj(), d, rcond=None)
-        if not np.allclose(err, 0):
+        y, *__ = np.linalg.lstsq(transpose(r_ct).conj(), d, rcond=None)
+        # `lstsq` gives no residuals for rank deficient matrices
+        if not np.allclose(transpose(r_ct).conj() @ y, d):
             raise np.linalg.LinAlgError from lin_err
     aq = a @ q_ct
     z = np.linalg.lstsq(aq[:, constrains:], b - _gu_sum(aq[:, :constrains]*y),
-- 
2.43.0


From af00ec46c98a681ae82d5c53067583f293477aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 19/27] fix: triangular.dos_mp limited to double precision by
 np.pi

---
 gftool/lattice/triangular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index 47c91eb..394051d 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -334,4 +334,4 @@ def dos_mp(eps, half_bandwidth=1):
         else:
             msg = "Should be impossible. Please report this!"
             raise RuntimeError(msg)
-        return 2 / np.pi**2 / D * dos_
+        return 2 / mp.pi**2 / D * dos_
-- 
2.43.0


From 0a39d726305b26eb16131fc51e082447efb20a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 20/27] fix: fcc.dos_mp evaluated an elliptic integral in
 double precision only

---
 gftool/lattice/fcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index 9634db4..7a19295 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -328,4 +328,4 @@ def dos_mp(eps, half_bandwidth=1):
     kii = mp.ellipk(m_p)
     if m_p.imag < 0:
         kii += 2j * mp.ellipk(1 - m_p)  # eq (2.17)
-    return abs(4 / (mp.pi**3 * D * epsp1) * (_u_ellipk(m_m) * kii).imag)  # eq (2.16)
+    return abs(4 / (mp.pi**3 * D * epsp1) * (mp.ellipk(m_m) * kii).imag)  # eq (2.16)
-- 
2.43.0


From 081c8309840cd2a69b002c66d7b973c36560e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 21/27] fix: sc.dos_mp scaled the expansion around eps=0
 incorrectly for half_bandwidth other than 3

---
 gftool/lattice/sc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gftool/lattice/sc.py b/gftool/lattice/sc.py
index 9e12461..61c127d 100644
--- a/gftool/lattice/sc.py
+++ b/gftool/lattice/sc.py
@@ -364,11 +364,11 @@ def dos_mp(eps, half_bandwidth=1):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    D_inv = 3 / half_bandwidth
+    D_inv = 3 / mp.mpf(half_bandwidth)
     eps = mp.fabs(eps)
-    if eps < 10**(-mp.dps/4):
+    if D_inv*eps < 10**(-mp.dps/4):
         km2 = 0.25 * (2 - mp.sqrt(3))
-        dos0 = D_inv * (2 / mp.pi**2) * mp.ellipk(km2) * mp.ellipk(1 - km2) / mp.pi
+        dos0 = (2 / mp.pi**2) * mp.ellipk(km2) * mp.ellipk(1 - km2) / mp.pi
         dos1 = 1 / (3 * mp.pi**4 * dos0)
         even_coeffs = [dos0*d0 - dos1*d1 for d0, d1 in zip(
             [1, mp.mpf("1/18"), mp.mpf("11/648"), mp.mpf("19/2160")],
@@ -376,6 +376,6 @@ def dos_mp(eps, half_bandwidth=1):
         )]
         coeffs = [0] * (2*len(even_coeffs) - 1)
         coeffs[::2] = even_coeffs
-        return mp.polyval(coeffs[::-1], eps)
+        return D_inv * mp.polyval(coeffs[::-1], D_inv*eps)
 
     return -mp.im(gf_z_mp(eps, half_bandwidth)) / mp.pi
-- 
2.43.0


From 3cdc725cd40fd304c82424efc72bb7389000d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:46 +0000
Subject: [PATCH 22/27] fix: FilterNegImagNum kept too many approximants for
 stacked input

---
 gftool/pade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 0c9b638..cb25958 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -179,7 +179,7 @@ def FilterNegImagNum(abs_num=None, rel_num=None):
 
         keep = np.argsort(badness, axis=0)[:abs_num_]  # abs_num_ best results
         is_valid = np.zeros_like(badness, dtype=bool)
-        is_valid[keep] = True
+        np.put_along_axis(is_valid, keep, True, axis=0)
         is_valid[badness <= 0] = True
         LOGGER.debug("Filter Padés with positive imaginary part (keep best %s): %s",
                      abs_num_, np.count_nonzero(is_valid, axis=0))
-- 
2.43.0


From 39a516540d828e05b77f4aae2ae0f7c40d54876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:04 +0000
Subject: [PATCH 23/27] fix: linear prediction truncated integer signals and
 dropped complex coefficients

---
 gftool/linearprediction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 6e22b37..bc2b000 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -275,7 +275,7 @@ def pcoeff_burg(x, order: int):
     rho[..., 0] = _gu_sum(abs(x)**2) / N
     eforw = np.ascontiguousarray(x[..., 1:])
     eback = np.ascontiguousarray(x[..., :-1])
-    a = np.full([*x.shape[:-1], order, order], np.nan, dtype=x.dtype)
+    a = np.full([*x.shape[:-1], order, order], np.nan, dtype=np.result_type(x, 1.0))
     for k in range(1, order+1):
         # eq (7.38)
         numer = -2*_gu_sum(eforw*np.conj(eback))
@@ -338,7 +338,8 @@ def predict(x, pcoeff, num: int, stable=False):
     # Naive implementation of the sum
     start = x.shape[-1]
     order = pcoeff.shape[-1]
-    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=x.dtype)], axis=-1)
+    dtype = np.result_type(x, pcoeff, 1.0)
+    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=dtype)], axis=-1)
     for ii in range(start, start+num):
         xtended[..., ii] = -_gu_sum(pcoeff[..., ::-1] * xtended[..., ii-order:ii])
     return xtended
@@ -368,7 +369,8 @@ def _predict_stable(x, pcoeff, num: int):
 
     # predict
     start = x.shape[-1]
-    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=x.dtype)], axis=-1)
+    dtype = np.result_type(x, pcoeff, 1.0)
+    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=dtype)], axis=-1)
     for ii in range(start, start+num):
         residues *= dec.eig
         xtended[..., ii] = _gu_sum(residues)
-- 
2.43.0


From 04d65261cf97f9d7f9f387a86dcecf063599bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:43 +0000
Subject: [PATCH 24/27] fix: weights with extra axes raised in the pole fits
 gf_from_z and gf_from_tau

---
 gftool/basis/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 5b9bcb1..c5aa66c 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -568,7 +568,7 @@ def gf_from_z(z, gf_z, n_pole, moments=(), width=1., weight=None) -> PoleFct:
     otype = np.result_type(gf_z, moments, poles)
     if weight is not None:
         weight = np.concatenate([weight, weight], axis=-1)
-        gf_sp_mat *= weight[..., np.newaxis]
+        gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_z = gf_z * weight
     if moments.shape[-1] > 0:
         if moments.shape[-1] > n_pole:
@@ -641,7 +641,7 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
     moments = np.asarray(moments)
     otype = np.result_type(gf_tau, moments, poles)
     if weight is not None:
-        gf_sp_mat *= weight[..., np.newaxis]
+        gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_tau = gf_tau * weight
     fix_occ = occ is not False
     if moments.shape[-1] > 0 or fix_occ:  # constrained
-- 
2.43.0


From ef768867b9161eed67a758255a4969c45262ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 25/27] fix: polepade failed for functions whose median
 vanishes

The sampled function is only scaled to order 1; the median of an odd
function on a symmetric grid is 0, the scaling divided by it.
---
 gftool/polepade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index 1967f2d..362ab8a 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -289,7 +289,7 @@ def poles(z, fct_z, *, n: Opt[int] = None, m: int, vandermond=polynomial.polyvan
     """
     if n is None:
         n = m - 1
-    fct_z = fct_z/np.median(fct_z)
+    fct_z = fct_z/np.median(abs(fct_z))
     vander = vandermond(z, deg=max(n+1, m))
     numer = -vander[..., :n+1]
     denom = vander[..., :m]
@@ -345,7 +345,7 @@ def zeros(z, fct_z, poles, *, n: Opt[int] = None, vandermond=polynomial.polyvand
         n = poles.size - 1
     if n == 0:  # no zeros to determine, the eigenvalue problem is empty
         return np.array([], dtype=complex)
-    fct_z = fct_z/np.median(fct_z)
+    fct_z = fct_z/np.median(abs(fct_z))
     denom = np.prod(np.subtract.outer(z, poles), axis=-1)
     numer = vandermond(z, deg=n-1)
     scaling = 1./np.linalg.norm(numer, axis=-1, keepdims=True)
-- 
2.43.0


From 608e804a30eb081512aff2872d18642c33841dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:02 +0000
Subject: [PATCH 26/27] fix: sc.gf_z_mp divided Python numbers as
 half_bandwidth in double precision

For half_bandwidth like the int 7, only 16 digits of gf_z_mp and dos_mp
were right.
---
 gftool/lattice/sc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/sc.py b/gftool/lattice/sc.py
index 61c127d..7932151 100644
--- a/gftool/lattice/sc.py
+++ b/gftool/lattice/sc.py
@@ -304,7 +304,7 @@ def gf_z_mp(z, half_bandwidth=1):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    D_inv = 3 / half_bandwidth
+    D_inv = 3 / mp.mpf(half_bandwidth)
     z = D_inv * mp.mpc(z)
     z_sqr = 1 / z**2
     xi = mp.sqrt(1 - mp.sqrt(1 - z_sqr)) / mp.sqrt(1 + mp.sqrt(1 - 9*z_sqr))
-- 
2.43.0


From b0522dcbe2553b319c0f440b20b0b0ad3761887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 27/27] fix: tau2izp with occ failed for some numbers of poles

For width 0 all poles are at 0, the occupation is half the first moment;
constraining it contradicts the constraint on the moment.
---
 gftool/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 839d472..91a89d3 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1655,9 +1655,9 @@ def _tau2polegf(gf_tau, beta, n_pole, moments=None, occ=False, weight=None) -> P
 
     def error_(width):
         pole_gf = PoleGf.from_tau(gf_tau, n_pole=n_pole, beta=beta,
-                                  # if width is 0, no higher moments exist
+                                  # if width is 0, no higher moments exist and occ is fixed
                                   moments=moments if width else m1[..., newaxis],
-                                  occ=occ, width=width, weight=weight)
+                                  occ=occ if width else False, width=width, weight=weight)
         gf_fit = pole_gf.eval_tau(tau, beta=beta)
         return np.linalg.norm(gf_tau - gf_fit)
 
-- 
2.43.0

