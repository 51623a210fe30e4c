From 98eed6af5db396d7de613aee27b372084deafad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:40 +0000
Subject: [PATCH 01/86] fix: Logit.fi returned NaN for large linear predictors
 (exp overflow)

---
 src/mssm/src/python/exp_fam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index eca423d..23f8149 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -141,7 +141,7 @@ class Logit(Link):
         """
         with warnings.catch_warnings():  # Overflow
             warnings.simplefilter("ignore")
-            mu = np.exp(eta) / (1 + np.exp(eta))
+            mu = scp.special.expit(eta)
 
         return mu
 
-- 
2.43.0


From 4152b513bae9bd973f5ceda89b280bc03f223cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:31 +0000
Subject: [PATCH 02/86] fix: Binomial.lp gave -inf for proportions k/n whose
 product with n is not exactly an integer

---
 src/mssm/src/python/exp_fam.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 23f8149..545a2c7 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -887,8 +887,12 @@ class Binomial(Family):
             under the current model.
         :rtype: np.ndarray
         """
-        # y is observed proportion of success
-        return scp.stats.binom.logpmf(k=y * self.n, p=mu, n=self.n)
+        # y is observed proportion of success - multiplying by n can miss the observed count by a
+        # rounding error, in which case the pmf would be evaluated outside of its support.
+        k = y * self.n
+        kr = np.rint(k)
+        k = np.where(np.isclose(k, kr, rtol=1e-9, atol=1e-9), kr, k)
+        return scp.stats.binom.logpmf(k=k, p=mu, n=self.n)
 
     def llk(self, y: np.ndarray, mu: np.ndarray) -> float:
         """
-- 
2.43.0


From 6eea042fba220dc3efc370c7d21533a8c96fde16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:02 +0000
Subject: [PATCH 03/86] fix: MultiGauss Hessian added a second derivative for
 off-diagonal elements of R

---
 src/mssm/src/python/exp_fam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 545a2c7..af63c6b 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4978,7 +4978,8 @@ class MultiGauss(GSMMFamily):
                     d2 = np.sum(xbarjmui * RiRpRRiymui)
                 else:
                     d2 = (ymu @ Rpj.T) * (ymu @ Rpi.T)
-                    if (mr == theta_idx[0]) and (mc == theta_idx[1]):
+                    # Only diagonal elements (i.e., exp(theta)) have non-zero second derivatives
+                    if is_diag and (mr == theta_idx[0]) and (mc == theta_idx[1]):
                         d2 += (ymu @ R.T) * (ymu @ Rpj.T)
                     d2 = -np.sum(d2)
 
-- 
2.43.0


From 9b538d36be716171a63c2824fbe9253349a1b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:55 +0000
Subject: [PATCH 04/86] fix: MultiGauss gradient and Hessian ignored the
 derivative of non-identity links

---
 src/mssm/src/python/exp_fam.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index af63c6b..d93c447 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4824,7 +4824,8 @@ class MultiGauss(GSMMFamily):
         # shown by WPS (2016)
         for mui in range(self.n_par):
 
-            yRmui = RRy[mui, :]
+            # Chain rule: d mu / d eta = 1 / (d eta / d mu)
+            yRmui = RRy[mui, :] / self.links[mui].dy1(mus[:, mui])
 
             grad[total_idx : total_idx + Xfix[mui].shape[1]] = (  # noqa: E203
                 Xfix[mui] * yRmui[:, None]
@@ -4919,6 +4920,13 @@ class MultiGauss(GSMMFamily):
         ymu = y - mus
         # RR is of shape m * m
         RR = R.T @ R
+        # Chain rule: d mu / d coef = X * (d mu / d eta)
+        Xmu = [
+            scp.sparse.csc_array(
+                Xfix[mui] * (1 / self.links[mui].dy1(mus[:, mui]))[:, None]
+            )
+            for mui in range(self.n_par)
+        ]
 
         # Compute column j of the hessian
         Hj = []
@@ -4936,7 +4944,7 @@ class MultiGauss(GSMMFamily):
             coef_j_idx = j if parj_idx == 0 else j - par_n_coef[parj_idx - 1]
             xbarj = scp.sparse.csc_array(
                 (
-                    Xfix[parj_idx][:, coef_j_idx].toarray(),
+                    Xmu[parj_idx][:, coef_j_idx].toarray(),
                     (np.tile(parj_idx, n_obs), np.arange(n_obs)),
                 ),
                 shape=(self.n_par, n_obs),
@@ -4957,10 +4965,16 @@ class MultiGauss(GSMMFamily):
         for mui in range(self.n_par):
             if is_coef:
                 RRxbarjmui = RRxbarj[mui, :]
-                d2 = -np.sum(Xfix[mui] * RRxbarjmui[:, None], axis=0)
+                d2 = -np.sum(Xmu[mui] * RRxbarjmui[:, None], axis=0)
+                if mui == parj_idx:
+                    # d^2 mu / d eta^2 is only zero for identity link
+                    d1mu = 1 / self.links[mui].dy1(mus[:, mui])
+                    d2mu = -self.links[mui].dy2(mus[:, mui]) * np.power(d1mu, 3)
+                    xj = Xfix[mui][:, [coef_j_idx]].toarray()[:, 0]
+                    d2 = d2 + Xfix[mui].T @ (xj * d2mu * (ymu @ RR)[:, mui])
             else:
                 RJRpRRJymui = RJRpRRJy[mui, :]
-                d2 = (Xfix[mui] * RJRpRRJymui[:, None]).sum(axis=0)
+                d2 = (Xmu[mui] * RJRpRRJymui[:, None]).sum(axis=0)
             Hj.extend(d2)
 
         # And theta:
-- 
2.43.0


From e52089fc2e20dfd29f3c85edb23d094ce26f81ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:55 +0000
Subject: [PATCH 05/86] fix: MultiGauss.rvs failed for a one-dimensional
 Gaussian

---
 src/mssm/src/python/exp_fam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index d93c447..10417d3 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -5250,7 +5250,7 @@ class MultiGauss(GSMMFamily):
                 mean=mus[mui, :],
                 cov=cov,
                 random_state=seed,
-            )
+            ).reshape(size, self.n_par)
 
             # Update seed
             if seed is not None:
-- 
2.43.0


From abcfc9d788bf8ed169aeefa1b54a68143a11dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:55 +0000
Subject: [PATCH 06/86] fix: PropHaz baseline hazard and survival were stale
 after a call with other coefficients or data

---
 src/mssm/src/python/exp_fam.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 10417d3..01bf633 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4020,6 +4020,8 @@ class PropHaz(GSMMFamily):
         self.__hs = None
         self.__qs = None
         self.__avs = None
+        # coef, delta, and X for which the quantities above were computed
+        self.__pred_args: tuple | None = None
 
         # Create index vectors ri for ut and r
         idx = np.arange(len(self.r), dtype=np.int64)
@@ -4244,6 +4246,21 @@ class PropHaz(GSMMFamily):
 
         return res.reshape(-1, 1)
 
+    def __predictions_outdated(
+        self, coef: np.ndarray, delta: np.ndarray, Xs: list[scp.sparse.csc_array]
+    ) -> bool:
+        """Checks whether the quantities stored by ``self.__prepare_predictions`` were computed for
+        different coefficients or data than the ones passed here.
+        """
+        if self.__pred_args is None:
+            return True
+        p_coef, p_delta, p_X = self.__pred_args
+        if not (np.array_equal(p_coef, coef) and np.array_equal(p_delta, delta)):
+            return True
+        return p_X is not Xs[0] and (
+            p_X.shape != Xs[0].shape or (p_X != Xs[0]).nnz > 0
+        )
+
     def __prepare_predictions(
         self, coef: np.ndarray, delta: np.ndarray, Xs: list[scp.sparse.csc_array]
     ) -> None:
@@ -4329,6 +4346,7 @@ class PropHaz(GSMMFamily):
         self.__hs = hs
         self.__qs = qs
         self.__avs = avs
+        self.__pred_args = (np.array(coef), np.array(delta), Xs[0])
 
     def get_baseline_hazard(
         self, coef: np.ndarray, delta: np.ndarray, Xs: list[scp.sparse.csc_array]
@@ -4394,7 +4412,7 @@ class PropHaz(GSMMFamily):
         :rtype: np.ndarray
         """
 
-        if self.__hs is None:
+        if self.__predictions_outdated(coef, delta, Xs):
             self.__prepare_predictions(coef, delta, Xs)
 
         return self.__hs
@@ -4532,7 +4550,7 @@ class PropHaz(GSMMFamily):
         :rtype: tuple[np.ndarray, np.ndarray | None]
         """
 
-        if self.__hs is None:
+        if self.__predictions_outdated(coef, delta, Xs):
             self.__prepare_predictions(coef, delta, Xs)
 
         # Extract and define all variables defined by WPS (2016)
-- 
2.43.0


From 08b3013c1ccda582efdc9f8020e5a6cc727c1959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:55 +0000
Subject: [PATCH 07/86] fix: GAMLSSGSMMFamily.gradient evaluated link
 derivative at the deviance derivative

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cf64053..42681a4 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -338,7 +338,7 @@ class GAMLSSGSMMFamily(GSMMFamily):
                 mu = gammlss_family.link.fi(Xs[0] @ coef[:-n_theta])
                 theta = coef[-n_theta:]
                 d1 = gammlss_family.dDdmu(y, mu, theta=theta)
-                ld1 = gammlss_family.link.dy1(d1)
+                ld1 = gammlss_family.link.dy1(mu)
                 grad_coef = -0.5 * ((d1 / ld1).T @ Xs[0]).T
                 grad_theta = gammlss_family.gradientLTheta(y, mu, theta=theta)
                 grad = np.concatenate((grad_coef, grad_theta), axis=0)
-- 
2.43.0


From ee3ae4a28677555428c570b0bd6c70c1409e3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:55 +0000
Subject: [PATCH 08/86] fix: deriv_transform_eta_beta returned too small a
 Hessian when the last columns are zero

---
 src/mssm/src/python/gamm_solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 20d31fa..737f038 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -4459,7 +4459,9 @@ def deriv_transform_eta_beta(
             hc_idx += Xs[etaj].shape[1]
         hr_idx += Xs[etai].shape[1]
 
-    hessian = scp.sparse.csc_array((h_vals, (h_rows, h_cols)))
+    hessian = scp.sparse.csc_array(
+        (h_vals, (h_rows, h_cols)), shape=(hr_idx, hr_idx)
+    )
     return np.array(grad).reshape(-1, 1), hessian
 
 
-- 
2.43.0


From 3a8194826a37c5cabc18af29ee0773fec085b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 09/86] fix: sum-to-zero constraint of te terms was computed
 before re-parameterizing the marginals

---
 src/mssm/src/python/formula.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 23f312d..6800d4d 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1645,6 +1645,10 @@ class Formula:
                     )
 
                 if sterm.te:
+                    # Constraint is absorbed after re-parameterizing the marginals
+                    if sterm.should_rp > 0:
+                        matrix_term_v = matrix_term_v @ sterm.RP[vi].C
+
                     if vi == 0:
                         matrix_term = matrix_term_v
                     else:
-- 
2.43.0


From ff89133ea2a45f7a204a494da97db5b11f17fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 10/86] fix: Formula with only factor smooths failed when
 looking for nested terms

---
 src/mssm/src/python/formula.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 6800d4d..1103c7a 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1688,6 +1688,9 @@ class Formula:
         sti = self.get_smooth_term_idx()
         sti = [ti for ti in sti if isinstance(self.terms[ti], fs) is False]
 
+        if len(sti) == 0:
+            return
+
         term_var = [self.terms[ti].variables for ti in sti]
         n_term_var = [len(tvar) for tvar in term_var]
         max_var = np.max(n_term_var)
-- 
2.43.0


From fec60d542b493be7622c3e32ab92ff7005734ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 11/86] fix: model matrix of nested smooths kept columns that
 were meant to be dropped

---
 src/mssm/src/python/terms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index cabc121..6051963 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -1348,10 +1348,16 @@ class f(GammTerm):
         if n_coef != f_cols:
             raise KeyError("Not all model matrix columns were created.")
 
+        # Columns (over all levels of any by variable) that remain after dropping coefficients
+        keep_cols = np.arange(n_coef)
+        if self.drop_coef is not None:
+            keep_cols = np.arange(n_coef + len(self.drop_coef))
+            keep_cols = keep_cols[~np.isin(keep_cols, self.drop_coef)]
+
         # Find basis elements > 0 and collect correspondings elements and row indices
         for m_coli in range(f_cols):
             final_ridx = term_ridx[m_coli]
-            final_col = matrix_term[final_ridx, m_coli % m_cols]
+            final_col = matrix_term[final_ridx, keep_cols[m_coli] % m_cols]
 
             # Tolerance row index for this columns
             cidx = abs(final_col) > tol
-- 
2.43.0


From bf98b882566351e6f44947fb25116bc1ed53b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 12/86] fix: coefficients of by-smooths were named after the
 wrong level when a codebook re-orders levels

---
 src/mssm/src/python/formula.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 1103c7a..e52552e 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -766,6 +766,11 @@ class Formula:
                         self.factor_codings[var][c] = ci
                         self.coding_factors[var][ci] = c
 
+                # Keep levels in order of their codes, since a codebook might re-order them
+                self.factor_levels[var] = levels[
+                    np.argsort([self.factor_codings[var][c] for c in levels])
+                ]
+
             cvi += 1
 
         return cvi
-- 
2.43.0


From 0a41187fb7261976ba9566f2b5a6eb517c1cac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 13/86] fix: un-penalized impulse response terms were counted
 twice when embedding penalties

---
 src/mssm/src/python/formula.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index e52552e..1eba85f 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -2132,7 +2132,6 @@ def build_penalties(formula) -> list[LambdaTerm]:
                 if irsterm.by is not None:
                     added_not_penalized *= len(by_levels)
                 start_idx += added_not_penalized
-                cur_pen_idx = start_idx
 
                 if formula.print_warn:
                     warnings.warn(
-- 
2.43.0


From ec1158e1f88916f5d6764f19e13c68b98ae3a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 14/86] fix: too many coefficient names for impulse response
 terms with a by variable

---
 src/mssm/src/python/terms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index 6051963..edf3f3b 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -2214,11 +2214,15 @@ class irf(GammTerm):
 
         if self.by is not None:
             by_levels = factor_levels[self.by]
+            term_n_coef = n_coef
             n_coef *= len(by_levels)
 
             for by_level in by_levels:
                 coef_names.extend(
-                    [f"irf_{ti}_{var_label}_{ink}_{by_level}" for ink in range(n_coef)]
+                    [
+                        f"irf_{ti}_{var_label}_{ink}_{by_level}"
+                        for ink in range(term_n_coef)
+                    ]
                 )
 
         else:
-- 
2.43.0


From 91f5687a3e6e4620c3d2c5e32e696767f4ccb0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 15/86] fix: rank of zero-order difference penalty ignored the
 identifiability constraint

---
 src/mssm/src/python/penalties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index d0ee801..54ce5fa 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -557,6 +557,8 @@ class DifferencePenalty(Penalty):
                 S = D @ D.T
 
             if m == 0:
+                # Identity penalty looses rank when absorbing constraint
+                rank = n - 1
                 # Re-compute root
                 eig, U = scp.linalg.eigh(S)
                 D = U @ np.diag(
-- 
2.43.0


From 4ff8443792c9c75adf93dab7591aa6cd4bf35891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 16/86] fix: penalties with an id used only once were
 duplicated when other ids are shared

---
 src/mssm/src/python/penalties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index 54ce5fa..965c2a8 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -72,6 +72,8 @@ def combine_shared_penalties(penalties: list[LambdaTerm]) -> list[LambdaTerm]:
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:
+                continue  # Not shared, already added above
             m_pens = [pen for pen in penalties if pen.id == id]
             S_J_emb = m_pens[0].S_J_emb
             D_J_emb = m_pens[0].D_J_emb
-- 
2.43.0


From 6246b3a72e16b8a5215da27ad4cc1b75ca4f3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 17/86] fix: root of distance penalty was the penalty itself

---
 src/mssm/src/python/penalties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index 965c2a8..9b15c7a 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -641,7 +641,7 @@ class IdentityPenalty(Penalty):
             elements,
             idx,
             idx,
-            elements,
+            [np.sqrt(element) for element in elements],
             idx,
             idx,
             n,
-- 
2.43.0


From 5f70d17376a408a1901e3450851ce0f544abe6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 18/86] fix: names of impulse response coefficients carried the
 intercept flag instead of the term index

---
 src/mssm/src/python/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 1eba85f..b842a80 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -829,7 +829,7 @@ class Formula:
             irsterm = terms[irsti]
 
             t_total_coef, t_unpenalized_coef, t_coef_names = irsterm.get_coef_info(
-                self.has_intercept, factor_levels
+                irsti, factor_levels
             )
 
             self.coef_names.extend(t_coef_names)
-- 
2.43.0


From 2096d3d78a83e8fa63ce71532852f7090ea0a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:48 +0000
Subject: [PATCH 19/86] fix: tensor re-parameterization failed for marginals
 with drop or difference constraints

---
 src/mssm/src/python/terms.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index edf3f3b..e1601c8 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -598,7 +598,17 @@ class f(GammTerm):
             )
 
             if self.is_identifiable and self.te is False:
-                A = A @ constraint.Z
+                Z = constraint.Z
+                if constraint.type == ConstType.QR:
+                    A = A @ Z
+                elif constraint.type == ConstType.DROP:
+                    A = np.delete(A, Z, axis=1)
+                elif constraint.type == ConstType.DIFF:
+                    A = np.diff(np.concatenate((A[:, Z:], A[:, :Z]), axis=1))
+                    A = np.concatenate(
+                        (A[:, A.shape[1] - Z :], A[:, : A.shape[1] - Z]),  # noqa: E203
+                        axis=1,
+                    )
                 id_k -= 1
 
             # Need inverse of A
-- 
2.43.0


From 18499ca85fd3007ff975a0d3dcabf73631db400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:05 +0000
Subject: [PATCH 20/86] fix: nested term search confused by-factors with
 equally named levels

---
 src/mssm/src/python/formula.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index b842a80..a08ef57 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1720,7 +1720,10 @@ class Formula:
                 if sterm.by is not None:
 
                     by_levels = self.factor_levels[sterm.by]
-                    ext_vars.extend([var + "_" + str(lvl) for lvl in by_levels])
+                    # Different by factors can have levels of the same name, so include factor
+                    ext_vars.extend(
+                        [var + "_by_" + sterm.by + "_" + str(lvl) for lvl in by_levels]
+                    )
                 else:
                     ext_vars.append(var)
 
-- 
2.43.0


From 24f2cd75c5539f64b29dc46b4096ea6c1814c7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:56 +0000
Subject: [PATCH 21/86] fix: pseudo-inverse and root of total penalty were
 misplaced behind unpenalized coefficients of later formulas

---
 src/mssm/src/python/gamm_solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 737f038..cf1128f 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -286,6 +286,9 @@ def compute_S_emb_pinv_det(
         # Now handle all pinv calculations because all penalties
         # associated with a term have been collected in SJ
 
+        # Unpenalized coef of later formulas can separate the blocks, so use start index of block
+        cIndexPinv = SJ_idx[SJi]
+
         if SJ_terms[SJi] == 1:
 
             if root:
-- 
2.43.0


From 31f68e31667844d2b6cef7a8591ea16a28158ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:49 +0000
Subject: [PATCH 22/86] fix: rank decisions and traces of penalties with an id
 used only once were duplicated

---
 src/mssm/src/python/gamm_solvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index cf1128f..bf43e1c 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -402,6 +402,8 @@ def compute_S_emb_pinv_det(
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:
+                continue  # Not shared, already added above
             rds = [rd for rdi, rd in enumerate(FS_use_rank) if penalties[rdi].id == id]
 
             if len(np.unique(rds)) > 1:
@@ -1006,6 +1008,8 @@ def calculate_edf(
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:
+                continue  # Not shared, already added above
             mBs = [B for bdi, B in enumerate(Bs) if penalties[bdi].id == id]
 
             merged_Bs.append(np.sum(mBs))
-- 
2.43.0


From bfc78762b9b2b7b9cb4eedfa048f489b9974fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:03 +0000
Subject: [PATCH 23/86] fix: tensor re-parameterization inverted a singular
 matrix for symmetric covariates

---
 src/mssm/src/python/terms.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index e1601c8..da650d4 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -613,8 +613,19 @@ class f(GammTerm):
 
             # Need inverse of A
             u, Sig, vt = scp.linalg.svd(A)
-            rs = [1 / s for s in Sig]
-            Ainv = vt.T @ np.diag(rs) @ u.T
+            if Sig[-1] / Sig[0] < np.power(sys.float_info.epsilon, 0.66):
+                # A can be singular (e.g., for symmetric covariates), mgcv also keeps the original
+                # parameterization of the marginal in that case.
+                warnings.warn(
+                    (
+                        "Re-parameterization is unstable for marginal of tensor smooth of "
+                        f"{vars}. Skipping RP attempt for variable {vars[rpidx]}."
+                    )
+                )
+                Ainv = np.eye(id_k)
+            else:
+                rs = [1 / s for s in Sig]
+                Ainv = vt.T @ np.diag(rs) @ u.T
 
             # And penalty
             S_J = scp.sparse.csc_array(
-- 
2.43.0


From 99ad380c3b584b02684778820a6a8ac4e4d069ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:46 +0000
Subject: [PATCH 24/86] fix: stable re-parameterization kept only the first
 penalty if the dominant one has full rank

---
 src/mssm/src/python/repara.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/repara.py b/src/mssm/src/python/repara.py
index f8ee9cf..1bd433c 100644
--- a/src/mssm/src/python/repara.py
+++ b/src/mssm/src/python/repara.py
@@ -592,7 +592,9 @@ def reparam(
 
             if S_rep is None:  # Fix r==Q in first iteration
                 S_rep = SJbar[0] * LJgroup[0]
-                Q_rep = scp.sparse.eye(r, format="csc")
+                for j in range(1, len(SJbar)):
+                    S_rep += SJbar[j] * LJgroup[j]
+                Q_rep = scp.sparse.eye(normed_S.shape[1], format="csc")
 
             S_reps.append(scp.sparse.csc_array(S_rep))
 
-- 
2.43.0


From f076b0c7ce7c01b61a783f68bf51d72766525f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:17 +0000
Subject: [PATCH 25/86] fix: cpp_solve_LXX calls the solver under its exported
 name

---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4fa8b46..4bf6294 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -395,7 +395,7 @@ def cpp_solve_LXX(
         success
     :rtype: tuple[scp.sparse.csc_array,list[int],int]
     """
-    return eigen_solvers.cpp_solve_LXX(*map_csc_to_eigen(A))
+    return eigen_solvers.solve_LXX(*map_csc_to_eigen(A))
 
 
 def cpp_solve_tr(
-- 
2.43.0


From 1936401cbc9162030e821edff0f1d9dc5b1d1223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:32 +0000
Subject: [PATCH 26/86] fix: trace for factor smooth null penalties skipped
 levels when other terms precede

---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4bf6294..945151c 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -667,7 +667,7 @@ def compute_B(
 
             D_idx = np.arange(
                 lTerm.start_index + NULL_idx,
-                lTerm.S_J.shape[1] * (lTerm.rep_sj + 1),
+                lTerm.start_index + lTerm.S_J.shape[1] * lTerm.rep_sj,
                 lTerm.S_J.shape[1],
             )
 
-- 
2.43.0


From 58e9d1c01560b097cee87d700022864bfd724cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:35 +0000
Subject: [PATCH 27/86] fix: traces with dropped coefficients lost whole
 columns of the penalty root

---
 src/mssm/src/python/matrix_solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 945151c..66c494b 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -679,9 +679,8 @@ def compute_B(
             D_end = lTerm.start_index + D_len
             D_idx = idx[D_start:D_end]
 
-            # Now check if dropped column is included, if so remove and update length.
-            D_idx = D_idx[np.isin(D_idx, drop) == False]  # noqa: E712
-            D_len = len(D_idx)
+            # Only the rows of D belonging to dropped coefficients go. The columns have to stay:
+            # they are columns of a root, so generally also involve the remaining coefficients.
             PD = P @ lTerm.D_J_emb[:, D_idx][keep, :]
 
         D_r = int(D_len / 2000)
-- 
2.43.0


From 6c2a52d983affd7102ec8693136a8e5c0e3c02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:59 +0000
Subject: [PATCH 28/86] fix: LU based identification of unidentifiable
 coefficients crashed for exactly singular Hessians

---
 src/mssm/src/python/gamm_solvers.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index bf43e1c..07c0dde 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -4855,16 +4855,24 @@ def identify_drop(
 
         # Find Null-vector of U (can ignore row pivoting for LU, see: Gotsman & Toledo; 2008)
         if method == "LU":  # Original proposal by Foster
-            lu = scp.sparse.linalg.splu(
-                nH_drop,
-                permc_spec="COLAMD",
-                diag_pivot_thresh=1,
-                options=dict(SymmetricMode=False, IterRefine="Double", Equil=True),
-            )
-            R = lu.U
-            P = scp.sparse.csc_matrix(
-                (np.ones(nH_drop.shape[1]), (np.arange(nH_drop.shape[1]), lu.perm_c))
-            )
+            try:
+                lu = scp.sparse.linalg.splu(
+                    nH_drop,
+                    permc_spec="COLAMD",
+                    diag_pivot_thresh=1,
+                    options=dict(SymmetricMode=False, IterRefine="Double", Equil=True),
+                )
+                R = lu.U
+                P = scp.sparse.csc_matrix(
+                    (
+                        np.ones(nH_drop.shape[1]),
+                        (np.arange(nH_drop.shape[1]), lu.perm_c),
+                    )
+                )
+            except RuntimeError:
+                # Exactly singular, so no LU: find Kernel vector directly instead.
+                R = nH_drop
+                P = scp.sparse.identity(nH_drop.shape[1], format="csc")
         else:
             R = nH_drop
 
-- 
2.43.0


From c369f41b67c5564e84e66c8c2dfd14704c003c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:51 +0000
Subject: [PATCH 29/86] fix: traces were assigned to the wrong smoothing
 parameters for by-factor smooths with null penalties next to shared penalties

---
 src/mssm/src/python/gamm_solvers.py | 31 +++++++++++------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 07c0dde..339c419 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -996,25 +996,18 @@ def calculate_edf(
         term_edfs.append(pen_params)
 
     # At this point Bs has derivatives for term-specific penalties. Now need to adjust this to
-    # lambda specific ones
-    id_dict = create_id_dict(penalties)
-
-    if id_dict is not None:
-        merged_Bs = [
-            B
-            for bdi, B in enumerate(Bs)
-            if (penalties[bdi].id not in id_dict)
-            or (len(id_dict[penalties[bdi].id]) <= 1)
-        ]
-
-        for id in id_dict.keys():
-            if len(id_dict[id]) <= 1:
-                continue  # Not shared, already added above
-            mBs = [B for bdi, B in enumerate(Bs) if penalties[bdi].id == id]
-
-            merged_Bs.append(np.sum(mBs))
-
-        Bs = merged_Bs
+    # lambda specific ones - in the order of merged_penalties, which generally differs from that of
+    # the split penalties.
+    Bs = [
+        np.sum(
+            [
+                B
+                for pen, B in zip(penalties, Bs)
+                if (pen is mpen) or (mpen.S_Js is not None and pen.id == mpen.id)
+            ]
+        )
+        for mpen in merged_penalties
+    ]
 
     return total_edf, term_edfs, Bs
 
-- 
2.43.0


From c95159cf7f92aabc335b44cb840a78a1cc1ec1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:53 +0000
Subject: [PATCH 30/86] fix: ar1 process ran on across series if the first
 observation of a series is missing

---
 src/mssm/src/python/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 42681a4..103774a 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -78,7 +78,9 @@ def computeAr1Chol(formula: Formula, rho: float) -> tuple[scp.sparse.csc_array,
     if formula.series_id is not None:
         start = np.tile(False, len(formula.y_flat))
         start[formula.sid] = True
-        start = start[formula.NOT_NA_flat]
+        # First **remaining** observation of every series - the first one might have been NA
+        series = np.cumsum(start)[formula.NOT_NA_flat]
+        start = np.concatenate(([True], np.diff(series) > 0))
         sid0 = np.where(start)[0]
         sid1 = sid0[1:] - 1
 
-- 
2.43.0


From 6b378e0f72fd3ae81439d91526b7ba8bde99b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:53 +0000
Subject: [PATCH 31/86] fix: penalised log-likelihood of GAMMs ignored the
 scale parameter

---
 src/mssm/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 33f5a1e..1ac1aaa 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -2707,6 +2707,10 @@ class GAMM(GAMMLSS):
         pen = 0
         if penalized:
             pen = 0.5 * self.penalty
+
+            # self.penalty is the penalty on the (unscaled) deviance
+            if self.family.twopar:
+                pen /= self.scale if ext_scale is None else ext_scale
         if self.preds is not None:
             mu = self.preds[0]
             if (
-- 
2.43.0


From f9cfd3142ebc8e8dd4df94e584dc3d320580d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:20 +0000
Subject: [PATCH 32/86] fix: working residuals and scale ignored that
 pseudo-data excludes the offset

---
 src/mssm/src/python/gamm_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 339c419..207af9b 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1510,7 +1510,7 @@ def update_coef_and_scale(
     wres, InvCholXXS, total_edf, term_edfs, Bs, scale = update_scale_edf(
         y,
         z,
-        eta,
+        eta - offset,  # pseudo-data z does not include offset
         Wr,
         rowsX,
         colsX,
@@ -2319,7 +2319,7 @@ def correct_lambda_step(
             wres, InvCholXXS, total_edf, term_edfs, Bs, scale = update_scale_edf(
                 y,
                 z,
-                eta,
+                eta - offset,  # pseudo-data z does not include offset
                 Wr,
                 rowsX,
                 colsX,
@@ -3144,7 +3144,7 @@ def solve_gamm_sparse(
             Lrhoi is not None
         ):  # Need to return ar-corrected and "normal" working residuals
             wres2 = Wr @ (
-                z[inval == False] - eta[inval == False]  # noqa: E712
+                z[inval == False] - (eta - offset)[inval == False]  # noqa: E712
             ).reshape(-1, 1)
 
         if inval_check:
-- 
2.43.0


From 4b2aa34570c5e5a486765a36b159a32a3e7c8094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:40 +0000
Subject: [PATCH 33/86] fix: dropped coefficients counted towards the edf of
 models without penalties

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 207af9b..e6ef578 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1215,7 +1215,7 @@ def update_scale_edf(
             None,
         )
     else:
-        total_edf = colsX
+        total_edf = colsX - (len(drop) if drop is not None else 0)
         term_edfs = None
         Bs = None
 
-- 
2.43.0


From 42887c6b607c50ceddcf29f040115a7183bcf3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:44 +0000
Subject: [PATCH 34/86] fix: reporting a high condition number raised a
 TypeError instead of a warning

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index e6ef578..7a02dbd 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3206,7 +3206,7 @@ def solve_gamm_sparse(
                 )
             )
         if method != "Chol" and Kcode == 2:
-            raise warnings.warn(
+            warnings.warn(
                 (
                     f"Condition number ({K2}) of matrix A, where A.T@A=X.T@X + S_\\lambda, is "
                     "larger than 1/u, where u is half the machine precision. The model estimates "
-- 
2.43.0


From 5e5f9d5cd9aff9d604abf51b5b82019a0576507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:50 +0000
Subject: [PATCH 35/86] fix: deviance residuals were NaN for observations
 fitted exactly

---
 src/mssm/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 1ac1aaa..2fd0b88 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -2879,7 +2879,7 @@ class GAMM(GAMMLSS):
             ):
                 mu = self.family.link.fi(mu)
 
-            return np.sign(y - mu) * np.sqrt(self.family.D(y, mu))
+            return np.sign(y - mu) * np.sqrt(np.maximum(self.family.D(y, mu), 0))
 
     ##################################### Fitting ####################################  # noqa: E266
 
-- 
2.43.0


From fd7474c257fd098061f88fc8a8e9feb9183c8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:21 +0000
Subject: [PATCH 36/86] fix: scaled t log-density and derivatives lost all
 digits for large degrees of freedom

---
 src/mssm/src/python/exp_fam.py | 45 ++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 01bf633..79641ee 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -2121,9 +2121,8 @@ class ScaledT(ExtendedFamily):
 
         # Now can compute llk for each obs
         lp = (
-            -scp.special.gammaln((nu + 1) / 2)
-            + scp.special.gammaln(nu / 2)
-            + np.log(phi * np.power(np.pi * nu, 0.5))
+            scp.special.betaln(nu / 2, 0.5)  # Stable version of lgam(nu/2) - lgam((nu+1)/2) + log(pi)/2
+            + np.log(phi * np.power(nu, 0.5))
             + (nu + 1) * np.log1p(np.power((y - mu) / phi, 2) / nu) / 2
         )
         return -1 * lp
@@ -2371,6 +2370,27 @@ class ScaledT(ExtendedFamily):
         Ed2Ddmu = np.ones_like(y) * (nu + 1) / np.power(phi, 2) / (nu + 3)
         return 2 * Ed2Ddmu
 
+    @staticmethod
+    def _diff_polygamma(nu: float) -> tuple[float, float]:
+        """Difference between digamma and trigamma function evaluated at ``(nu + 1)/2`` and ``nu/2``.
+
+        Direct evaluation loses all digits for large ``nu``, so series are used for those.
+
+        :param nu: Degrees of freedom
+        :type nu: float
+        :return: Difference for digamma and trigamma function
+        :rtype: tuple[float, float]
+        """
+        if nu > 1e4:
+            return (
+                1 / nu + 0.5 / nu**2 - 0.25 / nu**4,
+                -2 / nu**2 - 2 / nu**3 + 2 / nu**5,
+            )
+        return (
+            scp.special.digamma((nu + 1) / 2) - scp.special.digamma(nu / 2),
+            scp.special.polygamma(1, (nu + 1) / 2) - scp.special.polygamma(1, nu / 2),
+        )
+
     def gradientLTheta(
         self, y: np.ndarray, mu: np.ndarray, theta: np.ndarray
     ) -> np.ndarray:
@@ -2410,7 +2430,8 @@ class ScaledT(ExtendedFamily):
         # Compute gradient of deviance with respect to theta
         grad = np.zeros(2).reshape(-1, 1)
 
-        a = 1 + np.power((y - mu) / phi, 2) / nu
+        a1 = np.power((y - mu) / phi, 2) / nu
+        a = 1 + a1
         ymu = y - mu
         nu1ymu = (nu + 1) * ymu
         nusig2a = nu * np.power(phi, 2) * a
@@ -2418,7 +2439,7 @@ class ScaledT(ExtendedFamily):
         fymu = f * ymu
         # print(fymu)
         grad[0, 0] = np.sum(-2 * fymu)
-        grad[1, 0] = np.sum((nu - self.min_df) * (np.log(a) - fymu / nu))
+        grad[1, 0] = np.sum((nu - self.min_df) * (np.log1p(a1) - fymu / nu))
 
         grad *= 0.5
 
@@ -2427,8 +2448,7 @@ class ScaledT(ExtendedFamily):
         # Now need to adjust gradient by subtracting gradient of saturated llk with respect to theta
         grad[0, 0] += len(y)
         grad[1, 0] -= len(y) * (
-            (nu - self.min_df) * scp.special.digamma((nu + 1) / 2) / 2
-            - (nu - self.min_df) * scp.special.digamma(nu / 2) / 2
+            (nu - self.min_df) * self._diff_polygamma(nu)[0] / 2
             - 0.5 * ((nu - self.min_df) / nu)
         )
 
@@ -2471,7 +2491,8 @@ class ScaledT(ExtendedFamily):
         phi = np.exp(theta[0, 0])
         nu = np.exp(theta[1, 0]) + self.min_df
 
-        a = 1 + np.power((y - mu) / phi, 2) / nu
+        a1 = np.power((y - mu) / phi, 2) / nu
+        a = 1 + a1
         ymu = y - mu
         nu1ymu = (nu + 1) * ymu
         nusig2a = nu * np.power(phi, 2) * a
@@ -2484,7 +2505,7 @@ class ScaledT(ExtendedFamily):
 
         # Compute hessian of deviance with respect to theta
         d2Ddphi = 4 * fymu * (1 - f1ymu)
-        d2Ddnu = (nu - self.min_df) * np.log(a) + ((nu - self.min_df) / nu) * np.power(
+        d2Ddnu = (nu - self.min_df) * np.log1p(a1) + ((nu - self.min_df) / nu) * np.power(
             ymu, 2
         ) * (
             -2 * (nu - self.min_df)
@@ -2507,10 +2528,8 @@ class ScaledT(ExtendedFamily):
 
         # Now need to adjust hessian by subtracting hessian of saturated llk with respect to theta
         H[1, 1] -= len(y) * (
-            np.power(nu - self.min_df, 2) * scp.special.polygamma(1, (nu + 1) / 2) / 4
-            + (nu - self.min_df) * scp.special.digamma((nu + 1) / 2) / 2
-            - np.power(nu - self.min_df, 2) * scp.special.polygamma(1, nu / 2) / 4
-            - (nu - self.min_df) * scp.special.digamma(nu / 2) / 2
+            np.power(nu - self.min_df, 2) * self._diff_polygamma(nu)[1] / 4
+            + (nu - self.min_df) * self._diff_polygamma(nu)[0] / 2
             + 0.5 * np.power((nu - self.min_df) / nu, 2)
             - 0.5 * ((nu - self.min_df) / nu)
         )
-- 
2.43.0


From c5f0964897ea6a0a058945c258844acd14849aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:03 +0000
Subject: [PATCH 37/86] fix: predictions and weights belonged to the previous
 coefficients if the last lambda step was accepted for being tiny

---
 src/mssm/src/python/gamm_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 7a02dbd..f69cb35 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -2456,8 +2456,8 @@ def correct_lambda_step(
             if lam_changes == 0 or np.linalg.norm(lam_delta) < 1e-7:
                 lam_accepted = True
 
-            # Also have to reset eta, mu, z, and Wr
-            if max_inner > 1 and (
+            # Also have to reset eta, mu, z, and Wr - unless the step is accepted together with n_coef
+            if (not lam_accepted) and max_inner > 1 and (
                 isinstance(family, Gaussian) is False
                 or isinstance(family.link, Identity) is False
             ):
-- 
2.43.0


From 9c3fb48380e5c92670418fb7ed9a30661302220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:52 +0000
Subject: [PATCH 38/86] fix: split of extra coefficients after dropping
 unidentifiable ones from a GSMM

---
 src/mssm/src/python/gamm_solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index f69cb35..8cb6ff9 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -6616,7 +6616,8 @@ def check_drop_valid_gensmooth(
     rXs, rcoef_split_idx = drop_terms_X(Xs, keep)
 
     # Deal with any extra coefficients when checking for the drop
-    if family.extra_coef is not None:
+    if family.extra_coef is not None and len(rXs) > 1:
+        # With a single matrix the split before the extra coef is already included
         rcoef_split_idx.append(rXs[-1].shape[1] + rcoef_split_idx[-1])
 
     # ... and from S_emb
@@ -6810,6 +6811,8 @@ def handle_drop_gsmm(
 
     # ... from Xs...
     rXs, rcoef_split_idx = drop_terms_X(Xs, keep)
+    if family.extra_coef is not None and len(rXs) > 1:
+        rcoef_split_idx.append(rXs[-1].shape[1] + rcoef_split_idx[-1])
     # print(rXs)
 
     # ... and from S_emb
-- 
2.43.0


From b76b5967a0a92f55406eed352a6208c1a2747012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:53 +0000
Subject: [PATCH 39/86] fix: dropped coefficients counted in edf of unpenalised
 GAMMLSS and GSMM

---
 src/mssm/src/python/gamm_solvers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 8cb6ff9..920367a 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -6431,7 +6431,9 @@ def solve_gammlss_sparse(
         term_edfs = calculate_term_edf(gamlss_pen, term_edfs)
     else:
         term_edfs = None
-        total_edf = n_coef
+        total_edf = n_coef - (
+            len(fit_info.dropped) if fit_info.dropped is not None else 0
+        )
 
     return (
         coef,
@@ -9606,7 +9608,9 @@ def solve_generalSmooth_sparse(
         term_edfs = calculate_term_edf(smooth_pen, term_edfs)
     else:
         term_edfs = None
-        total_edf = n_coef
+        total_edf = n_coef - (
+            len(fit_info.dropped) if fit_info.dropped is not None else 0
+        )
 
     LV_linop = None
     if method == "qEFS":
-- 
2.43.0


From be755ea972b1379685b59a6ddcd5c4245a029cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 40/86] fix: whole-function intervals ignored coefficients
 whose columns sum to zero

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 103774a..1a2d11c 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1610,7 +1610,7 @@ def adjust_CI(
         # If we have many random factor levels, but want to make predictions only
         # for fixed effects, it's wasteful to sample all coefficients from posterior.
         # The code below performs a selection of the coefficients to be sampled.
-        use_post = predi_mat.sum(axis=0) != 0
+        use_post = np.abs(predi_mat).sum(axis=0) != 0
         use_post = np.arange(0, predi_mat.shape[1])[use_post]
 
     # Sample deviations [*coef - coef] from posterior of model
-- 
2.43.0


From 055aa1f56a0c0e0af217a23f5506b3ba32401afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 41/86] fix: whole-function intervals were NaN if a row has
 zero standard error

---
 src/mssm/src/python/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 1a2d11c..49324e4 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1625,8 +1625,12 @@ def adjust_CI(
     else:
         fpost = np.abs(predi_mat[:, use_post] @ post)
 
-    # Compute ratio between abs(predi_mat@[*coef - coef])/b for every sample.
-    fpost = fpost / b[:, None]
+    # Compute ratio between abs(predi_mat@[*coef - coef])/b for every sample. Rows without any
+    # uncertainty (e.g., if two identical rows are compared) need no adjustment.
+    has_se = b > 0
+    if not np.any(has_se):
+        return b
+    fpost = fpost[has_se, :] / b[has_se, None]
 
     # Then compute max of this ratio, over rows of predi_mat, for every sample. np.max(fpost,axis=0)
     # now is a vector with n_ps elements, holding for each sample the multiplicative adjustment a,
-- 
2.43.0


From 95d734a7deff4dbde336db961f5b63d58d456a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:15 +0000
Subject: [PATCH 42/86] fix: time-varying durations of HMP bump states have the
 shape of the series

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 23ac6f7..746ba49 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -692,7 +692,7 @@ def _compute_series_probs(
                 lpd[int(event_width - 1)] = 0
 
                 if tvdtpi:
-                    lpd = [lpd for _ in range(D - 1)]
+                    lpd = [np.tile(lpdd, n_T) for lpdd in lpd]
             else:
                 raise ValueError(f"Need distribution duration family for state {j}.")
 
@@ -3690,7 +3690,7 @@ class HSMMFamily(GSMMFamily):
                         lpd[int(event_width - 1)] = 0
 
                         if tvdtpi:
-                            lpd = [lpd for _ in range(D - 1)]
+                            lpd = [np.tile(lpdd, n_T) for lpdd in lpd]
                     else:
                         raise ValueError(
                             f"Need distribution duration family for state {j}."
-- 
2.43.0


From 75721ab2f594f1293cb726e8922565ce24c0cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:15 +0000
Subject: [PATCH 43/86] fix: HMP models keep the sign of the ar1 weight and
 accept a first series of length one

---
 src/mssm/src/python/hsmm.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 746ba49..9500f9b 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -22,6 +22,25 @@ except ImportError:
     HAS_MP = False
 
 
+def _extract_rho(Lrhoi: scp.sparse.csc_array) -> float:
+    """Extracts the ar1 weight from the banded matrix ``Lrhoi``.
+
+    The diagonal of ``Lrhoi`` holds ``1/sqrt(1-rho**2)`` and the super-diagonal
+    ``-rho/sqrt(1-rho**2)`` for every observation that is not the first one of its series.
+
+    :param Lrhoi: Inverse of the transpose of the cholesky of the co-variance (before scaling)
+        matrix of an ar1 model
+    :type Lrhoi: scp.sparse.csc_array
+    :return: The ar1 weight
+    :rtype: float
+    """
+    d1 = Lrhoi.diagonal(1) if Lrhoi.shape[0] > 1 else np.zeros(0)
+    lagged = np.flatnonzero(d1)
+    if len(lagged) == 0:
+        return 0.0
+    return -d1[lagged[0]] / Lrhoi.diagonal()[lagged[0] + 1]
+
+
 def _split_matrices(
     ys: list[np.ndarray | None],
     Xs: list[scp.sparse.csc_array | None],
@@ -1382,7 +1401,7 @@ class HSMMFamily(GSMMFamily):
 
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -1912,7 +1931,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2154,7 +2173,7 @@ class HSMMFamily(GSMMFamily):
         # called by get_resid) - of course only if ``Lrhoi`` was provided to constructor
         rho = None
         if self.llkargs[16] is not None:
-            rho = np.sqrt(-1 * (np.power(1 / self.llkargs[16][1, 1], 2) - 1))
+            rho = _extract_rho(self.llkargs[16])
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2400,7 +2419,7 @@ class HSMMFamily(GSMMFamily):
         # called by get_resid) - of course only if ``Lrhoi`` was provided to constructor
         rho = None
         if self.llkargs[16] is not None:
-            rho = np.sqrt(-1 * (np.power(1 / self.llkargs[16][1, 1], 2) - 1))
+            rho = _extract_rho(self.llkargs[16])
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2757,7 +2776,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -3002,7 +3021,7 @@ class HSMMFamily(GSMMFamily):
         if Lrhoi is not None:
             d0 = Lrhoi.diagonal()
             llc = np.log(d0[d0 != 1]).sum()
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -4186,7 +4205,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
-- 
2.43.0


From 5660f5ffe79829cfc2a29d21dd1eed1359c0c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:15 +0000
Subject: [PATCH 44/86] fix: log-determinant of the ar1 transformation is added
 once per signal to the HMP log-likelihood

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 9500f9b..1912ff1 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -3094,7 +3094,7 @@ class HSMMFamily(GSMMFamily):
             llk = -np.inf
 
         # Correct for potential ar1 model
-        llk -= llc
+        llk += M * llc
 
         return llk
 
-- 
2.43.0


From f4a3fbb1ce3a42703a810e3b8f338e6a196586a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:15 +0000
Subject: [PATCH 45/86] fix: HSMM formulas may be shared for any subset of the
 emission parameters

---
 src/mssm/src/python/hsmm.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 1912ff1..f677e7b 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -139,7 +139,7 @@ def _split_matrices(
                 X_split = [Xmj[split, :] for split in np.split(Xidx, sid[1:])]
 
             y_split = None
-            if par == 0 and m == 0:
+            if idx == 0:
                 ymj = ys[0] if Lrhoi is None else Lrhoi.T @ ys[0]
                 y_split = np.split(ymj, sid[1:])
 
@@ -449,14 +449,14 @@ def _compute_series_probs(
     idx = 0  # Keep track of indices for ys and Xs
 
     # First check for part of emission models shared between states (and m)
-    shared_eta = []  # Holds list per par, each list contains at least one eta vector.
+    shared_eta = {}  # Holds list per par, each list contains at least one eta vector.
     for par in shared_pars:
 
         midx = 1
         if shared_m is False:
             midx = M
 
-        shared_eta.append([])
+        shared_eta[par] = []
 
         # Compute shared part of eta per parameter and m
         for m in range(midx):
@@ -920,14 +920,14 @@ def _sample_series_emissions(
     # First check for part of emission models shared between states (and m)
 
     # Holds list per par, each list contains at least one eta vector.
-    shared_eta = []
+    shared_eta = {}
     for par in shared_pars:
 
         midx = 1
         if shared_m is False:
             midx = M
 
-        shared_eta.append([])
+        shared_eta[par] = []
 
         # Compute shared part of eta per parameter and m
         for m in range(midx):
@@ -3209,9 +3209,9 @@ class HSMMFamily(GSMMFamily):
 
             # Lists below hold list per par. Each list contains at least one eta/X index/list to
             # be filled with duplicate coefficient indices
-            shared_eta = []
-            shared_X = []
-            shared_coef_idx = []
+            shared_eta = {}
+            shared_X = {}
+            shared_coef_idx = {}
 
             # List below holds indices of all duplicated coef so that we can later exclude them
             shared_coef_idx_flat = []
@@ -3221,9 +3221,9 @@ class HSMMFamily(GSMMFamily):
                 if shared_m is False:
                     midx = M
 
-                shared_eta.append([])
-                shared_X.append([])
-                shared_coef_idx.append([])
+                shared_eta[par] = []
+                shared_X[par] = []
+                shared_coef_idx[par] = []
 
                 # Compute shared part of eta per parameter and m and collect
                 # X index + add list to be populated with duplicated/shared coef
-- 
2.43.0


From fb6660570e502a4938e4a64bf9e558fdcd067294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:38 +0000
Subject: [PATCH 46/86] fix: HSMM gradient of the initial state distribution
 uses the first row of a shared time-varying matrix

---
 src/mssm/src/python/hsmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index f677e7b..bc097d9 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -3886,7 +3886,8 @@ class HSMMFamily(GSMMFamily):
                 coefj = []
 
                 for par in range(pi_fam.n_par):
-                    Xsj.append(Xs[idx])
+                    # Matrix might be shared with time-varying model, but pi depends only on first row
+                    Xsj.append(Xs[idx][[0], :])
                     coefj.append(split_coef[idx])
 
                     etaspi.append(Xs[idx] @ split_coef[idx])
-- 
2.43.0


From 976f94678c7bcbab3aa21b2910f7e28a4767f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:06 +0000
Subject: [PATCH 47/86] fix: HSMM gradient of the initial state distribution
 uses time-varying durations

---
 src/mssm/src/cpp/hsmm/llk.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/llk.cpp b/src/mssm/src/cpp/hsmm/llk.cpp
index 4539235..418063f 100644
--- a/src/mssm/src/cpp/hsmm/llk.cpp
+++ b/src/mssm/src/cpp/hsmm/llk.cpp
@@ -1392,7 +1392,9 @@ py::array_t<
                         
                         // Only need deriv of (\sum_{i \in S/j} lam(t-1,1,i)*T(i,j)) * bs(t,j)*
                         // ds(d,j) - same as before:
-                        psi(t1,d,j,tci) += tpg*bs(t,j)*ds(d,(starts_with_first) ? j : j + n_S);
+                        psi(t1,d,j,tci) += tpg*bs(t,j)*((tvdtpi) ?
+                                           ds(d,(starts_with_first) ? j : j + n_S,t):
+                                           ds(d,(starts_with_first) ? j : j + n_S));
 
                         tci += 1;
                     }
-- 
2.43.0


From 63a33fe98d271e11e9311c9e8c7c0462696c8232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:06 +0000
Subject: [PATCH 48/86] fix: backward sampling of HSMM states uses the duration
 distribution at the onset of the segment

---
 src/mssm/src/cpp/hsmm/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index d602a2c..a084faf 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -525,7 +525,7 @@ std::tuple<
                     state_probs[i] = lam(t-1,0,i) *
                                         ((tvdtpi) ? T(i,tmp_j,t-1): T(i,tmp_j)) *
                                         ((tvdtpi) ?
-                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t-1)
+                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t)
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
-- 
2.43.0


From 5ed88581989d90c23001ee48d62c700f4bfe0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:06 +0000
Subject: [PATCH 49/86] fix: predictive residuals of multivariate HSMMs use the
 mean of their own signal

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 162576c..3e15e2e 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -502,7 +502,7 @@ py::array_t<
                         {   
                             // Expected value for signal m
 
-                            elam(t,m,d,j) += tp * mus(t,j) *
+                            elam(t,m,d,j) += tp * mus(t,m,j) *
                                             ((tvdtpi) ? ds(d,(starts_with_first) ? j : j + n_S,t):
                                                         ds(d,(starts_with_first) ? j : j + n_S));
 
-- 
2.43.0


From 510532cea5dae511efe18be12dd314278d47090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:06 +0000
Subject: [PATCH 50/86] fix: predictive residuals of HMP models do not read
 before the first state

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 3e15e2e..722777b 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -476,7 +476,7 @@ py::array_t<
                                                  ds(d,(starts_with_first) ? j : j + n_S,t):
                                                  ds(d,(starts_with_first) ? j : j + n_S));
                             }
-                            else if (rho < 999)
+                            else if (rho < 999 && j > 0)
                             {
                                 // Lag of previous bump carries over
                                 ebump = d1 * weights(event_width-1) * mus(t-1,m,j-1);
-- 
2.43.0


From fde9a57ec1a01b7a912424e270d77b13822fefcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:15 +0000
Subject: [PATCH 51/86] fix: compute_Tpi returns every series' own fixed
 transition matrix and initial distribution

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index bc097d9..3c5f57c 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1608,7 +1608,7 @@ class HSMMFamily(GSMMFamily):
             ps = []
 
             for series in range(n_series):
-                T, pi = series_Tpi(
+                T_series, pi_series = series_Tpi(
                     series,
                     [
                         y_split[series] if y_split is not None else None
@@ -1620,7 +1620,7 @@ class HSMMFamily(GSMMFamily):
                     ],
                 )
 
-                ps.append([T, pi])
+                ps.append([T_series, pi_series])
 
         else:  # Compute in parallel
 
-- 
2.43.0


From 3611084673f0441b35820b424f6167b9d2c7971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:15 +0000
Subject: [PATCH 52/86] fix: HSMM simulation leaves a state with the transition
 probabilities of its last sample, as the likelihood does

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 3c5f57c..1483272 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1815,7 +1815,7 @@ class HSMMFamily(GSMMFamily):
                         else:
                             state = np_gen.choice(
                                 state_vals,
-                                p=Ts[state, :, t] if tvdtpi else Ts[state, :],
+                                p=Ts[state, :, t - 1] if tvdtpi else Ts[state, :],
                             )
 
                             dur = np_gen.choice(
-- 
2.43.0


From c824c10a662dd31ee65d3e259d610c17000c3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:15 +0000
Subject: [PATCH 53/86] fix: duration residuals use the duration distribution
 of their own segment

---
 src/mssm/src/python/hsmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 1483272..bb32be4 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1073,7 +1073,7 @@ def _compute_dur_res_series(
             else:
                 d_res = d_fams[(dj_idx)].get_resid(
                     np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-                )[t if tvdtpi else 0, 0]
+                )[t - d if tvdtpi else 0, 0]
 
                 # And collect
                 res[j].append(d_res)
@@ -1083,14 +1083,14 @@ def _compute_dur_res_series(
         t += 1
 
     # Catch dur from last state
-    dj_idx = j if (starts_with_first is True) else j + n_S
+    dj_idx = j if (transitions == 0 or starts_with_first is True) else j + n_S
 
     if mus_d[dj_idx] is None:
         res[j] = None
     else:
         d_res = d_fams[(dj_idx)].get_resid(
             np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-        )[t - 1 if tvdtpi else 0, 0]
+        )[t - d if tvdtpi else 0, 0]
 
         res[j].append(d_res)
 
-- 
2.43.0


From ffffc25c69b05ef420cac54aad14fec3a4900584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:33 +0000
Subject: [PATCH 54/86] fix: duration residuals of HSMMs decode every series
 with its own transition matrix and ar1 model

---
 src/mssm/src/python/hsmm.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index bb32be4..875017a 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import scipy as scp
 from mssm.src.python.gamm_solvers import deriv_transform_mu_eta, cpp_backsolve_tr
@@ -2569,6 +2570,18 @@ class HSMMFamily(GSMMFamily):
         :rtype: np.ndarray
         """
 
+        def series_family(series: int, n_T: int):
+            # Version of self with the fixed matrices of (and ar1 model for) an individual series
+            fam = copy.copy(self)
+            fam.llkargs = list(self.llkargs)
+            if isinstance(T, list) and isinstance(pi, list):
+                fam.llkargs[14] = T[series]
+                fam.llkargs[15] = pi[series]
+            if Lrhoi is not None:
+                rows = np.arange(sid[series], sid[series] + n_T)
+                fam.llkargs[16] = Lrhoi[rows, :][:, rows]
+            return fam
+
         def series_resid(
             series: int,
             ys: list[np.ndarray],
@@ -2673,7 +2686,7 @@ class HSMMFamily(GSMMFamily):
             elif resid_type == "viterbi_dur":
 
                 # Decode viterbi path
-                viterbi = self.decode_viterbi(
+                viterbi = series_family(series, n_T).decode_viterbi(
                     coef,
                     coef_split_idx,
                     ys,
@@ -2700,7 +2713,7 @@ class HSMMFamily(GSMMFamily):
                 res = res.reshape(1, -1)
 
             elif resid_type == "posterior_dur":
-                state_samples = self.sample_posterior_states(
+                state_samples = series_family(series, n_T).sample_posterior_states(
                     coef,
                     coef_split_idx,
                     ys,
@@ -2793,7 +2806,8 @@ class HSMMFamily(GSMMFamily):
             False if fix_T_pi else True,
             False if fix_T_pi else True,
             starts_with_first,
-            Lrhoi,
+            # Decoding for duration residuals transforms series itself
+            Lrhoi if resid_type in ["forward", "predictive"] else None,
         )
 
         # Now compute llk for every individual series and then sum up
-- 
2.43.0


From 751afb594e496e6fc54b0902213ab76e9e6a303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:37 +0000
Subject: [PATCH 55/86] fix: account for the entry-dependent flat likelihood
 when sampling HMP state sequences under an AR(1) model

---
 src/mssm/src/cpp/hsmm/decode.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index a084faf..ce44705 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -514,6 +514,12 @@ std::tuple<
                     if ((tmp_ed + 1) <= (D - 2))
                     {
                         state_probs[i] = lam(t-1,tmp_ed+1,i);
+
+                        // Obs prob. of a flat depends on whether state was just entered (ar1 model)
+                        if (hmp_code != 0 && tmp_j % 2 == 0)
+                        {
+                            state_probs[i] *= bs(t,0,tmp_j);
+                        }
                     }
                     else
                     {
@@ -529,6 +535,11 @@ std::tuple<
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
+
+                    if (hmp_code != 0 && tmp_j % 2 == 0)
+                    {
+                        state_probs[i] *= bs(t,1,tmp_j);
+                    }
                 }
             }
             
-- 
2.43.0


From 03baf11f399ef10d4bfcd716d5ccc5f92dcb4763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:31 +0000
Subject: [PATCH 56/86] fix: time-varying transition matrices of two-state
 HSMMs have three dimensions

---
 src/mssm/src/python/hsmm.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 875017a..96bb396 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -780,9 +780,6 @@ def _compute_series_probs(
             T[0, 1] = 1
             T[1, 0] = 1
 
-            if tvdtpi:
-                T = np.stack([T for _ in range(n_T)], axis=2)
-
         if log:
             T = np.log(T)
 
-- 
2.43.0


From c7d41f8a090f6ae8d335a98d12b72f5dad460bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:53 +0000
Subject: [PATCH 57/86] fix: weights of a chi-square combination are fully
 sorted before bounding the integration error

---
 src/mssm/src/cpp/davies.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/davies.cpp b/src/mssm/src/cpp/davies.cpp
index 3f0052d..4fc09cc 100644
--- a/src/mssm/src/cpp/davies.cpp
+++ b/src/mssm/src/cpp/davies.cpp
@@ -80,7 +80,7 @@ double log1(double x, bool first)
             {
                 skipk = true;
                 break;
-            } break;
+            }
          }
          if ( ! skipk ) {
             k = -1;
-- 
2.43.0


From 535615a69d424569f614f096bf08606ff0ff571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:44 +0000
Subject: [PATCH 58/86] fix: make_pd yields a positive definite SR1 form when
 every update eigenvalue is clipped

---
 src/mssm/src/python/compact_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/compact_rep.py b/src/mssm/src/python/compact_rep.py
index c6d7983..bacf6ce 100644
--- a/src/mssm/src/python/compact_rep.py
+++ b/src/mssm/src/python/compact_rep.py
@@ -288,7 +288,7 @@ def computeHSR1(
             # Useful to guarantee that penalized hessian is pd at convergence
             if make_pd:
                 eps = np.power(np.finfo(float).eps, 0.5)
-                ev[fix_idx] += eps * np.max(ev + omega)
+                ev[fix_idx] += eps * max(np.max(ev + omega), omega)
 
             # while np.any(np.abs(ev) < 1e-7):
             #   ev[np.abs(ev) < 1e-7] += np.power(np.finfo(float).eps,0.7)
-- 
2.43.0


From 7ba0a2a50ef81893a2ea809d595857975a962b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:44 +0000
Subject: [PATCH 59/86] fix: sign of the derivative of an inverse Cholesky
 factor

---
 src/mssm/src/cpp/dchol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/dchol.cpp b/src/mssm/src/cpp/dchol.cpp
index a57a06f..8ce6446 100644
--- a/src/mssm/src/cpp/dchol.cpp
+++ b/src/mssm/src/cpp/dchol.cpp
@@ -80,7 +80,7 @@ Eigen::MatrixXd invdChol(const Eigen::Ref<Eigen::MatrixXd,0,Eigen::Stride<Eigen:
                 {
                     Eigen::MatrixXd dC = dChol(R,A);
 
-                    return (Rinv*dC)*Rinv;
+                    return -(Rinv*dC)*Rinv;
                 }
 
 Eigen::MatrixXd computeV2(const Eigen::Ref<Eigen::MatrixXd,0,Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>> &Vpr,
-- 
2.43.0


From 82a536985871d4f7f743e4dcf862218a9c434c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:08 +0000
Subject: [PATCH 60/86] fix: make_valid of the uniform priors returns values
 inside the prior limits

---
 src/mssm/src/python/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 49324e4..950ff32 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -3549,8 +3549,8 @@ class MVUniformRhoPrior(RhoPrior):
         b = self.kwargs["b"]
 
         crho = copy.deepcopy(rho)
-        crho[crho < a] = 0.9 * a
-        crho[crho > b] = 0.9 * b
+        crho[crho < a] = np.clip(0.9 * a, a, b)
+        crho[crho > b] = np.clip(0.9 * b, a, b)
         return crho
 
 
@@ -3627,8 +3627,8 @@ class CenteredUniformRhoPriors(RhoPrior):
             invala = crho[:, rhoi] < a[rhoi]
             invalb = crho[:, rhoi] > b[rhoi]
 
-            crho[invala, rhoi] = 0.9 * a[rhoi]
-            crho[invalb, rhoi] = 0.9 * b[rhoi]
+            crho[invala, rhoi] = np.clip(0.9 * a[rhoi], a[rhoi], b[rhoi])
+            crho[invalb, rhoi] = np.clip(0.9 * b[rhoi], a[rhoi], b[rhoi])
 
         return crho
 
-- 
2.43.0


From 580abcd62ea8600dbe26db4b7cf1bd5d300706f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:30 +0000
Subject: [PATCH 61/86] fix: REML of candidate smoothing parameters accounts
 for the offset of Gaussian models

---
 src/mssm/src/python/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 950ff32..091de5f 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1722,6 +1722,9 @@ def compute_reml_candidate_GAMM(
             eta, mu, coef, Pr, _, LP, keep, drop = update_coef(
                 y - offset, X, X, family, S_emb, S_root, n_c, None, 0
             )
+            # Coefficients were estimated from y - offset
+            eta = eta + offset
+            mu = eta
             nH = (X.T @ X).tocsc()
         else:
             # GAMM - have to repeat Newton step
-- 
2.43.0


From f011c888c5b1ccff0d689987feba56af2cebece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:46 +0000
Subject: [PATCH 62/86] fix: bias correction of the edf bound no longer alters
 the returned corrected edf

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 091de5f..c761b23 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4740,7 +4740,7 @@ def correct_VB(
     # 2017)
     if form_t1:
         total_edf2 += total_edf - model.edf
-        edf2 += edf - ucF.diagonal()
+        edf2 = edf2 + (edf - ucF.diagonal())
 
     if verbose and grid_type != "JJJ1":
         print(f"Correction was based on {rGrid.shape[0]} samples in total.")
-- 
2.43.0


From 22d8cf6571a7173a1f795c868c882c6cd2bc8b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:20 +0000
Subject: [PATCH 63/86] fix: REML counts every un-penalized dimension (repeated
 penalties, later intercepts)

---
 src/mssm/src/python/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index c761b23..2ab3e31 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2204,7 +2204,7 @@ def REML(
     S_emb, _, _, _ = compute_S_emb_pinv_det(len(coef), penalties, "svd")
 
     # Re-parameterize as shown in Wood (2011) to enable stable computation of log(|S_\\lambda|+)
-    Sj_reps, _, _, _, S_reps, SJ_term_idx, S_idx, S_coefs, Q_reps, Mp = reparam(
+    Sj_reps, _, _, _, S_reps, SJ_term_idx, S_idx, S_coefs, Q_reps, _ = reparam(
         None, penalties, None, option=4
     )
 
@@ -2230,7 +2230,10 @@ def REML(
     # log(|S_\\lambda|) can be computed separately from the diagonal or R if Q@R=S_reps[i] for all
     # terms i. Below we compute from the diagonal of the cholesky of the term specific S_reps[i],
     # applying conditioning as shown in Appendix B of Wood (2011).
+    # Mp is the dimension of the Kernel of the total S_\\lambda: every coefficient outside of the range
+    # of the (possibly repeated) term specific S_reps[i].
     lgdetS = 0
+    Mp = len(coef)
     for Si, S_rep in enumerate(S_reps):
         # We need to evaluate log(|S_\\lambda/\\phi|+) after re-parameterization of S_\\lambda
         # (so this will be a regular determinant).
@@ -2260,6 +2263,7 @@ def REML(
             )
 
         lgdetS += ldetSI
+        Mp -= S_rep.shape[1] * Sj_reps[SJ_term_idx[Si][0]].rep_sj
 
     # Now log(|nH+S_\\lambda|)... Wood (2011) shows stable computation based on QR decomposition,
     # but we will generally not be able to compute a QR decomposition of X so that X.T@X=H
-- 
2.43.0


From 32265776b932ed7997df813924e122c7661fc06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:37 +0000
Subject: [PATCH 64/86] fix: scale of candidate smoothing parameters accounts
 for the offset of generalized models

---
 src/mssm/src/python/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 2ab3e31..94de9fe 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1845,9 +1845,9 @@ def compute_reml_candidate_GAMM(
         # Generalized case)
         # InvCholXXSP = compute_Linv(LP,n_c)
         _, _, edf, _, _, scale = update_scale_edf(
-            y,
+            y - offset,
             z,
-            eta,
+            eta - offset,  # pseudo-data z does not include offset
             Wr,
             X.shape[0],
             X.shape[1],
@@ -4455,9 +4455,9 @@ def correct_VB(
 
                 # Re-compute scale
                 _, _, _, _, _, scale = update_scale_edf(
-                    y,
+                    y - model.offset,
                     z,
-                    eta,
+                    eta - model.offset,  # pseudo-data z does not include offset
                     Wr,
                     X.shape[0],
                     X.shape[1],
-- 
2.43.0


From dd7d709166006dce8c742cae0f8690c47268862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:11 +0000
Subject: [PATCH 65/86] fix: sampling correction works with a single sample of
 a single smoothing parameter

---
 src/mssm/src/python/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 94de9fe..0af3f32 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2627,7 +2627,7 @@ def estimateVp(
         p_sample = scp.stats.multivariate_t.rvs(
             loc=np.ndarray.flatten(ep), shape=Vpr, df=df, size=n_est, random_state=seed
         )
-        p_sample = np.exp(p_sample)
+        p_sample = np.atleast_1d(np.exp(p_sample))
         p_sample[np.isinf(p_sample)] = b
 
         if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -2819,7 +2819,7 @@ def estimateVp(
         p_sample = scp.stats.multivariate_t.rvs(
             loc=np.ndarray.flatten(ep), shape=Vpr, df=df, size=n_est, random_state=seed
         )
-        p_sample = np.exp(p_sample)
+        p_sample = np.atleast_1d(np.exp(p_sample))
         p_sample[np.isinf(p_sample)] = b
 
         if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -4036,7 +4036,7 @@ def correct_VB(
                 size=n_est,
                 random_state=seed,
             )
-            p_sample = np.exp(p_sample)
+            p_sample = np.atleast_1d(np.exp(p_sample))
             p_sample[np.isinf(p_sample)] = b
 
             if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -4260,7 +4260,7 @@ def correct_VB(
                 size=n_est,
                 random_state=seed,
             )
-            p_sample = np.exp(p_sample)
+            p_sample = np.atleast_1d(np.exp(p_sample))
             p_sample[np.isinf(p_sample)] = b
 
             if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
-- 
2.43.0


From 8a4495ed509e4a547363c02bba63885e428a933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:25 +0000
Subject: [PATCH 66/86] fix: expected edf is based on the negative Hessian of
 the model no matter how many processes are used

---
 src/mssm/src/python/utils.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 0af3f32..c159001 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4170,6 +4170,12 @@ def correct_VB(
                     edfs.extend(list(sample_edfs))
                     llks.extend(list(sample_llks))
                     rGrid = p_sample
+
+                    if only_expected_edf:
+                        # Need tr(V@nH), with nH evaluated at the scale estimate of the model
+                        edfs = [
+                            edf * scale / orig_scale for edf, scale in zip(edfs, scales)
+                        ]
             else:  # all other models
 
                 rPens = []
@@ -4290,6 +4296,13 @@ def correct_VB(
                     axis=0,
                 )
 
+            # Need tr(V@nH), with nH evaluated at the estimates of the model, for the expected edf
+            origNH = None
+            if only_expected_edf:
+                origNH = -1 * model.hessian
+                if isinstance(family, Gaussian) and isinstance(family.link, Identity):
+                    origNH = orig_scale
+
             for ps in p_sample:
                 for ridx, rc in enumerate(ps):
                     rPen[ridx].lam = rc
@@ -4305,6 +4318,7 @@ def correct_VB(
                             model.offset,
                             method=method,
                             compute_inv=True,
+                            origNH=origNH,
                         )
                     )
                     # coef = coef.reshape(-1,1)
@@ -4329,6 +4343,7 @@ def correct_VB(
                             n_c=n_c,
                             method=method,
                             bfgs_options=bfgs_options,
+                            origNH=origNH,
                             keep_drop=keep_drop,
                         )
                     except:  # noqa: E722
-- 
2.43.0


From 3427a2218d62e7a6fc1c0586db58aca7a053e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:49 +0000
Subject: [PATCH 67/86] fix: compare_CDL passes the options of the optimizer on
 as such

---
 src/mssm/src/python/compare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/compare.py b/src/mssm/src/python/compare.py
index 1f882cc..3e61623 100644
--- a/src/mssm/src/python/compare.py
+++ b/src/mssm/src/python/compare.py
@@ -417,7 +417,7 @@ def compare_CDL(
             recompute_H=recompute_H,
             compute_Vcc=compute_Vcc,
             seed=seed,
-            **bfgs_options,
+            bfgs_options=bfgs_options,
         )
         _, _, _, _, _, DOF2, _, DOF22, expected_edf2, _ = correct_VB(
             model2,
@@ -438,7 +438,7 @@ def compare_CDL(
             recompute_H=recompute_H,
             compute_Vcc=compute_Vcc,
             seed=seed,
-            **bfgs_options,
+            bfgs_options=bfgs_options,
         )
 
         if only_expected_edf:
-- 
2.43.0


From 10f27b52aca79567e1db387302e647e0b1065350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:18 +0000
Subject: [PATCH 68/86] fix: compare_CDL accepts models without penalties when
 correcting for smoothness uncertainty

---
 src/mssm/src/python/compare.py | 92 ++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 42 deletions(-)

diff --git a/src/mssm/src/python/compare.py b/src/mssm/src/python/compare.py
index 3e61623..8b2fef4 100644
--- a/src/mssm/src/python/compare.py
+++ b/src/mssm/src/python/compare.py
@@ -398,48 +398,56 @@ def compare_CDL(
             print("Correcting for uncertainty in lambda estimates...\n")
 
         # V,LV,Vp,Vpr,edf,total_edf,edf2,total_edf2,upper_edf
-        _, _, _, _, _, DOF1, _, DOF12, expected_edf1, _ = correct_VB(
-            model1,
-            nR=nR,
-            n_c=n_c,
-            form_t1=correct_t1,
-            grid_type=grid,
-            a=a,
-            b=b,
-            df=df,
-            verbose=verbose,
-            drop_NA=drop_NA,
-            method=method,
-            only_expected_edf=only_expected_edf,
-            Vp_fidiff=Vp_fidiff,
-            use_importance_weights=use_importance_weights,
-            prior=prior,
-            recompute_H=recompute_H,
-            compute_Vcc=compute_Vcc,
-            seed=seed,
-            bfgs_options=bfgs_options,
-        )
-        _, _, _, _, _, DOF2, _, DOF22, expected_edf2, _ = correct_VB(
-            model2,
-            nR=nR,
-            n_c=n_c,
-            form_t1=correct_t1,
-            grid_type=grid,
-            a=a,
-            b=b,
-            df=df,
-            verbose=verbose,
-            drop_NA=drop_NA,
-            method=method,
-            only_expected_edf=only_expected_edf,
-            Vp_fidiff=Vp_fidiff,
-            use_importance_weights=use_importance_weights,
-            prior=prior,
-            recompute_H=recompute_H,
-            compute_Vcc=compute_Vcc,
-            seed=seed,
-            bfgs_options=bfgs_options,
-        )
+        if len(model1.overall_penalties) == 0:
+            # No penalties, so no uncertainty in lambda and no smoothing bias
+            DOF1 = DOF12 = expected_edf1 = model1.edf
+        else:
+            _, _, _, _, _, DOF1, _, DOF12, expected_edf1, _ = correct_VB(
+                model1,
+                nR=nR,
+                n_c=n_c,
+                form_t1=correct_t1,
+                grid_type=grid,
+                a=a,
+                b=b,
+                df=df,
+                verbose=verbose,
+                drop_NA=drop_NA,
+                method=method,
+                only_expected_edf=only_expected_edf,
+                Vp_fidiff=Vp_fidiff,
+                use_importance_weights=use_importance_weights,
+                prior=prior,
+                recompute_H=recompute_H,
+                compute_Vcc=compute_Vcc,
+                seed=seed,
+                bfgs_options=bfgs_options,
+            )
+        if len(model2.overall_penalties) == 0:
+            # No penalties, so no uncertainty in lambda and no smoothing bias
+            DOF2 = DOF22 = expected_edf2 = model2.edf
+        else:
+            _, _, _, _, _, DOF2, _, DOF22, expected_edf2, _ = correct_VB(
+                model2,
+                nR=nR,
+                n_c=n_c,
+                form_t1=correct_t1,
+                grid_type=grid,
+                a=a,
+                b=b,
+                df=df,
+                verbose=verbose,
+                drop_NA=drop_NA,
+                method=method,
+                only_expected_edf=only_expected_edf,
+                Vp_fidiff=Vp_fidiff,
+                use_importance_weights=use_importance_weights,
+                prior=prior,
+                recompute_H=recompute_H,
+                compute_Vcc=compute_Vcc,
+                seed=seed,
+                bfgs_options=bfgs_options,
+            )
 
         if only_expected_edf:
             DOF1 = expected_edf1
-- 
2.43.0


From 28fb4e05124d67a5cf9cf2114d037448a5afd9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 69/86] fix: tests of smooth terms average over both
 orientations of the eigenvectors whatever sign LAPACK returns

---
 src/mssm/src/python/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index c159001..5aaf913 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1336,7 +1336,7 @@ def approx_smooth_p_values(
 
                         # Fix sign of Eigen-vectors to sign of first row
                         # (based on testStat function in mgcv)
-                        sign = np.sign(U[0, :])
+                        sign = np.where(U[0, :] < 0, -1, 1)
                         U *= sign
 
                         # Now we can reform the diagonal matrix needed for inverting RVR
@@ -1359,8 +1359,8 @@ def approx_smooth_p_values(
                         RVRI1 = U @ S @ U.T
 
                         # Also compute inverse for alternative version of Eigen-vectors
-                        # (see Wood, 2017):
-                        U *= sign
+                        # (see Wood, 2017) - in which the relative sign of the last two is reversed:
+                        U[:, k] *= -1
                         RVRI2 = U @ S @ U.T
 
                         # And the test statistic defined in Wood (2012)
-- 
2.43.0


From d0d75e2d6c36b7a5f539fa65683790e86aaf1af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 70/86] fix: summaries and tests of smooth terms handle impulse
 response and un-penalized smooth terms

---
 src/mssm/src/python/utils.py | 44 +++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 5aaf913..9460d7c 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -813,6 +813,44 @@ def print_parametric_terms(model, par: int = 0) -> None:
         print("\nNote: p < 0.001: ***, p < 0.01: **, p < 0.05: *, p < 0.1: .")
 
 
+def _get_smooth_edf(model, form: Formula, term_edf: list[float], par: int) -> list[float]:
+    """Returns the edf of all smooth and random terms in ``form``, in order.
+
+    Any edf of impulse response terms are left out. Un-penalized smooth terms, which always come
+    first, use all of their coefficients.
+
+    :param model: GSMM, GAMMLSS, or GAMM model
+    :type model: GSMM|GAMMLSS|GAMM
+    :param form: Formula of the parameter of the family for which edf are required
+    :type form: Formula
+    :param term_edf: List of edf of all penalized terms in ``form``
+    :type term_edf: list[float]
+    :param par: Index of the parameter of the family
+    :type par: int
+    :return: List of edf of smooth and random terms
+    :rtype: list[float]
+    """
+    irf_idx = form.get_ir_smooth_term_idx()
+    n_irf = len(
+        {
+            pen.start_index
+            for pen in split_shared_penalties(model.overall_penalties)
+            if pen.term in irf_idx and (isinstance(model.family, Family) or pen.dist_param == par)
+        }
+    )
+
+    unpen_edf = []
+    for sti in form.get_smooth_term_idx():
+        sterm = form.terms[sti]
+        if sterm.is_penalized is False:
+            n_levels = 1
+            if sterm.by is not None and sterm.id is None:
+                n_levels = len(form.get_factor_levels()[sterm.by])
+            unpen_edf.extend([form.coef_per_term[sti] / n_levels] * n_levels)
+
+    return [*unpen_edf, *term_edf[n_irf:]]
+
+
 def print_smooth_terms(
     model,
     par: int = 0,
@@ -900,6 +938,7 @@ def print_smooth_terms(
         for term in smooth_names:
             print(term)
     else:
+        term_edf = _get_smooth_edf(model, form, term_edf, par)
         terms = form.terms
         coding_factors = form.get_coding_factors()
         name_idx = 0
@@ -1249,7 +1288,10 @@ def approx_smooth_p_values(
     Trs = []
 
     # Loop over smooth terms
-    start_coef = form.unpenalized_coef  # Start indexing V_b after un-penalized coef
+    # Start indexing V_b after all linear and impulse response terms
+    start_coef = np.sum(form.coef_per_term[form.get_linear_term_idx()], dtype=int)
+    start_coef += np.sum(form.coef_per_term[form.get_ir_smooth_term_idx()], dtype=int)
+    term_edf = _get_smooth_edf(model, form, term_edf, par)
     edf_idx = 0
     for sti in st_idx:
         if isinstance(terms[sti], fs) is False:
-- 
2.43.0


From d8a0e65109652df3456e1cc4ed4e845ec869ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 71/86] fix: tests of smooth terms work with the default limit
 on the number of rows

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 9460d7c..a12bb92 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1319,7 +1319,7 @@ def approx_smooth_p_values(
 
                 if X_b_j.shape[0] > n_sel:
                     # Select subset of rows randomly as suggested by Wood (2013)
-                    sel = np_gen.choice(X_b_j.shape[0], size=n_sel, replace=False)
+                    sel = np_gen.choice(X_b_j.shape[0], size=int(n_sel), replace=False)
                     X_b_j = X_b_j[sel, :]
 
                 R = np.linalg.qr(X_b_j.toarray(), mode="r")
-- 
2.43.0


From a351bfcca157e8e20cd3fb30f8f43f0b586783c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:15 +0000
Subject: [PATCH 72/86] fix: models without penalties can be sampled

---
 src/mssm/src/python/mcmc.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index fec74a0..27fb9e4 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -598,6 +598,10 @@ def sample_mssm(
     n_lam = len(model.overall_penalties)
     r_pen = copy.deepcopy(model.overall_penalties)
 
+    # No log penalty parameters to sample for models without penalties
+    if n_lam == 0:
+        sample_rho = False
+
     # Now get ys and Xs
     if isinstance(family, Family):
         y = model.get_ys()
@@ -852,7 +856,12 @@ def sample_mssm(
         r_pen = [pen for pens in r_pen for pen in pens]
 
     # Get initial penalty matrix
-    S_emb, _, _, _ = compute_S_emb_pinv_det(n_coef + n_scale + n_theta, r_pen, "svd")
+    if len(r_pen) > 0:
+        S_emb, _, _, _ = compute_S_emb_pinv_det(
+            n_coef + n_scale + n_theta, r_pen, "svd"
+        )
+    else:
+        S_emb = scp.sparse.csc_array((n_coef + n_scale + n_theta,) * 2)
 
     if make_proper:
         # If the overall prior should be proper, we need vague priors on all un-penalized coef
-- 
2.43.0


From 66c72aee32732ca19b0980ffa9ca29b223a3004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:15 +0000
Subject: [PATCH 73/86] fix: sampler scales the penalties of GAMMs with a scale
 parameter when smoothing penalties are not sampled

---
 src/mssm/src/python/mcmc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 27fb9e4..a113aab 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -736,15 +736,16 @@ def sample_mssm(
         MLT = scp.sparse.block_array([[MLT, None], [None, Re_theta]], format="csc")
         Minv = scp.sparse.block_array([[Minv, None], [None, inH_theta]], format="csc")
 
-    # Modify covariance matrix to account for log lambda parameters
-    if sample_rho:
+    # Correct penalties for scaling for GAMMs
+    if isinstance(family, Family) and family.twopar is True:
+        for pen in r_pen:
+            pen.lam /= orig_scale
 
-        # Correct for scaling for GAMMs
-        if isinstance(family, Family) and family.twopar is True:
+        if sample_rho:
             ep = np.log(np.exp(ep) / orig_scale)
 
-            for pidx in range(len(r_pen)):
-                r_pen[pidx].lam = np.exp(ep[pidx])
+    # Modify covariance matrix to account for log lambda parameters
+    if sample_rho:
 
         eig, U = scp.linalg.eigh(Vpreg)
 
-- 
2.43.0


From 6773e96001ab3ff98823a44d9620197f01696f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:33 +0000
Subject: [PATCH 74/86] fix: vague priors of the sampler are placed only on
 terms without a null-space penalty of their own

---
 src/mssm/src/python/mcmc.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index a113aab..9072afe 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -908,8 +908,7 @@ def sample_mssm(
         # And need extra penalties on smooths with un-penalized null-space
         # So need to re-build once
         NP_pen = []
-        NP_fidx = []  # Formula indices of terms updated with null pen
-        NP_tidx = []  # Indices of updated terms
+        NP_idx = []  # Formula and term indices of terms updated with null pen
         for formi, form in enumerate(formulas):
             sti = form.get_smooth_term_idx()
             terms = form.terms
@@ -924,8 +923,7 @@ def sample_mssm(
 
                 # Otherwise add a null-space penalty to this term
                 NP_form.terms[tidx].has_null_penalty = True
-                NP_tidx.append(tidx)
-                NP_fidx.append(formi)
+                NP_idx.append((formi, tidx))
 
             # Build penalties of the (updated) formula
             NP_pen.append(build_penalties(NP_form))
@@ -937,11 +935,7 @@ def sample_mssm(
         NP_pen = [pen for pens in NP_pen for pen in pens]
 
         for pen in NP_pen:
-            if (
-                pen.dist_param in NP_fidx
-                and pen.term in NP_tidx
-                and pen.type == PenType.NULL
-            ):
+            if (pen.dist_param, pen.term) in NP_idx and pen.type == PenType.NULL:
 
                 S_f_emb += pen.S_J_emb * lambda_0
 
-- 
2.43.0


From c7b491b7827548bc3767fd6bb3a8ac5f7ab08bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:15 +0000
Subject: [PATCH 75/86] fix: metric of the sampler is positive definite when
 the marginal likelihood has no curvature

---
 src/mssm/src/python/mcmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 9072afe..55162fc 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -750,7 +750,9 @@ def sample_mssm(
         eig, U = scp.linalg.eigh(Vpreg)
 
         # fmt: off
-        # Make sure metric is pd..
+        # Make sure metric is pd (no usable curvature at all: fall back to unit variance)..
+        if np.max(eig) <= 0:
+            eig = np.ones_like(eig)
         thresh = np.power(np.finfo(float).eps, 0.5) * np.max(eig)
         eig[eig < thresh] = thresh
 
-- 
2.43.0


From b62246f91e32476a277a7d707783f8864dd9eda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:50 +0000
Subject: [PATCH 76/86] fix: sampler does not evaluate penalties outside the
 support of the prior on them

---
 src/mssm/src/python/mcmc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 55162fc..7e7d4dd 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -963,6 +963,12 @@ def sample_mssm(
             return c_llk - 0.5 * penalty[0, 0]
 
         # At this point we know we're sampling rho as well
+        lp_rho = rho_prior.logpdf(rho.T)[0]
+
+        # No need to evaluate penalties outside the support of the prior
+        if lp_rho == -np.inf:
+            return -np.inf
+
         # Need: pseudo-determinant of penalty on coef and prior on lam/rho
         for lami, lrho in enumerate(rho):
             r_pen[lami].lam = np.exp(lrho[0])
@@ -1011,7 +1017,7 @@ def sample_mssm(
             S_embr += S_f_emb
 
         # Now adjust c_llk for prior on rho
-        c_llk += rho_prior.logpdf(rho.T)[0]
+        c_llk += lp_rho
 
         return (c_llk - 0.5 * coef.T @ S_embr @ coef + 0.5 * lgdetS)[0, 0]
 
-- 
2.43.0


From 9cf0c2634f7370d7776ee85cfa2d0ed940793efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:57 +0000
Subject: [PATCH 77/86] fix: file loading options of the formula are used when
 the model matrix products are accumulated

---
 src/mssm/src/python/gamm_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 920367a..acb62f9 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3455,7 +3455,7 @@ def read_XTX(
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     y_flat_file, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(
@@ -3717,7 +3717,7 @@ def read_eta(file, formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     _, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
@@ -3959,7 +3959,7 @@ def solve_gamm_sparse2(
 
         for fi, file in enumerate(iterator):
             # Read file
-            file_dat = pd.read_csv(file)
+            file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
             # Encode data in this file
             y_flat_file, _, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
-- 
2.43.0


From f02729e700fc195889308222d16583c4db59fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:57 +0000
Subject: [PATCH 78/86] fix: unique values read from files are returned in
 sorted order

---
 src/mssm/src/python/file_loading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index cfb8ae4..8d7b9c8 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -51,7 +51,8 @@ def read_unique(
 
     unq.update(*unq_cov)
 
-    return np.array(list(unq))
+    # Sorted like np.unique, order must not depend on hashes
+    return np.array(sorted(unq))
 
 
 def read_cor_cov_single(
-- 
2.43.0


From 0bf74e90f8d330c79426767eeedbd719f4f861ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:04 +0000
Subject: [PATCH 79/86] fix: cached model matrices of files with the same name
 are kept apart

---
 src/mssm/src/python/gamm_solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index acb62f9..eed7033 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -34,6 +34,7 @@ from .custom_types import Fit_info, LambdaTerm, DerivOrder
 from .terms import GammTerm
 from .matrix_solvers import *  # noqa: F403
 from collections.abc import Callable
+import hashlib
 import os
 import math
 import sys
@@ -3294,7 +3295,8 @@ def read_mmat(
     :rtype: scp.sparse.csc_array
     """
 
-    target = file.split("/")[-1].split(".csv")[0] + f"_{fi}.npz"
+    # Full path identifies the file: names alone need not be unique
+    target = hashlib.sha256(str(file).encode()).hexdigest() + f"_{fi}.npz"
 
     if should_cache is False:
         mmat = build_sparse_matrix_from_formula(
-- 
2.43.0


From 8fa32bc96134cd50044faccef9df3bb2f3ebc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:42 +0000
Subject: [PATCH 80/86] fix: files without valid rows contribute nothing
 instead of raising

---
 src/mssm/src/python/gamm_solvers.py | 17 +++++++++++++++++
 src/mssm/src/python/smooths.py      | 11 +++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index eed7033..0e6d95a 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3468,6 +3468,11 @@ def read_XTX(
 
     # Parallelize over sub-sets of this file
     rows, _ = cov_flat_file.shape
+
+    if rows == 0:  # No valid rows in this file
+        n_coef = formula.n_coef
+        return scp.sparse.csc_array((n_coef, n_coef)), np.zeros((n_coef, 1)), 0
+
     cov_flat_files = np.array_split(cov_flat_file, min(nc, rows), axis=0)
     y_flat_files = np.array_split(y_flat_file, min(nc, rows))
     subsets = [i for i in range(len(cov_flat_files))]
@@ -3554,6 +3559,10 @@ def keep_XTX(
     for fi, _ in enumerate(iterator):
 
         rows, _ = cov_split[fi].shape
+
+        if rows == 0:  # Fewer rows than files
+            continue
+
         cov_flat_files = np.array_split(cov_split[fi], min(nc, rows), axis=0)
         y_flat_files = np.array_split(y_split[fi], min(nc, rows))
         subsets = [i for i in range(len(cov_flat_files))]
@@ -3727,6 +3736,10 @@ def read_eta(file, formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
 
     # Parallelize over sub-sets of this file
     rows, _ = cov_flat_file.shape
+
+    if rows == 0:  # No valid rows in this file
+        return []
+
     cov_flat_files = np.array_split(cov_flat_file, min(nc, rows), axis=0)
     subsets = [i for i in range(len(cov_flat_files))]
 
@@ -3798,6 +3811,10 @@ def keep_eta(formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
     eta = []
     for fi, _ in enumerate(cov_split):
         rows, _ = cov_split[fi].shape
+
+        if rows == 0:  # Fewer rows than files
+            continue
+
         cov_flat_files = np.array_split(cov_split[fi], min(nc, rows), axis=0)
         subsets = [i for i in range(len(cov_flat_files))]
 
diff --git a/src/mssm/src/python/smooths.py b/src/mssm/src/python/smooths.py
index 9e86301..bdf90b8 100644
--- a/src/mssm/src/python/smooths.py
+++ b/src/mssm/src/python/smooths.py
@@ -137,14 +137,9 @@ def B_spline_basis(
     # Eilers, P. H. C., & Marx, B. D. (1996). Flexible smoothing with B-splines and penalties.
     # https://doi.org/10.1214/ss/1038425655
 
-    xl = min(cov)
-    xr = max(cov)
-
-    if max_c is not None:
-        xr = max_c
-
-    if min_c is not None:
-        xl = min_c
+    # cov can be empty (file without valid rows) if both limits are provided
+    xr = max(cov) if max_c is None else max_c
+    xl = min(cov) if min_c is None else min_c
 
     # ndx is equal to n in Eilers & Marx (2011)
     # So there will be n-1 knots (without expansion)
-- 
2.43.0


From b37a3a794a1c72f6040137b39ec1f7aa33a9bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:12 +0000
Subject: [PATCH 81/86] fix: refitting a GAMM discards auto-correlation and
 transformation of the previous fit

---
 src/mssm/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 2fd0b88..37f602d 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3135,6 +3135,12 @@ class GAMM(GAMMLSS):
 
         self.offset = 0
 
+        # Nothing of a previous fit may be left
+        self.rho = None
+        self.res_ar = None
+        self.transform_X = None
+        self.hessian_obs = None
+
         if len(self.formulas[0].file_paths) == 0:
             # We need to build the model matrix once
             terms = self.formulas[0].terms
-- 
2.43.0


From 558e9ad544789ce584be7f6ebb340e5588a9caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:12 +0000
Subject: [PATCH 82/86] fix: refitting a model discards the bias corrected edf
 of the previous fit

---
 src/mssm/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 37f602d..4593e28 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1218,6 +1218,8 @@ class GSMM:
             )
             self.hessian -= fit_info.eps * scp.sparse.identity(H.shape[1], format="csc")
         self.info = fit_info
+        self.edf1 = None  # Belong to the previous fit
+        self.term_edf1 = None
 
         # Assign predictions and parameter estimates
         if build_mat is None:
@@ -2128,6 +2130,8 @@ class GAMMLSS(GSMM):
             )
             self.hessian -= fit_info.eps * scp.sparse.identity(H.shape[1], format="csc")
         self.info = fit_info
+        self.edf1 = None  # Belong to the previous fit
+        self.term_edf1 = None
 
     ################################### Prediction ###################################  # noqa: E266
 
@@ -3384,6 +3388,8 @@ class GAMM(GAMMLSS):
         self.term_edf = term_edf
         self.penalty = penalty
         self.info = fit_info
+        self.edf1 = None  # Belong to the previous fit
+        self.term_edf1 = None
         self.lvi = LVI
 
     #################################### Prediction ################################### # noqa: E266
-- 
2.43.0


From 9495bc4dac0e8d72c0462d3a0943ac9e24d0d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:58 +0000
Subject: [PATCH 83/86] fix: formulas work on copies of their terms, so that
 terms can be used in several formulas

---
 src/mssm/src/python/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index a08ef57..ad334bb 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -325,7 +325,7 @@ class Formula:
     ) -> None:
 
         self.lhs = lhs
-        self.terms = terms
+        self.terms = copy.deepcopy(terms)  # Are modified below
         self.data = data
         self.series_id = series_id
         self.print_warn = print_warn
-- 
2.43.0


From fc784ac32989a1cd384889325fdd27f60fb60a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:06 +0000
Subject: [PATCH 84/86] fix: REML score of models without penalties

---
 src/mssm/src/python/utils.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index a12bb92..b62aed5 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2242,13 +2242,19 @@ def REML(
     :rtype: float|np.ndarray
     """
 
-    # Compute S_\\lambda before any re-parameterization
-    S_emb, _, _, _ = compute_S_emb_pinv_det(len(coef), penalties, "svd")
-
-    # Re-parameterize as shown in Wood (2011) to enable stable computation of log(|S_\\lambda|+)
-    Sj_reps, _, _, _, S_reps, SJ_term_idx, S_idx, S_coefs, Q_reps, _ = reparam(
-        None, penalties, None, option=4
-    )
+    if len(penalties) > 0:
+        # Compute S_\\lambda before any re-parameterization
+        S_emb, _, _, _ = compute_S_emb_pinv_det(len(coef), penalties, "svd")
+
+        # Re-parameterize as shown in Wood (2011) to enable stable computation of
+        # log(|S_\\lambda|+)
+        Sj_reps, _, _, _, S_reps, SJ_term_idx, S_idx, S_coefs, Q_reps, _ = reparam(
+            None, penalties, None, option=4
+        )
+    else:
+        # Nothing is penalized
+        S_emb = scp.sparse.csc_array((len(coef), len(coef)))
+        S_reps = []
 
     # if not X is None:
     # S_emb = None
-- 
2.43.0


From 8461a5dd2632ab724f3b1e873b60840f8b6a3290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 85/86] fix: f() with binary= and a list of basis sizes raised
 a TypeError

---
 src/mssm/src/python/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index da650d4..3cee0f1 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -390,7 +390,7 @@ class f(GammTerm):
             # subtracted after identifiability constraints have been observed,
             # while for all other terms mssm acts as if one additional coef was requested.
             if te is False:
-                nk = nk + 1
+                nk = [k + 1 for k in nk] if isinstance(nk, list) else nk + 1
 
         # Default penalty setup
         if penalty is None:
-- 
2.43.0


From 473e45cc37cfe962108951e7f708d112e778d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:19 +0000
Subject: [PATCH 86/86] fix: a NaN Hamiltonian in a NUTS trajectory poisoned
 the step size

---
 src/mssm/src/cpp/mcmc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/cpp/mcmc.cpp b/src/mssm/src/cpp/mcmc.cpp
index 6b5d013..5d111e6 100644
--- a/src/mssm/src/cpp/mcmc.cpp
+++ b/src/mssm/src/cpp/mcmc.cpp
@@ -176,6 +176,9 @@ M. J. Betancourt (2013,2018) - requiring book-keeping for the additional rsum va
     
         double Hprime = Lprime - compute_energy(rprime,Minv);
 
+        // A trajectory that left the range of floating point numbers is divergent
+        if (std::isnan(Hprime)) Hprime = -std::numeric_limits<double>::infinity();
+
         // log of prob ratios
         double lp = Hprime - H0;
 
-- 
2.43.0

