From 6230f6d118ce7dc706b4dd02186b30b78e3a0c3a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 01/70] fix: keep Categorical.marginalize variables aligned
 with the requested order and cardinality one variables

---
 veroku/factors/categorical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index e4c8a17..24c2d92 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -278,8 +278,12 @@ class Categorical(Factor):
         vars_to_sum_out = [v for v in self.var_names if v not in vars_to_keep]
         indices_to_sum_out = [self.var_names.index(v) for v in vars_to_sum_out]
         result_tensor = np.apply_over_axes(special.logsumexp, self.log_probs_tensor, axes=indices_to_sum_out)
+        # remove only the summed out dimensions and order the others in the same way as vars_to_keep
+        result_tensor = np.squeeze(result_tensor, axis=tuple(indices_to_sum_out))
+        remaining_vars = [v for v in self.var_names if v in vars_to_keep]
+        result_tensor = result_tensor.transpose([remaining_vars.index(v) for v in vars_to_keep])
         vars_to_keep_assignment_values = [self.vars_assignments_names_dict[var] for var in vars_to_keep]
-        return Categorical(var_names=vars_to_keep, log_probs_tensor=np.squeeze(result_tensor),
+        return Categorical(var_names=vars_to_keep, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_to_keep_assignment_values)
 
     def reduce(self, vrs, values):
-- 
2.43.0


From d3868b5eef2d29a12a938c2ef16fc8559dc1cd2b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 02/70] fix: match up zeros by variable in Categorical.cancel
 instead of by raw tensor position

---
 veroku/factors/categorical.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 24c2d92..d29c230 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -360,17 +360,13 @@ class Categorical(Factor):
         :return: The factor quotient.
         :rtype: Categorical
         """
-        augmented_factor_tensor = factor.log_probs_tensor.copy()
-        special_case_indices = np.where(
-            (augmented_factor_tensor == -np.inf) & (self.log_probs_tensor == -np.inf)
-        )
-
-        indices_are_empty = [a.size == 0 for a in special_case_indices]
+        def special_subtract(tensor_a, tensor_b):
+            # the zeros have to be matched up after the tensors have been aligned (according to their variables)
+            zero_over_zero = (tensor_a == -np.inf) & (tensor_b == -np.inf)
+            return operator.sub(tensor_a, np.where(zero_over_zero, 0.0, tensor_b))
 
-        if not all(indices_are_empty):
-            augmented_factor_tensor[special_case_indices] = np.float64(0.0)
         result_tensor, result_vars = self.tensor_operation(
-            self.log_probs_tensor, augmented_factor_tensor, self.var_names, factor.var_names, operator.sub
+            self.log_probs_tensor, factor.log_probs_tensor, self.var_names, factor.var_names, special_subtract
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-- 
2.43.0


From ce6da910c707f24b33113eac144e773c9bb5228a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 03/70] fix: Categorical.equals should not broadcast over
 different cardinalities

---
 veroku/factors/categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index d29c230..4f1e37a 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -199,6 +199,8 @@ class Categorical(Factor):
         if set(self.var_names) != set(factor.var_names):
             return False
         factor_copy = factor.reorder(self.var_names)
+        if self.log_probs_tensor.shape != factor_copy.log_probs_tensor.shape:
+            return False
         if not np.allclose(self.log_probs_tensor, factor_copy.log_probs_tensor, rtol=rtol, atol=atol):
             return False
         return True
-- 
2.43.0


From 846853deab89d2b5a72f9ce2c52f075fc962d643 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 04/70] fix: SparseCategorical.potential with permuted
 variables and for missing assignments

---
 veroku/factors/sparse_categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 8973f89..f351c43 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -830,9 +830,9 @@ class SparseCategorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
-        vrs_to_var_names_indices = [self.var_names.index(v) for v in vrs]
-        var_names_order_assignments = tuple([assignment[i] for i in vrs_to_var_names_indices])
-        return np.exp(self.log_probs_table[var_names_order_assignments])
+        vrs_assignment_dict = dict(zip(vrs, assignment))
+        var_names_order_assignments = tuple(vrs_assignment_dict[v] for v in self.var_names)
+        return np.exp(self.log_probs_table.get(var_names_order_assignments, self.default_log_prob))
 
     @property
     def dense_distribution_array(self):
-- 
2.43.0


From e4c7ea1b891c47acbb69f53d9494bd71da7aac9d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 05/70] fix: SparseCategorical.reduce for evidence without
 explicit entries and non-default default_log_prob

---
 veroku/factors/sparse_categorical.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index f351c43..f7f11ed 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -556,14 +556,20 @@ class SparseCategorical(Factor):
             old_variable_order=self.var_names,
             old_assign_probs=self.log_probs_table,
         )
-        lp_table = nested_table[tuple(values)]
+        # evidence without any explicit table entries leaves only missing (i.e. default) assignments
+        lp_table = nested_table.get(tuple(values), {})
         result_var_cards = copy.deepcopy(self.var_cards)
         for var in vrs:
             del result_var_cards[var]
 
         cards = list(result_var_cards.values())
         var_names = vars_unobserved
-        resulting_factor = SparseCategorical(var_names=var_names, log_probs_table=lp_table, cardinalities=cards)
+        resulting_factor = SparseCategorical(
+            var_names=var_names,
+            log_probs_table=lp_table,
+            cardinalities=cards,
+            default_log_prob=self.default_log_prob,
+        )
 
         return resulting_factor
 
-- 
2.43.0


From 089baa4b8241d8afb59dcb26395ec61b2f84f24f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 06/70] fix: take default_log_prob into account in all
 SparseCategorical operations

---
 veroku/factors/sparse_categorical.py | 39 +++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index f7f11ed..fc49fa1 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -38,6 +38,22 @@ def _make_dense(factor):
     return factor_copy
 
 
+def _make_defaults_explicit(factor):
+    """
+    Make the implicit default values of a factor explicit, if the default is not the (zero probability) standard one.
+
+    :param factor: The factor to convert.
+    :type factor: SparseCategorical
+    :return: An equivalent factor with a default log probability of -inf.
+    :rtype: SparseCategorical
+    """
+    if factor.default_log_prob == -np.inf:
+        return factor
+    explicit_factor = _make_dense(factor)
+    explicit_factor.default_log_prob = -np.inf
+    return explicit_factor
+
+
 def _make_dense_default_probs_dict(cardinalities, default_value):
     """
     Make a dictionary representing a categorical probability table that contains all assignments, as specified by the
@@ -62,7 +78,7 @@ def _make_dense_default_probs_dict(cardinalities, default_value):
         (1,2):0.0}
     """
     dense_assingments = itertools.product(*[range(c) for c in cardinalities])
-    dense_default_dict = dict(zip(dense_assingments, [default_value] * np.product(cardinalities)))
+    dense_default_dict = dict(zip(dense_assingments, itertools.repeat(default_value)))
     return dense_default_dict
 
 
@@ -520,7 +536,7 @@ class SparseCategorical(Factor):
             new_variables_order_outer=vars_to_keep,
             new_variables_order_inner=vars_to_sum_out,
             old_variable_order=self.var_names,
-            old_assign_probs=self.log_probs_table,
+            old_assign_probs=_make_defaults_explicit(self).log_probs_table,
         )
         result_table = dict()
         for l1_assign, log_probs_table in nested_table.items():
@@ -595,7 +611,9 @@ class SparseCategorical(Factor):
         """
         if not isinstance(factor, SparseCategorical):
             raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
-        return self._apply_binary_operator(factor, operator.add, default_rules="any")
+        return _make_defaults_explicit(self)._apply_binary_operator(
+            _make_defaults_explicit(factor), operator.add, default_rules="any"
+        )
 
     def cancel(self, factor):
         """
@@ -612,7 +630,9 @@ class SparseCategorical(Factor):
                 return -np.inf
             return val_a - val_b
 
-        return self._apply_binary_operator(factor, special_divide, default_rules="any")
+        return _make_defaults_explicit(self)._apply_binary_operator(
+            _make_defaults_explicit(factor), special_divide, default_rules="any"
+        )
 
     def divide(self, factor):
         """
@@ -632,7 +652,7 @@ class SparseCategorical(Factor):
         :return: The argmax assignment.
         :rtype: int list
         """
-        return max(self.log_probs_table.items(), key=operator.itemgetter(1))[0]
+        return max(_make_defaults_explicit(self).log_probs_table.items(), key=operator.itemgetter(1))[0]
 
     def _apply_to_probs(self, func, include_assignment=False):
         """
@@ -737,7 +757,7 @@ class SparseCategorical(Factor):
         :rtype: SparseCategorical
         """
 
-        factor_copy = self.copy()
+        factor_copy = _make_defaults_explicit(self).copy()
         logz = special.logsumexp(list(factor_copy.log_probs_table.values()))
         for assign, prob in factor_copy.log_probs_table.items():
             factor_copy.log_probs_table[assign] = prob - logz
@@ -797,7 +817,7 @@ class SparseCategorical(Factor):
         :rtype: float
         """
         log_p = self.normalize()
-        log_q = factor
+        log_q = _make_defaults_explicit(factor)
         if normalize_factor:
             log_q = factor.normalize()
 
@@ -821,7 +841,7 @@ class SparseCategorical(Factor):
         :rtype: float
         """
         # make uniform copy
-        uniform_factor = self.copy()
+        uniform_factor = _make_defaults_explicit(self).copy()
         cards = list(uniform_factor.var_cards.values())
         uniform_log_prob = -np.log(np.product(cards))
         uniform_factor._apply_to_probs(lambda x: uniform_log_prob)
@@ -854,7 +874,7 @@ class SparseCategorical(Factor):
         """
         An array containing all the discrete assignments and the corresponding probabilities.
         """
-        log_weight = special.logsumexp(list(self.log_probs_table.values()))
+        log_weight = special.logsumexp(list(_make_defaults_explicit(self).log_probs_table.values()))
         weight_ = np.exp(log_weight)
         return weight_
 
@@ -927,6 +947,7 @@ class SparseCategorical(Factor):
             var_names=new_var_names_order,
             log_probs_table=new_log_probs_table,
             cardinalities=reordered_cardinalities,
+            default_log_prob=self.default_log_prob,
         )
 
 
-- 
2.43.0


From 2a4757ebc20e0fbaeca7a2921811a8c3b621af27 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 07/70] fix: Gaussian.equals and kl_divergence should align a
 copy instead of reordering the other factor

---
 veroku/factors/gaussian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 713a8c8..08ae1b2 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -313,12 +313,12 @@ class Gaussian(Factor):
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
         if self.canform:
-            if self._canform_equals(factor, rtol, atol):
+            if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
             return False
         self._update_covform()
         if self.covform:
-            if not self._covform_equals(factor, rtol, atol):
+            if not self._covform_equals(gaussian_copy, rtol, atol):
                 return False
         return True
 
@@ -739,9 +739,10 @@ class Gaussian(Factor):
             return 0.0
         # TODO: can we compute the correct ('normalised') KL divergence without explicitly normalizing?
         normalized_self = self.normalize()
-        factor_ = factor
+        factor_ = factor.copy()
         if normalize_factor:
             factor_ = factor.normalize()
+        factor_._reorder_parameters(self.var_names)
         inv_cov_q = factor_.get_prec()
         inv_cov_p = normalized_self.get_prec()
         cov_p = normalized_self.get_cov()
-- 
2.43.0


From f1237dd19950f895b7723defead9503af1efb6a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 08/70] fix: allow a Gaussian to be reduced over its full scope

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 08ae1b2..3ec48bc 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -659,8 +659,8 @@ class Gaussian(Factor):
         """
         prec = self.get_prec()
         h_vec = self.get_h()
-        prec_reduced = 0
-        h_reduced = 0
+        prec_reduced = np.zeros([0, 0])
+        h_reduced = np.zeros([0, 1])
         if unobserved_indices:
             prec_xx = prec[np.ix_(unobserved_indices, unobserved_indices)]
             prec_reduced = prec_xx.copy()
-- 
2.43.0


From da544b152450707084c5f5ef3b56161a866d4668 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 09/70] fix: support non-square linear transforms in linear
 Gaussian factors

---
 veroku/factors/gaussian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 3ec48bc..7b9dea4 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -98,7 +98,7 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     prec_cpd = prec_joint.copy()
     prec_cpd[:x_dim, :x_dim] = prec_cpd[:x_dim, :x_dim] - prec_xx
 
-    mean_joint = np.block([[u_x], [a_mat.T @ u_x]])
+    mean_joint = np.block([[u_x], [a_mat @ u_x]])
 
     h_cpd = prec_joint @ mean_joint
     h_cpd[:x_dim] = h_cpd[:x_dim] - h_x
@@ -123,7 +123,8 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     :return: The linear Gaussian Template
     :rtype: Gaussian
     """
-    assert len(conditioning_var_templates) == a_mat.shape[0]
+    assert len(conditioning_var_templates) == a_mat.shape[1]
+    assert len(conditional_var_templates) == a_mat.shape[0]
     assert n_mat.shape[0] == a_mat.shape[0]
     nlg = make_linear_gaussian(a_mat, n_mat, conditioning_var_templates, conditional_var_templates)
     var_templates = conditioning_var_templates + conditional_var_templates
-- 
2.43.0


From 8c11a175dcebe7405f5e5caacb467618ba5c63d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 10/70] fix: keep the normalisation constant in linear Gaussian
 CPD templates

---
 veroku/factors/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 7b9dea4..d064aca 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -128,7 +128,7 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     assert n_mat.shape[0] == a_mat.shape[0]
     nlg = make_linear_gaussian(a_mat, n_mat, conditioning_var_templates, conditional_var_templates)
     var_templates = conditioning_var_templates + conditional_var_templates
-    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": 0}
+    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": nlg.get_g()}
     return GaussianTemplate(gaussian_parameters, var_templates)
 
 
-- 
2.43.0


From aed492742b73d0c67d9da03a5d046f85bd884be2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 11/70] fix: Gaussian template factors should not always be
 marked as vacuous

---
 veroku/factors/gaussian.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index d064aca..adabce5 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1081,7 +1081,4 @@ class GaussianTemplate(FactorTemplate):
         if format_dict is not None:
             assert var_names is None
             var_names = [vt.format(**format_dict) for vt in self._var_templates]
-        # TODO: remove this and find better solution
-        g_val = Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-        g_val._is_vacuous = True
-        return g_val
+        return Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-- 
2.43.0


From 810a8ac9077c7bc49f10d82718bad1da80842eb4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 12/70] fix: GaussianMixture.equals should match up components
 one to one in any order

---
 veroku/factors/experimental/gaussian_mixture.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 272b35a..ae40f0d 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -104,12 +104,14 @@ class GaussianMixture(Factor):
             raise TypeError(f"factor must be of GaussianMixture type but has type {type(factor)}")
         if factor.num_components != self.num_components:
             return False
-        for i in range(self.num_components):
-            found_corresponding_factor = False
-            for j in range(i, self.num_components):
-                if self.get_component(i).equals(factor.get_component(j)):
-                    found_corresponding_factor = True
-            if not found_corresponding_factor:
+        # each component has to correspond to its own (different) component in the other mixture, in any order
+        unmatched_components = list(factor.components)
+        for component in self.components:
+            for j, other_component in enumerate(unmatched_components):
+                if component.equals(other_component, rtol=rtol, atol=atol):
+                    del unmatched_components[j]
+                    break
+            else:
                 return False
         return True
 
-- 
2.43.0


From 363100ca03d3592fdf2478da4524fa10566baef7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 13/70] fix: keep the cancel method when copying a
 GaussianMixture

---
 veroku/factors/experimental/gaussian_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index ae40f0d..2cc0841 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -136,7 +136,7 @@ class GaussianMixture(Factor):
         component_copies = []
         for comp in self.components:
             component_copies.append(comp.copy())
-        return GaussianMixture(component_copies)
+        return GaussianMixture(component_copies, cancel_method=self.cancel_method)
 
     def multiply(self, factor):
         """
-- 
2.43.0


From d5552ae90cdb65ec7cf2262b6b0416620975cd7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 14/70] fix: GaussianMixture.argmax should use one dimensional
 starting points

---
 veroku/factors/experimental/gaussian_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 2cc0841..51f6a5a 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -479,7 +479,7 @@ class GaussianMixture(Factor):
 
         for comp in self.components:
             res = minimize(neg_gmm_log_pot,
-                           x0=comp.get_mean(),
+                           x0=comp.get_mean().ravel(),
                            method=self.optimization_alg,
                            options={"disp": False})
             x_local_max = res.x
-- 
2.43.0


From a4e239ef6277a494205d14cc05727656e6ef9f9b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 15/70] fix: merge all transitively dependent factors in
 FactorizedFactor marginalisation and normalisation

---
 .../factors/experimental/factorised_factor.py | 50 +++++++------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 8245670..1398743 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -158,8 +158,7 @@ class FactorizedFactor(Factor):
 
         :return: The normalized factor.
         """
-        factor_copy = self.copy()
-        factor_copy._merge_dependent_factors()
+        factor_copy = self._merge_dependent_factors()
         for i, factor_i in enumerate(factor_copy.factors):
             factor_copy.factors[i] = factor_i.normalize()
         return factor_copy
@@ -230,18 +229,9 @@ class FactorizedFactor(Factor):
         :rtype: FactorizedFactor
         """
         # TODO: Add tests for this function
-        merged_factors = []
-        already_merged_factor_indices = []
-        for i, factor_i in enumerate(self.factors):
-            factor_i_merged = factor_i.copy()
-            for j in range(i + 1, len(self.factors)):
-                factor_j = self.factors[j]
-                if j not in already_merged_factor_indices:
-                    if set(factor_i.var_names).intersection(set(factor_j.varnames)) > 0:
-                        factor_i_merged = factor_i_merged.multiply(factor_j)
-                        already_merged_factor_indices.append(j)
-            merged_factors.append(factor_i_merged)
-        return FactorizedFactor(merged_factors)
+        merged_factor = self.copy()
+        merged_factor._merge_factors_with_shared_scope(set(self.var_names))
+        return merged_factor
 
     def _merge_factors_with_shared_scope(self, vrs_set):
         """
@@ -253,24 +243,22 @@ class FactorizedFactor(Factor):
         :param vrs_set: The common scope variables to be considered to determine 'dependent' factors.
         :type vrs_set: str list
         """
-        observed_factor_vars_list = []
-
-        for factor in self.factors:
-            observed_factor_vars = set(factor.var_names).intersection(vrs_set)
-            observed_factor_vars_list.append(observed_factor_vars)
-
+        merged_scopes = []
         merged_factors = []
-        merged_factors_indices = []
-        for i, observed_factor_i_vars in enumerate(observed_factor_vars_list):
-            if i not in merged_factors_indices:
-                merged_factor = self.factors[i]
-                for j in range(i + 1, len(observed_factor_vars_list)):
-                    observed_factor_j_vars = observed_factor_vars_list[j]
-                    if j not in merged_factors_indices:
-                        if len(observed_factor_i_vars.intersection(observed_factor_j_vars)) > 0:
-                            merged_factor = merged_factor.multiply(self.factors[j])
-                            merged_factors_indices.append(j)
-                merged_factors.append(merged_factor)
+        for factor in self.factors:
+            scope = set(factor.var_names).intersection(vrs_set)
+            # this factor joins all of the groups that it overlaps with
+            group_indices = [i for i, merged_scope in enumerate(merged_scopes) if merged_scope & scope]
+            if not group_indices:
+                merged_scopes.append(scope)
+                merged_factors.append(factor)
+                continue
+            first_index = group_indices[0]
+            merged_factors[first_index] = merged_factors[first_index].multiply(factor)
+            merged_scopes[first_index] = merged_scopes[first_index] | scope
+            for index in reversed(group_indices[1:]):
+                merged_factors[first_index] = merged_factors[first_index].multiply(merged_factors.pop(index))
+                merged_scopes[first_index] = merged_scopes[first_index] | merged_scopes.pop(index)
         self.factors = merged_factors
 
     def reduce(self, vrs, values):
-- 
2.43.0


From 6aaa8510b01f78ef6db038bd1f0f46cb3db68d00 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 16/70] fix: FactorizedFactor.reduce when some of the factors
 are fully observed

---
 .../factors/experimental/factorised_factor.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 1398743..238d426 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -274,22 +274,25 @@ class FactorizedFactor(Factor):
         """
         all_evidence_dict = dict(zip(vrs, values))
         reduced_factors = []
-        additional_log_weight = 0.0
+        fully_observed_factors = []
         for factor in self.factors:
             factor_var_names = factor.var_names
-            if set(vrs) == set(factor_var_names):
-                additional_log_weight += factor.log_potential(x_val=values, vrs=vrs)
-            elif len(set(vrs).intersection(set(factor_var_names))) > 0:
+            if len(set(vrs).intersection(set(factor_var_names))) > 0:
                 subset_vrs, subset_values = get_subset_evidence(
                     all_evidence_dict=all_evidence_dict, subset_vars=factor.var_names
                 )
                 reduced_factor = factor.reduce(subset_vrs, subset_values)
-                reduced_factors.append(reduced_factor)
+                if set(factor_var_names) <= set(vrs):
+                    fully_observed_factors.append(reduced_factor)
+                else:
+                    reduced_factors.append(reduced_factor)
             else:
                 reduced_factors.append(factor.copy())
-        adjusted_weight_factor_0 = reduced_factors[0]
-        adjusted_weight_factor_0._add_log_weight(additional_log_weight)
-        reduced_factors[0] = adjusted_weight_factor_0
+        if not reduced_factors:
+            # only constants remain if all the variables are observed
+            reduced_factors.append(fully_observed_factors.pop())
+        for fully_observed_factor in fully_observed_factors:
+            reduced_factors[0]._add_log_weight(fully_observed_factor.get_log_weight())
         return FactorizedFactor(reduced_factors)
 
     def _first_factor_with_vars_index(self, var_names):
-- 
2.43.0


From b241c83af59bd6daf142d4b5505183c9f28db819 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 17/70] fix: keep the FactorizedFactor scope up to date in
 multiply and divide

---
 veroku/factors/experimental/factorised_factor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 238d426..96a2075 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -73,12 +73,15 @@ class FactorizedFactor(Factor):
         # TODO: add preference for factors with conditioning scope? Not sure if practically necessary,
         #  but would be best.
         factorised_factor_copy = self.copy()
+        if isinstance(factor, FactorizedFactor):
+            for other_factor in factor.factors:
+                factorised_factor_copy = factorised_factor_copy.multiply(other_factor)
+            return factorised_factor_copy
         index = factorised_factor_copy._first_factor_with_vars_index(factor.var_names)
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].multiply(factor)
-        else:
-            factorised_factor_copy.factors.append(factor)
-        return factorised_factor_copy
+            return factorised_factor_copy
+        return FactorizedFactor(factorised_factor_copy.factors + [factor])
 
     def divide(self, factor):
         """
@@ -94,8 +97,7 @@ class FactorizedFactor(Factor):
         for i, factorised_comp in enumerate(self.factors):
             if factorised_comp.equals(factor):
                 if len(self.factors) > 1:
-                    del factorised_factor_copy.factors[i]
-                    return factorised_factor_copy
+                    return FactorizedFactor(self.factors[:i] + self.factors[i + 1:])
                 # TODO: add else to make general vacuous factor (wont necessarily be Gaussian)
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].divide(factor)
-- 
2.43.0


From 50cc00d431c163835f20e6dc73b61905b0b04b46 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 18/70] fix: FactorizedFactor.equals should compare the joint
 distributions

---
 .../factors/experimental/factorised_factor.py   | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 96a2075..bc9fc79 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -340,26 +340,15 @@ class FactorizedFactor(Factor):
         """
         if not isinstance(factor, FactorizedFactor):
             # TODO: find a better solution here
-            return self.equals(FactorizedFactor([factor]))
+            return self.equals(FactorizedFactor([factor]), rtol=rtol, atol=atol)
         if set(factor.var_names) != set(self.var_names):
             return False
-        if len(self.factors) != len(factor.factors):
-            return self.joint_distribution.equals(factor.joint_distribution)
-
-        self_comps_with_cpoies_in_factor = []
-        for i, self_factor_i in enumerate(self.factors):
-            if i not in self_comps_with_cpoies_in_factor:
-                for other_factor_j in factor.factors:
-                    if self_factor_i.equals(other_factor_j):
-                        self_comps_with_cpoies_in_factor.append(i)
-        if len(self_comps_with_cpoies_in_factor) == len(self.factors):
-            return True
-        return False
+        return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
 
     def show(self):
         """
         Print this factorised factor.
         """
-        for i, factor in self.factors:
+        for i, factor in enumerate(self.factors):
             print(f"\n factor {i}/{len(self.factors)}:")
             factor.show()
-- 
2.43.0


From a83ecbe02eba2a62199b974263785c43457b643f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 19/70] fix: allow the KL-divergence between two factorized
 factors

---
 veroku/factors/experimental/factorised_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index bc9fc79..56afb5d 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -142,7 +142,7 @@ class FactorizedFactor(Factor):
         :rtype: float
         """
         # TODO: Make this more efficient.
-        return self.joint_distribution.kl_divergence(factor)
+        return self.joint_distribution.kl_divergence(factor.joint_distribution)
 
     @property
     def num_factors(self):
-- 
2.43.0


From a3514babd9ec486b13dc1bd8cbda5cbe57c9c5a5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 20/70] fix: non-linear Gaussians with only observed
 conditioning variables

---
 veroku/factors/experimental/nonlinear_gaussian.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 035e1bf..559a529 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -254,6 +254,8 @@ class NonLinearGaussian(Factor):
 
         # If we are still here, there we can calculate the transformation.
         conditioning_factor_sigma_points_array = np.expand_dims(np.array([]), axis=0).T  # empty dummy for generalisation
+        conditioning_factor_var_names = []
+        conditioning_log_weight = 0.0
         if self.conditioning_factor is not None:
             conditioning_factor = self.conditioning_factor.copy()
             cond_factor_observed_vars = list(set(observed_vars).intersection(conditioning_factor.var_names))
@@ -265,16 +267,18 @@ class NonLinearGaussian(Factor):
                 )
 
             conditioning_factor_sigma_points_array = get_sigma_points_array(conditioning_factor)
+            conditioning_factor_var_names = conditioning_factor.var_names
+            conditioning_log_weight = conditioning_factor.get_log_weight()
 
         # extend sigma points with observed variable values
         if len(conditioning_observed_vars) > 0:
             observed_vec = _factor_utils.make_column_vector(conditioning_observed_values)
             tiled_observed_vec = np.tile(observed_vec, [1, conditioning_factor_sigma_points_array.shape[1]])
             extended_sigma_points_array = np.concatenate([tiled_observed_vec, conditioning_factor_sigma_points_array])
-            extended_sigma_point_vars = conditioning_observed_vars + conditioning_factor.var_names
+            extended_sigma_point_vars = conditioning_observed_vars + conditioning_factor_var_names
         else:
             extended_sigma_points_array = conditioning_factor_sigma_points_array
-            extended_sigma_point_vars = conditioning_factor.var_names
+            extended_sigma_point_vars = conditioning_factor_var_names
 
         # TODO: Add conditional var_names here somehow. We need to ensure that the correct variables are used
         # in the correct place in the transformation. In the past, we have simply done this by standardising
@@ -289,12 +293,12 @@ class NonLinearGaussian(Factor):
         nov = len(conditioning_observed_vars)  # number of observed vars
         joint_cov = joint_cov[nov:, nov:]
         joint_mean = joint_mean[nov:, :]
-        joint_var_names = conditioning_factor.var_names + self.conditional_vars
+        joint_var_names = conditioning_factor_var_names + self.conditional_vars
 
         joint_cov_plus_noise, joint_vars = indexed_square_matrix_operation(
             joint_cov, self.noise_cov, joint_var_names, self.conditional_vars, operator.add
         )
-        joint_log_weight = self.log_weight + conditioning_factor.log_weight
+        joint_log_weight = self.log_weight + conditioning_log_weight
         self._joint_distribution = Gaussian(cov=joint_cov_plus_noise,
                                             mean=joint_mean,
                                             log_weight=joint_log_weight,
-- 
2.43.0


From fd8ac74e07e8852c609ef430d2da4ecb175814b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 21/70] fix: transform non-linear Gaussian conditioning
 variables in a consistent order

---
 .../factors/experimental/nonlinear_gaussian.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 559a529..bf7f757 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -280,20 +280,20 @@ class NonLinearGaussian(Factor):
             extended_sigma_points_array = conditioning_factor_sigma_points_array
             extended_sigma_point_vars = conditioning_factor_var_names
 
-        # TODO: Add conditional var_names here somehow. We need to ensure that the correct variables are used
-        # in the correct place in the transformation. In the past, we have simply done this by standardising
-        # on the variable indices in different place, but this is probably not very safe.
+        # the transform should always receive the conditioning variables in the same order
+        extended_order = [extended_sigma_point_vars.index(var) for var in self.conditioning_vars]
+        extended_sigma_points_array = extended_sigma_points_array[extended_order, :]
         joint_cov, joint_mean = sigma_points_array_to_joint_params(sigma_points_array=extended_sigma_points_array,
                                                                    transform=self.transform,
-                                                                   var_names=extended_sigma_point_vars)
+                                                                   var_names=self.conditioning_vars.copy())
         if (joint_mean.shape[0] != len(self.var_names)) or (joint_cov.shape[0] != len(self.var_names)):
             raise AssertionError("Transform resulted in incorrect number of variables.")
 
         # remove the observed vars again after transformation
-        nov = len(conditioning_observed_vars)  # number of observed vars
-        joint_cov = joint_cov[nov:, nov:]
-        joint_mean = joint_mean[nov:, :]
-        joint_var_names = conditioning_factor_var_names + self.conditional_vars
+        unobserved_indices = [i for i, var in enumerate(self.var_names) if var not in conditioning_observed_vars]
+        joint_cov = joint_cov[np.ix_(unobserved_indices, unobserved_indices)]
+        joint_mean = joint_mean[unobserved_indices, :]
+        joint_var_names = [self.var_names[i] for i in unobserved_indices]
 
         joint_cov_plus_noise, joint_vars = indexed_square_matrix_operation(
             joint_cov, self.noise_cov, joint_var_names, self.conditional_vars, operator.add
-- 
2.43.0


From b71c9c70fbdd941ccaccf7461a54df98dd293a9b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 22/70] fix: multiply a NonLinearGaussianMixture with a
 Gaussian

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index bf7f757..b0bdbb2 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -554,7 +554,7 @@ class NonLinearGaussianMixture(Factor):
         if isinstance(factor, GaussianMixture):
             gm_factor = factor
         elif isinstance(factor, Gaussian):
-            gm_factor = GaussianMixture([Gaussian])
+            gm_factor = GaussianMixture([factor])
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From 5698cc7808a4458d42a62bc3dc65f28eae14b88a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 23/70] fix: NonLinearGaussianMixture.marginalize results in
 Gaussian components

---
 veroku/factors/experimental/nonlinear_gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index b0bdbb2..f7d18bb 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -611,12 +611,12 @@ class NonLinearGaussianMixture(Factor):
         :param vrs: (list) a subset of variables in the factor's scope
         :param keep: Whether to keep or sum out vrs
         :return: the resulting marginal
-        :rtype: NonLinearGaussianMixture
+        :rtype: GaussianMixture
         """
-        new_nlgs = []
+        marginals = []
         for nlg in self.nlgs:
-            new_nlgs.append(nlg.marginalize(vrs, keep))
-        return NonLinearGaussianMixture(new_nlgs)
+            marginals.append(nlg.marginalize(vrs, keep))
+        return GaussianMixture(marginals)
 
     def sample(self, num_samples):
         """
-- 
2.43.0


From 8d0446fbe0c89fe237115af2d90b114ea0cff24e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 24/70] fix: keep the component splitting option of a
 NonLinearGaussianMixture

---
 veroku/factors/experimental/nonlinear_gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index f7d18bb..71d455e 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -534,7 +534,7 @@ class NonLinearGaussianMixture(Factor):
         :return: the factor
         :rtype: NonLinearGaussianMixture
         """
-        return NonLinearGaussianMixture(self.nlgs)
+        return NonLinearGaussianMixture(self.nlgs, self.split_singles_before_absorb)
 
     @property
     def joint_distribution(self):
@@ -568,7 +568,7 @@ class NonLinearGaussianMixture(Factor):
         for gauss in gm_factor.components:
             for nlg in self.nlgs:
                 new_nlgs.append(nlg.multiply(gauss))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def divide(self, factor):
         """
@@ -588,7 +588,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.divide(gaussian_factor))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def reduce(self, vrs, values):
         """
@@ -602,7 +602,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.reduce(vrs, values))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def marginalize(self, vrs, keep=True):
         """
-- 
2.43.0


From 57866fc5b2ad910896e1be720bd917106475ccf1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 25/70] fix: NonLinearGaussian.equals should compare up to date
 joint distributions

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 71d455e..a992524 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -101,7 +101,7 @@ class NonLinearGaussian(Factor):
         :return: The result of the comparison.
         :rtype: bool
         """
-        return self._joint_distribution.equals(factor, rtol=rtol, atol=atol)
+        return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
 
     def distance_from_vacuous(self):
         """
-- 
2.43.0


From 0b2a9e6a4971f9ddb054b39c7a007879d49b4e53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 26/70] fix: get_posterior_joint when no message has been
 passed along some of the paths

---
 veroku/cluster_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index f642083..d452baf 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -477,7 +477,11 @@ class ClusterGraph:
         """
         The factors of the messages passed in the last iteration of message passing.
         """
-        return [gmp.previously_sent_message.factor for gmp in self.graph_message_paths]
+        return [
+            gmp.previously_sent_message.factor
+            for gmp in self.graph_message_paths
+            if gmp.previously_sent_message is not None
+        ]
 
     def make_message_passing_animation_gif(self, filename="graph_animation.gif"):
         """
-- 
2.43.0


From a3f38b19382995f0b09afea5a23a81a31c64e86e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 27/70] fix: process a single cluster graph with special
 evidence more than once

---
 veroku/cluster_graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index d452baf..b2d51c3 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -431,8 +431,9 @@ class ClusterGraph:
         if len(self._clusters) == 1:
             # The Cluster Graph contains only single cluster. Message passing not possible or necessary.
             if self.special_evidence:
-                evidence_vrs = list(self.special_evidence.keys())
-                evidence_values = list(self.special_evidence.values())
+                evidence_vrs, evidence_values = get_subset_evidence(
+                    self.special_evidence, self._clusters[0].var_names
+                )
                 self._clusters[0]._factor = self._clusters[0]._factor.reduce(
                     vrs=evidence_vrs, values=evidence_values
                 )
-- 
2.43.0


From 895db68d3c4d11679ca37c899b8b92edf8ba74e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 28/70] fix: support the Python 3 division operator for factors

---
 veroku/factors/_factor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 5b0b621..15c93a8 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -212,6 +212,15 @@ class Factor:
         """
         return self.divide(other)
 
+    def __truediv__(self, other):
+        """
+        Divide this factor with another factor.
+
+        :param other: The other factor.
+        :return: The result.
+        """
+        return self.divide(other)
+
     def __eq__(self, other):
         """
         Compare this factor to another factor.
-- 
2.43.0


From cd415f8c3cae57bfdbef031a0a1625a906a06444 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 29/70] fix: factors should not share their var_names list with
 the caller

---
 veroku/factors/_factor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 15c93a8..942a9e1 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -22,11 +22,11 @@ class Factor:
         if len(set(var_names)) != len(var_names):
             raise ValueError("duplicate variables in var_names: ", var_names)
 
-        self._var_names = var_names
+        self._var_names = copy.deepcopy(var_names)
         if not isinstance(var_names, list):
             self._var_names = [var_names]
 
-        self._dim = len(var_names)
+        self._dim = len(self._var_names)
 
     @property
     def var_names(self):
-- 
2.43.0


From 1a22eff9c672703e3e85d3d6a6ded18a112dad01 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 30/70] fix: factors and templates should not share mutable
 parameters with the caller

---
 veroku/factors/categorical.py        | 6 +++---
 veroku/factors/gaussian.py           | 4 ++--
 veroku/factors/sparse_categorical.py | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 4f1e37a..40eecfc 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -130,7 +130,7 @@ class Categorical(Factor):
             self.log_probs_tensor = log_probs_tensor.copy()
         # TODO: remove this
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.deepcopy(cardinalities)
         if variables_assignment_names is not None:
             assrt_error_msg = f"variables_assignment_names should have same length as var_names" \
                               f" (received {variables_assignment_names} and {var_names})"
@@ -644,8 +644,8 @@ class CategoricalTemplate(FactorTemplate):
         """
         super().__init__(var_templates=var_templates)
         self.log_probs_tensor = copy.deepcopy(log_probs_tensor)
-        self.cardinalities = cardinalities
-        self.probs_table = probs_table
+        self.cardinalities = copy.deepcopy(cardinalities)
+        self.probs_table = copy.deepcopy(probs_table)
 
     def make_factor(self, format_dict=None, var_names=None):
         """
diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index adabce5..1d3cae7 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1063,8 +1063,8 @@ class GaussianTemplate(FactorTemplate):
         """
 
         super().__init__(var_templates=var_templates)
-        self.prec = gaussian_parameters["prec"]
-        self.h_vec = gaussian_parameters["h"]
+        self.prec = gaussian_parameters["prec"].copy()
+        self.h_vec = gaussian_parameters["h"].copy()
         self.g_val = gaussian_parameters["g"]
 
     def make_factor(self, format_dict=None, var_names=None):
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index fc49fa1..a660e97 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -437,7 +437,7 @@ class SparseCategorical(Factor):
             log_probs_table = {assignment: np.log(prob) for assignment, prob in probs_table.items()}
         self.log_probs_table = _fast_copy_probs_table(log_probs_table)
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.deepcopy(cardinalities)
         self.default_log_prob = default_log_prob
 
     # TODO: Improve this to take missing assignments into account. Alternatively: add functionality to sparsify factor
@@ -986,7 +986,7 @@ class SparseCategoricalTemplate(FactorTemplate):
         # TODO: Complete and improve docstring.
         super().__init__(var_templates=var_templates)
         self.probs_table = _fast_copy_probs_table(probs_table)
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.deepcopy(cardinalities)
 
     def make_factor(self, format_dict=None, var_names=None):
         """
-- 
2.43.0


From 5af8c62700bae7ae97023c4669384dc6607c91f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 31/70] fix: divide or cancel a Categorical by a factor with
 variables outside of its scope

---
 veroku/factors/categorical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 40eecfc..ac323f0 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -372,8 +372,8 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
-                                  result_vars]
+        vars_assignments_names_union_dict = {**factor.vars_assignments_names_dict, **self.vars_assignments_names_dict}
+        vars_assignment_names = [vars_assignments_names_union_dict[var] for var in result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
 
@@ -394,8 +394,8 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
-                                  result_vars]
+        vars_assignments_names_union_dict = {**factor.vars_assignments_names_dict, **self.vars_assignments_names_dict}
+        vars_assignment_names = [vars_assignments_names_union_dict[var] for var in result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
 
-- 
2.43.0


From 237ed5792f36156aedf21466d9780e2a5dd9de4a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 32/70] fix: SparseCategorical.equals for implicit entries and
 different cardinalities

---
 veroku/factors/sparse_categorical.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index a660e97..7f5f8a8 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -458,14 +458,9 @@ class SparseCategorical(Factor):
 
         for assign, factor_log_prob in self.log_probs_table.items():
 
-            if assign not in factor.log_probs_table:
-                # TODO: make this `not is_close` and simplify this method
-                if factor_log_prob != factor.default_log_prob:
-                    return False
-            else:
-                self_log_prob = factor.log_probs_table[assign]
-                if not np.isclose(self_log_prob, factor_log_prob, rtol=rtol, atol=atol):
-                    return False
+            self_log_prob = factor.log_probs_table.get(assign, factor.default_log_prob)
+            if not np.isclose(self_log_prob, factor_log_prob, rtol=rtol, atol=atol):
+                return False
         return True
 
     def equals(self, factor, rtol=DEFAULT_FACTOR_RTOL, atol=DEFAULT_FACTOR_ATOL):
@@ -483,7 +478,7 @@ class SparseCategorical(Factor):
         if not isinstance(factor_, SparseCategorical):
             raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
 
-        if set(self.var_names) != set(factor_.var_names):
+        if self.var_cards != factor_.var_cards:
             return False
 
         # var sets are the same
@@ -500,8 +495,9 @@ class SparseCategorical(Factor):
             return False
 
         # If all possible assignments have not been checked - check that the default values are the same
-        if not self._is_dense() and not factor._is_dense():
-            if self.default_log_prob != factor.default_log_prob:
+        num_checked_assignments = len(set(self.log_probs_table) | set(factor_.log_probs_table))
+        if num_checked_assignments < np.prod(self.cardinalities):
+            if not np.isclose(self.default_log_prob, factor_.default_log_prob, rtol=rtol, atol=atol):
                 return False
 
         return True
-- 
2.43.0


From c07d252af84a3ace19a1b42655601050de9164ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 33/70] fix: KL-divergence of Gaussian messages that are
 vacuous in some directions (rank deficient precision)

---
 veroku/factors/gaussian.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 1d3cae7..d3dd2da 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -736,6 +736,13 @@ class Gaussian(Factor):
         if self._is_vacuous or factor._is_vacuous:
             return np.inf
 
+        if not (self._is_normalizable() and factor._is_normalizable()):
+            # Only distributions with finite mass can be normalized. As above, the divergence is zero if these (partially
+            # vacuous) factors are the same and infinite otherwise.
+            if not (self._is_normalizable() or factor._is_normalizable()) and self.equals(factor):
+                return 0.0
+            return np.inf
+
         if self.equals(factor):
             return 0.0
         # TODO: can we compute the correct ('normalised') KL divergence without explicitly normalizing?
@@ -761,6 +768,22 @@ class Gaussian(Factor):
         # TODO: Add warning or error if this is negative and remove abs below
         return np.abs(kld[0][0])
 
+    def _is_normalizable(self):
+        """
+        Check if this Gaussian has a finite integral. This is not the case if the precision matrix is (numerically) not
+        positive definite (i.e. if the factor is vacuous in some direction).
+
+        :return: The result of the check.
+        :rtype: bool
+        """
+        if self.covform or self.dim == 0:
+            return True
+        variable_precs = np.diag(self.prec)
+        if not np.all(variable_precs > 0.0):
+            return False
+        scale = np.sqrt(variable_precs)
+        return np.linalg.eigvalsh(self.prec / np.outer(scale, scale))[0] > 1e-10
+
     @property
     def is_vacuous(self):
         """
-- 
2.43.0


From 5a2c9d8ba0306500f923e5c3c1083d72fa6649e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 34/70] fix: GaussianMixture.argmax should compare log
 potentials (which do not underflow)

---
 veroku/factors/experimental/gaussian_mixture.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 51f6a5a..5a317ef 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -470,7 +470,7 @@ class GaussianMixture(Factor):
         :return: The argmax assignment.
         :rtype: numpy.ndarray
         """
-        global_maximum_potential = -float("inf")
+        global_maximum_log_potential = -float("inf")
         global_argmax = None
         success = False
 
@@ -485,9 +485,9 @@ class GaussianMixture(Factor):
             x_local_max = res.x
             if res.success:
                 success = True
-                local_maximum_potential = self.potential(x_local_max)
-                if local_maximum_potential > global_maximum_potential:
-                    global_maximum_potential = local_maximum_potential
+                local_maximum_log_potential = self.log_potential(x_local_max)
+                if global_argmax is None or local_maximum_log_potential > global_maximum_log_potential:
+                    global_maximum_log_potential = local_maximum_log_potential
                     global_argmax = x_local_max
         if not success:
             raise OptimizationFailedError("Could not find optimum")
-- 
2.43.0


From c4e8dd0b4903e529813ae868b43cc2ce913d34c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 35/70] fix: GaussianMixture moment matching for weights that
 under- or overflow

---
 .../factors/experimental/gaussian_mixture.py  | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 5a317ef..b7ee918 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -444,21 +444,17 @@ class GaussianMixture(Factor):
         :rtype: Gaussian
         """
         new_mean = np.zeros([self.dim, 1])
-        log_weights = []
-        for comp in self.components:
-            weight_mean = comp.get_weight() * comp.get_mean()
-            new_mean += weight_mean
-            log_weights.append(comp.get_log_weight())
-        log_sum_weights = special.logsumexp(log_weights)
-        sum_weights = np.exp(log_sum_weights)
-        new_mean = new_mean / sum_weights
+        log_sum_weights = self.get_log_weight()
+        # the normalised weights do not under- or overflow (like the weights of the components can)
+        weights = np.exp(np.array(self._get_log_weights()) - log_sum_weights)
+        for weight, comp in zip(weights, self.components):
+            new_mean += weight * comp.get_mean()
         new_cov = np.zeros([self.dim, self.dim])
-        for comp in self.components:
-            udud_t = comp.get_weight() * (comp.get_mean() - new_mean).dot(
+        for weight, comp in zip(weights, self.components):
+            udud_t = weight * (comp.get_mean() - new_mean).dot(
                 (comp.get_mean() - new_mean).transpose()
             )
-            new_cov += comp.get_weight() * comp.get_cov() + udud_t
-        new_cov = new_cov / sum_weights
+            new_cov += weight * comp.get_cov() + udud_t
         return gauss.Gaussian(
             cov=new_cov, mean=new_mean, log_weight=log_sum_weights, var_names=self.components[0].var_names
         )
-- 
2.43.0


From d40e8d8ac9ec49a8447e9ed4a6fffa05a423afad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 36/70] fix: GaussianMixture sampling for weights that under-
 or overflow

---
 veroku/factors/experimental/gaussian_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index b7ee918..ac15342 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -366,7 +366,7 @@ class GaussianMixture(Factor):
         :return: The samples
         :rtype: float list
         """
-        weights = self._get_weights()
+        weights = np.exp(np.array(self._get_log_weights()) - self.get_log_weight())
         component_choice_samples = np.random.choice(
             range(len(weights)), size=num_samples, p=weights / np.sum(weights)
         )
-- 
2.43.0


From 92fb4d2ab8b6cfee7a43981d20ef36bf0d022ebc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 37/70] fix: keep the weight of a Gaussian when splitting it
 into a mixture

---
 veroku/factors/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index d3dd2da..ea09465 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1054,13 +1054,15 @@ class Gaussian(Factor):
         weights = [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0]
         full_cov = self.get_cov()
         full_mean = self.get_mean()
+        full_log_weight = self.get_log_weight()
 
         covs = [weight * full_cov for weight in weights]
         means = [full_mean - np.sqrt(full_cov), full_mean, full_mean + np.sqrt(full_cov)]
 
         gaussians = []
         for mean, cov, weight in zip(means, covs, weights):
-            gaussian = Gaussian(cov=cov, mean=mean, log_weight=np.log(weight), var_names=self.var_names)
+            gaussian = Gaussian(cov=cov, mean=mean, log_weight=full_log_weight + np.log(weight),
+                                var_names=self.var_names)
             gaussians.append(gaussian)
 
         return gm.GaussianMixture(gaussians)
-- 
2.43.0


From de0ba860c2ff380512b9899dd7c5538fa5c41772 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 38/70] fix: Gaussian log determinants should not under- or
 overflow

---
 veroku/factors/_factor_utils.py | 13 +++++++++++++
 veroku/factors/gaussian.py      | 24 ++++++++++++------------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/veroku/factors/_factor_utils.py b/veroku/factors/_factor_utils.py
index 7b04800..18acb8c 100644
--- a/veroku/factors/_factor_utils.py
+++ b/veroku/factors/_factor_utils.py
@@ -355,6 +355,19 @@ def log(x_val):
     return logx
 
 
+def log_det(matrix):
+    """
+    Get the log of the determinant of a matrix without under- or overflow of the determinant itself (which happens easily
+    with large matrices or elements).
+
+    :param numpy.ndarray matrix: The matrix.
+    :return: The log determinant (as for numpy.log: nan if the determinant is negative and -inf if it is zero).
+    :rtype: float
+    """
+    sign, log_abs_det = np.linalg.slogdet(matrix)
+    return np.log(sign) + log_abs_det
+
+
 def tabs_to_cover_string(string):
     """
      Get the number of tabs required to be at least the same length as a given string.
diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index ea09465..3733689 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -91,7 +91,7 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
 
     u_x = np.zeros([x_dim, 1])
     h_x = prec_xx @ u_x
-    g_x = -0.5 * u_x.T @ h_x + np.log(1.0) - 0.5 * np.log(np.linalg.det(2.0 * np.pi * cov_xx))
+    g_x = -0.5 * u_x.T @ h_x + np.log(1.0) - 0.5 * _factor_utils.log_det(2.0 * np.pi * cov_xx)
 
     cov = np.block([[cov_xx, cov_xx @ a_mat.T], [a_mat @ cov_xx, a_mat @ cov_xx @ a_mat.T + n_mat]])
     prec_joint = np.linalg.inv(cov)
@@ -104,7 +104,7 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     h_cpd[:x_dim] = h_cpd[:x_dim] - h_x
 
     utkux = mean_joint.T @ prec_joint @ mean_joint
-    g_joint = 0.5 * utkux + np.log(1.0) - 0.5 * np.log(np.linalg.det(2.0 * np.pi * cov))
+    g_joint = 0.5 * utkux + np.log(1.0) - 0.5 * _factor_utils.log_det(2.0 * np.pi * cov)
     g_cpd = g_joint - g_x
 
     return Gaussian(var_names=conditioning_vars + conditional_vars, prec=prec_cpd, h_vec=h_cpd, g_val=g_cpd)
@@ -500,7 +500,7 @@ class Gaussian(Factor):
         prec_xy_inv_prec_yy = prec_xy @ np.linalg.inv(prec_yy)
         prec = prec_xx - prec_xy_inv_prec_yy @ prec_yx
         h_vec = h_x - prec_xy_inv_prec_yy @ h_y
-        log_det_2pi_inv_prec_yy = np.log(np.linalg.det(2.0 * np.pi * inv_prec_yy))
+        log_det_2pi_inv_prec_yy = _factor_utils.log_det(2.0 * np.pi * inv_prec_yy)
         g_val = self.g_val + 0.5 * (h_y.T @ inv_prec_yy @ h_y + log_det_2pi_inv_prec_yy)
         return Gaussian(prec=prec, h_vec=h_vec, g_val=g_val, var_names=vars_to_keep)
 
@@ -559,8 +559,9 @@ class Gaussian(Factor):
         self.h_vec = self.prec @ self.mean
         utku = self.mean.T @ self.prec @ self.mean
 
-        det_2pi_cov = np.linalg.det(2.0 * np.pi * self.cov)
-        updated_g_val = self.log_weight - 0.5 * utku - 0.5 * _factor_utils.log(det_2pi_cov)
+        sign_det, log_det_2pi_cov = np.linalg.slogdet(2.0 * np.pi * self.cov)
+        log_det_2pi_cov += _factor_utils.log(sign_det)
+        updated_g_val = self.log_weight - 0.5 * utku - 0.5 * log_det_2pi_cov
 
         self.g_val = _factor_utils.make_scalar(updated_g_val)
         self.canform = True
@@ -578,8 +579,7 @@ class Gaussian(Factor):
         assert not np.isnan(np.sum(self.cov)), "Error: nan values in cov matrix after inversion."
         self.mean = self.cov @ self.h_vec
         utku = self.mean.T @ self.prec @ self.mean
-        det_2_pi_cov = np.linalg.det(2.0 * np.pi * self.cov)
-        log_weight_ = self.g_val + 0.5 * utku + 0.5 * np.log(det_2_pi_cov)
+        log_weight_ = self.g_val + 0.5 * utku + 0.5 * _factor_utils.log_det(2.0 * np.pi * self.cov)
         self.log_weight = _factor_utils.make_scalar(log_weight_)
         self.covform = True
 
@@ -758,10 +758,10 @@ class Gaussian(Factor):
         u_q = factor_.get_mean()
         u_p = normalized_self.get_mean()
 
-        det_inv_cov_q = np.linalg.det(inv_cov_q)
-        det_inv_cov_p = np.linalg.det(inv_cov_p)
-        assert det_inv_cov_q != 0.0, "Unexpected factor covariance determinant of 0."
-        det_term = 0.5 * cmath.log(det_inv_cov_p / det_inv_cov_q)
+        sign_det_q, log_abs_det_inv_cov_q = np.linalg.slogdet(inv_cov_q)
+        sign_det_p, log_abs_det_inv_cov_p = np.linalg.slogdet(inv_cov_p)
+        assert sign_det_q != 0.0, "Unexpected factor covariance determinant of 0."
+        det_term = 0.5 * (cmath.log(sign_det_p * sign_det_q) + log_abs_det_inv_cov_p - log_abs_det_inv_cov_q)
         trace_term = 0.5 * np.trace(inv_cov_q @ cov_p)
         mahalanobis_term = 0.5 * (u_p - u_q).T @ inv_cov_q @ (u_p - u_q)
         kld = det_term + trace_term + mahalanobis_term - 0.5 * normalized_self.dim
@@ -870,7 +870,7 @@ class Gaussian(Factor):
             x_val = [x_val_list[vrs.index(v)] for v in self.var_names]
         x_vec = _factor_utils.make_column_vector(x_val)
         if self.covform:
-            log_norm = self.log_weight - 0.5 * np.log(np.linalg.det(2.0 * np.pi * self.cov))
+            log_norm = self.log_weight - 0.5 * _factor_utils.log_det(2.0 * np.pi * self.cov)
             prec = _factor_utils.inv_matrix(self.cov)
             exponent = -0.5 * (self.mean - x_vec).T @ prec @ (self.mean - x_vec)
             log_potx = log_norm + exponent
-- 
2.43.0


From 12a55b74c945166e073966309fa6db04e218eef7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 39/70] fix: Gaussian KL-divergence of distributions with small
 variances should not be zero for different distributions

---
 veroku/factors/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 3733689..3798789 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -743,7 +743,8 @@ class Gaussian(Factor):
                 return 0.0
             return np.inf
 
-        if self.equals(factor):
+        # the default equality tolerances are too large here (for distributions with small variances)
+        if self.equals(factor, rtol=1e-10, atol=0.0):
             return 0.0
         # TODO: can we compute the correct ('normalised') KL divergence without explicitly normalizing?
         normalized_self = self.normalize()
-- 
2.43.0


From c2ab346a65310cd50e1a98a6f543439dfb10c16c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 40/70] fix: treat numerically zero precisions as vacuous in
 the Gaussian KL-divergence of messages

---
 veroku/factors/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 3798789..6c66be1 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -780,7 +780,7 @@ class Gaussian(Factor):
         if self.covform or self.dim == 0:
             return True
         variable_precs = np.diag(self.prec)
-        if not np.all(variable_precs > 0.0):
+        if not np.all(variable_precs > 1e-8):
             return False
         scale = np.sqrt(variable_precs)
         return np.linalg.eigvalsh(self.prec / np.outer(scale, scale))[0] > 1e-10
-- 
2.43.0


From 46ae99d69bd182aa6425638725427051e9bdf3f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 41/70] fix: factor templates should not share the lists of
 variable templates with the caller

---
 veroku/factors/_factor_template.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/_factor_template.py b/veroku/factors/_factor_template.py
index c33f034..34eff84 100644
--- a/veroku/factors/_factor_template.py
+++ b/veroku/factors/_factor_template.py
@@ -4,6 +4,7 @@ This module contains an abstract parent class, defining the some common default
 
 
 from abc import ABC
+import copy
 
 
 class FactorTemplate(ABC):
@@ -24,15 +25,15 @@ class FactorTemplate(ABC):
         self._conditioning_var_templates = None
         self._conditional_var_templates = None
         if (conditioning_var_templates is None) and (conditional_var_templates is None):
-            self._var_templates = var_templates
+            self._var_templates = copy.deepcopy(var_templates)
         elif (conditioning_var_templates is None) or (conditional_var_templates is None):
             error_msg = (
                 "neither or both of conditioning_var_templates and conditional_var_templates should be None"
             )
             raise ValueError(error_msg)
         else:
-            self._conditioning_var_templates = conditioning_var_templates
-            self._conditional_var_templates = conditional_var_templates
+            self._conditioning_var_templates = copy.deepcopy(conditioning_var_templates)
+            self._conditional_var_templates = copy.deepcopy(conditional_var_templates)
 
     def formattable(self, format_dict):
         """
-- 
2.43.0


From 14abdf1bb5a9e949a4880330a594e769e285e95d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 42/70] fix: a non-linear Gaussian template should not share
 the noise covariance with the caller

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index a992524..8ecef4f 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -681,7 +681,7 @@ class NonLinearGaussianTemplate(FactorTemplate):
             conditional_var_templates=conditional_var_templates,
         )
         self.transition_function = transition_function
-        self.noise_cov = noise_cov
+        self.noise_cov = copy.deepcopy(noise_cov)
 
     def make_factor(self, format_dict=None, conditioning_vars=None, conditional_vars=None):
         """
-- 
2.43.0


From fbe7d1db5d48f93750c2cc443f1d441f99dd2758 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 43/70] fix: a non-linear Gaussian should be vacuous if its
 conditioning factors have been cancelled

---
 .../experimental/nonlinear_gaussian.py        | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 8ecef4f..2e26ec6 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -217,6 +217,22 @@ class NonLinearGaussian(Factor):
         """
         self.log_weight += log_weight_to_add
 
+    @staticmethod
+    def _is_degenerate(gaussian):
+        """
+        Check whether a Gaussian is vacuous in one or more directions (and therefore does not have a covariance matrix).
+
+        :param Gaussian gaussian: The Gaussian to check.
+        :return: The result of the check.
+        :rtype: bool
+        """
+        if gaussian.dim == 0 or gaussian.covform:
+            return False
+        if gaussian._is_vacuous:
+            return True
+        prec = gaussian.get_prec()
+        return np.linalg.matrix_rank(prec, tol=1e-12 * np.max(np.abs(prec)), hermitian=True) < gaussian.dim
+
     def _recompute_joint(self):
         """
         Recompute the joint distribution.
@@ -266,6 +282,12 @@ class NonLinearGaussian(Factor):
                     vrs=cond_factor_observed_vars, values=cond_factor_observed_values
                 )
 
+            if self._is_degenerate(conditioning_factor):
+                # Factors over some of the conditioning variables have been cancelled again, so these variables are not
+                # determined (any more).
+                self._joint_distribution = Gaussian.make_vacuous(self.var_names)
+                return
+
             conditioning_factor_sigma_points_array = get_sigma_points_array(conditioning_factor)
             conditioning_factor_var_names = conditioning_factor.var_names
             conditioning_log_weight = conditioning_factor.get_log_weight()
-- 
2.43.0


From 31baaefcdc948dc5dc69dc5360483f5b0bdf6a15 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 44/70] fix: divide a non-linear Gaussian that has not absorbed
 a conditional update factor yet

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 2e26ec6..0ef616f 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -405,6 +405,8 @@ class NonLinearGaussian(Factor):
             raise ValueError("factor must be Gaussian.")
 
         if set(factor.var_names) <= set(self_copy.conditional_vars):
+            if self_copy.conditional_update_factor is None:
+                self_copy.conditional_update_factor = Gaussian.make_vacuous(factor.var_names)
             self_copy.conditional_update_factor = self_copy.conditional_update_factor.divide(factor)
         elif set(factor.var_names) <= set(self_copy.conditioning_vars):
             if self_copy.conditioning_factor is None:
-- 
2.43.0


From e3018f4ed0887a8e65e82bea178180ca943e8d48 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 45/70] fix: Gaussian.equals should compare log weights (which
 do not under- or overflow)

---
 veroku/factors/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 6c66be1..baf0f1c 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -279,7 +279,8 @@ class Gaussian(Factor):
         Helper function for check equivalence of covariance form parameters.
         """
 
-        if not np.isclose(self.get_weight(), gaussian.get_weight(), rtol=rtol, atol=atol, equal_nan=False):
+        # compare log weights, since the weights can under- or overflow
+        if not np.isclose(self.get_log_weight(), gaussian.get_log_weight(), rtol=rtol, atol=atol, equal_nan=False):
             return False
         gaussian._reorder_parameters(self.var_names)
         if not np.allclose(self.mean, gaussian.get_mean(), rtol=rtol, atol=atol, equal_nan=False):
-- 
2.43.0


From 3b1c737172b379603e534f70867e1136502d454d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 46/70] fix: FactorizedFactor.divide should only drop a factor
 if it is exactly cancelled

---
 veroku/factors/experimental/factorised_factor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 56afb5d..e7c2033 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -95,7 +95,8 @@ class FactorizedFactor(Factor):
         index = factorised_factor_copy._first_factor_with_vars_index(factor.var_names)
 
         for i, factorised_comp in enumerate(self.factors):
-            if factorised_comp.equals(factor):
+            # factors that are only approximately equal do not cancel
+            if factorised_comp.equals(factor, rtol=0.0, atol=0.0):
                 if len(self.factors) > 1:
                     return FactorizedFactor(self.factors[:i] + self.factors[i + 1:])
                 # TODO: add else to make general vacuous factor (wont necessarily be Gaussian)
-- 
2.43.0


From 4a9563dc6e692d0ae5b5c3e27d3e66afb3992f97 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 47/70] fix: keep the function of a vacuous Gaussian factor if
 no variables are integrated out

---
 veroku/factors/gaussian.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index baf0f1c..bceba13 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -519,6 +519,11 @@ class Gaussian(Factor):
         vars_to_keep = super().get_marginal_vars(vrs, keep)
         vars_to_integrate_out = list(set(self.var_names) - set(vars_to_keep))
         if self._is_vacuous:
+            if not vars_to_integrate_out:
+                # the function (including the constant value) does not change
+                self_copy = self.copy()
+                self_copy._reorder_parameters(list(vars_to_keep))
+                return self_copy
             # TODO: check this (esp log_weight)
             return Gaussian.make_vacuous(var_names=vars_to_keep)
 
-- 
2.43.0


From d84dc6c38c48d7dae5b167515bfeb9ba78ae1d9a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 48/70] fix: calculate linear Gaussian parameters directly (the
 dummy prior lost all accuracy for small noise)

---
 veroku/factors/gaussian.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index bceba13..b33cbf6 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -83,29 +83,14 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     :rtype: Gaussian
     """
 
-    # TODO: improve this by adding the correct equations for calculating the linear Gaussian parameters that do not rely
-    #  on the dummy factor multiplication.
     x_dim = len(conditioning_vars)
-    cov_xx = np.eye(x_dim)
-    prec_xx = np.linalg.inv(cov_xx)
-
-    u_x = np.zeros([x_dim, 1])
-    h_x = prec_xx @ u_x
-    g_x = -0.5 * u_x.T @ h_x + np.log(1.0) - 0.5 * _factor_utils.log_det(2.0 * np.pi * cov_xx)
-
-    cov = np.block([[cov_xx, cov_xx @ a_mat.T], [a_mat @ cov_xx, a_mat @ cov_xx @ a_mat.T + n_mat]])
-    prec_joint = np.linalg.inv(cov)
-    prec_cpd = prec_joint.copy()
-    prec_cpd[:x_dim, :x_dim] = prec_cpd[:x_dim, :x_dim] - prec_xx
-
-    mean_joint = np.block([[u_x], [a_mat @ u_x]])
-
-    h_cpd = prec_joint @ mean_joint
-    h_cpd[:x_dim] = h_cpd[:x_dim] - h_x
-
-    utkux = mean_joint.T @ prec_joint @ mean_joint
-    g_joint = 0.5 * utkux + np.log(1.0) - 0.5 * _factor_utils.log_det(2.0 * np.pi * cov)
-    g_cpd = g_joint - g_x
+    y_dim = len(conditional_vars)
+    n_mat = _factor_utils.make_square_matrix(n_mat)
+    prec_n = np.linalg.inv(n_mat)
+    prec_n_a = prec_n @ a_mat
+    prec_cpd = np.block([[a_mat.T @ prec_n_a, -prec_n_a.T], [-prec_n_a, prec_n]])
+    h_cpd = np.zeros([x_dim + y_dim, 1])
+    g_cpd = -0.5 * _factor_utils.log_det(2.0 * np.pi * n_mat)
 
     return Gaussian(var_names=conditioning_vars + conditional_vars, prec=prec_cpd, h_vec=h_cpd, g_val=g_cpd)
 
-- 
2.43.0


From 0c980d56ee78635a1fdcba20a32e1e817aab7d9c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 49/70] fix: templates with positional, attribute or type
 specific fields that cannot be formatted are not formattable

---
 veroku/factors/_factor_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/_factor_template.py b/veroku/factors/_factor_template.py
index 34eff84..a0d4983 100644
--- a/veroku/factors/_factor_template.py
+++ b/veroku/factors/_factor_template.py
@@ -52,5 +52,5 @@ class FactorTemplate(ABC):
                 [vt.format(**format_dict) for vt in self._conditional_var_templates]
             return True
         # pylint: enable=expression-not-assigned
-        except KeyError:
+        except (KeyError, IndexError, AttributeError, ValueError, TypeError):
             return False
-- 
2.43.0


From b47625f28da5809a8d53b7e3e62e6993ab2bdb62 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 50/70] fix: Categorical.plot should support assignment names
 that are not strings (as the default names)

---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index ac323f0..8d53e20 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -589,7 +589,7 @@ class Categorical(Factor):
                 if isinstance(elem, float):
                     processed_assignment_value_name = f"{elem:.2f}"
                 else:
-                    processed_assignment_value_name = elem
+                    processed_assignment_value_name = str(elem)
                 processed_assignment_value_names.append(processed_assignment_value_name)
             x_label = ", ".join(processed_assignment_value_names)
             return x_label
-- 
2.43.0


From 603a178e8687666f4bade16026b86c6682d0e89f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 51/70] fix: reject categorical tables with inconsistent
 assignments, cardinalities or assignment names

---
 veroku/factors/_factor_utils.py      | 13 +++++++++++++
 veroku/factors/categorical.py        | 11 +++++------
 veroku/factors/sparse_categorical.py |  2 ++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/_factor_utils.py b/veroku/factors/_factor_utils.py
index 18acb8c..75d77dd 100644
--- a/veroku/factors/_factor_utils.py
+++ b/veroku/factors/_factor_utils.py
@@ -48,6 +48,19 @@ def get_subset_evidence(all_evidence_dict, subset_vars):
     return evidence_vrs, evidence_values
 
 
+def check_assignment(assignment, cardinalities):
+    """
+    Check that a discrete assignment is consistent with the cardinalities of the assigned variables.
+
+    :param tuple assignment: The values (indices) that are assigned to the variables.
+    :param list cardinalities: The cardinalities of the variables.
+    """
+    values = assignment if isinstance(assignment, (tuple, list)) else (assignment,)
+    consistent = len(values) == len(cardinalities)
+    if not consistent or not all(0 <= value < card for value, card in zip(values, cardinalities)):
+        raise IndexError(f"assignment {assignment} is not consistent with the cardinalities ({cardinalities}) provided")
+
+
 def is_pos_def(matrix):
     """
     Check if matrix is positive definite.
diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 8d53e20..c2fdd9f 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -115,11 +115,8 @@ class Categorical(Factor):
         if log_probs_tensor is None:
             probs_tensor = np.zeros(shape=cardinalities)
             for assignment, prob in probs_table.items():
-                try:
-                    probs_tensor[assignment] = prob
-                except IndexError as index_error:
-                    error_message = f"assignment {assignment} is not consistent with the cardinalities ({cardinalities}) provided"
-                    raise IndexError(error_message) from index_error
+                _factor_utils.check_assignment(assignment, cardinalities)
+                probs_tensor[assignment] = prob
             with warnings.catch_warnings():
                 # prevents 'divide by zero encountered in log' from displaying
                 warnings.simplefilter("ignore")
@@ -127,6 +124,8 @@ class Categorical(Factor):
         else:
             if len(log_probs_tensor.shape) != len(var_names):
                 raise ValueError("log_probs_tensor should have dimension equal to the number of variables.")
+            if tuple(cardinalities) != log_probs_tensor.shape:
+                raise ValueError("The shape of the log_probs_tensor should correspond to the cardinalities.")
             self.log_probs_tensor = log_probs_tensor.copy()
         # TODO: remove this
         self.var_cards = dict(zip(var_names, cardinalities))
@@ -139,7 +138,7 @@ class Categorical(Factor):
             for var_name, assignments_names, cardinality in zip(var_names, variables_assignment_names, cardinalities):
                 assert_error_msg = \
                     f"Incorrect number of unique assignment names provided for variable {var_name} (should equal variable card ({cardinality})) "
-                assert cardinality == len(set(assignments_names)), assert_error_msg
+                assert cardinality == len(set(assignments_names)) == len(assignments_names), assert_error_msg
                 var_assignment_names_dict[var_name] = tuple(copy.deepcopy(assignments_names))
         else:
             var_assignment_names_dict = {var_name: tuple(range(var_card)) for var_name, var_card in zip(var_names, cardinalities)}
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 7f5f8a8..24efb63 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -435,6 +435,8 @@ class SparseCategorical(Factor):
             raise ValueError("Either log_probs_table or probs_table must be specified")
         if log_probs_table is None:
             log_probs_table = {assignment: np.log(prob) for assignment, prob in probs_table.items()}
+        for assignment in log_probs_table:
+            _factor_utils.check_assignment(assignment, cardinalities)
         self.log_probs_table = _fast_copy_probs_table(log_probs_table)
         self.var_cards = dict(zip(var_names, cardinalities))
         self.cardinalities = copy.deepcopy(cardinalities)
-- 
2.43.0


From ef783893f3ad4ee907a0a843cd3b072cf05c0a92 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 52/70] fix: reject discrete evidence (and variable orders)
 that do not fit the scope or cardinalities of a factor

---
 veroku/factors/_factor_utils.py      | 13 +++++++++++++
 veroku/factors/categorical.py        |  1 +
 veroku/factors/sparse_categorical.py |  3 +++
 3 files changed, 17 insertions(+)

diff --git a/veroku/factors/_factor_utils.py b/veroku/factors/_factor_utils.py
index 75d77dd..a5a6ee4 100644
--- a/veroku/factors/_factor_utils.py
+++ b/veroku/factors/_factor_utils.py
@@ -61,6 +61,19 @@ def check_assignment(assignment, cardinalities):
         raise IndexError(f"assignment {assignment} is not consistent with the cardinalities ({cardinalities}) provided")
 
 
+def check_evidence(vrs, values, var_cards):
+    """
+    Check that discrete evidence is consistent with the variables (and their cardinalities) that it should apply to.
+
+    :param list vrs: The observed variables.
+    :param list values: The observed values (indices).
+    :param dict var_cards: The cardinalities of the variables that can be observed.
+    """
+    if not set(vrs) <= set(var_cards):
+        raise ValueError(f"observed variables {vrs} must be a subset of the factor variables {list(var_cards)}")
+    check_assignment(tuple(values), [var_cards[var] for var in vrs])
+
+
 def is_pos_def(matrix):
     """
     Check if matrix is positive definite.
diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index c2fdd9f..96b13c1 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -297,6 +297,7 @@ class Categorical(Factor):
         :rtype: Categorical
         """
 
+        _factor_utils.check_evidence(vrs, values, self.var_cards)
         vars_unobserved = [v for v in self.var_names if v not in vrs]
         obs_dict = dict(zip(vrs, values))
 
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 24efb63..c38ea35 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -563,6 +563,7 @@ class SparseCategorical(Factor):
         :rtype: SparseCategorical
         """
 
+        _factor_utils.check_evidence(vrs, values, self.var_cards)
         vars_unobserved = [var_name for var_name in self.var_names if var_name not in vrs]
         nested_table, _ = _get_nested_sorted_probs(
             new_variables_order_outer=vrs,
@@ -934,6 +935,8 @@ class SparseCategorical(Factor):
             1 0  pa1b0            1 0  pa0b1
             1 1  pa1b1            1 1  pa1b1
         """
+        if set(new_var_names_order) != set(self.var_names):
+            raise ValueError("The new_var_names_order set must be the same as the factor variables.")
         new_order_indices = [self.var_names.index(var) for var in new_var_names_order]
         new_log_probs_table = dict()
         for assignment, value in self.log_probs_table.items():
-- 
2.43.0


From 01a82e94e69bc5237715ee6899366c2db5a491f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 53/70] fix: reject evidence, marginals and divergences for
 variables outside of the scope of a factor

---
 veroku/factors/experimental/factorised_factor.py  | 5 +++++
 veroku/factors/experimental/nonlinear_gaussian.py | 3 +++
 veroku/factors/sparse_categorical.py              | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index e7c2033..55a926d 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -180,6 +180,8 @@ class FactorizedFactor(Factor):
         #   information takes the form of the observed evidence and the conditioning factors.
 
         vars_to_keep = super().get_marginal_vars(vrs, keep)
+        if not set(vars_to_keep) <= set(self.var_names):
+            raise ValueError(f"variables to keep {vars_to_keep} must be a subset of the factor variables {self.var_names}")
         vars_to_integrate_out_set = set(self.var_names) - set(vars_to_keep)
         factors_in_keep_scope_indices = self._all_intersecting_factors_indices(vars_to_keep)
         if not factors_in_keep_scope_indices:
@@ -275,6 +277,9 @@ class FactorizedFactor(Factor):
         :return: the resulting Gaussian
         :rtype: FactorizedFactor
         """
+        if not set(vrs) <= set(self.var_names) or len(vrs) != len(values):
+            raise ValueError(f"observed variables {vrs} must be a subset of the factor variables {self.var_names} with "
+                             f"one value for each ({values})")
         all_evidence_dict = dict(zip(vrs, values))
         reduced_factors = []
         fully_observed_factors = []
diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 0ef616f..637c2b7 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -431,6 +431,9 @@ class NonLinearGaussian(Factor):
         :rtype: NonLinearGaussian
         """
 
+        if not set(vrs) <= set(self.var_names) or len(vrs) != len(values):
+            raise ValueError(f"observed variables {vrs} must be a subset of the factor variables {self.var_names} with "
+                             f"one value for each ({values})")
         self_copy = self.copy()
         evidence_dict = dict(zip(vrs, values))
         self_copy.observed_evidence.update(evidence_dict)
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index c38ea35..a15bdaa 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -815,6 +815,9 @@ class SparseCategorical(Factor):
         :return: The Kullback-Leibler divergence
         :rtype: float
         """
+        if set(self.var_names) != set(factor.var_names):
+            raise ValueError(f"cannot calculate KL-divergence between factors with different scopes: "
+                             f"{self.var_names}, {factor.var_names}")
         log_p = self.normalize()
         log_q = _make_defaults_explicit(factor)
         if normalize_factor:
-- 
2.43.0


From 665e5be3a5714130c82f6da21642fc7d7211563c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 54/70] fix: a quotient of sparse factors with zero default
 probabilities stays usable

---
 veroku/factors/sparse_categorical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index a15bdaa..dc2847d 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -740,6 +740,9 @@ class SparseCategorical(Factor):
 
         result_cardinalities = [result_var_cards[v] for v in result_var_names]
         result_default_log_prob = operator_function(default_log_prob, default_log_prob)
+        if np.isnan(result_default_log_prob):
+            # The quotient of two zero defaults is undefined, but then no assignment was left implicit.
+            result_default_log_prob = default_log_prob
         resulting_factor = SparseCategorical(
             var_names=result_var_names,
             log_probs_table=flattened_result_table,
-- 
2.43.0


From c8aea82f196d58cad9792e113d51e20a182b2935 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 55/70] fix: keep the log values of a Categorical as floats
 (integer tensors could not be normalised)

---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 96b13c1..13a83a1 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -126,7 +126,7 @@ class Categorical(Factor):
                 raise ValueError("log_probs_tensor should have dimension equal to the number of variables.")
             if tuple(cardinalities) != log_probs_tensor.shape:
                 raise ValueError("The shape of the log_probs_tensor should correspond to the cardinalities.")
-            self.log_probs_tensor = log_probs_tensor.copy()
+            self.log_probs_tensor = np.array(log_probs_tensor, dtype=float)
         # TODO: remove this
         self.var_cards = dict(zip(var_names, cardinalities))
         self.cardinalities = copy.deepcopy(cardinalities)
-- 
2.43.0


From e49bddbcc01e515f66d3fe05dcf52934c71aef23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 56/70] fix: the printed form of a vacuous or improper Gaussian
 (repr raised an exception)

---
 veroku/factors/gaussian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index b33cbf6..204d520 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -930,9 +930,13 @@ class Gaussian(Factor):
         np.set_printoptions(precision=4)
         np.core.arrayprint._line_width = 200
         repr_str = "vars = " + str(self.var_names) + "\n"
+        repr_str += self._get_can_repr_str()
         if not self._is_vacuous:
-            repr_str += self._get_can_repr_str()
-        repr_str += self._get_cov_repr_str()
+            try:
+                repr_str += self._get_cov_repr_str()
+            except (np.linalg.LinAlgError, Warning):
+                # an improper Gaussian does not have a covariance form
+                pass
         return repr_str
 
     def show(self):
-- 
2.43.0


From 7640a5294e428b1622f6d8bcfb79375ea0abbe43 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 57/70] fix: the log plot of a Gaussian mixture shows the log
 of the sum of its components (not the sum of their logs)

---
 veroku/factors/experimental/gaussian_mixture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index ac15342..015e8d6 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -412,7 +412,7 @@ class GaussianMixture(Factor):
                 x_upper = xlim[1]
             num_points = 200
             x_series = np.linspace(x_lower, x_upper, num_points)
-            total_potx = np.zeros(num_points)
+            total_potx = np.full(num_points, -np.inf) if log else np.zeros(num_points)
             for comp in self.components:
                 if log:
                     potx = np.array([comp.log_potential(xi) for xi in x_series])
@@ -420,7 +420,7 @@ class GaussianMixture(Factor):
                     potx = np.array([comp.potential(xi) for xi in x_series])
                 if show_individual_components:
                     plt.plot(x_series, potx)
-                total_potx += potx
+                total_potx = np.logaddexp(total_potx, potx) if log else total_potx + potx
             plt.plot(x_series, total_potx)
         elif self.dim == 2:
             self._plot_2d(log=log, xlim=xlim, ylim=ylim)
-- 
2.43.0


From c6ab55f31aadc88b57ff320b5bb2fbf426e0a91a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 58/70] fix: NonLinearGaussian.plot plots the recomputed joint
 distribution

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 637c2b7..188fc43 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -515,7 +515,7 @@ class NonLinearGaussian(Factor):
         """
         self_copy = self.copy()
         self_copy._recompute_joint()
-        self._joint_distribution.plot()
+        self_copy._joint_distribution.plot()
 
 
 class NonLinearGaussianMixture(Factor):
-- 
2.43.0


From 25499b8692d695d4036998dc2251fb7c40daca51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 59/70] fix: NonLinearGaussianMixture.sample draws the
 requested number of samples from its joint distribution

---
 veroku/factors/experimental/nonlinear_gaussian.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 188fc43..d688f8a 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -655,13 +655,7 @@ class NonLinearGaussianMixture(Factor):
         :return: The samples.
         :rtype: int
         """
-
-        # TODO: fix incorrect num samples issue
-        sample_sets = []
-        for nlg in self.nlgs:
-            samples = nlg.sample(num_samples)
-            sample_sets.append(samples)
-        return np.concatenate(sample_sets)
+        return self.joint_distribution.sample(num_samples)
 
     def plot(self):
         """
-- 
2.43.0


From ea534632ac56acf50bb85ce6fc4a9dcf55752055 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 60/70] fix: Gaussian.show_vis draws the mean before the heat
 map (pandas breaks on the axes of a colour bar)

---
 veroku/factors/gaussian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 204d520..06b5728 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -963,10 +963,11 @@ class Gaussian(Factor):
         _, [ax_cov, ax_mean] = plt.subplots(nrows=2, figsize=figsize)
         cov_df = pd.DataFrame(data=self.get_cov(), index=self.var_names, columns=self.var_names)
         mean_df = pd.DataFrame(data=self.get_mean(), index=self.var_names, columns=["var_names"])
-        cbar_kws = dict(use_gridspec=False, location="top")
-        sns.heatmap(cov_df, ax=ax_cov, cbar=True, cbar_kws=cbar_kws, annot=True)
+        # the bars come first (pandas does not accept a figure with the axes of a colour bar)
         mean_df.plot.bar(ax=ax_mean, legend=False)
         plt.xticks(rotation=0)
+        cbar_kws = dict(use_gridspec=False, location="top")
+        sns.heatmap(cov_df, ax=ax_cov, cbar=True, cbar_kws=cbar_kws, annot=True)
 
     def _get_limits_for_2d_plot(self):
         """
-- 
2.43.0


From 23fad6ed056a572c0363f18b968b669f19345f8a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 61/70] fix: printing a Gaussian restores numpy's print options

---
 veroku/factors/gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 06b5728..f439032 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -919,6 +919,7 @@ class Gaussian(Factor):
         )
         return repr_str
 
+    @np.printoptions()  # the print options that are set here are restored
     def __repr__(self):
         """
         Get the string representation of the Gaussian factor.
@@ -939,6 +940,7 @@ class Gaussian(Factor):
                 pass
         return repr_str
 
+    @np.printoptions()  # the print options that are set here are restored
     def show(self):
         """
         Print the parameters of the Gaussian distribution
-- 
2.43.0


From 59726d9c620072d3d3cd92d8d28cde4cfe106207 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:35 +0000
Subject: [PATCH 62/70] fix: the divergence from a table that lacks a possible
 value with an underflowing probability is infinite

---
 veroku/factors/categorical.py        | 2 ++
 veroku/factors/sparse_categorical.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 13a83a1..7cdc77c 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -450,6 +450,8 @@ class Categorical(Factor):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             kl_array = np.where(log_p != -np.inf, np.exp(log_p) * (log_p - log_q), 0.0)
+        # the probability of a possible assignment can underflow
+        kl_array = np.where((log_p != -np.inf) & (log_q == -np.inf), np.inf, kl_array)
         kld = np.sum(kl_array)
         return kld
 
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index dc2847d..111c777 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -795,6 +795,9 @@ class SparseCategorical(Factor):
                 # lim_{p->0} p*log(p/q) = 0, with q = p
                 # So if p_i = 0, kld_i = 0
                 return 0.0
+            if log_qi == -np.inf:
+                # the probability of a possible assignment can underflow
+                return np.inf
             kld_i = np.exp(log_pi) * (log_pi - log_qi)
             return kld_i
 
-- 
2.43.0


From f3387f6b2d293ebd145fe0d8ba086ebd4313ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 63/70] fix: variable names with regular expression characters
 were not highlighted in animations (or made them raise)

---
 veroku/__pycache__/__init__.cpython-312.pyc     | Bin 0 -> 186 bytes
 veroku/__pycache__/_constants.cpython-312.pyc   | Bin 0 -> 233 bytes
 .../__pycache__/cluster_graph.cpython-312.pyc   | Bin 0 -> 29401 bytes
 .../__pycache__/__init__.cpython-312.pyc        | Bin 0 -> 134 bytes
 .../__pycache__/_animation.cpython-312.pyc      | Bin 0 -> 7458 bytes
 .../__pycache__/_cluster.cpython-312.pyc        | Bin 0 -> 11622 bytes
 veroku/_cg_helpers/_animation.py                |   6 +++---
 .../__pycache__/__init__.cpython-312.pyc        | Bin 0 -> 130 bytes
 .../factors/__pycache__/_factor.cpython-312.pyc | Bin 0 -> 9364 bytes
 .../_factor_template.cpython-312.pyc            | Bin 0 -> 2825 bytes
 .../__pycache__/_factor_utils.cpython-312.pyc   | Bin 0 -> 20728 bytes
 .../__pycache__/categorical.cpython-312.pyc     | Bin 0 -> 35624 bytes
 12 files changed, 3 insertions(+), 3 deletions(-)
 create mode 100644 veroku/__pycache__/__init__.cpython-312.pyc
 create mode 100644 veroku/__pycache__/_constants.cpython-312.pyc
 create mode 100644 veroku/__pycache__/cluster_graph.cpython-312.pyc
 create mode 100644 veroku/_cg_helpers/__pycache__/__init__.cpython-312.pyc
 create mode 100644 veroku/_cg_helpers/__pycache__/_animation.cpython-312.pyc
 create mode 100644 veroku/_cg_helpers/__pycache__/_cluster.cpython-312.pyc
 create mode 100644 veroku/factors/__pycache__/__init__.cpython-312.pyc
 create mode 100644 veroku/factors/__pycache__/_factor.cpython-312.pyc
 create mode 100644 veroku/factors/__pycache__/_factor_template.cpython-312.pyc
 create mode 100644 veroku/factors/__pycache__/_factor_utils.cpython-312.pyc
 create mode 100644 veroku/factors/__pycache__/categorical.cpython-312.pyc

diff --git a/veroku/__pycache__/__init__.cpython-312.pyc b/veroku/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..a4647d95f86ae604e8d6b4957266df0024b1e399
GIT binary patch
literal 186
zcmX@j%ge<81c5vLXXydy#~=<2FhUuhd4P=R3@Hpz3@MCJjFn89%vAzhWvNB^*`*2v
ziOJcC>8V^*tcH39dIo-)Ot;wM<5TjJ<Ku5}$HxOz6=&w>#mBE?_zW`cm!y74Zh?N9
zK192Ie0*kJW=VX!UP0wA4x8Nkl+v73yCQa=N|5cvf<WQ}Gb1D8M<ymlmJb{Z{9=vV
IMXW$k00Q|gNdN!<

literal 0
HcmV?d00001

diff --git a/veroku/__pycache__/_constants.cpython-312.pyc b/veroku/__pycache__/_constants.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..de7691c17c5511f79d05f76582981fc3c733fed9
GIT binary patch
literal 233
zcmX@j%ge<81c5vLX9WZ4#~=<2FhUuh1%Qm{3@Hpz3@MCJj6lp($)w3#CCufXnwMIX
zn4^%KpI2Oxm{(HFm9Fb7^ZJpQl)axO^DXxH_>}zQ`1o7GF0O8lp*|t;ZjR0&{z36U
zA^tuXf{sAJl?<Ojmj05~FUc*?Ptz|;Ey~X>)sKf;pjS}&i^C>2KczG$)vkyGs21eP
kVhJGeftit!@goxxBg+R42634S48k|Wq%SfE7qI~)0lyPHo&W#<

literal 0
HcmV?d00001

diff --git a/veroku/__pycache__/cluster_graph.cpython-312.pyc b/veroku/__pycache__/cluster_graph.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..6873d6111036af15b6f8f86b58de9d4de638b22f
GIT binary patch
literal 29401
zcmcJ2d2kz7dS~M#NPr|rg7?)TDUlE_QPfFGlw?ZO&9N=nv1My85CKx4z{3qt5;>s9
zNqK9jM2V<elH-{&y-C&3W$g}Uld3S4Y(+Dhs!Y|Uw$K7)V0t*aPBObG|FcU|&P-<Z
z$o{_f`T)q5?9Fbvq(=Aa*YE20zW4in-}fH>Lt$ZofaArLe;j+^Yl85%bfX=1_2S7x
zT-*~v!X+VO30b3-OBVKPy<}y-wo5klYae%9a#|>kEt)s(y5wTl)@c5v0`}Z}$%9{e
zv~axWQW1ORh!&4~FL~8?CF7;TR*NuRcFD&=oYC^}ic1x^&I`Flt(Pi8`R@pqszL=g
zSBKm<*I0#<Ldf%u5Gwr0%1e8xmW34|tXL1Lo3Z-6v&RdLiQ|)@>1bFSnUusU(~)Q>
zGBGL!Cqm*>SVGu1-9{!x!cur*I4s_X#IK6O(dk$`EQzC1aO!HT;8V(G$Zt`c=OPo~
z-N$idkG~lj$8X*MkBZB((QrHvo4yjmPxyKyM9F<xj5j}Z;54k3m68(j@ZX02PyQ=T
z_XMkuuq4oi)wuh}f)frk%$gl`4QWV?31Li)!(;L@LMg>f$4BbDma0Wd*Or~GnwLF0
z>{<=-vL=KJLY#`vjxncpW&FnTwd(|G5pq0mex#N|%X3bkRQ!3tvnYOnh~vVf6c>YH
zDE#JhSd2!lg~j;QU|hU$72iOdoQTfg9^We>#o}T(8XgZ%#KlNVoSKZ|DiVw$!t_K8
ziG)M!L&mO7PDk-QrO7M7D|mPXsRr>bePl{W3diCsV{vkX1@N4aq?$-%0)>eUhbLIy
zn3O_csjGm!(Ki*8g5%=wWHcHcjz=aZVqN^@V03&khVRWv5ny3`;zeY}A0wk!WHu~L
zbg0!bYBbT=qtz-V22tZscqB3riHD;zypU)iwOnl`1@p6N@wTEwSxvKADHx4S8cl%&
zDAMqxB%%D`R5Umo?!YjJixc5+C?>`y(OP=8!&k$@*TSKknxnbVsA2J1c!pOH7h>DU
z^aN`TKcz4o<D-j8jnUM_-<QJiX=#GLqt$0Lay?8X!q?`-LW{FjWeqVNj{AB0X-ULq
zrow$&Tc2eh(TMt#hQg=+h~v}$jnl;st%?l=RPv<o^{^BR`yGliI5mYYtK>~hPDR5b
zamAhWH5CW@UW${K&~H`BOunpCgj`~jpD6yKp*uc4)jiUU^e3-PcdN1@z+^?&)QnQb
zIz=ES8L5)qr9|Gw>22Y&D#7JWx*P7lDZ96&@|r%lkn|r~c~SNsNo_y+DDP;-RhxD-
z$*!hk^S*R*zuerPYCgK^I`+f70(wi5-A$>y<_}`Y_Wl(~Zht=2I`AlOAXD6wbTzHj
zY){v;%Qfu}29v#mKNv{9c6qhqtErkm(q5TyHze&1Pf&(jfkZ=`38epsi+jSTFo&Uk
zT)2E$5aw(N%P;rEb&&&6WgDZW*mOLwXrlKGJe{-8ISj#(uz#e!AF^IM4#852G)M?;
zIuiDTLrVquTE}$ZVnoE7ZsSh7+A8R72kb(^3c+IwHXw7>WxfL8EL|so5Di}sLaJzT
znoSPj;P6#(Bsd(O+%)=mSd4dN^@jSr6b?;mQwDYCHZ5Jhp0L`HsUNFJBbh;#2PB^=
zmQ*1VieQ9lCE}TBcVb(lD=dD!HQ3tM)3vKZY`xOjx4UcCoPX<3<An-oxn++eEo^HE
z(C<qy(DivMKxI+f>TGsBD8<-l^E)M)0+f7&1SW#x;h18Jh9?v!&s6f#L;LXL)QsP$
z<f$#CxU^a*#cJUK+9M~wP;A$wnBu%1j82DRG0Flm5QkJj304`!;_qv(OFQs*5B|rZ
zIK3^b`-IBsx4)7pt=<qEj;?uU#$A?lH?GxmK6E8tc_aPGi2TaPYR%}av-1NB6>G(%
z3%$Q~^ZvG9O=PMY->-kSelfN*n5ynwaAsVUX;*{nYPf&>{jb0K_4no;yE@n1NOIjH
zcxsdO8mS5y4(nqAH&kdgf}-gC_XK0S#MS9gz%;0h0`2#>aK|!ijbJQZ#t59VBrK!C
zZ&`2W*)jg+a6Jc*HEJ<SVV2_CvqqSnHb(6OL11IhGUvdEVz5H8-1a0KW@AnpIdjgZ
zq=vR-spZYNF!uAV?MHi4YW74P0S2U8ngs$}V+>s4LDr$wH!Gg=S@8(yAdmipbF45c
z8TB&Z($brACak=EV+6D|9f>?G9^j;v%6kYg*p-E@Zcji$sO^K?z6r@<mWtCz<@Ud^
zXTc%kd!o&^nYX!-+f!0^WToDW)JwEV7&0@KcSZ==wD0sQkiQquV=VYTXSpHx?ZIkI
zz8$-QY3vFB!i+Z5`CNN72&5s#Ffdi91?Yo&hE)j@1t%sUza;e~pkWBN*fgYJPz}mO
zL+a?|B8sFKrJ)9rTx2kUiBvTU_1TvbhS|8GEgSQx!o$x5XI7TkB5tc_V}eVfPC0w}
zgd|N$eZZgNx-?ed85#i9##|l(rVLF>q!d8NMHuu^YXN*Y4Dmz=$Dgk_q~OG8SgJ?D
zN`81^dOR!zp))kny$w2mR7Y2?@#$zhG8LWSve5=1>(7@&dSr<xm1@HTg6zW)65^7#
z7Kkty<(ML%Aq+LLQqC^|YI(w;z<4lrO>wEg5v9n8fC(zDSjO~+V=<ainQ%1(Y=xS?
zroE^cNqZ6X6#mDqp@Y3GeC`vv_x#boO5PuyOLZOlxZ(MwlKXEiHoZHYY<NCtuf;jj
z)RMF}t~-T>#`^<*(7ZVM`yFy!SJGa+Rw*u4rYij#g2ypnx#ga>%pb@Uw=BMxDsIix
zZ-4*tyO-Y!%nz+Kwk=hr8hbVbXW`zv?gh)jfsC*Ge#vhQCb##k^rW^QUaPFRe;{4k
zDc5$UD!cxuZ27C{z31h<=TkjHsmh^@e}CG4RQ4ZzSe5dhxnGp2>Rz_URlCzw2j!}R
zE8AA94rO}xB&#}?f^yX^?ebC8uJuA>xb79a+j)_^?P>3B*}HqW|FQS^^=c~g=QTpr
zHnkEq$H7f?Xl+Y+wk>XxJuMkeYueK#d%BixKK2|~&qLhLU4o}L<EsDMX7xDN1*_wN
z<&(UZo;c_Nw+M3zp4Oy&$Imx<g~kC(jNsV4g5y2*VO;2k2D+ZSgP?mtSb$D0kUkDw
zyewpU$8yOYvO`05gd8|KLr$FYLcUNQp1APq!f!s)rwf=q?PmJ4hji&ng`q;6i$c($
zFBON1arTDFLtea55-tsuyd!Ah=TcdyB2<cSAN1==#iQ!KCrMMDJy$@T>KOFrU@Z1e
zSGf6r9vY@*&<+~FHvE6`Q#QYbpfCrtXC%difIb^T<_ZC=u}Izv0eX`iqnL#O4AmoH
zd%Ga+*6y?_0(sgHi)M6o#PwMLO14J}HGao*nQeq=X=&0OGqLrTcV?wz{Zel^F=v+<
zscKgVeNF<(F4sdX39F8t^Wvm(u)~-K=Uj1`vU#XJivoq@-zgZjjS>z4;$pLX{#-%4
zR*zc{vM2K26GDz}*`VO7ZF|>xy9!9fJ%_kx8IpvXj)dF5^A-VjLLj>>8#YD9EoRcQ
zKsKH@=2L!{w|T-d)}+NSezlUZ8WheI8Q(U(U5k|{OcZJH^siHl^jftT#&4oni(wIN
zpU3R%*Pe~-)UJ%*Q5}P!o`hW4f%122*T%2bKP=F-5S!p6JJ_B6jb?0Yp0~{v%;jUI
z&kKGR9hr?W8fODwBjOSSyciVKVaORPaYULNN8qNZS)Ih`RaN6q1^pJqW>`;|)EcJQ
zvNZLq`*IZ;o{pi=WM#2QsnJvck-{<E1tpLP<IvD^CS0ak5R%{;0Z0a73{;v2><$PA
zFguz8rk9GcRjUM61KeKNAp98JkWK4#iQ<Wy!EsOmeO$2;cXPd}XHHKrTQQ4Gg@?gC
z>AFatuB!cis0*iQ^n9rz!@=nAbTmkfL|6y9RxCIgj&(5lhv14{f3414;GYQCMWd59
zAbq)#iKdk%Z$`#hLNT#Z#dTnQt{S`#<u@@o(HRB38I;76!D+ypAcz`bheS|QfHq)m
zK&?r{RfR)cU%KtCOio78KrsSR0U}NN#N+&qF+dbTY}F_@x|nzciYEWKXb|4*^sY$l
zz*t)Yh3W03ekYa}XqhXMF?`ftx*BGn7PPP0T$9uBDKKBb5GS32QR02U0P{xHT3CaB
z=K1S+W}!hnOzSV<E7PNWdMHDngF}jC_!pLDB8oLYN8KDK4o!N~U!#-(Lk6@$1g0>9
zhC_-cyXllXwQ|H-Aq%A`HZw7-y~AF?FajF92^1NN2SGr`6gyMpy_>tQL;_5)gDZ<E
zj_C=sF4LwN=95UwNi_Q^)d8Zj(KiB8WD3_)xQ%g)ny&%V7$XHZ-nGp}rW7AqIItzd
zQc9F2Gce_Z7P876zZz3K0Y=Vq%&TbqU9VJdLhZwW5fHMdS21rPEtQzxtJq`V=m-PX
z5=|e{^K?2)Ip&fZ#AhglnkWjeTQAWcs_+O9gCUXBmOAOwOi8%ZuNG7C)GMW4`;eRK
z%9Ct-#$zHnl&Ysih!K%OgEITzWQZ#eAhI|Rm@OaR;_M_fW|tN`jW=WS46m;@2`$^_
z?W-;^Q`bhn)tSn=dHZcoro09}1)uERL!sRncWu($yw=$K-u0xXE+g)u(E7Ey#zlKt
z+$)QF(_)`2_NBx_sk*~Sq{3MhJa>J&@PoqNFHY6%nm?Zrd(z^5S=_%;m=Xt*p8B=g
z-sO`kucm4Tldh_@9fy*K&!=__C0)&c!ws#;*5_0813z=vd<B2)tp?KH_qk0d^eqf7
zZ(BaL+`AlHc75zQxNgJqdDmwGe%1?w{KB+rhwR$1cr)4a{HkjpQ@srpDFS@1s=N2r
z-M2P`y!-*n{K>WRU(0xXY43I!fc{3h^?=-Z;EByTWGRw8XObR&vi;2GPNA)1&0CiA
z^(1>=N_j8fd0SD^(}KhbeQ8gd>}gB-k3IH0zg|p<eqJiHbf=s5$jy6}UrIF};O*-2
zq+Qjrt9sQ{i}!kZDYP@wh*CXv)&2ZQH;T>Ztnatip4jUg#_X*hx($e^qI*JwV1WM6
zpnMEcCax2v3Cl-#hYsx*Aj8E&vd;!33t06p0INXdCYa^NjC{$VlWZaDERr(KQ-yy>
z^EIUDK$;FhET(BX<2r$3fL1e_B`cmz7VEXM&I10=<t6e^&+H1S*MRGe5i3zTPmSS7
z*m#WFuiJ&&|I#kZ*g%}Xa+w9E)Crd;k}&3^a5MtjAORFr?6G-X0~QqLrPD9a+yy&g
ze1;5EVVX^bF*|bG5e;5-Mo<U3N+D}^OhdYHH3FiAlGCy=aE^unC`nBes43>KwIsnf
zh|@R=u6^lg0|}vglbrqz>Bz-M^+T94)v1PYB}0Cf;@vFwB~qNEHaZd5XQGvfeLk6Z
zz#Eaxg&T%k(s_#WBAtflM52^9UMUucNWI3*7>qA`UZF0mRg+0O=>$S%cjOAXr%g!T
zLEP9M;sheNNZ8iQrC3S%Z->7*u;_a4e5zvS^6~VZ6Y`!Dt0jY=81nbeAIp^2-w)n>
zJzc(2F5fvnxK>_szvup&@9qV8arO5*Q{}rh1bgBB1q&q2;<k5d)74#ab=QJ(t-9|1
zEAQd9N3QPqqvqw2KWtA`_a~3NBv-!#`gqsA1-mMJ-dx(YI3jyHw}d_Nc7B$Rv_Es8
zAY1ulY6}t<PcCBE--B>4>-d~MW_lYeRKy>fS!ST8c{!tODom`}Fw=gGSkNa`K|`#s
zRAlhC(7&zk3E$G6gOwD_>@p!ehD9)j_!!yKHXR|`1AX8_6zbv(=@MwzbZGk1oXyaG
z4UIRe2Bz(%)k^zC9=Zl*Wb{C{MM2bo*P8>&VD=Rf%y2%YYs*FoS}CDDZUfhB-a<LN
zyIJ~LDYM%ft*Pt%|D5$+uwI5-{eqek)4A!uv>=QTirI9G5kI==NH`J>a`y=3KPdQ!
zP$v%5&)_fYAvc?h)MsQ#c~(1V+Wm21!E#wa>7C$*oFmqR?K)W%+?X!dJxyA3d0Bl$
zw-<ywWTj-hd!hCXSr2Dr%RQ-Ie_L)S-I<p%;iP;Mc@K0J0?deMeR#~VFP}2&hq)=o
z3A?i6DS7aBo{_)Sn&6JUC@o$y^R&2gi3%O&@==-=tz^cpDF>tTRIHu8>|6QTsCjDZ
z@=>cZIz}lB`_fb2Wi=f$d-sd;<?ot}nSxO9Si4aU?JA4EbH`~GWye^Tc4hoxBo*l2
z%Y!!lvLn!waEH7PN;KCUR&TR+dyKraE9B`3<%dcilzn99VgFZedlChk-(IlX{;^$H
zu--oMRGI0^8nvc9N&EV_GIORp%WhUND-~#H<5-A$3aQ9UgJK<=gt#7=RoMt4AaqSs
z4Qm7F+pMmN*CVm%Aow>%E%*(bHCr_Vo(1|gxjt#RMM6Mtv*o7&AN$1TH5WCeBzGyc
zsfkgL22M^?NUx%eXKRl$hCu{la0O;N&_f!e>=O|)0%xU=;sE-KhZV;a`21XhAB>&o
z2E_qyo^Vug#Nsp2u#!)4;SMt?DGv6-z#k(lX3JD-S$KR3@Rma~zeV~g3h)a{hmubY
zMKFOy!+x6-MxZo;6B51}oC?p{;GN*NN)ZZj!Tsh&Box0oTa5y%t)>zk;#3gIf1fzy
zua*WWa)DZtKqSOL=1vy+3b_Wb0x6|X&sDb}&~Z~R)x{MTYb<;x#lh5J#i{ZL+XCd3
zCrwXG5HpeuP&G0m3)C{Ipj--%PhJnhe<vE42uDV*UYVQ*UEtQ(4ipScIT;Eog+z1c
zQIwJZ%lbSg>Rv#-q|+!nH~dvmT<}jff)dPiJPNpt_*KO|HW`^vJj0^_y<;im<H2iT
zwSWNOp)hl{Q0(E*XxLxKf%Qw&E^ec>Vv2V&MZ+Ptn<WroNif{aKB3|q9iIwB0KVyW
zETZseV?3u4{<(SHyvKO6gBU?enw>U)*e}QIXAnGFJ&;3AWKlbRj>oZXKwH4{0->+}
z&l~=v;p2)^OQQ=n(v^PL2$L13=G{20xr=Vc7M@ELH>TX;9}FzHQ!RTQx%aG<)+HPF
zueg`zlJzH2rC=HcKOr@|QFb*Z#r><U18Wrx_a^R6ES*@b*bREXovCe1*B+B=kELn{
zKt(|FFRfrof&JS>9~7nPx>FUqR$9`1XXU=Lt0m_)1WW!tXa*kdouOMp_j_bdecID2
zdwL&x_O9FT44OU>5iG-|!+$pXu;nkizSouNe=&LZrKEUa)pc=A)jG^Gcp}v14_oGs
zeNxl#e%HHQOC|8tO4sa{Yxd8drCiV6I-B;?$)IA&#U=O3fgjvRel@%fcBKAu!CF{^
z@>kUAT1x2K6CX^Zn)as3_dOBH3x_QWmQQ@;3vVv$OV)QjD(lSDcP_oTylrVjuHU;b
zxK<07miL}pD*3%5N#C(#$FY>}*!?3JU)8;#yF-gTvTu9Z*DL#amyiGP(07L(_CQzq
z!AR2AyXt%SOGWxgeb-X_J8ymX)=E(BKFS*=`Ql6R^A}R}7m@w5A0vyjuS52AsD&6@
z^*#5Lu&na-%f9}V>#M%O+!E@+_*~7c-|qULYq>;j>P<Htk(-VzoXxbgf5-KqYq=uT
zb|C57zSi2CZapoxp8i35@|UipT8ERq7E15z-Lq+5i|lJj?(9oGe<ArgTBBvvH=6To
z@%7~H=YP<ed?UynUdefw+`f1D>)OMQeOETx=_{=lQXg19kkyl(`?G<E_Vm$L<)g2r
z4!xFq?ov{G{juwfpKn~S2$iR~QTR^T&~|%{D>3Pa^#2L@K|M`RlspEZWROP|Va76J
z@mpuF==0zUBu%x+OpJ_(D&b7*!9{60yp`EdWf^B5G@%Z=0h7zdyf=i&pdTev9P9z^
zh#gS!)HhV$N-jXA@MN|zSAc90`Tre}Vx%HKjKC?&d*{%v9$NF1EVTam5Qd7Uifh!=
zGTNbgXnBA_(Nfm8opJ3M{H=@@8dGtM{ty=l>w_#!7RXAs4jZwcjl*82YvZsYn~`#=
zHf{$QXNO*iD!_)Tm(z?ygAG;H!l6f2!wPA{HnB#-Q%H}U71K=P*7a>@TSl5DxG$7d
zf`mnS;|uE#oJdymG2;9;9b>*t0l0-_*@@V?&D4lt9{XE1v|=wf4JY(}qvR$!yg@qh
z-mc<5+YQZw3RkeJUPhA{gCI)QH4t*y)}hfL*}cRoGhz@%u;FmzI$10y!Z)<h0(uRD
z1vm*L8^9g8taG~=Y^jXs1EA32a@2$LDH}asnnOA0+rl3*%T_cz3P0w+Bz&s3+O|L%
z-e85+#vlV$VjD9}j6`_RF^VRD+Hj-d1{4Hd_I|UHOi?TFERA8Tl8?-=JQ5it7k72!
z2jlcYG;#%g`=is~8|j(x;t&yx>Kn8B2<d8Ox07gCLa^sm11Id4lW19nrL;hi&{Ryx
z*IRV9?0Depxi*lr*8}6R(L@3#|E#sM-(RSBkDnMk_VT%lfx*)!0~bzTIsphBjT0=U
zaxqM%)Mb6z0Dan6fEIoPC<B<xs49vh9*F}YJ8yFQ<DB8YMKOGYu%y93X#$-U(2I2m
zBUo|rrt{}<L6@(8Jn1&QU<2w>b`Zv7-wDW6Z;`F#Y5L+g(tV^FBMSjTVw&r09n}OF
z^=4cHogiP470YARpCe<R74;t|_0MpEv@I1pW%EbYDt5rm;&R_9xK(g}|6^D4CkGCt
z54<2Bc;Tlu>+XU~&z|{#w5KEG=~$=xq^k>_PP+>*8TY<sA&7M_>FHYY6yG^@>r}FQ
zKe<W)TOIrfQp~@VpDaDI>N=|?zwq3ut5Lm9mbI<A{6BR2kWihNuI-g;dw=S%RTO>V
ztAyP5Ri?|f%VpcsWxM3EUCGj(<<jMW^qy1lo>S>P7vwz`lD!und0&QEsiJ6pa9zL;
ztWkyDJ7;d4S-Ae#)3ELqJmo*%C_zzwzEO(DF*j=cugeAw*}vbp@3_ToZo~N;LTKxh
z0x_u)9!Nt!$O<Es8w#x1RFcqzI0T$ddznoq30P`Ewo%>j$CQM%gUVDV1*Au~ogG=Z
zWVsTXk+X(dYFsB{4F^>%ZS5DfBeWVQKpUn+r#dA<ID?3D#`Ve7Oth=c#gz#s1bhty
zd>-7A4I)q{=-`U%3OSh*bbeO*m`rl43<YW#z`Vg#so;ytfR#@L6P83iN>OVkN819e
zZgcLew@oG-Ga49<Px(}{gxerz;<~%kn28${;D%mTOwLAJQT=pTKOkWAbiYJg4~SOl
zgM5Rm$?6Y!o>^gfPh=(lzd-_q3PvsLzboW^;L*|>wagV}mA56Upz37;zJ{avVv(E@
z@7NkURHU_hPE0aFZ91^_&j3C~ixGdY=?HmEV|HwchFgvNCGem^2d54l3IH8Sf-R=d
zf#Ad0bDbf0%}AKFhvA77j^7Bg#ZO@k2EbQ`uTYCfWN*A4nVgPcDpox=$onP&qGK3t
z#hYe!=7e0JN_s4hn$U9DiqAQ6m>lgBPmeGN-+@J7D!z$Mj?&D#rL4xZ{blC+*BQ6d
zAzmf2Bz{>-kx#cqQbV7TEM)wWVi^RZ<zVaVMtP(E!x8D%aHUuzs0Ih=DxaK@SkjD+
z`jq5`#wb~%Hxw7<G4h0%nXOf!15g5M7;=o$8btbayf#})HHBM@Xo4F2mC|n@j&u|!
z#X2#C6)lsaSl=1J+@CiB2P`Z)<X+y6pd<xn6g#0GW(8GjD1%}{!ise~sCdW?8{XJ#
zZJu<85?!FvZ_<fSDx0LG-=eGErql1>1g8}sH-8Z)b(ScY0R#_N8O@O=rWBEHkdA(0
zN<r4OC8U&-gAU4~zrkI9+?0U&NGU{XvN+7APO)59YPIxP?0^(zs{<K8pd64KcfSKU
zh2^l5;{p02u^0(it?Th$?wL}>0E7xZiKElL!R+>}IKw1b83t19cX0y7@ERB+Q(2p?
z?3XM1=RH4k7p>LSzrXL@eTyBb+V1&tphBu@?%lY1<9=c(xLmUIN~&^Cy7G`*dFWwp
zvhq->^5ndSOto*Ms&~#8{iM9|-m7<C{buM7_AWKRg(KB)Fjd}%Rd?n6^97lX10Rd0
z7T;Vs_7|mpS@FG!KRx@eN|NHKq^ln1wTkLw4bepN?o3tl;;>xhpD$e7(e~}DA6!jd
zj(prbmVEWK<rn{~>Cbok$&P>f`gbi4$K_oY9(9kUc3gwQ%NjC%`R>c<@>aRL75?E%
zhh@)!WZ%nhIjJa^FF-BwJvxpepyRsbTBu3ZA6RuA)Nk)!TIyZd_Skg@yjZfhCFS1!
zpls=ll)vwhyKk+oY4O-%?^4N<ZMk=)XBBQbwf*zw2woAeNi2>nzOm}rO=&T3)xGN4
zr2?v4aJ6gI)uZP4>i|I8gl(rSKi_Z)yRKPcq|1H3u<GP4`}cR)asKzk4JY@yauz`m
zQlXCiM8b(JBP6pht~Vc0d`mDFWAP3a`I%s(Szweo%k45KyE^(Y^+i!7J}H}6>Svi9
z*QMggFjwN>E<hs5aE#zu*H%p{d)<j1TTiYJJ|46dl?J~a=(kHmT5}(W2XsZV4MG{Y
z;UaiX{tnVh2vyvi^=Bb5l4dk`_|Wk(mOAVCY<<p<+5Gqb4V9xv0z;)p@KwyaFiN-s
zlqG-X{K<^RcRw#(<wrl2J^ov#2wLy_Nkz>!d+*<T?{KQZkA7TSlXRJ^W7GW(7Lf<z
zlhh_gZu+53i{x<th-X#Tuo0JGO?&~9qP>fCZs0QJY+zmt$0k!ZrjN9bY&ZP54e*Js
zbOQN0vYt6Y7P1#3j@q>lhZqSbI-^Iggnj`41?w=k1}E|mmtZ2S#R(Q>=Bz|-ge+i$
zsI%h$F9VoJjKuAe=(6bA{Lt!3E9a0d`4H&o&gEw@7c{mu9SPl%m~bVm<lMx32weKw
zFDu}OZT5oR8MO`%r=`d^>@2aVAhUXiaVZ=IJAq|hU?6C+*L%0B_iJN;OLKI}0^~+E
zryFca_ZLXtLjWenn-UFdZkJ&lpJ14Di5|Mhz(Mv2=@{LXtEGS&C@)2TN`aJUWJqKK
zz?#pXq!i%9O*QZUrAbaDCSu(4vX^3$#Yriph&hRY4=`S)5^KfRMpYdfHi#1opfsCa
z-lY6KE9wdKzu1361{iHF0UUK%n_SkGD%*)+*K_dW^1h|!h2d}Re*eI`2j1(uJDDu+
zn=inLmMZOezyIC-ROL=gLnRdpiBw4o{E6}p&mYqrjWCmycW(%`!o%cbRL>oZmMzOY
zOV{P<eefl!-3D#B<nY2k#@BE^cK0isAzylN*|M@N>FapxJM@_i&p&e@iFF$i|GYqG
zXnOAzjP6WX?S^2@KVz96$W%2g_P$#@e;Tt^dPl#!qkm;4wc~WsgESv`n%5l^4LY?K
zE6BI~e4|pRc#f??`klG~w>?M3(_m#X{y3V2{1zbuOn0QvJ3kiSJZo<X$Zlawm-0wm
zJwm#dBapu?A`BO#tO2i6vzn+dALtmchCn!q!Dz?wQRW6fx+?c#Bpuak$ZNI1Fy4kY
z$rsUbU69IYNi2yDv*kQF#BE)|F$!^+V2e<1W2xuu=V9Kq&;s?@-^>}rL6C@S&Qjgt
z7<)+LmXU)U+=E}=LqQE>`<5UQwqnp;Bja-n)F1Qp7gZZ5hP>gVr)R5qF&c1vw(~SI
zM?<R6o(`gFvc_mq*F@$>mo8?P#>&R;p(&)lq7$+BS+-SD$ha@IgQP@^nMM8FNl@`p
zkY?{Be|700qANw(uw}wS6$yVyPYQFMNN*u5Ml+Wt0=OZ8=>6HQtuyJf%)!4zgZ+>3
zA_jYbP}cy1VWy%cUC}OAw5KXMF>%r$?USqfQq_m%i!z4k@hhvY7c|44J5|?#*vs+s
z{!{Y)Q>!JX$u+qbR>e~CH|)ZItlPQNE7x_yak^@Ix~g5SYEM;llDA>+f<04KnXGM>
z%i1%(mc@&*Z)e&E+g#6b^JCw>Pr7=RUWT1%@!})jPVyk^UC%?(w0KcWx*E575)#y4
z1NLul@iYsO*#M;td>+`eA%j6kDY3(hvN9v5%*iNikj`2D2`T1lWiWnoELsk~bC&Ol
zKz-qY#)_-c%I2AF*26aQh+~78uF>nHmD;aI!Z&8U*}+}#z!<{T2Qg$xTOAPntK^-2
zVJ3cca)P!ykf15Tc^2x^jN&*wj%7NUeanGG3+U`5b<|l&`Yx_#OL96TX@In+PizR!
z*d&u*c*lLqop#m8uA2M(%MJ+hRoA{XZ{<DDT~FHEB70lX-kq{{XR`fp%G*EhSaTKM
z@!WzLyiRu2rClwut7Y-!$F6qX9aO1@)CEDu=%;X#y-|S~4u>4oKRSDxov_bO4)`Ho
z>e;XA!sJ2_TWqk3Yh1untQv4W36m#*y8cYP(_W&dhCGtKhODtog-d%$3L;<#z9(<u
zS8-l|m&P#2d)$1;jf>KcaGl-siZ_Omsf(&v`8L7q&5tGeCdBb!?XyS7FS%2EtN6bC
zefPWWrK>B`AG=OGqjiVy?$ZVv=8#(i1q}dbbm6Qpt6AG?gNOEKf-~cG=ual5NU*&6
zK*2X8bhPP!xy|IuYJ;6EprkEapoj6p0Nf!9IY+WBT#B`)#xGneb+=h&0@T59R-7Ec
zLNhLLYZnAS=Q1r87MxnLowt6);&;sc*yv+er>45iv(CjWY{0x&q&E^7)*&uq*x&*L
z+=~^2+Uykr86=I;5_=Il4A53z5%S^E!eIASS9kHwqUTEcC|n^D4>O3)*hOdH-=#<C
z%T^<`6tkXkEpm`A&Ktgp?a1_pjOV&YGU!@3JT<$02s<gLD;C-8Zj>J6N*qQjnwJ5o
z84@SOlk1_)bVYrFuYY0_FHy`2=pbHcSmvZjgs8?Tsf8kwj>=a$d5o1&FoqQycWiqW
zY-yk-v(?<>K}&;!;<;?{0m^wq1M3512w~^VTDv2{q{Me+fu?#R-MC9`+?A^BNfq~G
zs>Syk-fe*A{jPzB$J57OlaIfad_9<c{hIvxwbZUCJnR=d_b1oN2xXVGEWY`utSwXD
zOdAU<9a?Ej)t_D%1eE4G2P_S**pt{mp!V<r6z9g@ET$zs;^$tWxH?&T^kLaUN3wb_
zRdh1xI{A$0^sQ%%aK4wDnM5@kbqqnHH8vk)*{Pu=(XC8zw3uz*V$PqK<?<2AO9yxr
zKXa@kz_jUr+;D3_hII%d9*Q2YuBrOWpT?|b1h`0BfT`^l1X!imwljpQ^;%$TW2~EQ
zLSvZe=Nz}o2^X7Ta05^CTrlf=Qy)D5s!X{x#xptA#cAznT#8`FGc0jbSIBCcm$5Z5
zwA~zGV$AAnO|iDTm~EMYRjFLibYovKthj{C7zHms8P&5T=g-(UY1R`U_$Q@nv8*|Z
z=3Q+$4I8FPp1Q_RDP^T&>om2}N$rTP)CFiqH@5DPcJ@$R1=W>_T=gb0KyeNeZ5!1L
z%*Cpxpj|;|(+|!$)jlIF#lec86l-~?ZvuAbW=gsjfhioEu3|eK>g^n0$;@g?&`+}E
zh&0+a#kfs_K8>_6=!=Bf#w_2rUb&_>T{9@x49*v;Ox9v>@k)|546)?DZULj!(3x)7
zCpYX{zVXN3`0h8-`(Kmyzm{sabn7d`ZM|;!WXI0*j+62ZjM-*JknT*m+n3&a<lY4=
zoh~CRjXRixJ-d=+yE4A!`4ey(@|Mqg*7JqNzLjlq!=d@FWSS1I1Xr#kn~ovh!n2lz
zqD)gyx~WfY>RahgHJ!OzjNB0ZiLW{B+X-C0bR^|_ZvI53*f;OtqQZ^}Y6lH4hP*Qf
zB|6l6iJv*h(uS)#_+}8xWTKa%ITO7}4D-}OoZB)12Ad(kGv7C1(@Y00K!Kr2JS#<G
z*Nqu_$ng#djBJ=>>d~&X6f+0s84$wEz?@}FHcbn>o)e~5`f50|l(W|(89QiX?T?`w
zPEj`#&;AE4tyS5Ylwk-$7h;-uTJi5<ViFz`S&?#1Y#qhZQ)$YH%x+9mq1`)Lw#Jo?
zB7DczaMN`U&#Db!lTF81=cWMMexwFzt^Txi1Zv;yetHV@=1t4kuB|b^3<J^*Ta6tz
z{<-_hGr#lhttFhpE-7PMg9X!8cW1SgJ7M9Qw!&C#PuOBstfSZ;->W4xwokh<ev#7w
z<4(ImXrFd%{3h}f1=(%`NPPs$Xzl)jAZ@Qxz$XY%e1Y$(E7H~kSEb1bvT3Um3cSs@
zfp!|(xJI+>)?ypO-`J-D#I<4D%mLPXC)W66RP{JhX>J5ydkV6!Gi#+zmYqF^sb4ce
z8irr8v1_xcm`GsOHhiPheMZ>MsCs><UVI-6i8hD?NMH*-XvSBo1^+p9w-H!L`A#OA
zE8M0=Ad4$ikC2C&T-M?c)!ME_(md;Us~BrNjP@Z_c~e#dao}JO-29SOR;~yEJD|)t
zb>!PAP{FkP#hu3XwG;G!I7p)yM#k{X6Wey*-1MB$e41<FX5vMyD)UZYiyidE4}sCh
zh?#@qFxm@_5Gc4FRbvW_lJM@ODsQy48zA2hwhcBm<Dk#Uwn?ET7{*2?;7hSzil*=p
zz9XlMtMFw&(~eJK`8Tw!*fbWw&<-R7_o7g6R5F%(aPX$VJ|48=3_JlR$FXHGhm$!?
ztU*h*#W7du!nC}c!N<1#y}LAh&(E7H8%okl%@jmXOC+nM?KlnPF!O}(Nq>F<YT&8d
z16fIFE9-LB@nPiG95I<oARbt5#wZ~U^?u<x6b+7F2?hISJ8~$i9R0ZKP;?SY)nom*
z;IaRdupWVfw}tyJrt9~}^?TkH7(lux5v9QCV!PsC$~$~B`JNtp4N8!&LE$%7*p0tI
zI!doGWp<FRo~IMR9j^5L9bM6^$=BSFJ&o-(B9XUo77cxvZhx0f6Lh*qrz3PaM<<#}
zVTQ^Q34A}l5*i#iZj=&XaOnx167<qGGJmQ4kYRUYHIKSs38SW@vxw~XaQm<gqKmX?
zE)tZ|t>ZxY8_M8sDFYXFY6+0yLh)|qWQCnXECB^ecC!6aX_->lX0KEVtftpZKR)|l
zG(NP0qy561Z#`S{^nUOGef1(JJwW(1LhoK$f!_@@J|DmH)~&Zv?uNx}kKE0l6qluo
zTOJj+K$XWziL}oz`}|9LzSI9<KVW$Kp>+G8+&&23h@MhatA|~xv*$ZQ9}cbb$Q_5%
z9Vg_D6X}j~a>uz$Rm)NUexIG^El&h%XX%3dUeVnm?5gbDw(9lcy~483oPuvJEOqtU
zAJ~?Tr#p_z9mi8`C*=AQAXR_T+{O3wSo4%F?BROCa@E5<tDaLRKuZDJ<pUm~v|uP%
z*OjX1Uh$<5o{<lpSuHvHM5xLy1*I>xq{RcWcwnVO7N1LtXJqkAT6|d+U&baVnWi18
z{?H>g9Zok5$xTD)rq|@A*OH#bOmW$r*<YPyTa|E1w_WzOYlVFHqTF#Z-EmRwxR~yE
zP40Lt)$#hO_YJHNN_$$c(ct2XGHo?@Q1%>L^*qOeA9-4qEHL>$_Oz_E?&cexta&RI
z;_1q6xw3ot)rav_?>V;B$^7wEY<A)i{GI8xqjKBPhb3~`K)UTUxeZ0z&XS`=Piaq|
z?CDEBcX8G8a;CU#Y2Z<D_Yb`le_On5&0ClD_RHS>4AwEVzuV51Ssj&Yk76g7jM)3L
zd`C&?XRT<WXK*NQqia8%C8f=A*>Va9yr*q$@XHnEn;w`kAn@kg!Mr(Pb<0`^YRTfR
zY4TKc?M<@__Mc~4GHEt*w(q(=6`Re(y6gu@O)CMFO3leHIs;?Zgzl5gXg7_u{yoIZ
zX04@95wO`>{S38!jRqk}N2X?1)$uR?Q-|GK@QJr9Q(T%Z-YFOFOcw83cfj*G?P+D*
zs4L~^+OQ$gIt<is{Sk1<yj1S^pUYiwq-(WNWb(9+rxIYQ9)*bdf&Ca6u^S?@uO4b#
zgrN7;U_A(S1h7DFQZ-s&T8BU1*y)x;)OjqD+zfxRzyVF;#ORAb@#N`2?Q0s~0iceV
z7#Kj{uqaOZr|Im_4Xlmje~y579sO&99VQ^ORa)!xvUmgJ5!rB&1+AK5K!m-NBT7+r
zSdc<2Hl|Ok+0EvWIot(z#Y$<IN$5(e%q9~FB(E@Q?dn!+s4(Z9E=Cs6AFvy@b!3WJ
zOt5N|ZHFJ=mMO)>j2_5cabeqAwp<w=j+2v9z!@}I!9NjgDE%0h*}YO}V)f6S@c^B&
zCOx3I+3uXF;)`GSJL<Y8krV5>w8pYicF|s~u3c%@UfH!bQ&P5YYN2ob8=0~yNS$=e
z5xM5bL(4;JvSuJtUY#kg%9NC@7Yh0N{vPJm0w#F;wxOXxzjY9%qS62P;b)J|UwPrk
zr=)km+Bd82M5cF&E)?5eu3(cbYUV&dDF_7kpAW&cClGiOi@Mb(d4WJ^aySr>UO`%H
zqZ;W9T}{#HTXgz&bow5h{)$dyjb_$A=|9ocf1%SlooE*#ERt3?5@O?BDn;0b95HcQ
z_I`><C&DeUah%=}KC@aKt|y)Yj;4*crO2^=L+o-~wrqUOlIN&>Qd;e3e6p|EQMPf$
z;&#+-)OZoCrNkj_>~K0dHoQ*9pk>4Bb)2$nw3Io@pX@y7C|$p95u8PzSzV5TCpKKI
z)79s`A_s3umj5ua)(@1D9Z$dyLl)$0No&O>vUY4sOB>SKadr})b184e3CeN?(PxL*
zkUC}<ZD^T`*cOTawlJ{GR{{a2lPbY9i695Y>KY-wy-`q?0bHw5<us>ZbCzq6G@}1c
z9<kEG86#`UEx3YY?;%UiXgsmQTvD0R@uo{Y%xvQyscnaRbmtegtF0>W1kM){`Kpz{
z#FVCSCgh-wm7IUAODUSj$UPccR+71At7K8fCgfB$Y~(uUuxfT<Ml<&3NmM5ixTdo|
z@qxd^LfpFQJWk)uV7*n<PD@{1EoUr^`hqM_oM)vz1Sb=Q-x+krpBn;T&z3A4*Z%@d
z#?kp*Tq$+aQz0mi=CBvD^LdJ{ry8R^g879HJR07!HCxv9>l^O<FBBnm8IhRKYV0J)
zSgUQKmuYRM`<4vWD%Ewv-6LIhNUl4yaxs1QCHe46>BE=h!<SQaU!_RZneBf1ZOU|X
z(XXHRmiT3tU$^6H!wtEyj?6kU)%9u9@Y^D~uHKF5HGY`+TWMVh9g@;z$HdO3bbZ~r
zti^=8rD;xC-CR!<F-e`>beL}SZ%TS=X{w#x;4ubrws6Z*Zbe$-$LDx9t3wk9mlMI?
zh{5y=mOy8w7{vkoPm?J|w;qDnqV6V9dn@JI2Ak0C;2D2CI6MtviFG-p@LCjh9gTXD
zs0VUyCkyLnS?aY^j|6ACwsx*(^;cTH92-WW=x{Eqd``PtWp``R-JJoH_xH*EzO?@Z
z+5bYy|I+;N$DSSQrNYjxwEu+cKauudko^~u7hg?Z49ge8DgOv*0Xy`LmUivJT)XT`
z_neh`&OUaX+X~(3BhvpT4{&-~w=?r5!bi8`l}(44O+)*<4Dy?Fw5*P*OHQOtyuzkK
zi>Y>$PF*^_L?jLNg5?WqNE<f);7lge(N|~UhH(b);^m!yeLcV=k{*hemRDpm2RUe|
zg0VuBVNRUcwymGuJZ3$8^yA2geRNv+*d^C?rE8y)YoA*=o<8)VeCWmWp*Q41Z=`B3
zlh0aRN4l;@uIowFu}vwf^>6%aVbX`X{=a`!?F%vn-|VaFvzqb2v~LCRqrbuC!|ZSD
zG2&}iruHUN0h3cI?e(l*GkXk-@8FVHPt;vgj90WW!~fd{F5C)N&I5WMdjaYq1O3_E
zOGPeB(a4=PN3~>!;L<_8js98=tuqg6WDk=(jF94jh_O$)bWtiy_m_!D&D4GKamwzI
z(*HmXv&~z(-xj88JN3M`5S#Tp0_F9xt6qiXp>)>~x$DTP>nLVAPB)}m56i8GQ>{n%
z#J8R8Jlmvqzg!Ws>N@uc*=Nb2I$d@|E;~X7Uq9R<J;iCy4%xHgv8N6G&G~*NiLfiB
z<fH18(+PhiP>?F=L~}G7jl8l{H;Miz3VVr9<AgXF?ED9W$H+#f;^z%lA>eRBvE#gD
zqY23PiMPPPb7Rr{^*js4C_bh{-o!~M!KTr)-U$od@i)KdN^$aEw(v{wW<6)irq}{7
z#icq4+?4);QgMJy$4<lFrt5s#3cD*fjlVuc{a>lY1cJXW))m0cKv%<2Y%&_dH3w#V
zZ{~Wl7`iG$I~M70LXXiOaKf@qeOV<tx>Ub}0Q@AP>W0q0fnu;fT$Z&nG-)8LT{g8Z
zh+?iM^-H_a!1yP`s7J$IZm~d5vDlv!2$r%ZPQg<ABcb@mLgSBx<{t^=KN3oREY$ox
zf_MFAVNX)n^JC!<Cam(x`<8|MNx{3}EU`3hw3S$DH`<yltv@?wIq9?%d?wKOXBR#D
ME$|S)iGAq*1I%JxkN^Mx

literal 0
HcmV?d00001

diff --git a/veroku/_cg_helpers/__pycache__/__init__.cpython-312.pyc b/veroku/_cg_helpers/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..ca7236aecfac46788a3fea7a940cada576c60266
GIT binary patch
literal 134
zcmX@j%ge<81c5vLXMyO)AOanHW&w&!XQ*V*Wb|9fP{ah}eFmxdrK(?&TcDq&UzS>w
zpIxdSpPU|_k(yJGT2!nbAD@|*SrQ+wS5Wzj!zMRBr8Fniu80+=ixG&6L5z>gjEsy$
H%s>_ZZb2SV

literal 0
HcmV?d00001

diff --git a/veroku/_cg_helpers/__pycache__/_animation.cpython-312.pyc b/veroku/_cg_helpers/__pycache__/_animation.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..158f9a1133a2fe6814cdaa4c1ad09a36c6139dfa
GIT binary patch
literal 7458
zcmcIpU2GKB6`t9d*<b%*FxZ%%!G_r5KLS)JaT1f1;1mMR4-TbZ7-o0IyKAp!wllLP
z-mFs-RZ1e|!Mqfr2E|m7AOfj=s{BZ+NTq744s1|XBTGeUUMls0n4}MWY0tScvwv(L
zP3TB_=gz(7o_p@S=Y02^vwyCy4^!~Gw)CHgEt@FnANb)tKDToJFjOv3GIfHIY1x;e
zPtfpYQobqX1WQvg`%CHsCv#BxWj~YwIRIr)4ni4{Lr{k0Fq9EF0%hHdPpHcZ;TQNR
zP0pkgeq7UeNli{kW>Sswaa~F$rjuExVhn`;iBgORw9OrylHy9tlM0&y@MGY2|9L1t
zLXd8PhHBMgA`N+RRF01OuDLYcI}3eBDS^rUJ<P*%M4D81i8oA1l_g!~4JB<TCa-F;
z!mHAh!e<PW)J!P6c~;|9B^ggdH67cK24p5|2Gf!*O#vI7G>ejmg9rIh7^kVg3TV3w
z!f~MHfN1#un9bo+IYd{?jIKIN9XZ{8hof%Jq+v>sfqdIRhei}_pC}4Go1M^-s_i#4
z-Be`wj-XJkr0$0!g@N17^Q&Du&8hUx@txC(u1#ikim|wuP*Q0{H+G8dA!_PCdd6;<
zf?X8d=?GU`y<P`w>fvW}Kru(%Yo_YfUt~WHeHi-WiL1SfZ&||re8-FV)&sX92Q2o$
zeW0RZESB!$hc`L$<50OknZ@JI(K+8WS2<?c$|KLQIp#Wj&E-Q=6}`UdUQkd*`Vp`q
zd$vCzsc|@IIJKCT0$tU{L0x%8hQ_1{dJ;=z3=<BAXl_Y=wdjNrGY9w)&BW1?>9D9E
zPDn;^I4GN|X=GYQlZdi(;apuf@7Y8$mM9Y?3B!qaGKyj*;Cnoy#>}Lq@=%vzW=2Y-
zW{8?16T=}>s-@(+VR>X)vaG0Lo>dgpRa;oCOy(@N1Fx-u9`~r4h#Y-XsI&>PRgThD
z+B=cKHJmb4bV$iI7>?~!*<7VjIELrUTxLVwc*m5!3kT(_NY31uUscY!D$t!AQ24I6
z4x0q$qVrw4B6kTy_)l4zBWuz_prAUUs~v)o4x<slM@+!p;GCOCNJW&)ArLsd3C9%&
z>uZohQ?(%(95f?X@p=Rawz~XWWqg3Iz7D9`;AcDy#T@l@E7jV6_2g1-e#5ZEu3Ki?
z3k_=*+O5Gu)-mxL#>e@;_EX%Zvc`X7qmH&4E5a#!piL2bd=@GfC;(XBG_BJ!V2!n)
zI0q12v{DABnQ02BnHgGOr8pQf*~I+`B{s<?!O(ak69x1_Y(<sBZvY#<JEp0olvE8z
zF+Caqk&e*n3Ln+X1hG&RDlo?F0z*;3JTySCl$1`p)KWESXQHArz{OUFuRE>c+8d}l
ziqr2<R-!m|JcI?#OY9{Rtu=fK7FRJE8@wf$8kjxq5Hd)rvXWMyP)$CqD~6)R;C>l*
zm=mdCX{acJ?p;AXhHYvT?$m&;q*GE%5m-A6JMGSB*O6s;Uy(9l>;_QvOiYp8P6N*$
zxjSmuf=u9`M27($ftXZv@GPhS_!&E)AgCW~zSw>%u)WZ@uF%4N(b9dZrTglpMLpj#
zI5$!VteHQ3E6`bJTw91VJ*aZ1`b6d4feKMM8kDHM>?(j;9xel<f#)cGQB@SsQbB=g
zOX+JtY28uISf|W^XHimGm7ehdM^M~ZHpimhApNd%Svbc6XiwA+w!=MLKx()(qUi2q
zK#}n<6~rmH98y{gd>;*zxp>4zr3>Ndw<tN<i0(tlFpBB`o>Y|%y0#-m-Eoc~c<lIZ
z9a(nb75ZNskW?#`iho@(GAR=k&rwbE>dIBqwLVWnz5C$6o6=M|r5J<Gf`^8NN(&Pu
z{yDxwipDyK%2xJ8v2WMzJ*B=fncZ>F&G+~7vNB$x@_<7G5D?2i05sO!ETg+v6{Ws1
zaiZ`+49Y=zlxJ8<8Or}dbd<Ydb&pr>Q9a|__xgHJ@nN`?&_wkOPzanIDcgYZkEp&8
zsoJ5i{Qxy^;MMm~=Xa1(-v$i!!Ou7Y1;D|RRB-M5<gLKA<;Lv`Cl`B{-pV(=Yz1Gw
z8)&Z8e9!OE7uvRe(bjjXtq*Rpj(pp5?>F29K&fxNIAYcJ%ncVJYvztP_<=CxJ;kWu
zOSo?^Y5;e!<VI2xt`q5z<NKQ1{~~qj4-_>96tmo{U-sqv)09Df5HS&x$b-m}^Ly9>
zeQh#h;*8{(2zs^BJ4bume+{wJBWR1U3(#_xxY<A%J&EK>e6f}b$o?Dyw1G=ZNvhdk
zE|~LAcEed7dZcvaGd@bX@|FBB>1v)rjzcFy4$iV4e8y5a)@U}-A0dw%%F(dSaLxy1
z<PzuY={xjHolq||!vPW$*<W(!iSJtU>G3WlEuQyFVmplI5SFECm)Qd_$JhLR4y_jj
z62Z#7-rA901)1kjI`CX_P2HQHtfbsc?c=+msf^ME?~=1Ryz1-kU-fs7nfp5SWy2l&
z#*F^{F$3zGus(Kjpoi?wb3*sYv7@JY#tfl*phsBc#^TTJ8d~-9@ZK{tnr%_F%DqG1
zo6m-c&*s%(7s)maj0gccq^KDP2jTj&*{CMZ5KORrx?=kkBPOL4n*k8A!^b2L`hc!$
zx)7@A8Hb7QOfFTMPC|f75L!&yfwW{oSf<)_=zV+520GU0uaJj0EqXIFkzyPw1_PP`
zn6!>+-Y|D)c>}-Da%JP?jrk3ID^!H*ct7$U{oYfBNaOrdw<GP#jk_10xe>W}{7&Ps
z!luqoethNN<%3rz^V<il&S#beKa2h``TL~x>dE}@n04Tkb!x`in4J$SZ{7Cs^oP?6
z@x_+KnZ?N)>#dzXx!IlHdUU?-?%J&jPu*VITj0B{`+ghxG_=^8?;f(c_AO=q((yOp
zPl7cn<`12*4oa3ZYi)UZ{-x#49ar{V-g~uc@r|XYmwIm;v-TXmnaFqkbpG&NzHgqp
z5I!Hixa)j<Ve_{0;d>ik3178B%)Q*uYPCPP*uGf5bmC^@#;i4Z+G-Q?4QH(2nR^Tn
zJm_{6VRIF>iNGfFKfvazE^M;19Ka?wO(SdqSaJkFn@RvWff0Vy10Yod*hfR?B}V25
z4EO=`I1h?*wIPKikP?_>K6o7<g)tgUjHk#W2MMHvE-}|!_y;fv3lV8c4KNu`rcz}I
z0unnr!13_>K!u~{!U&1_Nxhf|tFV2{(UfvYBqimVJ+U<>OMr%(fv6{;Wl}Oao=$`)
zS9plUz_bJ-l?y>sBupQPC6(cY-U(Z%Z-*kwdr*R$Yr%=W18JXtVl=x4ykv;iTw%$E
z!XjXG*r>djG)R&VB^rb#N3?7RH=69%h~U?|kQ>}>lrCV=i$xC>eNaF@#@7&%dz<J4
z*kSTbU_{4A#cohi$`r&@UYvtkSq2(a0X!K^)~4?T!gKI5K7xY8Is`~IKe3RxlD(YG
zZ{EE^`MHi;!8SmWAw-h5Z%1|%8o_C~-Pp6tcU<vb_7~P~{wVr!^26lSP=3p9Yx5p!
z&rxgLsCE35bvkaHN>~ZiI;L4a|HXaAx2?Hk<=`4^=>R*ghZ(+V@a%l#=FH7W>t|7`
zEtYSPt)N_H;jU(btYxwMuiyg%t6C8}CRwjDUN}^qOPeTnvIs-CtXa=?X6YO~QFMgd
zZg^dDtFsVPO&~f~JzhTzAsPf*T=pojh5ece5xkRBBS(+HjKsfs@GuXl<hW9y=B{0h
zf-)Cr!BIs94qdj6<TXvjFbCq(!w?y>(@EuQwyC^%Ag#v1I|k1eqHWy{!CWHAN!zRj
z5xC99G)R1Mv6N;g0^{mgI++rQKz2j13aOs-jDdkBXp|E;Hxs!;Qxl6+`tv}5Ct;wk
z44M?CxbVA&&mErMvY^Zz{+#VwZfd*GaK6FXx+~wbd+uPNWy^)r=TGNbc0dfx*1!A8
zxmP}CTMCgji*0+*3r2-T5$^vBRNz4`7`#~adNGEE&8KTc#wA$J6@6syz(F;N$Bof;
zjscF$HCIW#C&!|?V(REINLbF#CqMQT%iQB#@eh}9#xDdU_}9kqhF_3nejNU#04KK_
za?#+-k`NwIznIMzct{eF#1g??i3e%}EDY`xOk$-a!+?BPO|KdG5XF9|HCA*w(m2<V
zD;XNLTy<|Dde{0xrGghh<=VcqLuWJK3%jPO?*U^Vmx100HJgKL6ueU|3i+|g5rHMZ
zZu=o+2<A_0ljKz0gsts&gsn>4R)@#iU?HNre<JQ&=}!~UW$+SA{u}rie}w|9zKL41
ze(oS7Xcu-YK66vJ!;Ti%@ViIO9r?U@`@$Rf=3W4TFWF9#sa@)|UOPduw{Q_~kq4+A
z#>1PT>kj++!)G}Dtus7?#~rqhV31I62SicUVxmayXPW^S)e(sFK`ihOBC@egMq(R&
z5(gdcRcG6AhdzabA2y(~wi<la`73cqe;Gc}q>bmHxW~{m{guy0v-g7(9sb5o(VZ*d
t5Isz<v^LZJm7WHA%}U31x_M=UZlxu9Wp6XB&?`M5dgJ}pcDkR;@LyV6qI&=U

literal 0
HcmV?d00001

diff --git a/veroku/_cg_helpers/__pycache__/_cluster.cpython-312.pyc b/veroku/_cg_helpers/__pycache__/_cluster.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..f1e709598c930e0cbf25211628d753c5e8a9d225
GIT binary patch
literal 11622
zcmbt4TWlLwb~AiwB$6U!(Rx_2G?pw|jBME}J5DSqiM4j@I9BAu(ITlDWI~Z+i83GB
z8PZ-cG_no+A$L<`7bxHaeZ<?JByfsN`_rT?ntb$Qi!M-3n1BQupbPY;{nKNC0QqUp
zxi1dMk<)Gl(&gO8x%b@jy62ob{~8Q-NbtPy$^WdqdRUVF6D$1ju$SFMc)2Gfq$MdK
zCtN9cNhZIpB^Ug<Q|`29$&>ajd1Wc#S@OB0OH#snM@sk}xabT^ZKSOY+7!{IY`CKB
zg^L|?YC4<9r*!pt)=-lfGZ)L`lCfMev!cdRc{8UQCh5wXI&`b&Y1<_uw!W%nm)G=o
z&YbM{Z(L|0>Z)~Lc>3bpkLDM(i*x4}uU^xxEnb~(X`F+`i*bq@Eg7QH?we4*C+QMw
zQNrylxf7v;>yEtSNx1JwOWuSBN*``-sV(7yQc1wJmf8~vlpTq7DE)dM(Q!w5z~)~H
zLfvnxcS1d2tB0T-wAI5KozZZujcv5>T!#wJ91tUBQcC>3M8bLEZriqz!C2q@ODOJ1
zMY$+xqPqyYU$c*9Jw<tq3x*ggNe^UNDZmfRBH)r(6XQwE%fVK#&(~0E<F$kf`V?LR
zQE?Z3O$dRTIG+VEG4k=88sjpe-b&_H)mR2ZBnje^Qm@D2IS{DzY)(gcN=<eM@agrK
z5lgEV=?FS-T3uWP5u{DItjeS<2aQY$o52AC-lb(?X<b`4^y|r=(21}?&0be+@RMSK
zZ{=eP(e_%KMwhF3*0RY=t^H=qAQPE2zsA<ol8M?rEu$w_R+qDRLo@YtQ_q>Te$CM1
zdh({8(9*hT##VGTms#6y8x9ERhMtM*X01od=5x1VMjc>1mRmJzU7ESB$ALbYelwZC
zu~B!;W9q5vH6KH-n<Hb}rHKp%PJBCdB9~r2as9+i-N@d^pU~nf+Nz#f2c?B~s;ZOg
z8#P7KkTIH82%l%IyrmarGGBn=r_xrZ)Hk&0c`LBxlLk+G-2Hcbf7AELk;?S5*7URG
zA6&5pu55a~RQjqThw*o~8lAx3Bh|5^_&ZWPGLFBa)k9;Op0AXlT@;@<S8c4|J7T`O
z4~k}i-;krO*gt|C3r5W)5-KB)%E_aGaM-yDa+5Ucy|<F7l$y!r)MXuID1pNbJ&}*=
zcBr~o9#fa|IS^ieTGqwF1QLuLStyo@=Tl%1vl)~q#&56$MmBAqbCO~L$Pj3>ri=k5
zRSwEd6DPT~nvAa!U=+QaST~UbsZIh$xERb7TVFS_KS`!zIoQc^4EF;a@oXjmN|w!_
zjkbfB>UeUJZge4=nNMc)m~knVH_ap{CS5+-s)varC~~tDQZ;HJKAHdZqp_pYCnrxG
zQ;#kmot~OJc{?h0un?7vE?{odWgw4h;pT}=lmS&W_G51(mPoWHKw*%Js8jDaz?lIk
zKwQJp$P|$@1BE!wOd!0rNE$JGqyr0-w8FT+`I?^2-qh6?N)A_bIMYDA$b(x70@Q~x
z*^-INF#Pu$1XKgiy4stCgM0&y-BSS1cc4h4L|2CC4usi;A^1*o<pX%RC*{QMimnIj
zJt5z?0CTlHD<xd~xO)>0ku|%{0W>~q!tB#JmPMJ*BuhDA`s?$<OyUTzL#+{?rQU*X
zv+%#+j(TFx0CIwMsKK#1RjKlVU^C4)YN{y^c~l8I<pnr9DHu7`Ea;=b%^H<ZHW5w?
z(xS#dXX;Zm&qLOtHk`>fvFD)qxm&tU)xC~~IvxkL0Xt%*fxo%|`U-V431&RIj?NJJ
zM&SPtWd-A4By>Y8$)$(=0)Bc1Yyz`GMm|Hdw_y&@buiqyjk-1&$jHJIPa8(om{tKD
zIB{W@0!M0CGFcVm*GPf2K#Kt9STeQ@4jn;rav|!gxl?+^2*F%69}LnniJAv#LBzV&
z!DtAFUDQprHrPPvnvb1(D2}ins=GndPJu~bKV#BlL-XSRVLk)JPo>}OlfvCUKl8KK
z-+AGW-zX_sN!7}Vw)sX?2~?C3OBtysQA>$_aQsW<@vmpkectmA^P8TEGHfZs_k$Jn
zaZ7#t3*{`;6T5sPQux0+4F#Mj(i;3WKhBQS1ExnZwFn!6d2=XAz)^Z+t1HCWWtLyX
zgS*v=Ivwv+$XcP9wAxLK%LoI`h6)8Yoe`%g8_Z`P(%NZMfxGF18%`rG!a`<06ktXJ
zQhTtXj9SWQMR~+h9w|*c^_6n2mC|TI2&KOOy6r{jqKvcN2KVv*YK6Gvy6pxS;f}&2
z?D?aYbM5@ydBmEZ_t$^<tenTUJ>NMC8u_NDWfpJIy@ra^^b|csFORHXAMQ0g1DhUn
z=s$AVMxmv~L$c|)31Z;f!)WV+`SJK{dWt@=S9cB%MDi4os(rjx|1HWNxgQ`m;kn&b
zY<p3PdI~k60nf#5z=^0nN4;AVSQE?!wcmQP0g6%g;d&DMlVqY*H-wb{6Jv8M*m&?~
z3_~~9(W?RT1xulg6)^m)sB6o#q37~OhR(z=6o^lQ0bSRpIp(5$F)G(QH*|d+Y+N_&
zxz>&wg5v~Sd_VK%u@Vgut7xFe)jVM6H;6xD93u4_`i5Ea-HfI3;M4o4V_Ea3W5!A{
z6H6rvy3vW_d|;~MdaBmOuro%WHL6hK8W39}Yg5~*fz>u^oy^AY$RxnMUhO9IhUztn
zz#xP?H}?ufYHe&X6VGsV3^CgsNCSI$=u(Jq(`|2E03h=#D2SicJ5cF4ZuK1hAZ7K;
zZ2GJH2j3ffcd*j`h}Hi{x&PQ^XVo97_zzkBLnZ(5uLp+jdn)P~OFdIjXDoH5tUgg5
zcye?8>!FeRrz@jpt<kfU(R0@5x$@`_%R}ckuT~FER1QvA2d6%s{d~B5@P*BVYX8wn
z|0%2g)W=soPn7ykmHV&YBE9dNt_+;D;Lm@yI&q>haoL)<{Oe=Z#7m{XxR|AM>T3Dm
z^P3C5>yWw++#mYn^k+|f`c&!V#FzW@&9-W&XS1`_xS=W#<MtLcZnD!c0;*&`dH@8U
z8{<GKbi!nAE{GH6p}qEUO*mQgR*2^voGh-&5QU2sVWflO1*R5_ExN=_4;YdY&OJpJ
zG16!noUn8<aPB=Ya=_im_;JeYfsf<Ph)ao?hnIyGU!!3+*X~wR!xWB(Y1BsWV4Z`B
z=?af9*NTH-<e1jc&%*dEhoL1`4oDdo$AH2_m#KMB()m;_xt`h}7R8vrUetdBU3}v>
z6j2Y+c>{eD+J6?_Oe8vLB=w|13_qcey?o84junLcD=0{)9`3D#My$}t{lxp(UuM4u
zJz7%YrN`oBC_|4{dk5|ne^IRT9<zFneelw+Uj6XZa_=mQ?e`B>B4bu$Y_q-UkG$il
z^qsNb&wr+_QBiAR5jARH_`TV8XDb7f*1%-x#Fg^E{N{zX=6^eT{<DQo7b>$?t=X&P
z*%#1HJ7OtE?%%2$ecU?g?5Cj^69qd5FAw(~oV+zIKq&5TR>_6G6<oZe=crrW?9JB$
z4e;jBqa$u@tI%L7$!?UX)FdI;rWqsx_8sRCHRA#&ehi_TEgHeILmz`m26eTK)7Wqr
z3ZBxTGSRW3=UBR_u#byFy=?;lMxY?pd0$VZYuxG@|6tJSI#cPIvASl;T~BQKs-gXx
zL2Bxlrwb60gwjVi@eI5)M3#=`%_(x^+<3s|B^;rdQj}}tNKAxw$pi#^PG@|arlKGU
zMCxOP%@%gUIgMv7rPw6C4MJg$zJqq2ne_;yq4^F14M71BNQV@T{QN>CGGRp~Dv^^`
z<YYNARSumhDW_VgggYZt!nOC3SEu9PMaUEsRt3`+!I=>u8K&?cL^aJU<oqzHL(-<`
z?=V`hG>u(GxwnI(M2=ES|DlW6BEt_@HdBZ+7P`3j2;iT=*xd*e)Q&{nF5WFxLSt5F
ztfY)Rgc1iHLJ1-P7X(_k>pFWIokG4L+ZgbK1Sq6i@GxuH42pYQ7ue(g_@~frV)Vpz
zQwa@Qq2ZFkaw>Mo7dGe&4BwNd$n~a&%RAZSj6fB4K=W!&472y5R^Y?gg@;4S4$&_y
zbaHmliT?uHcF~(};FW5H)N*K~q>K=DL5iv-MY}M~OOnJ|twYo3wT`CM0-E;Yd@RL!
z+B7YZjcc0GgD4<Nje}T>VF8|uWXxdkBo^nOs3|-zVf+x=h@c@a$f5V4L=YfG%fR4`
z6d2W*Z$fcL+IG3T%B~Xf9@!aDyi+?7k9TY*;P+mZcLsglIe91C>+Ri{3VW}~JBQo7
zJzG7JuXEew@t)pw!`l|VL4=BJKJO9M25*r3qiw2aQ$^b-X+wxniXLJXhkx;)B;d1K
zfTHQb$px249^I?^uDjsUNrsCi540$HJ6=0+Nm%NDI$S`Bx*zIr6(#BcawQccS5lqO
zXTOpP;f2&vcq0JO#wkFcaGHqJ9H@-*B@_2g#DyEmQrv?(U=O|%b7jDb-Kgh;I6L`z
z9Nh;@O~Bt23WI)S{U!+m$@)zaxvLT>MUqgp8q|W_17S#H*A060Lq)qGfD?LzJHv<N
z{zQ~EtwMrb7!}Zaemc_;+}a2v7(8>KFtnrV)eQ%qfDdVzf~3yCIjDK^c?c7|SpEQ1
zOW*{m#erddVu-oNhq_EXK6DxzJwBp(g)n34B)^IIYaEE9;iw8r`}_Xf^Ipfh9e)-m
zgQw<stG#+)6n;Y0L2}#DU+q1(>G_iYHP?1Y5NVo!f~od0au7>!6@XFvx$zhvEpK3A
z!agJGcD{ME!8jyu)<o)tuYqZ2r!)^pn;X(2Oj=FAf~1rG0K`%7^!%zGzo914D+AvS
zj#9jOQ+2d%aH>-GjyJbT9dYBR5KxbfO<>C`F!4-fV>#8xWm9ytq2v7zToFKvZeVDS
zSqi+O#3+FZGsPmA+fd_(<Q{Xz#GJ8ZGn>lie$P4WM=0b@APnKcOo-ux2Fr^qXR|3m
z&x>$l@4<c6Jc!w1)N8y1e4=vuGQN>Ch>ud3iFVCPsAnu;{~topB;2n+Q=yX!HwFEB
z9L6pgBT^vz_EUGCdPjdR`)>9N|M6;fA4wk!TK>WN-ikV9sZ(G0r?5HHO??v*=RErU
z6Tf`o<J{+mOQDf3Lziejm49KgU>%eoVhP`Z7x-)fr5WCuA2j?47b)FX!YBugu#NJt
zQ4X5n6xVahicq)Zq71HsxA0>@dJ(k1g&$<S3>|VgU{`YDqA>@?P6(&~Ysh`!WnpH;
zCTfhw&@KQ9eqpVq)o<mFLeOThrqx0_x5XX6Uc&r3-@%<gyfh607d+By3aP^M_B6Ed
z8g$vM8HM=`w3;a>NQe?VQ0?6JcJ^*|+bsu&e%rZk+v^H;!##6oXuHiF9NJQ(P<N$s
z*y<eKZubP$tq!Pf`@JwGAcY3DgTCMZTu*~Mr0%9FougLgXt{H2JJc3DvgMZAyS5@y
zxNkGmDh((ZL>dmj%U;%yxOJBW&G4LI@(ZyEJ72&<6$2W%!1IWr8$4J-$)<pXs8ykh
zYlh&<e;}nWZ@^u=H}1j($<X)NOFa~8+zaPDq-poq4IcsLnSDP*D4O?!XH}t_@5cuD
zU$~<NmmD3|lA^Zm33ZO}=X<&2je$p<cT~9TM}ggP(q6Gm<1*l~hf~fsNkO)8;Imlt
zLg9Sz{Jr*bUm(Tp#Fcz1wH%AzI6ki@;d0MV$FIys;r1Uc{#Nj_k%mjmG&>n7wlw(x
zv12@+&BHeW`Aibdt#nicSd)F$kj(8xq$~5s>#GQ~z#@<=`hNWW08c~>zlVS<Hd&*E
zh}VHkg@c@kjxgWC5EID>S`dIh{q5K9zFrBPv_dD#p{bHGMM-Tp(ZbL_4^Vrlwo@(%
z91wtLejczxglCvyhwQG0;DenU>ILn}{5XECGs#F@EDEDdTcUz7u|}`O&YMQhMG%<|
zu``DHCyc!gt_*qs^^Z%~671_1@jXmDn}&Ia4`cVEz|`>ti35&4xLsQwE(pOJDXlIi
z>>`=uJ!=Z*w}~8sX=${$3YEfsE)xylE}*=52>Qv{5$U@(^NX2E_c5!Rr!u=|H<fCr
z_n`*=|DU%pF2It;(^xc{IzJ*SOt;9S1OZXwA_BA+0!;N2!}ibcVh_li9gT-&*>WP#
za&(*>ztZ5+{GG54R|*`KJLAlKkqfU0(L4_qV^p3w1NS&jn5;qqaDAiIQ(?ej+Nh7j
z!!)0cIT8>axU(bIa1%&oJaU9Lk~UW~>}v2v5ULR1SYdY$O4A%PLtND<MF!qE{oc&G
zGnIh}Yha>0aQvg(uWo;M`;*1bUj6jd@`?H1B>pY^FX_@NuT@@2S+AtZ3+Zxq#x89O
z(Jo^iad{4l1uU*&LGmfcal?ZJy1~RXGSEELLqWPXG>8Uj0L`Z$(gym+M2@I_U}At!
z<9&EBZ$kmu6c1!mb`-yNXzPG9@@Q#hVOI)!BRhw?ynS0oSVm-6WJHEVM&yuaJ0#j@
zmShXFBs*cB_tZ|f9cH2Vmxf%+Zdmd5QOpo2xCkK|{t+TbnAAl-Kb!<^&<}`BLlB}C
zxp?_yZQ<&I_WX+%wCCm)uU$U>^oulCM7G$t?QfM?nz(w>Scmz6b&~lQ6kBdtmLZuW
tdv+B`4*a|1|HdcDm*i^iU`dL66Taq>N4F&`zghF#lI6Y~2}^?Y{{jW5d~5&!

literal 0
HcmV?d00001

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index 2d67603..dd01d1b 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -113,11 +113,11 @@ def change_graph_edge_color(graph, node_a_name, node_b_name, new_color):
     for i, string_i in enumerate(graph.body):
         if "--" in string_i:
             if contains_non_overlapping_substrings(node_a_name, node_b_name, string_i):
-                pattern = f'(\\t?"?{node_a_name}"?\s--\s"?{node_b_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                pattern = f'(\\t?"?{re.escape(node_a_name)}"?\s--\s"?{re.escape(node_b_name)}"?\s\[.*color=)([\S]*\s)(.*)'
                 new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
                 # TODO: improve this (it's a bit hacky)
                 if new_string_i == string_i:
-                    pattern = f'(\\t?"?{node_b_name}"?\s--\s"?{node_a_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                    pattern = f'(\\t?"?{re.escape(node_b_name)}"?\s--\s"?{re.escape(node_a_name)}"?\s\[.*color=)([\S]*\s)(.*)'
                     new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
 
                 graph.body[i] = new_string_i
@@ -140,7 +140,7 @@ def change_graph_node_color(graph, node_name, new_color):
         if "--" not in element_string:  # not edge
             if node_name in element_string:
                 graph.body[i] = re.sub(
-                    f'(\\t?"?{node_name}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
+                    f'(\\t?"?{re.escape(node_name)}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
                 )
                 node_found = True
     if not node_found:
diff --git a/veroku/factors/__pycache__/__init__.cpython-312.pyc b/veroku/factors/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..7f58a5104fe1dacdeb4d189336194d3c18a4444a
GIT binary patch
literal 130
zcmX@j%ge<81c5vLXMyO)AOanHW&w&!XQ*V*Wb|9fP{ah}eFmxdrKn$$TcDq&UzS>w
zpIxe-mY7_UUsS9gAD@|*SrQ+wS5Wzj!zMRBr8Fniu80+=gAs^}L5z>gjEsy$%s>_Z
D+sz!r

literal 0
HcmV?d00001

diff --git a/veroku/factors/__pycache__/_factor.cpython-312.pyc b/veroku/factors/__pycache__/_factor.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..a655c35b12216cd8083a27c58246a9a217b22683
GIT binary patch
literal 9364
zcmdT~TWlQF8J^jj*IwJ}*p3rBA(_N6@gi)u1X?f`VH^yCT-souvV@lL&apl5?5>%a
z4fSFuR8boQh#)E@sVb4Gs3J-q`iNAu>Pw$0RSQNUEJ&?Xq^eIfHWCsq?f0KEb7t1N
zn>Zvw>PS9&&Y5%jzyEsv@n1VS+7vuLeE+{E^Scz~pVaW5m{-|2jLJF1P-YZEH6oUp
zkIY2!(V3`9?Wh%-iQzY9#q)`oM80LFMO7loBZ?6}tr&^R5wXflaygo5DO+vR3#Oyx
zi$=*}TCP}db+h1TdO_1?9oN=#uC}Dxtl(-nOLv^xHG|EW1+y@(xeH9oqna<}wYgFu
z=bA-KbQg42(=AJz!_=bfXwE{hWEt9meu}mIo3_qGsx1=_O&(>gUhVWZ$uoDMXdJ`4
zp2H7MO+0yIIy*HnIeq*@_Qdq@BXyk<=*$T^L>cuO8@H(h4O3=Rz!NdlnJA0R#Er;l
zWhTK|jOc0QvNv=liFPd1ZZ!q~kvh}HQbr=w-;QxDp>_vLu}+qrix|n%s$8uLvsy!=
zwxK;>w1q}=qbC&_(POmZRK4i!2=#6^I?>yQ-gKyUhtY-Jo#@>b>g`9nJJcS)Nqa)=
zT}Cfv?KZZfyv684xyRUna<8!yrMBFk*;P$UaYmH~+cZ2AP53^_-{w5o;Rwc266_ma
zqBy6x0A4(<&kSWnz3lb+zrm>B-QxEZ#cp?LJ^mOf-g!IyRCQbY{*y_+7W@XQtSDKz
zg4^MbSW(?hzwWQ;Bv;gVwPw6L`-*as>z_YI{Q9TI9C?Q2NG4jI<*;zzG^e!0Y@sEj
zM^K&;X@JlOPYY(DVo(ldXmfTk&sAtvchE_?6`m#VriIJ<jna~3=5&{7r*zxYXD#Mv
zW`P>nf}Us2xOOblT8&z)P>njwt+qX-TP60eZ5QooELU7wt|kq}mUyi#E2mZ4Ob4p&
z>V+Ju#w^outFf$M=AnZzhgoygRyoumZfM%q+L)VP8k-wC#q8o@Y0Ojcv8<?!(oWed
zOoE%umeWG6M*WU%EaA+ccv<-}skEnGch27P+DogcJ?{=)G=DStVd^`db?>g+GV$ko
zR=bZ@+K+xdu;-nT3nTBft`6LBCiZ&zvvmLY%)8ScrEj~kcli9`nZvIi|Gam{`Pe(@
z3+dI~;WM!}S~rMWImt^jND{e>K8Q+KMo)$%8Sm%;?|lm^I(X^x{s|?cmY<RQeuTN4
zeS-9Zj^vHTc{182M~>UfE!l-}K3qadRu#;1nH{h?6SYZjZIW0!jpCAO_u$7Nk~Die
zb@!qucX`;#)%Mb;9Vh^9r_$B?=8Lbscz*hw?1k)VdZdyZvFTk6GPEQ|W&o9QL_2;r
zKb+>LB_(w<Lt0qDf!)_F(_L;xGe$L}R<%hc?0ys>3ae3!FSmIVqCQOT36htUHBQ^|
ztIL(-PC=41HF%%EA1CP|Dq&{B2uODOM!=4e5qMEuiP&8$>PcxjFx7i}%l?ECm>{>+
ze|vR95gI2=U>SxbEKK^N;DN+;LR(-K84%x<YQu9d9(moKHwoS{%Lq#%q=_7D*dB1V
z8yFcm&4H;YmRxOk5f<S7Dcy2dM(&CA7uk~ka@sDjOqhpULbX#i49qZ@2RcA#Pr1yv
z7)U#eYfmr0lY<Ntuxk)d&tM^j(A=U11IV|;)=nv(7pDs}K<dhLc&9B)%p~kCum%Ru
zwS^LGL(@)CK`L`8$~CDP1v%9i9n~RGfqms_Roynv+^mlp*+{3n(-XnEH{ZoXX95M3
zty^jDJDdB}p^s8~uk`et9Xd1lNh*!nxx3%G`|a^c`z@cPdwwwqE7f_SbG7&2?*`w?
zT^|0R_m0){p-S>ly;@>bA;V;e&MC`kCQ`mAk@gkv@sefD>bb>{Bg}+5u(jdGk7P8%
zgk7FzFz0~TeV(xbXBa$$qt7!hAVXwlXgU~^D-}zQHe4#0kh6S7!(7s2tvIKdZdeR_
z^F=Iq{K!bKi#*n`OZ8g3-GIc9Ysr$Q1EPGt@@}cu4c<Nonm0&OUs39jp?<F2x1+)h
z7MZY3kFT?ax`^?%x*S1}8!Nvdk2<-)a*LWd2V@ZS&hgMkLrvmgjxx>1q!9`s`ED>B
zVqGW#J;)V*#%*_biH&Qs#iAuU=l}4>k3aeQ%BS~FPi0j507$5_fpE<dvTYt@LD!?0
z;^1;X7O_id@A^13^g(K9HFfa4p$}7IS9*3_N%sl>Ns7V`2QUyVeI;yyYJxv$hR6!#
z2sMiN>w#m>m2`^~R0rXt_yW@~bizD{{&9`O$irROgIqC>5wHYqF$A19$tvPHVY@|3
zOthJ$yAX4Xh1ipL(bgqc8ak%8EI$(bkvMjfHFdcrt{_FLgy`xUtr^x1n>i)RB@F@+
zb-Onbg=6+0*prC~<CG8tRAWSNHAY8th*=~`!b~MNZBDskic9XOXij5{Jw!#Fn@4Az
zJvl2SF&ypJG8|DO@mu#X-Q-`){F24s`(3aNp(v3X#Ia%C`|#)pZkLvQXat?|7y^aO
zO2Ex{IptAG)1M_013F2V!_Q{nekv^7O-Y5%B?Cy*iem*n*MY3TBHk$NgpLpm+QfG<
z-fnf`8TPk2oa8J*dcrMmr5@now1_+%V8bMsjlFRZZkH`-!tL^i0Q&@Ud^VAC21nh5
zM{rb+VS9jnts71G)FECecYCZ0^(|mVh=VdJ^VqnFgXO9`;q|Z&I%tX;(~WTN8dfXs
z?E(dO-gFlNY-&Q70LvvC8J3(Y2@()qig3-hGlV3e;VXL5TYp*Jqx=r1IfMishwuO@
z&0J(~W9HHQf8>dVCoEHkPlSy4du5utga&H!e}Ox$RCf@9JctV;o*+M9&q~uOnkyLV
z&>f7sTJK`@)N1-bC3!$t+iS^iMFM;sGK?S#m-8F2J=c(4THk=^&f?NW-i4kfg8N*l
z=$f$fa-669^#F=RC4i#&GXguX*<rN4fw=0=hHZLCV#Q{lhw_s;dEpUl7WbZ<UO-$t
zH;2FkW;4fZN^hdqVb1jkw<MnS;fxuEn)r<o%Uom{jIfP6y-0(OXbxlAB$77sMH|T*
zi%ybbNQ+_~`>{^`)4R~o5pgZ5cd2sI#;*0|u~^u7xgAsl8M#I(B505t7R@(9D$-54
zhZkOb;r#bj)B7vQ{X#{E(cy>Ns8AHT7-s5Lw1hlr5suM5B|P-7KDszcAx6P434i$6
zjNr#L9Jr);OF>MnBS*+u%0Y(&dLca$jJZjE{1oN#a04gLEb3k`;DmN;?7o{F&~rWF
zMr>2+sG1N<*E;irSU|E{G=GWlA%za}mRQPpdn+o<{m)9oPr@|!Kw__qc7lVf$v6}W
zE*MXtl&{VnE~HvPmzQ`52csdz5S(Hma8QO;AxOQk4bg`jgmW9AS+$I4EFZY@JwO=V
zhoTnn7VkvmPA_uu+P|fdl>PIa5NX(<i;30r!AkPr)`I?DOHtp7f(e<%UDnQ1?&;>l
z!GyWLVgtSL{L1EZV5^)W)1I>D_k?5MTwq3Oo=tY9{L&UMu+4%?vIQOoNlT~p;&Pog
z0^wdYtqFlKr0t%U_Z(`x-<&M+pPa1ys5DbCKMTUuD@gYd{wIr|4~`3IG86t0wla`j
z2qsTIZ{|QZpM*~X!K8A(C!zJP{)B@$l#7F~wvjtPy7sjfD#?NRaES=v#2mN^F`MGm
zS0oRQig<Gw+z3)R6pLRo6~Pk~!lc&bEPPHi2!#Te>^pH<FL1BM`2sbedrLNp_!(b7
zd@c6cf59|Al$1I8Cs)&hmE_<}z~+)#{)xoqFpuxPb!6@Vi8jwpk(~N>832MvsRj_<
z{u{<@c(FAHgv{DqtLc4}<i48#h<$`k)A&fKY!;vAm^hYyPYv~bOjD0h!80m17`2vv
zE*Uc^l3g{N*+TN{`Xp8+z{K@45M5|EWl!r_l*ne;bKsDlR}#&CYypL<yZXzXNp4rT
zEqe3Y#lb94Qk!X4!{bCVJPND^4{FlCFF1WDVA?vB-ks;}ee2%yrPZFHN_wc09OANa
zETc|m_R)7x`VN@QR@<Qd{GTgOZ_j2aUFy9dy(s3gS(|KNwFBeuFA@ApF#2elY7$uk
z+$!8<{td&Xl&`&yiWn7SHSL2`#HmP7!P(2L_!u?$RrfBc@rZt$YCQOOkZKQ6ahQrJ
zDjuWaC>1}Tf+NFIi-Xi8MG&7LlT@REzOFcrfyJklFCvk6axJNB-~IB@^;jyNSsPFi
zonJ%}@zISaYHL(OvRd@@%f9}Nu8#PfYkQPL?-!AHyq#Y3u2BsL)8N+lc5g6hYkhco
zW&d53`;M<Gt#UMK{7r)ude<XKIS#e8UcOU8_Mx`km5dKHe$g5q^j5CfZM`oUANFR{
z9U6p0<?^V(3lbr*_%4qS)YjWu;s@5dTjKkJVgt=v1<V9)rq%uteyUM@HpeAIFr9c?
z-6lT3k7oJ*8R!Mq35ft_Pc6&7PTnVE@B#Z7%qOLENRHN`s;Yu@YV50|q7Hwmr2eH$
QeU)HQ_11NTN`9RG0ba~MkpKVy

literal 0
HcmV?d00001

diff --git a/veroku/factors/__pycache__/_factor_template.cpython-312.pyc b/veroku/factors/__pycache__/_factor_template.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..655b4af6944929d3bdd4e7dcb47420b2d19b648b
GIT binary patch
literal 2825
zcmbtWO>7fK6rTNYu#ICo2?ZP!SOr8d1iPgPY9ok5p!}$ns|p8-5n8Qx$H|8EZaO;-
z*f<p+4jif$PT|0%5>kthN)N5n9znhJ;wTi{Er+V@rMHwoRZyk&&93b@PAF0t$un>K
z-hA)P&->nf-`*ZX(BAvzpNYW$Lcg*}z4>aw!Y&YIkcKiy<22sj@_dHpm@F7VM&QvQ
zq=}c1=EM9g!CR9Ni$c7ubT*hC*KH|pX$1pIs%26|H*HBVB_(T9qNr4wR0uYyq#BBC
z_e&bi>85UuNpu`bwv}g#@_EZ-3Z-CBDOWI6s#^e(vxt-f1Q;mJPZ|mZV}^q5MDTYO
zMx1kmeIxr*suz>j^R>ysMi6EYMi~w^#%o+g(0rP3iOYy=GZ|lzkGDDDgRX~k%|WR@
zC_&pNWfi;TZKXIM0A`j_#U{_}WY}-vPuH==m66;~yECpnb!YWJQJFvAQx?u|psVWo
z34dK$9LwCT+WKbPB3I@w@UXgF<EKTsx^7<<>(&>!7vS=BOTcYJ_<}V;)0)OUid<Y!
z&H+S_9S&=0xMa9)sw;+G!Xy!FXolcfD0yj0A#(k4?IG75{?e5!ye4=*?n9|vjV*1{
z6L?5E*{8_o^y$8SsV~dMQ}IPmTAakKm;fUgx=k0YJlF78HHge&uTfqhj%Gc>{NF*f
zxKoT)Z|=4m?iAx?yroJR6YG#%M1s7@T6A2pax5{QvsXw}ZBgACn`Dn$1w)gvSV~zY
zX8E!-cxQwBd~BzCQQ3;@h^jSNbo?5|ldcpzrWghM79kdi`yA26M$TzpaxG5xf4GV@
zbjv&iFawqI_L$8G&wZHB;z^pHOy-hPm{_L^Nsnjjr0fZeH<@5D$})SyvRqoXlq?c;
zMFe2&51~7c<~z}*&6mY{{teX~Nj7e)ZcnhWuNvA~2_-6nsmkE7hrL@r+xh9vFWcvO
zhc6%aA+)I)-c|{}TG{<>W%u!)qsF{|+SfjALtQ=BPRw=oRYHBgC11ZieRI09_xN1$
z{mTdLh58>RcHPe3%vbh|&Lxg9kR1yw`PD``!i3R?OGy_YD`!vumC*z<YH1gCto;80
z^a-!>V}N;T4MNjA4^%bLj9<gi1Ra&R8{Eg-RsN&3BG^wu`2cD{6U_u!vwk^Lz-(&?
zAEqydS>#lRmqmRB`sLDQL>q)m-EztzprLvkG~AG)bt&iDf{4JO6Q~HNXN42!3>Ozm
ze>Z4o|2S4pOM1?&gqohqVYf~;n5IFCl8q^pRDxM0$}5z*?3gXO3&->+Y}ORArmJ*0
z$9k(=rN^+$40ul=MX6w8O`=u}z(rghfLH8T-V6~;3&iwb2)0?l26|z&TxHv7wq#s9
z1Po*ujV-4S-bC>LVP(!~^THzRU<rJfAjkhUF1q>e1do^+KI_TheH7|Iwm>~@Aneec
zKpMb3t`JB&`)762E**Y~+U(gw#H6!H>z-VxyCsX8PIW67+h0J(5;+ivRU=&wBE7Sb
z-by4<9eCrxz@gcJL-(VHKhIu?UFn>OU5(9l#IK#4>xj=q56}D2n)UNOH2CI&f%NP^
z`hIkDCA(1<=;-Xg(fiT#N(Sj_*Se>V0;uB%_w<+O=u;<}{tLLEBX)iJ4fCss@8Xrn
zJC6_-i2c~LeqMm_nLP|4U+f;~LDyp=VexALq;JE}-B}eI=@Rcq9ZY^LHnLv48)VA6
z;Rx${HjWGnclUD8$AwfX1^f<VXDWFt%T7?1z0W$3L$drqK{0BYRkEyEsw|T(a7)-{
z7Fo+W;0WZNH(@;Mb}U(Jb_JKvA3X2#FZf^a9p@GjoxYf7&Mf0T(hGwlC|Q-Tdn0U_
x2eK6SnSYNL(=gcrChTj)X8z$AI1U_e;*%ia*8GH4KW<BKu`5TPAQ)Uv{{nfg>F59e

literal 0
HcmV?d00001

diff --git a/veroku/factors/__pycache__/_factor_utils.cpython-312.pyc b/veroku/factors/__pycache__/_factor_utils.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..b29a33cfac25e2f375b2176d2f9792ebf1fe912d
GIT binary patch
literal 20728
zcmch9Yit`=mSz<nB1KZ7-VZ-Z@k3%P$(HQciDNr){7B-&&cjJ}+G;gJu_&1`Maor_
zEzx9;+S{`uBi^-)&Wz<rf-sl>twyqFH_*TuJA*}fcYidne~O|zR&%vL1M9_Z{(0nH
zVAAtr_dEC2ixllRLC+SX%X-|$xwq~)=R4<~TmQAL&L`k_<M#g@|M~NR@IUCnI2`)P
zgZFWALy(0tf-K68gm^||zm79b_UoE(pQ#ZA+4)o9j7N4M^~!FfwQ>zopX@>Ems@4;
zPsK9<xfWM-vJYv!>_-}u14tX>I;4$qJ<=w*O%5V&v)q8I7P%2=tK5XNO>RcoF1H}<
zm~n*KGef?^(nLz0O2njSDw&SNlkw!3G!{$7lt@Avok~X2@l;Zk(kba|EHNovjHk~^
zqmgJjrAVnsWa5t_Nm)uOk)%4BQYQGle&1Kr|5H(880gB2e<%JQoI-L#$O=b=YmTU6
zOo%#$TLdBJa0pq)IG$A=vKSY#;-})j6|Xz4wz-6yGv~-UPotcO|D5BZ5OPE&MM3aM
zIF2(aq==M=t7$1UDsi&XkrDJ$O{0ryzmMhIKN(RX6Fi@qR>D+Zzx3AGm{}Bed48%`
z&(5n0%kik5na(gy5oJbFCu7n0=nM^G8r58gB&K32(Lh&rI?!_3d{Ews5=&1h$^Ft{
zlM20HOy*Q8>6yvceso1)IrP39n~qFOCSv>fCDD86&>_7|*0XRd5u1o5(`wI9cO-l%
zp6l+Fx<`zYC_5SMl`eJ1yZ7(Pg;-lu4dvd&^Rk~Pu7-IlzYs!VsfLpma+SQsAeQ{L
zK`MFlhD-HkM;Jk>3on{l_|x{C>50jmqdPCel+?MYoqUR^JHz}WJe7_o)c(ntQj1<K
zy(qIgiXYW9;$Pj3WLCJpNjNILDt_7e>TS<_a(?Va@_Mq+wmW~R*tT11eRcK}l4XCV
z=IZ=<)hV={6d4_V+4+R4Y_`^*GB#Tmae~<@^4S`v*;+@lHS5R<7X($j>ZP-+qZ9dl
z=C~T<^D~X<$d9aZoa(7KKGUy1)AQwAWhLAd*>Sn1ggfiXx<?&ld>}^tmB9z6G3?Q_
z6uS_YW63C+eo{215SwFSDskcmOu=MgMjBO86JQu4E1TOAu{EEI`dl`O;3Y^G&&H!?
z>An(^;;LDaPZ}l=FyW&qMTx1CsiaH{!I`0)^&*KxxUALvQV+3Hh;gCuM6x)npR)jG
zTy<(hjitlrjEZucix^9U7{&ZCai7&)8|^7ctsEgX43#A5O&V-z5@l2>B_k6UNa{52
zA|o;6EV*c!mR#pzGis@ZKMK{98rSr><hOOCBwi@B>hoTWLdu%sQwkVOhc75<DQI0W
zDWlSaC2o==h1621c?@Ht*KFif+VEs6{?!-~@Jf^L+zIi^4f5^A-@c)}8C^OVU3f#2
z25xl~q&<a=d$bKQ_yp-nbGz2jcei7(&@ou-*i&qNYWCHYwsqS2U3b^-E3DsFT>nh5
zZU5|R%l`I-&6>YQbM<_^>Jc`^M3sp7%i6<1*EKJaG9L5b5#zDn;^c;4;{YLTYK}CC
z33iM+KGW|i;J76IN5z~YO|`Hi>oB;<c26|!o$CSDI<rn?L%P-|A&Wm1(j-6F0X`Ou
z7LKmrH?=7ZzUPOGwm*Q<&WcD~AGwV-E{iknP))>T@ZgcNvFJHW#z-3MCCAk$W>HLv
zsA_yHNwS!D2dY=aM4>CDU`bU(BMNvXl8C3{mj2+yVl>TkRxD?x^c3X3t#Yo)bRE<a
z2Ny<TDzOGp1HLuugMR1Q%B+@VkzG5M(ZlO4yJe_28)Z~Q)D(gkHhPUDp&z_}<P||=
z5Ma1n5Ppc4n!}5fA!MVDX~(&Bf-o&AZV^KD9G)cs5=7x|#2cb0T<vrTGvdE<UKB$P
zg(kx(h3W;jIr?{%+^n-D7tyBD!~zYB8U9pzfMCt^q;e>;B}y+PY`uj31Bp~Ll28xz
zo0$%vtlEX-e+&OKD=bNoUtPL2bz9Ci=3`%W4KB)ey9Twc!GaX|nkkRV8#jv?zg44@
z*+FkMnMyy#+wIBtLeiv?A~`Le3VBMtxEfEY=?H{&$<1D>LKCm#OvI8UC&Wj|nTb!9
zd@m>E*z_?)Nh#31KCAUoUD>-)f>hXNO*2#PayijZIUdS(6reYy#*xelf2<caY|oGX
z`l)}|daLiw`sc5l`6Bbh#O(2v#+Lc-{cQcG&iu)uG+1aHoIUY-f9r>*F)aTj`rGZ=
zo8jW|ckf7%I~yY_^&Jb(<}>+(HaM*P=$tm3&=ME4&WpwRY0W!*-zjVw5g(v2Axdw}
zI84C!54ck<9t?)Fi42qZY5u6|(q>Jv$e7iUHkGO+C_WHAav6197A>)1i3o@UeHJso
z>eK-%gbsuWU?{15z|vY5K~bk6K15*#IT<{40-m}eyQ_!<Qy>`P`C;O~WGksh*R64-
zTt?_@9ZyT@+0;}*mLijrQ0(bcxrktp7}|rga0=>Exlk@pz%gZ<&&9`@{0!HcGNnu_
zld>ie6=q!cIKqO9q-Z25jl?8_C|+l#*|@f(o|Jh~nwSE%NA8GZX?cdRxpiU<*r|}a
z<OE76`MyVLlCcY8CpOEKO?Z3Y9w)|x^GU5qIc@@2kaVFj;k;7MdBu2NN<W@HkAL-h
zNWdu#LLfM&zW4O|>cTTW`|*;08z#QCzJF0&jA^@v@BC;)izbRcn$U)mT4$<QKdE^q
zS6nUczrC>cXT!JEFSj1K?acpRQT@9gEp0vWJJ->#@x%1`Z`^^yoxU=0N|TwU_=5xz
zJ9CVaSgbhG=JhyrsNxtmHK_F<D;U#W7SA08`qY`=G;FQR-}-1sxN?h+N-+AA_%u!4
z$&?C}bs;9nu~Ar)=~(&n;~DoeZKD^0?qOrfYTR#tte%lnDiH$8j1k1N=eIS|XEY)K
zkV4k7DwtBh8+9Zn6$#xb)g(xfj=>6vk6|*aWU=tJRqB%dVj*+GAU=#Ll|8t968~y9
z5+?ov_1E@Z+57$zH$vA#cbm2pnzrPR7n^o0MhZ<ki~e1jYnMWK%dm}UKU~HWvUX*W
zM8y~s9SM?Q2-uuccH~@H2d;q2a&DV2b7!3y04HPAvmz5};?-8!nR8w3a0ywLB3|7B
zd)X9os9Zm?PNN(Y=2OTE8zJP%OtAraGd7XB08k+VEySY{z!A>k+z4O-q6g!igzQKh
z+||D;M5C*)LL^j_)N~xf7lUvyYhd;2wO~4+U>B9-9L!$G@wY+_sICzJVbl>z$^gQ?
zh@wPhU<sa!m7FM3s+&s2&rijG=SjLKB>hV*y6qUo`!U-qxu)n%Rs!C3PNkL4sOcbT
z`ab>*(CZW0q`Y{2c>cB7lgrH;SA`n)lXITs&096^hUJ#7Rl!l)J9l&?*fhUqq5Jxw
zV(^K4v=|I6ckd`PY`yQs)72WGVe4|B^KL*Y1f+cX?*gIwb*SZjy%2z9*}<oS&NA$+
znC$uj?%LTkYlFJgnA6ZGO32bqWz4xx5EQ?quVhmXUWVQqH^D8Vf+dC_dAb~M2aFtM
zi<=&^MRU4Qi?WNRc}3mzM&0QK<E$LaBY(5;B;9J9S^Wgec7J5+S*RxS&urQqNhRSm
zAb8EDE=hu^iOCrNTud&zTML>3Rww|nKBLI1g?j*g5v5#8@q27yhEpTsFrxQ=hw6J`
z@RmV##ewTV)o3CWNrx(INzz#M=LWq{$uQFC=~`M?ufL+Hl{vsW$#mh_2&66m;uu_X
zuy|9+7<CXD61a~BC{ErldzUlMvH|;Ug&9+48V!)EPEAgxlypoE`IU{JOxcB`<Vnhm
zKxH%CdXjEAC*nyR%%a~VHyf2w?OSkYG0j|Zk#7qkx@m34?c&-$5jhtN^E}FnsCf+k
z>IX=ey!JL}O<O-5`T6)K<99p*EB<;d*j4mDk&i6-yH}bvXd8!$O+VBEKU@xW-3@Ll
z1h*A~-I}+1#nVXT<U5`nRmz+xHVtWkA(Y8?6@rizTlM_v=g0DiJD%NmqItVke9iBt
zwGI8n_MKYWE^XIgt>uNH?}+9)vQ{W~KrqSg2a6R#p_&f2m?0<HpsbiCImnK25}6f;
z$;`2=_$XnJgIgNn!W05lHDEo*NAS3&$&O%0^?aY{;!buFUQk|7lTYpu`QcA12h&bo
z(gvpW8kHwcK!+J(%MR1Wn~XNBUu&Em-Cs+%jl=s~d1OV|`MJv&J=4cVVBVcsW=#0j
zS%4A4OK$KP96{0rhzzhiX*R%F5+KCoOx(b#15<EEE*DhMRAOoZ9ywN~ToCbl6@n;9
zb@g(2(rXI69%6Vo4xfTbu4rH<#(IoS6IDfY*;v*jObQZ}+~1pNV{8a{$HXTDiF!6N
z8Iv;GU~VMIp0y+jFa-KkR+sV|h7sKBicH7VkROJ43SL{U9E(lTnI#*P=aI4GRv@$z
zB{yq>O9_eHXRVj~u-7qM@J3FkKy*!OheM&2gi>vcY~b*OI#v?Z3c%jP1O+ED%qvh%
zqtGS%tG`6TKzm)|wUbv)YU_H7fxg*eVC(s9A2xlw?&i8Xo~_FbtvCGF{XeUlb1%2`
zYJJb$?K@WJJErv>*N&glS`u@$Tvpr-b{B%(MSsuYz>>drrG1^Y<KW#LM+!TRe7XK;
zKC*B)FMe=rY5mbV?Z>ph>tD<i1Fvh%$L=*W-SA%bYMncZ4ZU|81`7>?#fCj|?iGLC
zwL@19Eo{q2?wH=R4aY=o4Lln-67*KL2Bv}j%i)E=mpKu0S|l$R-~ve<c9g*d%z4JU
zZ!m<q7nronXtpGc!56B%Cc7c6bFM&qtDghI0;<4Y-e+sw<~ef-7Kj-qr(wlm@paCb
zylj(zI<iiivMX)E4I9X4|EAi<OhX^_ziGqbdi_Q}Fh(?ngKH_^2>%=C*!E3y80~<H
zplzgTm=nYEkqvD9g>&45Q`TT{DzNHM?HO}du=mhm>tWTr1|71O%?Ud#wTu>@ofcY;
z3;8pj`N%Rn3GECysGgr9KcjBx>5B}6I?BZye_kQxxMTx(F_tA!9mj8FfQj%P%gPqh
zbo`TKL|9@kDJ7@zZ{b3lWde5~7i=Ub%1Dh(Or~d8-Th3iW%k%}R_R-X2<AmId%vNS
z93LIUDhg1dPCX5f+W)5~^m00W(@C?Bk^}$-30y|WS7iKWf)!;m%{uh6zmQO^1<bf)
zCNCp{ZcMH!FVN)?O2`@}3B2}AmAs%DL}BrTz=r~>R;Uoct@JdUPK7z4VP1*y1LV9$
zx%WaoFx1x2tTh9PZJ&K<*%O=}xSS*BN#~(r{d1c4Il9$#IlJ5*S`}QiL*m?vE6p1h
z#y(BoY3^NVleDhy7u(*^8r~tRZQpy@g=s)KcK-*(wliA8nftX=>W@C5spUq;^$wEt
zjeS>Y?$tJHE!*?w3oW6~kNmoI@xYzhr|&g3vn=cTv~~T(#+_GcR%!!U-R8VlsC%MV
zyCr{qskUdu->S9sEH)O}b}Sw)wDteG`PZ>qfjj<#_gdR;ymS2>ZPTt|>%f)c_s9Ws
zP&@RxcJK}DjS;OgTCA5fue|K7zZSR>n1AC+aAEJq2W}o%6mLGa<bCpU_14~hf8bXK
ziaVeGVqj_KQSzKV2UVgyc}P3-hSvFJvHrB?J-zI2oISY~P?}ceRSasm8u*3<m3A8(
zssbaka9mgdvckGEg|(p;pkQb&vBMJE6{RfLYKm*43>+Uck8vn(mBGj=aL*J|Oue9G
z(|RmZZ9+AuC^K;gI9sJ&ZpV_SR~;t=W=mtOqVh06Df(u$>t^Dy#x5R1p3MJbQt6?f
zQJ0dB0FAl?E93XakfhZB<ESAs6|9>wq0lR(FQy(FL6*@_h9DL4gl2YC2%uytDGm17
z@Tm?kA-;5RK<}H0S><i2plOX{>kkFEl(NJUS(#i^G08;|g#k-0*GOnFt5Z3FvyiAT
z7Z8CF-RH-#VYyTq!efGk>fa-=*^-8hw-Ri;HhpCp;zR4~(>nT#!JV3Sr`>RbWw>o$
zG5ECRefl1^C(G?n3nw04^7k=o^tEEs>%fG}8YK|9C>DZGYW>gO?LS`VKmNt}LjTK4
z!Iw4f%UbYdmT7w-xV;$c(Y!q?z80<h8EyZo+A}A$lVPp(-J&m|xguONm<t~0jA?6n
zU6rDtnzd<TD`El930Q%~WQPT&V>;kF@!OXM!|Ch|y3E65#%j-)Q;9JnQR22JsouU`
zS5?|<j9pQeTvO(QwUFy0=w&pu!#;J7+ecgPmF)T4YmB5tvu*TDH20`}d_x<xRokHV
z%?`^OY>9Xam6Kmt!9rH9CV9BpbK5<WR=tc9Wx6diYtNZ=WYD(RbA7htYO*ztvdKle
zL$bywo%2}AWW0*1$a=D#G4oyJyf%el)&URuPxXc7+MMqpInL`j{JDVa%hhFlS;qxI
z31tK9cN@j{jGInMeQ@!U^%;~t<axk&KFVT*atPqd)uVQ&UOWA6%ZfnkkFLG?^UB)m
z5k=?9)@ADr6`J*CYqS1Q2d!ye1vb0-udyQF&DK!lP{<!S4RPQj(0<tRWv~zd1o%<7
z6@q(s+!&%0RQNNjxWAED`eF<V1$JeC2m@NR0qQ63WqAOQ9)X~{Hd&h%_+@H<O3Nv>
zZk~+cLPekh78<N-NGmY6C_-+m1;JivWC|<oeEo2O78nqan37@<geawuT|pToH8sWp
zmRP&S`XGzl(RE=Dt^BcAo^V8u<}t2E;J9Vw^q2?`8;($fUWHvjt-?VvrGfx6mV=L2
zN~x@1WIv7hcdfxjEMHG6>k>tk*kiBsVKdfflB9LR5j#azeV~hm_}kYvVz1BWHLuLL
z(g%nZr{nx3F+$jI)0tj{u?$FbAcAZv!QwdS%A9`ueV9RyG=b^(KAi6R86Esu;yslP
zmfaf~8W`x61_trJd$_mkku)@jM}v4Yxc1R*Jlc&%yLS%{mzA<cFCra8#3Zf<C}a}9
zg9w&1XrW)$%_{UrRf(Y%AJyDQWpleLnlnZ|OyQyjrS86NlNuUN(|yT@T(!n-XlNIj
zrZL)OAEJj056etLvr8Wtjsv@OcOp7XE5ylIOlDp~Fv*}DY_jzPZe>dkFTw>)=AE}d
zIIQ^*Fm_pR9}jHQdH7N!rHtetP9RgraS0N5#G=(M^BK_l;CcH?VuU#_QLrSA{4Ybq
zhkQ0bNlIP`Q9_ur<WjNj!IwMS8APwD@J50(ij79_4kTV|IutCqsgVf(87cW~v&DWf
zQt}#atJH)_SYTt=a&CH)v5V{;R#tEZG+px12_M{&7%%y#<~SRGk~q#U$N43NMiB}0
zGoq3!-##gE&I24aGm>L+xv?HL*-oKIg8z(vwH+`G0QnF_JWO4?bmdafzkcETl3&tX
zuV_!aQbg*P;2M4S!)1TNwP&w9JAWR2&bL1vx;eDic=Ja~{vDd@HLdTpB2xd3$I8>G
zYOXeFiqSCj@ui!W76)!3{Gv~Dy{YXye0S$dg`F?`HmdD>skrmaBJKfrf4l5|tP#Ba
zxo3->_78V2Tq>^LvE<pY+`Q?E7p{T1p<-?4ho|%FiyQlvYWvvjd(G`1Iu~A9+)>!@
zRIy`kv3cK|ciG!;t?o+Q)!<5f<9yG16SFU_a8JX+zWj^aAu)U6Ugs0}r;DAvtAf|P
z_e$NIIJbXg<M#Y?apSI4!Be~U%E`IIbD8Cq_PJxr4eJ)p6&gafe7DaPcD=mZv2o$t
z-Ay|Sn|9vv6*oP5d+6@LQ-y=4ew!&CJfm$oQ|K6)cYo)Czu(-w=w6&EZhmU+#Qgb%
zuKDy*V8cHKLD79DD81hz1ls1OHUDPKwRx@aVFp8Ng5$Z|FHy}D_)G_k++F?u&-mc3
zUDlq<g6ofh=G9Bs0KN%KA7b>lX|>!mY-+4lZFQKy`yrH+*Wt0%VVWd1Bfz?6(q<X~
zZWsYop4;x3w3tSK8%BU>Y}j)?#0YT1R5Al_(Ruwas4g=C%;kYxjTNR_ZILotBRg$I
zfXB92Y1RQF;1wO>dvmq2H|GN|CWzn0puM?VX;1`cUu(`p1lrS^%K1>vk8%Xs+Zbqn
zymEd9%Y9kD3ClfM?DWxL`AI->4-e)K)kdCtY)Ed(Wfi!Sqw%r@IkopO(KwW%?uKUY
zfUlJO%Y$(fWwKTYe1Cf|jt+xd1CI~b{rr!O$Mrf4NdDa_v8na%0-=q5u%XZm4XeuU
zgvyO>*{d`l#y0_TgB*s<%PabG!gI5kwFun~I|-}+dak*(d*HhxaiddJ!1%Xmhe2?>
zC<E~SIT5&>j*9LNl_Twb9X6v=Rye^U05`4FXP&KEh_C(Y9$XezG?8KkJq&DG<Kj*5
z5TMg~4c`dIvHjr@NStuIF%$YTfBs5G`jvOlVPnaQxrR*;uSD>OuX~NqS(Fl)vIk0D
zgDUfEL>Z&!XDOlhc;y@=2_zhi>p=!dx|^azp+rTZ(gHP2WaFrS+<aX1C<Pnjo<T8$
zk_+m8Kw?1d>1#i}^5dd^Q@(4-zeRJst!;a|h}6G@fbBycF8iBVSV338zacL!`MWgN
zyV{m_i%9)lk9>G95S;fH0~_+*pVxm<zj(eN4J-u)?mHdsVet>1A3ku?$#P%-K)J5r
zadZBQLh8c{SmNupBWjO(kR$5lhGs-__*)m&7yMh7TQ)2V-QCz<*x0|ADQ?_<`>?k0
zV4>v@0qn=h_WSi)^2ZjRDy|=x^UV*;N9Ok|c{}b0(Hgc_Ria{Z)eA3`*4coEg$H@q
zQg&2a4HHxF1|bmqG9<#nlc+Qfpd%eI3sqg!S%+TMQKhWMRu;gc^2pX?JqBiBJ9U7a
zY$fdd(TirikHUA^+DARLFkH0|5V&rwepYMQhoCaQzC#16k~u<M0x*|e3ZZ2I7wyw9
z@8km6z&Kg*6$koI#no)o1Lv^&CvBD+x!U?+*8REZeg>vBQDW6#Gjh?^vBd)Y4dm)=
zB@i55d1UM5TG{ux|1*6Cl(o=NnH#gl#O-A{;ry>WvSt_$_OQ71JuH5Ny#*pg3?qXQ
zuP5M8iAaO8=|2L_q|M=c|8qPlO#{bG#IeO00bCMAQP4%X6LlIlIS4T`!%aC!RhN0D
z5Uq{?U6PqPD4H<~8Wj`HdyInQ?BXq&ZZEx{z4|J25edeY*D5X9OIyU5z4{iVrxTHp
zSi&3?x}YuGY(S`k<t<rxF%XZ;I~pHT;~8ukXCoUQn}R;48>~Ld`SumldSb~5b$$x2
zFppmDE4EDr8z&Mm1nj9}e|wXTubwNpM&MsZXn&1*78~Wym1<(s*vKe{>bXnIi@g`>
zWF#6Zd9g+I?3fal`FicEm~|!bt&#`cT?#N%NF$e=lZiC8lQZ&2-y&vmN*QIE7cRMo
zQmWzOQ>vL^-Gyh(MQ^g?qIXtu(by~Rp(f=jB{{0oGacp>cxLpIn&~hRgG%^s-88=u
z=23^@JEcH|J<)H}@T-y^`Waz{6m%SWxC6~YuPHnzD>u<P#rmuN2Pe?l8w4yJpSyBy
zVe7*Ao89?6i{dByZaMGN?|~brzTqKHD41mE`cS@ovAfth_>)t!$LEf(w6xuL>H13x
zqaP=3CO$|mj{Y+7i^OM1D6L}4p}Q^57h0a5J$bLW^~TfJpI)5!a>D_*)!xc?ef0gM
z4F`(N2WMaXLtW?Hx~@W9SAP4?dq3$d*6o}<{s&LJ=2^Gm^<VQ{@h$B8op;MhQ|pc1
z>%9vX@)s5_+#b2pba?ia6_@9)Uj50d^Xv1cZ?*l-_4GYlpZLj%xeIsTe>2X1=W6?U
zwN==7ki{zgr|rRG{_<Ew(;2jkk+~t%3bx%zP=u97wRKf1sDz>#PYYYVsg5ejVk`W(
z^vwxt1=Cs;#Y&zT)MC-Yl_=l)`%&2n=Ve4r<{UqETof+~)6O3V*q-Xj++p1HGT)!T
zowQgQGQJG~7Mq;u=bMxI<H-xAC}kp3j$yBG9By*G9JbXUPfVfcUVMUszK2k@BE@Ud
z1MaC1-*=~%hLmHa5qQVssA0g7Bb`6MVhqn~<lx_!D67^I78%EW->Fay$IJs5ppp~S
zl>D#8lZO*y%p_2b(QO1GjH%e1>qO-x50WtDbH^xPw`_whHoYb<7@=XGpeRMRs_)_i
zo75Ye?tLqW+rsXv8-3UN^3Gz@);Z7p8X?d;d+MM5=oYX)>zOOh-1SQZzqBfd?tRPk
zomb`gr`|iau<hd~Z$6oS<7VIDkz3BiDL7=;JyopVt9keS^L;0B{z;{{oy(iI2!FTn
zaLD-^Ve8?o&fjcx<Ggx+?K{ZMw{xAtWL1I|A~80F+v9$$0M2TAdn%_fCe4@96KtGc
zjBz!XNR5$kgrIWT6}5K$;IXO9NY|#O(vw&WB{?5Y(itzu=MOfN%WLLMOu;s=gfvaN
zrTDDjMKEcisR>lU*K#=_#`Ms?Q9=`l9<UO|Gjr<jn)$S$SD6XEoJ7vJ{-Fe^C*uu)
zN~!^K#Pj`#LLZ>vs>4Y)9VIs-3!hR*jZLd09Q1_><x`yVgeD5jL7FInw{A|od}*b=
zbs@Ou&R<+StF`Sb)>AMJMO0%G-~6`s4$dB3_6KKQSsOk_V2b`9TtEUqj+7tO0QsZk
zlCi1XnjYg-WRPuhF_R})kryLxqes=|0KHQg-w#l*i6%n3ifCHs98Ty9uU?wMij&eu
z8;%HdV0+C)%2rttSS*$pm9Wo`zTyD|j4gRs=Z~mZZD%brFo%s%W4ZvMg?ZGeM*^r7
z%i(2GLZ`?se~gJyF=_05>4{(~1qJhRshAqukEMA;u2rEO%XzUed}avyooK@M#gmYY
z_+uYapfxyimldCgY>yG^Rmf$NSRNH~3M8;e6mqi2RV?S>!we-qo`kVk5xYUt<x<K+
zPpA-it7mEEQ4AWidy~+){^Q!4wRby0g^tkT_F~6C!PPo@bPhX-_`KWt-hqW31^+h9
zwQcRhBmX&@c<<uGZV5hGepr5YOOnX=5`h(ZBbTWut}H{&%-^%|kPIP%QP&q!@s%VM
zOYY~V;tF4%hYG^yA`+MzT&SqbN6Yt_;hjaKF}w)GfUplG>9WND>ij033H+QlYer_1
z_^4=`NgaaQaSnE+{rcyQ5cbVWe??|9-)Z9FG0OA~*j_TkJkVY<21pq}B`>NEQ>X00
zqtrroC?q*bTtZ9ZBzJy=qW^~8DS3wQP8)=V=Jy8)MtyiBU-Q8$i(NNgD>nDS_tCto
z7#u*DvcGxuHU2W`<r#;GZ~i0h=-;_Ab~?e-%sDNYV3}nwP4VR*`h)-(`X9K)M2euo
zSAoo$5!GXU{{&{P`&v!Z$-bQhq{5_)8}U`{Yz>v;hHlQ2!#&wiRZ@9ALs#j@d9z;o
z{w8MfA+{^$hSBGY+%TlkiIlM?kqsAS$t2J_0@wA=fa!9^`VIxx3fu(5zTpvmty_vD
zl8ldDz-){}@dnCO6NQbh`I-s4NrKP(gbLybW+q94l?4hhl*MC(Kq0=&1==GB5lY9#
zQe5A$?}6!(iGNOr2?|c6T@O}`q_NsBt3vOH{(S}gimX$Lc$qQRXsGi{Wdg;m0c6Zv
zk$a_aj5m1D#yAEm;1(;EarW;SEz!qMoVcZQ;boRwR1AL3Ex1s~yvJ9$_~@$2FkRM@
zU4=2htj8d!C3lqOKQ>`8JFS(s4#p_U)Kc{}t>O{+?BLGK^(>?9<0@(xLOM*ZUsdQc
z9yf`>MsWgl-6C`keAzmXZ+t(x(Dm1&ORWR9-M6E+E@^v?7Fv(ao?3bCg)a_ir-zEq
z{qXLF;a_AIr*6d--p;@M!LYVr7~dr-Y#3f%zwzUJH}`2<p2io5u<?4CEkM(!huQ|e
z{%;$G`PYY<4!5{|89dxsgDBv4(RN5Y73wT`!eKcT4To8LaLLV74+kHO(5hs|CE_Fa
z>=>PuYWT16S18WDIL1Duq->|leoFRGLOadbepI%}jO}qyD5RK$O(^8ZWp<(R37vgP
z2`LgLdD!T%kJ&JZ!iMut-UIyme20|ZARmTKP^l6iS5f>&heLEd@Cst!L5(0b|94^Y
zYD0s#ZgqP=46SbRi8JErI-ht9sYe`m&{8LMu1byKQE|1W0U3HWicPD}i;dz4ZX6J$
r)gOxoMd`uwj!k0w>I-5(Y+l{u7aLYL_{8n2>uSZ82OV{y#7O&p7PGgB

literal 0
HcmV?d00001

diff --git a/veroku/factors/__pycache__/categorical.cpython-312.pyc b/veroku/factors/__pycache__/categorical.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..d252c2350afddf08a76c623cb0b042314c6c82c7
GIT binary patch
literal 35624
zcmeIbdvsHGo+o&(9=2r3w*0_v8~KT4jIenaVlcrNobWOsm;eT%2uU^q`H?G`fFq|<
zwb@;#E7KuU-4jw>y>YrT6Q{#&sO>u2uAbg4Qk8R>p6PS?UIfUccAeq$=Il<*p4}mk
znsl<W+xz+c?o;w5P}Q|F^G9F9?_T}x@BR3`f8YDB3kwT4T!$C`{+w%u<NjCrp<Z_7
z;la0gj(eL6b0b`s4_jjV2+!`85evIpN385_8@G?-@p78{5eMR|vHWr8h?B+HVg=)_
z5ts7bJyMAG_E^z)@klX?%Zqu&OGZlAbAGIJylkY5Jv(CM<EutijaQ6R@La@k&aXC4
zzq`1I<y@EkTYY+1>QU>%-bDG4>W97iRqF^lQCf|Kdx{GeyvBuHk=l=}a?3{Q!tU3&
zk$U#75bug2#oD_D7F&#1PozYPU46;oE1B6<(C;0e3{S@*-qA_H8=Z(Jf)j~oFcF;?
z^TwxwLOkM41kc1Gaqmmf#941_a?Cp=Or8mziN>OdXe910_ysj#$j4_2rzeEqg-9$A
zod`!RA|gLN6$wRyF+AoC21AKS0Z&Ep({N;bDi%ycC|_Wdy$nnzqOrKok}2E0XR!b1
zf#JYl|G@B}X9Ld;A3CrivLBKEyE-o+^?~kKTkLw^!R>7>!eMoBw6aF5=(9EB-8&JQ
zoQOx`iO58vKOT>cO^oAdC^#O8?-7JaVP;){7nd=aS5N0<3B4>OOE=`RWgLOP1o8(0
znSww-9#A~H1A!N(gE8ezejpH@3<Uxoau29|U$?AJj8Cl}U4J1WOrD=!FAqX|eF&p6
zHYr3y!I*#QlHf*C7Bt}@PQPB`KDSuxj(d5W-6@o+uR|6*sTXZQS{e_qdoTnEbx61*
zcTQO{YErs?r2P0uNjGaT<lrAGht-h7qLy<`-SCFWl2-NYtSxEV&7H<Jo3$tHNy`N;
z&cETnla)OcCb^`&8aZe4lDzVipUg|<pWlLk;NPfE<g3Mo@&5O@uqBy?(3;FgX#0bF
zwVrSDHtrJVvk%QQ1hv`r(xk-MqQ4LnqO`=lGaheHh<GO^6W$2To40+&=56fre$D$Z
z#nyNvk+GeRT#9Gx(-YCj2{tP}N2XCNARf@mXUicT2uDMSK=9E?&SVNuN<4r%kX(OO
z<5`6n2hy;DGo>qP3Yx^7i90Yvw3g`-%J3u86bPM-gw6-_EwG~1LL(A(;D7uEf>*ia
zl5%lXPkPlhY1OvWs=idoj#u|RB<}LacUPxN+N6@U`I%J7hFAA3l{ehy^6Wv&oMXvV
zc6sKet8xD9wT_!@+m{-5UEeA-9uVCPhR3_bjbiJTRPmPOiXQQaW8(1_#A87*_~Jd9
z^F0>a1b&cigO+`C+iy8dw|$o9>Gr%OK)0<gSg^$^gY;Yyw0vGj4PaX(3s9&#;lUER
z`QPS%ig5KDHwxtRnsdY!wgR}?BYBbhQA^nN8V^)tM~pL45YBr|+dU($a1G0ok38<M
z11So_PJ~4Su1AW)E`%Nis7t~C(j%qeB7|jOfaZ~Ml;ts$wJKZ_E<sHd;ZnS<43{CS
z3YR0Sj?{!#8B*4UD-c^3t_@creSNqtT!nkX9Cwi)S$%}_)n{A-I!Kw>TR>}}-y4cy
z3H{nYpUMd3Vc675gE(E-^S{Rf=BRJD*GrPzKS6Agzsjq7lIN0^SL>3tR|~_|*}Q}X
zCz5$;if{8t+c{$mN_n%EiKc{8Ej+2g8bh2`3qcCOrI#MI8B2e)Fll|&_|~5F_MatO
zYAxpo?B-la%T=wdv-wHux#FAz_^HBGKshhRodSfOb<8>wC2GoZ1if>vqyv3YU^zy~
znaoc*wj<3OO*SsEN=<yOLVeQjYHgc=0Szgu^c3n-Sc8p7srRx*eXrk>TFN9BC{p9Y
z7W&g$35coBi0Q1UBWp<a@L6)GslUx9R;zXDGi|;uR?M~2P>SA1uUejdPudbq>aVK>
zYOjp_O|+`-6Km8b;3RDX)S8f|Tz#Kdt3I9URG;*_p*LKhQjJgAzx6+aT@07GlRU6k
z;UCy%3k+kXtx!XpK922xk@@?$WP!R8Fn(Ig)wo$#Rv&<ORgw^^G=fzMs5tAMEu1Y1
z7bV?jLvgYQp$9F&lU{G4TWfWp+JE&PvRt&BM{9&~J$+J3MQ`H8XlJq7rf>5+m;GCx
z_eYGQR;pTe(v@_x{W50b@XQ6YRei~l)pKq3c5`pK-}Hp6Q7&XTjnr(Px@SE}x1kjq
zwcdKvn$-JuEpOD>xLFrQ&68VWGuI8g^^%3>PGDE^+-3faH5aWXxR>}4;zHJ0&#e0;
z&Q}uL24bdwpekJhAWsv*bSU8sdXF$7{J`YcFwrP}?;eoh5rGKt01@Kx03*-6Al{8X
z<7X$QV`1-^h&MhxH5H3S!u|rS_+Atl9QUfkM7-BKd^SQqWip6SMt(hY;?fj*E0Z+6
zUNp@c1NE$@kjo1Ng>ZBtDDwq!nORZZ$x$!bu2mHGwnzPuPKJXLXN5?_dnO7FLb#--
z==Gl5(22j(K0n$RjeDbUtyUVS$%)t{uK;2#Dn!EGs9e5r9ORZEqdE+X#fb#NYGVxJ
z7@3Gq3c3Bx>On7ZCrtZpsIwQymB>C&h}0LxHtEzFI-QuF0zc*R2IF3$CcVLla5hgx
zZ!QF5)5Kj-FV*W{6yz)TGGl2(u;TahIQpNM^qvI+=A8jUVJPvEGIne%A_*)Wj0X|9
z#(~QnhpdW`ek^(+GNCu8mo18{UQ?g7T*?y5EtQQ8#u-c{8*MaUN{Gb4eSzbgoG?rZ
zh7jv4dImfp;@fkZYp9ue!&>LlYiF%nS^32D_|zr;L^vo2!Apkyu;*eB+-Rg%kMjGy
zp~-M$-I>^A=zMRlcj{8&?Bs<0o~C5Sjvd}+?@=}-w62Y9(#E=1Ym}Nr+jibQ@5wd6
zHJxkDtU0|Rm9els@5}97on5}(F8|iftdxGVGv`9eZc4e~(J8y-GB-U=N>*miY*y_w
z0MwhTJwm;r9lIi>45#|M24b|`(91r<^CKHXeb&aYPkVZ-d|9n!d9z~lRYaA@b37?@
z5=R)tro>W>UF!5sYqOra%Dn&Jsb5iIpLb%)&(>`F$&+|Qf_5wgUnj-OKQ{PIKUU|d
zPwdjm*<>uI$9MYl$`Sa7O>%C3`f?*4tL54x8>d@aWDp}cwG=}$zr%JqxOwbzuPHDf
zs1dmc`BVacGiw28G5{52_zU`DfSMBkQIKw7^087cM8lDsYz)v75R@x4ENB1BPC~Fb
zwE*gCEoL|cNJ_)n1W)3SP<XN6#u8`!Gh0{UeHnu0ApY^`c!HsQ61|NA?_*@_@w36H
zNG1=0u1O&>^K|a`tMxME5spF_7AK%9%Rqoss4*DOGr$}`;b=6Y6XO1vz0@sMxB+sj
zWQp87rAwhn0dRh55}j5G%o+_pwK7Z-HM37Ee}!BktDT0?k@2N083BG3BB2OoD(s!H
zGu$c=*EF+>#Cd20=11=f#40aNGX$y#0Tr>3GQ;5<`A~zmUFnZJHfmGZ)IwTh_4&NM
zT8#JfR74<|V00pyAerEEgw2`6P-sJAGFD7$#xgOLu@kO_Kq;DtjK>8MXk|RId`3s|
z8OKXOVFHLho+*NGFmyJc{dUKrgt$hdv_Mhn<XFa&JG&V>BRDd4wi`0`(b!}Vf-G98
z8S6}RO5Qj$9r27UG&yxC;|ND0Q|zfQYnB9JIx}`5I58H<)S~l7fmhrh@$!{sZ1G5J
zR3Pp{*g?5mhW#LHrkEOa^o*s*g=DPb@v)3s$-)*=rob>DHhPmOMvRaML`Y;CpbXV0
zamAuxA~>OeYAn%<P+FUD=^eb3@!)+Vt3)Pnqa+z;AiyLhfk2#?b_I&+w^x~TO(3b+
zOt}HY`PD^0JV{&vWB+%ra$h{lbIzjI^Cd^s{1c+1>Xu{OU00Rp@-7vx7K_*1v+=7=
z@b|1-N%<EJuCj5y?7Neqr*)~WGhMeqs@w4T!R12F<@!|N>i0L!U;3jRHw(L$OY6k?
zK&tcw(fz`byH0esENm0k?qJc!Ql-a5_wglHt>|iAuC0G}>pNQ)*4?VzI(J~HWqrD3
zv(&OV)w1P2XDRHGJl@L%S9ULZ>eC*-<nb@eEcV^<>|I*B{<8bZ$W2fCJv&l;k;j$R
zq)XbRlJ-<d$LE~2u<tWZRoc@kd0OYs-tw$pZtwUw@58)>WU77pW!o)J>zDaRbB_{!
zQNVf1#IojenNKS7rHVVQhOYTOnz&iKeYwIbHl9ya#6(YQxw!oD=~QvExMoXwO`o);
z?`Clydml?xjEkP}<(9S&o__CXab4f1M{l+4pWA)Q-S}B`{r5xjzJ=4NhHa_p?Q^y_
zik9me-#z`#>4m;j{S$MxTaKC~SF7mizGvYZJC`~K#kEgepT2S8#(weG@q1Q&^$0(A
z=(Dm4v9dc=w&91NMc<!H+$`HIx{qF;Ou3JWWxJQ#J3q=3-L1>ppS<oA_eaFBL~8r=
zea=?+JTG~+UUrBzYZp%5tvD{82#UwgK>Qfu`$-D9%W{xz{gxrR4OtG;ZPl|Dn&ig2
zl}+!5t~QJQCsQ3eQ*HgXDo=iTMBF=)+H>+|<w^8bJUyQBj7x@RvGU|{&$d6`{o{i_
zIw<Ztnc99T)pJ_(_!io4dN$s3QhV+dah-ekIooYV`xjO&!k^{Evm{1Mphb|5M)+Np
zFFDRPV3CGixN#PO)`hAcZvOLCix>ap>eR-)l5a24;w^gnIeS=IyPFmE<wndRoAdwp
zpo>zl4e?X1YoFcvm$j?+mFE2`yM14AewIRl1bHNGeemBfg#?5r+&TQry_nFz^UX?%
zBb+YKOKQRoL!4>JA1SI0MNDK+9jI?0aO5Ehu!JmQBnYU77{p@U%5$2qOK-m}(0R-9
z#%hQItSmQ)MRTrmg*g%UnWYq=R@jwRKvW3j2zO2sz3F*nl?ZApLv4Apc3rH9(X}P>
zu4;mvBj^u=4VGEUOX`yyLI-Q`k1-`03H5AbQV0XZ1I4KNCt3BUV|>EhLGMK5C5Rg+
zDRHiXl8uN2z|To2{D`C?2(2jzwK{?!;9v*|#$uON$|F#2fFL-NKLl6}vJ`<TRFQ>T
zb1oxlnsud|LWm@$g$cP(S=}bH=UR^pjr#R@Lah(K4ujYINMiU`XYe*Yy3B5wY25Um
zg~1~x%jD9=(Ma(d(>)}gj?$r@ejEmmai)G{A-9{XrM{Ek(L23h)^nJnGtQusR=T#p
zsd-&a{Q0}Py1H_ryAi!HHyV+M-mo&7Qg1Rw&+H*`+oXA3Xbrt8;ZOUJ(Z&!W(X+D7
z)%_Fqe`uA-G9to+0R%p$96=NcBk=?hU4teiHNH%%ITIlIK)!=K+DWOJ5%}_jeo9wn
z(xME1Aya`WL1tl7v#m^40ntz-&I)Ao7^^%^kXV^iSwWevOvFr?k&IFzzl+rIA0v2`
zyVuLPSI@V6;D675)77<9R{8c5Z$0tdZBQpJyNbl(rj)Ds{rJMBk9T~yBekaYrmL3`
zL*Z0uM07`%2A;dqcx*8!=TA5FNKHN0UcBA(gxGjYbTlAbs$HF~?UHJ{(zU%(ZLhfP
zaH{rM&}vJ;#GTe@@#yLKaJp?!Y8$+MG1c~rh$u%B!sX%`v30As|0J;ICH{!z3y$*)
z6S8*>TfVxV&ov$AzxvzOX{N~k#M89v3ENM~Dt7I#g>2}QdTH453d5EL)jFS0R6|fM
zDNpfA9ruNKT`8{P#^2}uKvR=JC7@w1;1v`6^pS!o4e9uAO2;rNf60>MO)=Xy)&Ua$
zQ`~mWqYj0BhuX&k3!0@=Ta+kMbDz`HGHMKPu4&EYwInS`>s9MV${fYf+e<c|J@_3A
zmA1zRNUbi*pdnjOwjG{~8!`wvCQ0w*w+3vZ$V=sT89^CS65<U_jzhEr$?0S+_EU2i
z_KVgkwP0fUyh36!CKoP5V0;568KuP{*xMm`f>cX315z5#nA~XMl9zF$hFY13%gY!^
zZ%`{UcqTp>n@;?iWg2laL<Q5agep^zJ06Ws8s*Od2@86?XC^0OT3^5JQW~zpLP#qN
zV<O9CAW?>t9MeKtjX_u&*=STUHtNT)&y^{NLbOL#P@xC|a~bC_QZn8>W1~zmh-94Y
zb68C>JR`1NScf3v2*zTe7$Bw3F2lz>xlzIiN-{!8TyhLdFs3fW?TBIUPlkSZY|!H~
zrG|$4<+vXqWqck17|06FQ*)*5{k6A>{mZ4bV#Cm1CB)&8f1SKBA=aHvl|C=Jp9d72
zOT78Y>#w9-4evM4kEYvtq_&<^)0UgAElXupOBHo*PrNlTKm5V-?>(QY*fi%_auugt
zUdiQ6yV@jI+rrv($Dq_PnC>_rbsV_qI)F^e#U*dP{QApRHl-P8ytX#IVMy9ABpy8>
zz7W1$9HDZH%VbLn1&pA*97ml5t;sP<i??a(QEbiyvKLx0Mtl?5ODuv0?DV8bo@{~?
zvez=p>%h;v)N>lCua}|f9g)MK$Er`?n8N}a2I>i}S!>d&k=8s2YRinS067>u4|*7z
zcIuM6jy0HI-1WvqZ<<uWjNV>ly&G1Aw(Nyx&={;Xwj_7rnXOxap>sm=J{wzzI?l~F
zNjM`fKLTk~i7dXLJTo3cC4OqvUn4e7GX|vV;nuAEVB)=r|6t|YdUCPgJ&qzBP3-<z
z`Raw1kNqF|(;a<MM_;Pr$))bi>Fz<PdobO-U+UhU>OQ!%?dTVF%c^7ioD=43o@(IN
zukO202-_BKR`jp2g=p=l7oje;j=qf$>j+?(v5bWl4lEBWOjM*OTa=Ajz$|L(P-oH1
zEZPh#SYFbCwFm~5twq!c`wm#1UErC0T0YjE3oMs|tUewiofGM(yaGdc1<3-GM^<c(
zWPws%-fThAVMqt$g&2#e4PC)UO0ST271KQzK=YjU>*WSxSTF;obQaojv$daeskP0z
zb)rDG8%bykZBnzjP;;pF*}{ZoA7h5HlkQ|8c9yc=XN!_f!^qM|kcEwLB`7OGw@*<<
zq8KTQ*+{7K_bcSaNaVATC<ZZO0yki>pp5&h=W$2EY;+89nyt$WdZhMWtEJ=-qvlDL
z7)GrW)<O;{Cz(g#Y#G}XMafdNT(&F9Xjdo#fqYFMpg$F8ab{0?Iz0I-!9T>56{t|E
zAEpME0QDlV2wBvExh8^QdV(p#iNHv_g#S#QtJo70uMfq&%o-RWqfBCCDQuOTfuO>`
zM+K-l<kD8qCZ-wB$Qk1i*girJ!P>DRryLy!>Y|91)vY1@ywO?$a9-7Kkb<6i3f4>O
zmO4JN*4(TH(sd)FnOTLB{7i0xvbymbX;D@c-_RnOQDsmJa~ounuS`9gd1V-klip5w
z+k>5Fe7csg*N6pW(vJ<ItUw|eQ}*a)552bdR1|5}@DF(qco(B_u)0i#;f5VY1h(yL
zVG4(_S%ha1WNb76!jtryjJ9No&ILUoS^-7Ec-&W>aj5gBJ)Oyvs&V=xX>o>8&Df~>
znL@df0XY+N5R>EMlM|FRp0Og#ln9aWAaq9)V}a3bIo=qxfkg?!)Z!8)fzD`W$`GZr
zhq!N9`L_y@=s<w=h17ci8V_UIcp|K%Eg6+-$SQM#S(zKm%hb~9WxA9;QzzrZjj4OW
zc$Z0FkJ9)_(Avx_WTwtYk>tMpISPyaJHTa7Ck>n%y!*zRu8lvd^UhZ-Y)#c|nmf2u
z<`tVZiDjEa_on5FYO$s>Rk1Ez(JNJetv{Hm7@Bk4?c8yv?!^3&>&-V#-rRNkdq>2&
z6QZLU;nG9j+-=%)r(*Aw!;Adl$(viB{--aB6?^Ag2$psoxl=d1cv!4opRV65)o;EQ
zyj{OltQ%$}4lg;XuW!3ke`ql%Hgu&MdZY#tJv2OVv;L6eID|BJ8`{zhT~b4r*u5*&
zFd#Z=m%T0TAHBL!T)#85wm;RnE9FIO{c?l%-HCT5#C1Exr%v5!IE{p$qMqW9^LOfw
zFUIxiL$~XD#k%9H`r}mn%XjLJT(|1g$8R@myIFrkavVXLr4`jf-_zK->@NA;X0c*T
zs<d6zReZWpeCl{=;Dpq1BIO==V6`+Bpjk-0y3wRzmF;53HmPFU;(3V%>St9@S#^mU
z_N1x?=L(mK>#m#^i+!TQ_tpK4T>S|DRi^I5SAScv7x&?>GWCbPx?jZApFni|k$5lW
z{0Gj#2HU^1A^61Z9Bj6IQf#BJ+Bw*6`=r@M;kv59b+(_ls|GjZ{d7as;1=7bB~^pl
z^Fl;IsuwW;jHH|ZCd)Bg20`>sKy(;QJwfzy=ZI*|xj?Si3<MsIHsBb8OfcFM0?!U<
zhux5lGz=vFFe%NH_|S}(Q66a+@@8#15n?8xNoZ!vW|9-sY$j#NGcY*$hVso!mGgBo
zW8H8YdIyz^%Qx?xVGM}4md8pahSjlhAU6M;W*DmvHY2&!ktWj4mUKLFv_K+*wA02<
zA>5q?X48q5nixtaod#yJ0H)iuYD<zhW|Ay`Oh{Qv8cAi-$fs|9a)Nxa&3vJuuOrjr
z-bu(NRO|*3k}x?AI>MB3l*ywD0&F+i31`8Y5GIaiNDyo^(Etfz5CVfph=ZStXmu*W
zq4QAp_j-?=jWF31ur@`IMJdb*<u(br+2up9wJg#wP*dN)u)^2_*chVV2u4%pUW)`D
zo--w5IR7#p6voJoRK{|xl!jqwCSECKWJX{Tho*qRPzLRuj1xu=WCM9|N|smW$6?kH
zfo(+(<tEfF?4+O>fzK_=Wvm!II?ofC%D4$D1rn11`X%GlVl@iI1~4y~QiYnMWJ;Vc
ziQ+OvI<lrb!iyBypk}8MjW!9gU8gXFL`(*3K!36cLB^%_KROecsWf6f!wWa?UAzGS
zSre3VRrPPZBvp1@E4vm>Rc@PeFST_LlYXaWXuf2Tzg~B9>%s4Ji#0=Y#R!(393t$~
zcqL3gI^D2AYS?hC`*y=-u^!l`2H|p5O}eT>s_MA9CB1gLw08SqIKAVDwBv|461!D3
zK3DizRn5Bv?-b1U{cu|BJCxe;%&n@!fZ?q^5+>cL-aF4<dvWo=%`H!VuTiYtJ6D8Y
zsj4+ywO*=PFFyPHovy%*!`B+p-Fu|&J=cS`yPv+<6-ZURfFe$g-SM3jhmS3^q&xOW
z9s6!<Om!R*5#?w@2<iI#sp|)qdWOHS@}B2-2pXKv@n799;c5>NW&o0Ka5ekz*cJFH
z<2xH)gK?gB?ryOCu?@iwn|3$be$wOI-ER9SXQOac)$VnUpKh(#y}@RV72d}f8xPQ#
zi=-fkFookPbihFl&g?J?AfeTOH6Tz*@(R|lDp<odYt^B!&U71b(nn|`UC;sRtoWnq
z1075Ptfc({C(!XbD?z%60-fOuYr1u`q>4dM{pemE`eTYcs1(3g9PE43VSuj=q&LGL
z4g-93&N>YE1n@uUG|^#OHTbGOIY^s5^B*+0b_jq_fN&d|P&QQ~j*MBiL8zMmWsNsv
zUacswNhu6Hc6d4jUQ|{F>XyC=j5LDUVeocZ(FTyG0A*G*;4(A2A}}fgXyl3tO2t}B
ze*@5TNQR&;*?O!<wjPU+fg*{pw_!eH$>0<8M1&IqiZD`(K^-ScuXj=`gN+5UsPHvJ
zWbzbP#rO;v9!^i-!~qR$IOCwR2h519QW-jxK>(nPTm<iuajSd|om^mWQTS~X94Dod
z4)+wfw_HfJ+*^)oB3MU9^cbjfR-_#*lA~q*$U@t-mOu6Xz<<lpufe-L4BnOfnVZ1f
z9s+lJmdh%?Z@n@wUy-V6PnG%R9G^9<S=#;dUkrURbjN*U@x?3s^HuL0oI8Fw_}eG1
zPG1}T=w+#}_on*@$k}F)v#UW;SJkB}JEh7_aoujIa?hOmZpRale|Bukg;M}Wh;+2E
z`)7bvf$PZ?u&Ru!9R$d7aD~IT<snC$c+zXm0jurLYzRJSuN`nWeo|jCPzXW?uhfg=
zUqo&^xPjo|QuNbDumvpuNxT`bVp7LaoR~Fzi<3SC%8a!twL^&rP-OltX`yXwUZVVt
zNon~vhH%Qqs!HG4xm+uVpzmwjp`RJxfn<TQiX<rNF3Yu@g&IshzY25L#7mI~C>=<b
zWI6-~C$ut^4QxQ9N+Lys!Oor&fKU}|WXP-U>X}Za`=O&BhAPb)*6aP+(&-)YS>zo@
zdruX<2k<PD22RajF;27#Z3KA>c!^FR`$N5+Y}5LgPD3aBk4pUnZJTM-0KVAGl~=vJ
z<E<U{ab)}uKR2*cTzYvlUC}00wB0OjyIZmAdQW=bh%|6S+%+r?KPMhLnLZYgjzz@h
zM#b_mGE%Ey+u-e2-g;#|Bvp1SjHdlNB>#@Zxa1#5RSt-rq3b77o*}Vv;Byz%A?tvQ
z>xks3Z1uVkYecEZ-+)pZ>ymT>IhU>iX9(Dp^BO;qPh*nww^+$$v79Lz#hb+@G~{T8
z_CBJWjEkK#vjD-bl7F-I5HQHO&>oXmmCeE#PTGF#I#;7U>38(eEVoKDfc-iLRy6l|
zNS#V9j3?<nR5LZqEo94JZxwXzR7}!nzS#vr1E=#%&^a?ioB4&dTMt6<8zm{Sf$>q!
zP-W@Pji{R-g^X%eZhILX<ZktGwU+F?F3V@tEQZadH7^Ta%L&QU4WvUt2N|j)(yRdC
zIL1T9*u}z0dM3OpoTA_~1y?ATrGOde5c>mM%S2(5F!2tC!|Zsz%+D|#UmqpOo1O~8
z@J=zx5g523_C!e1TXIogG_zKXwV7K1hQ$r&nKmjxC0sIKa;U?VZP~2G4icdGKamOe
zx%AO`=_Q9d?N}!{)-8<Qa%{fa>PxrwO0B(1Zcp0XD7hQwd(zFlQgiR(?jH~RXz0dZ
z`oJmaz^Pl$kEWkLCp~`-Xt}LGax~2qUVa&pCg<9PP3g7!rM3H))^?}Y9+cJ|1Zw~Q
z^jT-u#|J+=xY&~J9g%uRQk^FuT3T}W(vB|4(RHmN-F-yrK61-3eD@S%IgTC|JNDlg
zNOe4;aT|oePhRg^fx+!uN0g6~k<L$B-Mjg0B&~rt8W#At;a`*ONR^F)OxpDjWNM0-
zk(RJU&V@~C7Hi1@FjmNks8#GjIVLJ^lw%UB1DGfwcas$VoRsvY@dOS4Ao3I*fB-}u
zxQsjlfXK(ee+?v)yeye-0wD5;wh#USI78cn{ju>$sD5HmsMy0%qI5gGWY)n>-~{2e
zhIyUw3gp#>krL1(Oanm3KPU$~-vU7iJAL6jb4huSfe22SPRJ2{5{gV{^@a?Vv2Y#|
z500tkb&57C=invG57}WNnAMPu%eyOrgSeyKqim;ogE8{*k~lja?}YIlgL?4!!j3zl
zL4avmy(Yzmf@G^BH(!zQgkm`Q1KXmhNl3`y!Y77uUqbV#D5O;yjFX=c;&LYGkdQoh
zI17ux3yy&=>O^A05nID}bgl35Y6AJV-+Kh)5QZIf$EQPQL7&AVRA0n<eq!<^Z@VJ9
zA{`j~3XRL%QW~nX#3xUOv7@@tFr5Jgho+wRL0hS>s1JsYu&jU}3v<eBmPq8KBLI?q
zWjB?&+C}Y@hk-TpanXc4K3E?H*v{;RepM9l;`Ah(B~3ggj>sbVX?H=+$vyaE1Vr>F
z*gmGfj7)cN=i7-Cf1Fe^fJt!mqYxt~k3d?^h59teWwz6k@T&weOF{H1#DLoo%aA~P
z9_&(>+|G)HAbbxI@S`(*CS%9S6e2#Wa1K$zd5SNh8I}cmY+X~48Vd3#n;N3GGq6Ps
zC9-MZ5SeSm{M&I_7wdk9KR5L_`VilV0$=5zT)Dd8<DL(D7S>1&-Pg{3y5TQ+KIyr>
zM(Wus)$f}dS}v=7d;444=N(s@K5qZ8{o0P}8*eyL9fwn8&x-D68Cff%@4Or=Z9vO}
z(tQq@m1daupCf`v3mG~V{(ycmIpL}t#4H=Xo4D=Cle?JBAIotsQ0K0(&fTxEI*;)8
z3b?k8$HJ=O^AnGYPw#eKSh$d0e^^?7SnRw2i?8(2Y3b-RJp->EdH#+!aAQD(PoIsc
z#-~JY0E!@lB(P&BbUz8~4l;q=L9o46uJHvKh5p3i-qr9B6#7@_**|g$nAzVLr@#=o
z2{*tHxoJEUEWb%g|8F&{wwqyYhHzACS>U~F3)z1dmH(d!d>cr7_v4cI3^WRVNN}N%
zf}IG=X?Y!Z2>$|!R@%?!$=%L|6mndWAjMte`gJIENcSHLru@p3`u|^$<)?P{K%*^$
zK5G{d%Y;`RTtJWoSxk|snZ=nZy)q}>%}}U{6k*ZI12OV5^V%MGN+DiGnJp8<Kk6~$
z_6x90f#{e~K?<cb4vUR(SX5=5>(Hn@BTZv8sDUyK84W%|477}*qg&zB1VSqsC0Uo2
zCzrquE<>`_j~6&e%StsUw&En}QO!tcjI!6Coc^EE`rCk)Op;sQK}wz{rH&_ML*rD(
z(>Geu`vTIwKzd(9+80UHjgmP+u~&3>SK1U4vBKu^J|6zl&!w)E!Ac-XC+E^_QNadT
zpyshMYf`ARRjCj1nMs*sSt?V<K=D!yNs4V2GNPnSQ88QTXd##)e&))f*O8*<U|i6D
z!u6A{uOERH16w?@@__^zGI*2i<Atjf!OmxwgBUU_Dd>N}0%R&ztTly5BDxg>qPpll
z#?P5%gUkgkGid1>OJqk2-=$UfEu_XO^l*>43O{RZn@@c3%6qSfTb@oe@BPxsH}B^^
z=eQ{Ultnx{bq_`2X?|0>c|d9&xc;=%d{7)ZlWGn@7l4$|BYe&t?iRN}LGaZBJH;{?
z!Y8G5{TuVLz!WWOwzPi-4@}UHCg)x%Ac6@zrDd0?G{BUu|41njiUR&3Zw9uKmKiM8
zkR_m%u7EH7z{L=;b}{Iw83!gaMGu2Ra6KWXg;ND4a$gCD40ETgY=9yr<RZu|e47Gh
z(r%TB>lY9KqrJ(onK-plT?-kfR@=-fL#ci(`YNpfDj34?BCfLb?dV(4@1CD?Ef-g$
zi@j2@cfLH`*dsOez!T-1ZOKsvrPEDE%YsdEbl!HfEa8-wqvjiA+&56Z5hj_jYU%_s
ze|_2nn@ypviiNCK6Xlq)V_ZUG;>@5D*uyP20<M=~27x$ragas*3}D*~wi^8XDGOoN
z61LKxir0QKZ34^ssFs7VC6@J@)BTpAorZpz939io1CS#82$$=t?Twi1sSO&cf3K}a
z6=Ms*m&lJug!$=(xEg$CXqp@vhrQ?Fc&+`Vvr!U@FfVMf7=>gIS`IH$0>zO{_9QeB
z8I#Xr?LV+P?lbNoS*gsNddO02_NZ7dYt2%WT=ecm-Q`r4w0i%6b)W(x!Wij=^^6J)
zzz%b1vBDZ`4aUC@fsgH`AB47rjT8_+FZ>Y&?;*%oVRb`H{WyH&+F9e|+lv{;`B*@9
zI%36`<Y>Db0SsXP@!3LUHFgmb9VgVlNQI(`bYY8B*pe!2`<$~lkMqm!az$F)e#^af
zxw880i*H?=w}WSI`><`HQu22Fu<1|Re$ckK>QB~P-+W{9Cw<a}!{U+WQkBQ%p8nEK
zMZmR2dBxjX-`aZR==;J47v8%tKPJ_$yVm;WyM8?Qqrt^3(uQ49-N2{M{>5{jJa^-G
zs_eNr$8wS9&C%CKFCR}8HOyI|M4K!4vXIKU#~SrDv*`J~{;Gj0>rbof1C9AvHYFOt
z@+tae1P<n;BqXjxQ{`Oxrb8~mfH{{6RA@<?+Qpg5aX&(f=wi7{h#4?}JS4gn!Gl(P
zQ?0NhF#|i0{c@(KL*b`D?Gda-^27Xj^jSEpTcMa*nIK)*qTAjH{3SjNHuW6I$#O1r
zJZ2Cdwo`}}J|dmb4kZkS(@=`T2`eeU)p3Hah<uRpj^LkT;Iv(%!iKD!=G`6Gf1v#t
zZ!+mU?1M)D_LI(EQH+cUeVPUv&J}btiM^`Isg24on4)VnW^>Cc!G<cQ9EOI>c%D=%
z;4w5_%1I2hU5c}I-Cht}3VG*)m{n^#BL|H2p@R?ulhS^C3LgFFhy+@cHBJU{fQeYO
z!n6vr&U$8pw&_^xOfYnQ-GNAyOif6z{g{A`7W>$`fx7?WZ+mK<^zrO~=1if1X6P-L
zaTF-yI8!uafYZI+8JFL?I|75ESiHBu=h9hs;eSN2!gCa~QovMse@0JC7@8lAvm>J9
zB8og9B3z4?IGxZ>X-H(4@#GFbrdW%Cp+0$6`kyFWzTCEe@TZjZM-){Is7elz0%5sr
zaZ-(gHj*z{r&kErtdG)6wV}uUtXKaED?I);C;))C>f!3PyEP5(`rq-VYC7hMmuh_J
znr^A4`&wHXKy<^dRLuZlJ*(3mI2h`hvoDoa&E@~hRf{vIvJpb6qJ8eEB~NAA(=K`1
zk)Wvb&GFaAuk4xMoGS7G)Vhi;m;Lq=bo_MY^_eTpSK<rhw~PIED{Gb-{MS~eyZ1`n
zds8@7*s%Y`d8y%qcq)`W6_ZZIQl}=QhKadDIQxI)m4(p4(QBQHza{QCB-THZDm^T^
z4>KUXlDQ-pN94|f*U)_<tTuzm1_?QlsW}%QpGMf|ugr)y6}qT*7Y@N1$~J+^zk1mq
z=+HOjo5qCn1FNdqBbG31z?m60$hLxDPRa8O*(V~ce4#xir9$;@Ggy_AKN}MWoU}8T
zuHZaij6BVz8kT+_!v08uS{k6u-S_SL5BLn5UxTYT@Y5UgLi0_EDL^FofNm7J8Lj+m
z;BvrFq5(>o6Hd=yAO-<P{ukVR1v0I)3D22)#Y{kk1#J{%o1B0FGXoGi@msb8_z9j=
z*BTzBl>tUpk<YVIV~l(fM%LW_3o5WkeJjHR1`SpU2v?D7RZ^G)NJ|GUJ2X8x9iM45
zf&kMb|CT@jAyk=hUj6RiJA?0U_@MW_-i2`5KLAUhw12PU-<xXQm#W(@*6zn~-sSq$
z?;d;S*!-|8J50Cklv;PD>ifmr!%{sC#MInvZ2h3&y$0CRHFn?FNNiWX)YyN$In_7_
z*1548dIWa=th!|(@$oAkz9K$zW@+b9s1s^%Y`ExdQE9r!D;0U?8?LvCMc!1=(+Xuq
z2Z<ZIWfpsD#jd`G82E0=+2Fd(kiPY>V9iJ|<fMxfZsd0xT$&ug!N~>z5O(Q2h^fi0
z!MNAF7HmoNxC7+#AjIfk37PCdB1Fn`nC!Zgs)$EZ+N7E6Y9x!%IM{Skn;Y~piypO9
zZA0Q{0}O6|N82#!hLn}I(7_UVmlq*(p%|2v@}tpEmLO8gudpw=090mm^xt|)qimB^
zr@fl-t5$h%0ttIvKmwvkNMj7AiE4ASH2xvwG@zMztU!_%dH4R1o|w=fPe#wLQN$nx
zZ&5IeAXCOXakCSP^5<_r<FKV?#JNsQSeq@C(4xPh4K|1Ju)&JpChzjb?_B);#w&?;
zUwP-1RIUGJv0rq&Aa=cwLI}qXieYO_s;V<pwhrt`L$i45h4iU&(y4QITF%3%-L?M3
zsvjJjKfVzB!;_y*-x&Vs%TnvJH(So98e(*+4CwU2>lZGE(-mu_inU_rlTyXbRB^xP
z=qC+bYfKSPmDKK9<;W6H5t?J@u?G)E^oTV~@i~{eFFsOMClA*+@RqPmo4RLk`c+or
z%Zr9is>ml|vmHe1;1@=g8T%Av6aHt^28i2_TbwFTtd?wW)%jAkGXsjTV<$6@br@p@
zyfDs%iPHGa<ZVa8N-}^DH|u9P3Vxd#%SOm1FaiCivB|m22mo~~;B|kuf{;ye%GR?$
zvC7CnN$<!h96t@d3&5zI)8K)g(r_?9gAqyF7*7n5+7h07W6)+)_nXN~v_k=OmYiub
z#<W@NpHMvR!hn^m?1|2YHxvd8fKWo%x<+5CviUthitO{fx)lifzLZM0LJ%Pn&p0fu
zd8U#D%d|x^c{mvqnFtGK@k4-+i}T6*HB(}AB_3cWd};S)94b~7o}!<nS;?5(V#N-w
zf>C`u0>YVAr|g?tmT=6pWMR*Tq;k>Pdli*I>R7<luZDKxvzoehJKpKY!H+fl_c^O`
zCqK7usj^nKJzp4+D!0x(y<E2H?Vh)KuE3PNd2aWTyFTr1k=!ls4=;42S~oA2FXl<D
zJ8rw5yq8b;vBGgi^!Pi+#kMUe96^NxOnhI*(YSJ@lSGiM^xtJGJ<OleRvg|ampO(~
z*H73&tBJH+jJ!129R~8UhR92}tJ3hK*&fl?H4&}AY52|p4)Q_vD6iZ{9e_l8O~_F*
z?5FktyKxs<MkK09PW5|Ky6(qRJfVLV#_(kuGdo~1h)dcuxhnjGBxU~-mN$0e>lM16
z2AKf<Ep4Z%_|_CiDj!r(5%9z4+HA<Gz+0^b)rJ){XmMZj&Y3*f-`&@Ifv+HAJ2#0h
zHZTH~)=#D!hiBM1x)3{`C$~<<q7vTgq_4nsY%M-82P#y@@-R`wIeXgwam9QlQ;8za
zM8NP;(l8wfR9pl*7~_m8WJ4MUB_O0LV`jFaahe|lHo;33hA`fjA&eZUqr!$)(+2%B
zWMFE6<~1Mq-t#T&{&?uap;Xhh#dA{A(@^9rm381_RzuJJ^~7IJ+$lSKJ$`xj_xsYd
zeNt`TVklL+D^<ShX4z>m7!h9>mC8nemmj*vZO(dZ@v_QvS-Vu$zEC5TZJOJyZt<4y
zZl@pKblG;PZ2RKKjq)28Q)S0#*Oy<hN$$GWpN6MbXZ<}7=c$@2{_1`iSN=R7ryce2
z>H&MUO$~_v*#4eVF&UlnKxFQP9q?b#-b}JjFxC*oX$>=-Bz6TKUk#5mR8G#N?_;cI
z1#%?qEAWfoKn<H?GMg$61gyw|4<1=->Q%I+c@PqsYg?INsR7Gr-z`!MPVx1mSsq8G
zvB%8X588ZXYyWHPLDN=h@W=58L8T?>xT^JN)|qr_I$RjPf`+!w{J+}nqCFk-!iYOK
zim$VfMZ4LjF=YD4xTh8Q963@kZY5nn2gw{6i|X4<adO^He$JFnp(ux2p?OfZiYysq
z{#mk%eYhA-Yr9^E!X%Ubj9}cq8=V`Z&S?pTe)0FX7y>3&Y*a!fKLj^&;}hhp;|`XY
zaFYUt)qClQft#Ip%D|>Dk+Dp{Ik#3YSnhs$RkEVt87CFa(0|4%Oum%u4V<BS)(lw{
z4L2OIj9YGq0&tx2&<Db!<_FluaCA95nr-$V$E_o%@^8>AK$TK%Rpp$MZTT*#tm{7K
zaQ5Lmj<<P!VE);8hv=?fDyz6GytQR+_s_~&mORyIk5}?|-!CT&-neyf_ad~C{kJ{4
zVEewMcd_Ni{vY|t0d&tPsH9t;=YQ6^0pxxhM|Q{raF5iw=lWTx_0X+nj^MCb>Y3xI
z))Qc-kx=wBLL-fbyJ{U`<A!VDYtKoI+irWd-z!1G?%`x{9i91Es912|eDR!n87h+l
zZylJAF4o;DA4ErrtH@{9gF-4v=CvzYckRH@PjpwkG%ET6gFTu_y!zg7H{-Jv=)<sn
z(#phF<TioeT+S7?UDdvjMf53BQQbKgK?Kv&LY8pe)qEBHKpe%syO!j?<uzAom?<>E
zj&K1ubpERABZZphxrv5fHUCw&N)tf0`i*|GRL;swpr*b9x8?K|&giavpNWyY9(1>n
zjs<)G_&F1V0Xbf;1Tdq~u{bpS%1N5&7!2yY6p;%tv~=wFtG3az*hiW=k^nyVJ_4Do
zN^(Fv8-aL?pB}ZW^mYot2P}?%A5zB&!>9YQRJrD^yR@^*U~@LxASy9k0y=vGK?~R$
z>(GqVzhPAPXJ{x)nc0Dzt$2pQ6O;#oOd0vrzoS?>3j`mxu=h8>Oxcb_fg(0?kd#^d
zh;*6!i-B11OeDszIRnYE*uGYW;&OrHjzCE}v)Raluvyd$qQ4>A0fJ7a(E3-orS;vS
zyK||k7Uu*DPw<y*%VqUf!td|7Ro1ce1c;l(0;zoCXFX3Ww){y{EZ?}~=}LRHNS-a?
z)?>Fl$M3l)6V4jS<`klLXR4wfV*Rq3xgo}I2m}-|{Fz~J>;D#yzaT<Eb^<{R*^rC|
zY#IJyhQE}t1N!2`Q@*mGU@QJLCI7!E_>Twx>KS@yqlkY`0bvGw=7RiCWo*>{j1BAg
zY{ohj!>2CBLct9DK0z^*2wY;$pcHw||3i7dq`bw@&l@H#o+)5$ka@=c3n_9LLgDWb
znJr_WdiT(f{`YwGDtEug>8!n1!NHqw%@(O<OS+~{s_9z{N;Ny75~--ZeDunb(yETR
zf+d{L-2c}8Yb}@er^>egvNo-iDNm_sTe_)VYU&qvofg9pv8g}RG&<+J+$lL$-*uIW
zu7)M|syByTA4<DdOYn%?d9CewfjE3pbg#bcK6TgRoqP2y_x@#v>&^Vv^S|RvI~pWM
z!)?XH?nB!UE+3CMf*5<q=M@Uk4}nAh0zo3dLqP`x&rv|swLrwB5Tt-iYBFw!mlM&@
zIQ)rBhGi@H@6gNNrGTAp`|s%K0}4K*fFPAX_FJ;vj0kYyClvf81%E}sUn9skux)S>
zE^$eoc@q4{Gf&fi??}s^=)g&U7{0R1%T6|EjqQ}_{$@%~0Z9kql>6_LZz=!Mag?|3
z;qOmaTI}%Fe1PYgd&KRB9&qLM^81}`d-c6KF0b@+OQ*f#ffY~p=;@cI_;UMm{Qb^V
z6#8BEL;U@kDtg{jV?W5>-&#&#r_0`Wzs6->bHAp*UVE>Kl~ZglQ_7*IraF7s{q1<V
z-&A1V#ow>8*;iv5<rRHyaoL+FVbMK$x?fXjuX@m4VXywOtJW?v@vJ`~bVa+Y%F}~R
zJgoStt<CUNTRXmM%a7REmtvu8@#STVF1OV$bSq9x`wd@=WydQ<FOhsFWH=M02z>D=
z8}?~$S-u0Q4;F)IO3lR$olnwo$p|IO?I(4K{y(5ak>jHYNM82Q1Pv3-H7+1cjW{qP
z01PY&7f{eN%!<A_k1jUj0$R#P<k4^rK0~PyBJ>UN-~@`$aN__C5qXO>z;9Jttq#jd
zgq-E(UPjAVQL6i7P2l~HpIiLL&n=qrl#qjFlY;-ner}P(KkAN%!<Yu&PYk>qouzLm
zvir)f4l-eq@{QF0lE0&vy>%b<4MhXA)y4tCV1OIL3h@00eOghK0p#8_>D$A;$YJt5
z%G@%Hzq2~sm-S0`4@w#6OCM%^_tRle#XzWCK4{8Lv-iEcCc37#Yu2ah^x<@@Fl+e?
zLCfv~wvdS#B3y(%3Ye|V4tm;!Kv5zHMZhiWOJ*!qPBet~Iz{-ZOk@ygl;yBeoe}Lz
zU{RtD_afQfK?Sv4`w-YH7-<}chpWdA3g0Uf{X0_LC+VA2^(#JNwOqUU-M)AF7HU(q
zo9UBGRkAo=Mf@n4BeINP%un$E3v&Kj>ynmlS@uCS4W^h<<Xi^Pd^w5#;5yi9&WzI$
zviJGl;USK%fKZLxS7`VU0&G*38?n@)oC~o9IZ^ltJg(qmP2Ei5Z)<Qpra;4)ihp&5
z<X|Vivu2ls;L!V$JuXg_8I}easxg`b?5q5Z#1Ofek!4~lv8*AdjAO~=5!|QJr+rZp
z4kokH-FTE!GQK*yC9)XY@GW1(=#DjzEm!%Q%2cw}zbq3J`GW*F(@ot`C4lNiQYG~U
zAfS~3>-km;sk~;{nr5q;>~%ox6)|zT22V42au*m$nUh6vV}nl@=&hFdEz5;Oj%6<#
z*lC+`X0@SN+D<Sec!M^>1lq%7W9~}P)wEPrCziF~6Ltufw(m@DKO}8Gbf@Z>YiF)h
zUnzaJ`kiX2x_ka)s=8aOdS-4f0-Q2ks#v`QH%(RTQdRp>O+&h-Q>y7)s&7o!Z;<LY
zeBrcv3hu%AO#vyks}IXk^53iOueS+#SXMZ#OyJ<5tPZJv1t$ds2$+^x;VH-wpFjag
zyy7I(AfCczu{(b0XteiyImnmT3uNw>Qh}dh3={)5-=nGNMvy7NQYFSQ7Cqyiy2M!5
zJozs0$d$1(f7Y@lg|;=kcZH%;mt^OMd9rj>_}}P71^C;^^V5ELmBjrDa1>~ZW>%ZO
z)KG~)L~5oeJC*ELtVD@q&WT_>l!zNxzxR-h9bU{-A2{?>;K<Qk!_W2)3<n1KhX(c>
z2t0fAz@8(SRavk0tI^Iq7ekRL+EM~(++-WdW_n^nOG{NAJ{sGv9oxs@Y$X=iAv9uK
z@K5Hm@$o*M|J-8XZ4U}K-u*XRG5-CWTm2x9<I8aWIamERT-h)2tK;Wf@6WmRf5Q#J
zp^>-g-3#wrxH2|>@q^@h$!ll+bo2+K*N%zxeb+62k@rd7;!9%PQzBQrgl{JHywh`K
z&HUC6w!gRi8nZ0FRw-6LvA9vJdQ#+8eNk%To%5Hz;BdR|Dd2;aFKVI=zVUL~7aZNc
SI9}4r7hLiGlEaO4=l=uV1^+()

literal 0
HcmV?d00001

-- 
2.43.0


From 040049965d13ea1faf25e493cc927addecd29288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 64/70] fix: changing the special evidence dictionary after
 building a graph changed the graph's marginals

---
 veroku/cluster_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index b2d51c3..cf96463 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -139,7 +139,7 @@ class ClusterGraph:
         self.sync_message_passing_max_distances = []
         if special_evidence is None:
             special_evidence = dict()
-        self.special_evidence = special_evidence
+        self.special_evidence = dict(special_evidence)
         all_evidence_vars = set(self.special_evidence.keys())
         if evidence is not None:
             evidence_vars = set(evidence.keys())
-- 
2.43.0


From 10d09c5bb307f49cca8b223261a4d066a00fec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 65/70] fix: the mean and covariance of a FactorizedFactor were
 not in the order of its variables

---
 .../factors/experimental/factorised_factor.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 55a926d..7048f46 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -2,6 +2,10 @@
 A module for factorised factor functionality
 """
 
+# Third-party imports
+import numpy as np
+
+# Local imports
 from veroku.factors._factor import Factor
 from veroku.factors._factor_utils import get_subset_evidence
 from veroku._constants import DEFAULT_FACTOR_RTOL, DEFAULT_FACTOR_ATOL
@@ -29,7 +33,8 @@ class FactorizedFactor(Factor):
         """
         assert all([not isinstance(factor, FactorizedFactor) for factor in factors])
         factors_var_name_lists = [factor.var_names for factor in factors]
-        factors_var_name = list({var_name for sublist in factors_var_name_lists for var_name in sublist})
+        # every variable once (in a repeatable order)
+        factors_var_name = list(dict.fromkeys(var_name for sublist in factors_var_name_lists for var_name in sublist))
         super().__init__(var_names=factors_var_name)
         self.factors = []
         for factor in factors:
@@ -210,21 +215,25 @@ class FactorizedFactor(Factor):
     #  Gaussian
     def get_cov(self):
         """
-        Get the covariance matrix of the joint distribution (if Gaussian).
+        Get the covariance matrix of the joint distribution (if Gaussian), in the order of this factor's variables.
 
         :return: The cov parameter.
         :rtype: numpy.ndarray
         """
-        return self.joint_distribution.get_cov()
+        joint_distribution = self.joint_distribution
+        indices = [joint_distribution.var_names.index(var_name) for var_name in self.var_names]
+        return joint_distribution.get_cov()[np.ix_(indices, indices)]
 
     def get_mean(self):
         """
-        Get the mean vector of the joint distribution (if Gaussian).
+        Get the mean vector of the joint distribution (if Gaussian), in the order of this factor's variables.
 
         :return: The mean parameter.
         :rtype: numpy.ndarray
         """
-        return self.joint_distribution.get_mean()
+        joint_distribution = self.joint_distribution
+        indices = [joint_distribution.var_names.index(var_name) for var_name in self.var_names]
+        return joint_distribution.get_mean()[indices]
 
     def _merge_dependent_factors(self):
         """
-- 
2.43.0


From 9fe685c9fc0846225380029cf46c2e757a453fa5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:28 +0000
Subject: [PATCH 66/70] fix: infinite distances were drawn below or at the
 finite ones in the plot of message convergence (or it raised)

---
 veroku/__pycache__/__init__.cpython-312.pyc   | Bin 186 -> 185 bytes
 veroku/__pycache__/_constants.cpython-312.pyc | Bin 233 -> 232 bytes
 .../__pycache__/cluster_graph.cpython-312.pyc | Bin 29401 -> 29817 bytes
 .../__pycache__/__init__.cpython-312.pyc      | Bin 134 -> 133 bytes
 .../__pycache__/_animation.cpython-312.pyc    | Bin 7458 -> 7457 bytes
 .../__pycache__/_cluster.cpython-312.pyc      | Bin 11622 -> 11621 bytes
 veroku/cluster_graph.py                       |   9 ++++-----
 .../__pycache__/__init__.cpython-312.pyc      | Bin 130 -> 129 bytes
 .../__pycache__/_factor.cpython-312.pyc       | Bin 9364 -> 9363 bytes
 .../_factor_template.cpython-312.pyc          | Bin 2825 -> 2824 bytes
 .../__pycache__/_factor_utils.cpython-312.pyc | Bin 20728 -> 20727 bytes
 .../__pycache__/categorical.cpython-312.pyc   | Bin 35624 -> 35623 bytes
 12 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/veroku/__pycache__/__init__.cpython-312.pyc b/veroku/__pycache__/__init__.cpython-312.pyc
index a4647d95f86ae604e8d6b4957266df0024b1e399..f6e0cbbc781df81ba7d07ef57a5e8f84b5a0cc60 100644
GIT binary patch
delta 29
jcmdnRxRa6lG%qg~0}vc?|2mO7olQc&D77GeVx=Phc=ZUs

delta 30
kcmdnVxQmhdG%qg~0}ur6_&<?5on2DDB)336ZDNHZ0D(UU`Tzg`

diff --git a/veroku/__pycache__/_constants.cpython-312.pyc b/veroku/__pycache__/_constants.cpython-312.pyc
index de7691c17c5511f79d05f76582981fc3c733fed9..ca3d69ca751936c04676ca73fc85e763e619b312 100644
GIT binary patch
delta 29
jcmaFK_=1u9G%qg~0}vc?|2mPomrY8)D77Ge;(RXvg+>W<

delta 30
kcmaFC_>z(PG%qg~0}ur6_&<@mmt9)FB)336ZQ?vH0FD+3uK)l5

diff --git a/veroku/__pycache__/cluster_graph.cpython-312.pyc b/veroku/__pycache__/cluster_graph.cpython-312.pyc
index 6873d6111036af15b6f8f86b58de9d4de638b22f..cb683db3c07fde56d411c68bb148c04052b82d46 100644
GIT binary patch
delta 1480
zcmZWo4NOy46u#%Zwmc}sB7&t93rIm?hWG=BKtTow;>dz%wg_V7J+MH3xUWn~AezNw
zCjM;M$z;jKVlv`1Kr;5+pE2`iF4O5Y5wm2SOE8<xXqFAOM3E)iy~P^LZgRhO-gnOV
zzLVU0f4l>;_rP@3WQrkdow)dK$Jn@Ot=^EjiYk7ewn^V>6eJNZn0GG;7<ma_{o)AB
zN17x43ki<mugS&Hx6(4NJMt&f3bYLCR?x3Ysd5_7nV+P+k#Z?nsL*NK^JS=%4F_0%
zB^j9)Aac~GG$PFZ3`qS_Ao)px^h*&JIl50zNH3@Y5ILrg;I)E%U`1DZ0;J-2e1a$j
zba=bbhG~VmxPIePx!8amrwUV(g;8Tf3P`{nG3dy^)f*F+KCS<ME-F@zm4#6g8rB!B
zazy&%xONEdSb5Q?c|<qQx5I#Gfp!)jEZ!u?w?kweu8(Ker<xWooCZr1Y;khJGnBcA
zQA?ho&N*zjC`Q6{Maht;)fbh+iq<EG5ccO&tY!PJEez@ikU`Q<nr(y(0LE>$H$p^B
zg~Q4Ha0~_k$l+x=5+q~dUN{ByIYLPA`a_aiZF76w0fqnP=7m63`SGNs(IobH99`0`
zc$Hp1b@r`CwZyS6x1`J0>grORxlc3MY%tZzs_&6U`^gP!)$#b#yFcw5?>wLWvG?88
z6V|F(RbuH^t(h<sl?lJGIJ|No6eTNduAZ(y`#dvM_9XbTj2>cC2xyK#i+B{><@PFj
zaco1Y*+P#phL&>}W`OqM0-fmEtzu(w4Sa}0#cTBR1D?21d=*CUy^^=H*c8XRZd$7@
zt2dLj9yCr_mJh2Zizl-SKU+SLU3w$C@_fRCr3$M{i;_;po)yj+J~vFPa9%IpF`3wO
zFy@wI#ABszW!Oo2EzHhHB(D?H#mwQN$x^dacQH%H@XHm;YHZpIP9wl+e7URx3bjjR
zegUpvenmZejRz{mpi*1&{7TVqg^zv{TdONlF0(Kc=W%;mRKLsH5}=Br(&u>odpuvg
z6SiyiO}hj*gZpcfz^x6|HURvB_cxbAx3;qGB@u$!f%?BiIHUy|UW?Y#_gO27O)l1<
zH2L8V{Gq7_=5R~%F2jAU`T##_J_*OQ9Xq#)FpcA`T=+?wa%~gf4i?BV+{Jg~?@GVo
zrSntrD8S(ihr1kp=kSO_96S4v<flHrLIXiM%{eQcP&Vl^^a(RH+Kdtsz>MGSS!!Uf
znb0}Bzej<8v=`kEAj8ZVPKOd@w;FJHTa}hJ>hrX`;%e>j^{A}6xpNgb@JQ!cFlrY%
z{lKme>lx%WUJm?qhb5>3>pUG`(?0Rs27#W!Az!LFY#A;ITg~A&zAVd1t`N^);YFt+
zpybbnOw9AYzR|`@QaLQ+VCS%%J2`k177%%q&cVVH{ISqr1RlQGz1kS=;&+7pj3wQh
zP1jf$(tCS6{vaJj>^^OMw*9eG;_=BnU5b-#Ko{L<tu{c+G~xKLA+`{5W(b3@-G3gz
Be|Z1^

delta 1146
zcmY+DZ)_8F7{~9qTf6I@TQ|nKu3gK<w74wL!m_Q^bsGY94nmkRFebE&-mP$>?e%x9
zx~9A{aW4p%JP~|jgcrson=i=E7bZq!XkrX%M$|Y98vlgo;tOD#@@Fx4znfEc$$j!X
z&pprg`}-x&-Tw`~y9v@&NwRasGyL8|^}r>m(^4G>6*5|Aj6P*~$-)20<K^08d|9B~
zbsvf_iGMUbA<VagY1I2HRCW0FbkSFR*PHldfo8g7aF?s6fyr^)DX}cd){@1DY`C>M
zfIU4&@J_g%SABT#$@)!>vTeMF<I0X{{+|J7!M_@DoEl&~E`H`;Ip7L@96sEPT@e?U
zk-cmwJ7rPkXKXkgiH6$NhGlyi%vY2hGtTL%)p{CEN&ho=gc;OHvXq9k1DF<{MVf2m
znzc)qrMnTo<XTs0jryh9b(Ou*W;~m9;v3NhsG~GG0AhO8_a6FsORh$8#z@J4feN41
z@U7l%{INF<Q}|eHhfo0-ld-FC4m<i@ubuOTzH)~r9rK>H3#n_Kc3kL-HqJY@OvSD_
zBXf_BED5~ZK51XJayBPM`d{1J%C$ZX_ZO{PcpUT%hQ$@h6AxEi304{W*cFI((Odlv
zfEipFP$5Fcc4|D#;<vl@!$%n0{SNG*U+?Y^YG&CHKWESk;Ba6gwhjh;myM)SlR1%1
z>e^^FSs;p{ldY`nQ#>}9fWvfl@F?%OWK>FZyG|DMf<oeCR6D*+Kc0J0rP00509?n@
z`v!o}FZMkrK#2wqEDLa&`VPKgt8Rz=?NDjJH&r*z9*M*IXiI4DE0z*PSi;+hqt>69
z*)Mn~IRzK#!{mqn3pkS61~=%-sSzH&$BH5w1N~!P#y()J|6QcOQg$-(1H(;*+YDA?
zO)H{Ca+*R46J&waHsDY?ZfUdBFAmXj=?V`b=G8{)1NLnR&!`IgMVHmzVY6rq6IQM?
z$S3r|Xf~xJ$4D-dd|@<I%oTN`8!{ndO}A${!AX^j2Hs{ibDl|M88$JP%6`0+Rl!f6
z&;10})uq8$-d}5eG}}zOB~<f4Pa9LQ8PM5Z)6zoROlO6|sr(jr6zB41cWz`Y4GeCE
zMutPI%g-WHV1=bkEcLL+)R<rq!#%t}wmZx*woBw2yg`PfPmHi)$rdx(1bG`f^>@AN
l=O2i@nVeiasq~Q@2!(_<ZUy@tj`8k6XAiV5at2JlzX1VfIoJRI

diff --git a/veroku/_cg_helpers/__pycache__/__init__.cpython-312.pyc b/veroku/_cg_helpers/__pycache__/__init__.cpython-312.pyc
index ca7236aecfac46788a3fea7a940cada576c60266..42fb12993f8639513d0aa0dcbd9424d29cabf99b 100644
GIT binary patch
delta 29
jcmZo;Y-Qv=&CAQh00f8JzfR;fW>e8GN-fBr=;{anYh4HX

delta 30
kcmZo=Y-8j;&CAQh00e<M{!ipKW>?iO$t}=No9N;Q0CN`zHUIzs

diff --git a/veroku/_cg_helpers/__pycache__/_animation.cpython-312.pyc b/veroku/_cg_helpers/__pycache__/_animation.cpython-312.pyc
index 158f9a1133a2fe6814cdaa4c1ad09a36c6139dfa..7aed63bcdccd2c942ae00f48e2dbcf76ab047272 100644
GIT binary patch
delta 31
lcmZ2vwa|*|G%qg~0}yQ3zmZFwiA_zvD77Gevjx*DDFBKE2?hWF

delta 32
mcmZ2zwaAL=G%qg~0}ur6*vO^M#ICMil3Spkw%MHNl@tJqq6pCd

diff --git a/veroku/_cg_helpers/__pycache__/_cluster.cpython-312.pyc b/veroku/_cg_helpers/__pycache__/_cluster.cpython-312.pyc
index f1e709598c930e0cbf25211628d753c5e8a9d225..72341e288ad741b292ae5189e9b28d4bde6c1c9b 100644
GIT binary patch
delta 31
lcmaDB^)!m>G%qg~0}#xM*vMth!lt5Mlv<F#*@Hz+69AaI2)Y0O

delta 32
mcmaDF^(>0(G%qg~0}ur6*vMth!mg@cl3Spkw%MIUP7?s4O9=h|

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index cf96463..7fab76c 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -292,12 +292,11 @@ class ClusterGraph:
 
         iterations = np.array(list(range(num_iterations))) / 2  # divide by 2 to correct for tile and flatten
         non_inf_max_distances = [d for d in mp_max_dists if d != np.inf]
-        max_non_inf = max(non_inf_max_distances)
-        new_inf_value = max_non_inf * 1.5
+        max_non_inf = max((d for d in mp_max_dists if np.isfinite(d)), default=0.0)
+        # this is above the largest finite value, whatever its sign
+        new_inf_value = max_non_inf + (abs(max_non_inf) * 0.5 or 1.0)
         max_distances_replaces_infs = np.array([v if v != np.inf else new_inf_value for v in mp_max_dists])
-        inf_values = np.ma.masked_where(
-            max_distances_replaces_infs != new_inf_value, max_distances_replaces_infs
-        )
+        inf_values = np.ma.masked_where(mp_max_dists != np.inf, max_distances_replaces_infs)
         plt.figure(figsize=figsize)
         plt.plot(iterations, max_distances_replaces_infs)
         plt.plot(iterations, inf_values, c="r", linewidth=2)
diff --git a/veroku/factors/__pycache__/__init__.cpython-312.pyc b/veroku/factors/__pycache__/__init__.cpython-312.pyc
index 7f58a5104fe1dacdeb4d189336194d3c18a4444a..f494044d1d8b4dddec0b6e69115b04d04e191ff6 100644
GIT binary patch
delta 29
jcmZo-Y-Hp<&CAQh00f8JzfR;fW>e5FN-fBr=xPf9YE=j8

delta 30
kcmZo<Y+~d-&CAQh00e<M{!ipKW>?fN$t}=No9JQ-0CEEeCIA2c

diff --git a/veroku/factors/__pycache__/_factor.cpython-312.pyc b/veroku/factors/__pycache__/_factor.cpython-312.pyc
index a655c35b12216cd8083a27c58246a9a217b22683..5bff13dfd0f59644c097dae0f2dc84fa7101ac43 100644
GIT binary patch
delta 31
lcmbQ@IoXrzG%qg~0}%LlY~-54!X~d@lv<F#c`3_#c>sdI2@U`N

delta 32
mcmbR2ImMIfG%qg~0}ur6*vK`7g<V0vB)336ZSxYA_woRewh6QV

diff --git a/veroku/factors/__pycache__/_factor_template.cpython-312.pyc b/veroku/factors/__pycache__/_factor_template.cpython-312.pyc
index 655b4af6944929d3bdd4e7dcb47420b2d19b648b..62b50fb46bb2195636730f1466b6d36ab0b78221 100644
GIT binary patch
delta 31
lcmeAa>k#8Q&CAQh00c|pH*)c@vT5iSr55CGmS=s%3IKCT2jTz#

delta 32
mcmeAW>lEWU&CAQh00e<MHgfT?vTN#><QC|sZI)ww#R>p=e+U==

diff --git a/veroku/factors/__pycache__/_factor_utils.cpython-312.pyc b/veroku/factors/__pycache__/_factor_utils.cpython-312.pyc
index b29a33cfac25e2f375b2176d2f9792ebf1fe912d..2ff2b11968bc221dada81543df26c69b4a8d33a1 100644
GIT binary patch
delta 33
ncmeydkn#IMMy}Jmyj%=G@H%NDmjg4Ks(w*wLH_1I=H<Qsx%Uc#

delta 34
ocmeyqknzVtMy}Jmyj%=G5V&I_mjg4qntn-cfqvTN0OsYs0KP8@Z~y=R

diff --git a/veroku/factors/__pycache__/categorical.cpython-312.pyc b/veroku/factors/__pycache__/categorical.cpython-312.pyc
index d252c2350afddf08a76c623cb0b042314c6c82c7..72b08be3909d225117d074d9dfb6e72592e3c3af 100644
GIT binary patch
delta 33
ncmZ26jcNHbCa%-Gyj%=GFlqHhE=6WGW&NVmg8a=!%-`App$-ZN

delta 34
ocmZ2JjcLU+Ca%-Gyj%=G5V&I_mm)K}ihfCMfqvR%L*{So0HxXr1poj5

-- 
2.43.0


From d7f5f05f95111c45b3454b56efbe22bd09f5d1b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:41 +0000
Subject: [PATCH 67/70] fix: remove the compiled files that were added by
 accident with f3387f6

---
 veroku/__pycache__/__init__.cpython-312.pyc     | Bin 185 -> 0 bytes
 veroku/__pycache__/_constants.cpython-312.pyc   | Bin 232 -> 0 bytes
 .../__pycache__/cluster_graph.cpython-312.pyc   | Bin 29817 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc        | Bin 133 -> 0 bytes
 .../__pycache__/_animation.cpython-312.pyc      | Bin 7457 -> 0 bytes
 .../__pycache__/_cluster.cpython-312.pyc        | Bin 11621 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc        | Bin 129 -> 0 bytes
 .../factors/__pycache__/_factor.cpython-312.pyc | Bin 9363 -> 0 bytes
 .../_factor_template.cpython-312.pyc            | Bin 2824 -> 0 bytes
 .../__pycache__/_factor_utils.cpython-312.pyc   | Bin 20727 -> 0 bytes
 .../__pycache__/categorical.cpython-312.pyc     | Bin 35623 -> 0 bytes
 11 files changed, 0 insertions(+), 0 deletions(-)
 delete mode 100644 veroku/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 veroku/__pycache__/_constants.cpython-312.pyc
 delete mode 100644 veroku/__pycache__/cluster_graph.cpython-312.pyc
 delete mode 100644 veroku/_cg_helpers/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 veroku/_cg_helpers/__pycache__/_animation.cpython-312.pyc
 delete mode 100644 veroku/_cg_helpers/__pycache__/_cluster.cpython-312.pyc
 delete mode 100644 veroku/factors/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 veroku/factors/__pycache__/_factor.cpython-312.pyc
 delete mode 100644 veroku/factors/__pycache__/_factor_template.cpython-312.pyc
 delete mode 100644 veroku/factors/__pycache__/_factor_utils.cpython-312.pyc
 delete mode 100644 veroku/factors/__pycache__/categorical.cpython-312.pyc

diff --git a/veroku/__pycache__/__init__.cpython-312.pyc b/veroku/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index f6e0cbbc781df81ba7d07ef57a5e8f84b5a0cc60..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 185
zcmX@j%ge<81c%(eX6XUx#~=<2FhUuhd4P=R3@Hpz3@MCJjFn89%vAzhWvNB^*`*2v
ziOJcC>8V^*tcH39dIo-)Ot;wM<5TjJ<Ku5}$HxOz6=&w>#mBE?_zW`cmxO*%YC*m}
zM7Mr?d}dx|NqoFsLFF$Fo80`A(wtPgB6grckmbdKK;i>4BO~KSCMHIf4;&2qVvXEI
HtUyr!(l#y*

diff --git a/veroku/__pycache__/_constants.cpython-312.pyc b/veroku/__pycache__/_constants.cpython-312.pyc
deleted file mode 100644
index ca3d69ca751936c04676ca73fc85e763e619b312..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 232
zcmX@j%ge<81c%(eW(5Q3#~=<2FhUuh1%Qm{3@Hpz3@MCJj6lp($)w3#CCufXnwMIX
zn4^%KpI2Oxm{(HFm9Fb7^ZJpQl)axO^DXxH_>}zQ`1o7GF0O8lp*|t;ZjR0&{z36U
zA^tuXf{sAJl?<Ojmj05`FG?-Q*Dp&g%Fiy<kB6JDS5Wzj!zMRBr8Fniu80Gu6y(Ta
j2_W%-nURt4BNG!N%LfhyahVGY!Z*aEFER)hu>mCke&Ri2

diff --git a/veroku/__pycache__/cluster_graph.cpython-312.pyc b/veroku/__pycache__/cluster_graph.cpython-312.pyc
deleted file mode 100644
index cb683db3c07fde56d411c68bb148c04052b82d46..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 29817
zcmchA32+?Qd0zKi7+?m#02tg?;~;?{E`s0*f*`pd!5i8ox$9l-QllYe2o5+n*fSsr
zXs}wllnQ9mCg_V?uT+bTR1vn8j-Xg6!H%j#D@j?dq>^b4xHD=&6*^X&Y*LA_;M(#k
zt~lTS`Wg(H+;y%lvZwp?>v#2g|NH*$|KG#E&d<-|aQx#R{@v*Be~IJ%oNlzkrd~XK
zh>Lq%kh{PI`Jg4jU*OrV<${I%S}$1HuWihJ!NF4;Yb0mPdBMr9Es@*{dF;9Cf*ZfK
zNd8#Cg#z}>9w{92T=1yzipGkEEj%|?a>2_&9FfwovI}Ln&Ivk4EEmdyxnJcjR0Q*I
zt_-?xuCj2)xS;#1TrmFwi&EMP)hw(4VTF2F&9uemnK_boSQwiKPDMh(<q1)^G!>2n
z!{Z}DU_2;HhD3yo(QSDAa!3q~4~K*s;n)>nI5HKDg+yUQ3`|~$=6yuj4EcE3aXLI6
z+HnL|w%E1c7=CjGl&H8Y841Pw(Wy&O{DiKDgOuDyg?RHLJ5IxDSt%(l2mh`3|MV|#
zy2n|#I3GtFR^sjh9w!`Xm?bmpD$)?^<J_nkM~SJN5lSg$9UrLoTB^L3t~E1VH7{Fc
z*wrfJWr=g=xEK|m9itBI%J_}tYS(epB4~f$_&_a(mgg)-srYgNr%?Pn0mr!sF(w3r
zVCdRZNQi{5hJ@IaKuoxC1>ZoJ7>`Wj9^Wf0Mq@%K5*iDQ$AoZHn4E~=DjbL)!qj*a
ziG+geLq@MmOhxcL#feLSOL%w*sRr;aePl{W3`JusV`1Vl3s7=Kl4>I1aTF#x92#eR
zV?qpu#LhhSM(<=m42%iG6Ol-0I2N85k9I0A2O?t=QG9P!3O@_$70x3w<uNjfhG#;;
zc)MCHqekN$-CC`pLI5=mhAxN4!?93gS}7!2NG(^ZNx^)qT1s0{qO7JFtrUnvCyb^*
z0u*U@LKIPcVKNdJ4z*(##DwusC>RxD6KE|x+u<vr;j5wGhMJ?f(WoKeYG_)iATET~
z%Twd5Iee7DR8$#VRBDW-PUU?u6q^#qm3OrIjD)X;s6_bMO0m%5tW{Y<jD=!8rTw%d
zV$+kM-p#GgG7xD*eMCdyqrb!P(f`Eh{QDN!iUP_xV(5BEjD~!6*%6qW#Fv$GCMPB%
zq02GZmGL!YJNsU;Ln)!pBA1waS+M}QL@7T(_(g4(7@C~uLh=(=r@B;8;b)?vb8=cP
zVSU2CAr-NlUZphN!s#vU;|k8{O1SFoUz1!7$(+Xb&Lw<(%P&d3gUKz29_1WLJF8R9
zM#<TjXxg1>>X(}OlTC+KoQHp$lSglflB+S9)AU|6(bm5#N^LJBTLvEG45SMi6VArf
zsx7IiHmR!Z!C<0i@J9oQ*DkKKe=%9*PuR-SuDXP+?kUQ!Q6A9<XY%OZ;^H1R!p&mj
zAK@-u<hWUDod4zCm@aW3sjQ>a5?RLsUX#3U;OVSw)^5m+xa|Y={h;OQ5y+Kdq(L$;
z>xkRpb}bd;YZ=vLixClTx{N#RYO|cX?YD7p3*?S9P>0M}kNE;*vv{54K_qlN0HLCZ
zX*M^60>f8?%Yot8MAqO}!lFt~R&S`=i=p6@He*n4Zq?HD=?Sa-n7Xl=G?E!)c|h=~
zQc0CD!7v7>Rw5-c?M`S7cZP&7w**>xyF0hH3oVygdUtegpY?4XX-c7jT5g#GNekOt
z0(AQ#jB|b3@>5x4mpYkU4~S7V*nAF=W&k-CA^!2eSSTu6BcXBGp=2t0=%H<RVshH&
zkaN_QlAT&D<U+M@e(jM%xsa{b#i;DK9*9hZqEX5MA`pjIMhR9J#ZunaUKh9G@lO1Y
zMsRwITk~?|m2Z6^U0k`&+3lTkj<l;J;i_M)>Uii(yz)lsmCMpAmshGrZk?JNm@iu`
zES~TAwVU@Fel?!1tbe!m?b?Ot;$X6}XWo%^mZzL`lC$pq^>@Gg_Ltw8eeCR5b0Nt!
zH|MTS*s8<|WH_vk3EWVj*$9fD_uu1;@e)&KLk_c`HVU-gBitQ+*b>HAyoeDv%g6Z<
z?zb$rb8HxYv$&oG#v0+xQkbFmwu}*`r;SnjfaBO0<Y(;|Q4Cdx{B3vKZZ_t$ku&Rf
zMrvqVmRioN6JtN;>K?Q=rDlug5MDsa#TgjDIm)ml9%LL^eKX=Yo)?dB4)W-aJ4W*}
zl2I??PA$DzN8F;+Z<KIW))CLq;sH%ssJwlM!LE3^x;+jFp|%fl`x+#RSt<@AmD~Ts
zmVt(h?};{VFmH1sw`Zho&q%!qsTXOLFl1&l=Oh=jYTxNsAb-!H$ME<+%irL9wm_vO
z-wt2GEOrU_U|JjM%2azL0H7g6F)&r61>}Q!22}|X1;!^JzeM#VfME!?=oF-3Kn>am
zhSbrkh$xa`l!h8ea*?43CQ{Wb)MuYh7-qtT)=bE!3J)I>oEceWinz_9jR`K1I_1oX
zqoOz=_5yy6>C#w5XJ`Oa8*_OOkTN(Wl1>027iP#utp(uaFvJr99AB<%7X#xXA+Z(-
z%ekTPsj-k4fXYx$_g1I?Vhvq6$EG5&@ML6Kk&RXeSzoRw&?7!9m#Yoq53mnMKuD3i
z)c}Nnh=M8n8p2Q`%caVNUoB54=pPG2ugXp}I4l<!5imi;WPVhCI2xrXl?hivz?P}`
zYs!n7k+=&{kK=#zDmvI(+$UbHYv*?dmUI5#bh7jChjlM37Tv$L(D?RLqV9!+ts3Wa
zV{^h*zvkfT>hBMHvuR=E8|_j}XTnywS}rV<C(C{7oZCLY-*V0Ib9>W;%?mFj3tQ5)
zTi(6+_QiMnb3?23t&8Q!`tEhkk-zJ%Yo4FqoA#F8FZ!*)#FpOW?&OvOtL0Vq_ok{l
zr0R}jdFOXamcE$Ubw=8CCfPldEFVhy_N07=B;TQj6-nR8`vvKWt|eZo*paH(CspiQ
zZdj@4OZV(dRCFu`q>Am@<)e!2Yx&4<&BJ-NC`IzLr93+%&yJ=3$DS9~Dyh()RB;sz
zY9*}peOYyAX-&8r78)dXbK2dKa(7DZ&c&OL-Fw$^5cd-&=Ppb;Yd^7C+>SNQVn4?}
z$vOMfP8YaEn1ge-By3whUGL%Q2lyz#v3q$(x^2U_&<_oCJ^d<z?r|XwDmh2$I8^bH
zp!KW#1zXSt1=$|7<Ln4JaLx&OgE@HO#IF;-xlEnTW9qbvsnc#!r7z?M^KmW+LWRCi
z7%aru6D$pS@J3OnI9T*mP7^;DN`hs<VuX94UYE;mRsB6iit^0qJnB@3p*{zq(f@sY
zTN%(p!_*AgK?B%||4*GbgO`B5?AM-=6zBZ<Yz&#p`L)I(dC&RjO?Hf676vd>kGS=%
zyqHV7)2cXYHNxUnO+Mp2n&a6K)8`3j-EJ+^_#M@yxDlqMuBC^$+49TVGE%a9uD2YR
z#Y>D-wX3*3O96M6>Y;qxqT}hD7%3s_FlNSCXN)FsB~+hRflG4l<PBR#2$=wbvH3rD
zHZNAK$IT1c;<@i|LHpOO(D>EXzH7N%0qo+MMO?HD$;PZB?lKTQ&*6^qXSQWsR&?BA
zZaoF8<Bnm5RSxqukGn@3wHU^)Rx(zD{MiEI%f_~7vEuph0xh2YbqbMQix$K9jTdS$
zc<%NY%-25c+2}Uy%J?18Q5ot<Se6|qf0uS`{A&G!hxUco1Tfjb?(}aoZDljRbvAD{
z7ju73;5+Erd73;Q06h^CA@YTQpbkuh!V)fv6JrR>nyl4nonBXU5LNVVQgw#)lu6NH
zx-Lso&$@S`ild}ss5lu}WT`otav)GRCcuCQc3})E`-Ul)DI0_>6deJq15pSn?*qCA
z3<RhiO(oMyMcJxV0?h%kFJv%)jDN`F`8oyR=*_?wID%e9)e?3nnpXF$o?xb`7M%<Y
zgN)L(lU`kU`@c{Zg}2f3rHTv(BEwUW05uY!A823Ez(^?C&iEh#Fnay9I(LGQBB&RM
zOx%DxR@6>3tvGQrJjN1=3LPra0~K_|Ac82r@rm({2>8x`C>#q+0r&*K+z?$PfU5%7
z0hI%;O(gOv6zu%mZFgy6B7z2r614IYi`pw3QSKNeL?J|9jexX^3YVaIDjydOqI5gG
zD^fc!8rQ&OdV8tgiRA^N=F&tIAN7~6gc!^P53DxV#8hk&R9GOWuuy>r5y7B@l}6TD
zSObLS`RjRR;6pu3>o1{8QzN~4D8r<KLoz@73%-e%V-4a_HwUgmliu`I$t6IQeytGx
zNzAFCpzO|UIypzJ9MM?FLT-#sj}L3_uvajQfDdm1S4Lw2Fw#-k#*}+ccJ~!YfXOzH
zXHnTcHICM0`ZYs=B8fSX=3}|iPy9CehF=U%;(8LdQ3bW;YEU)GXaWTRTW7+PvKKAv
z-;`l7B}$VSsB^*(8Rd>$iOOz2W9t<ZENlH;uT)@M?Zf`dU}#aVLZyYYRH8nQY>S2>
zml@m^Y5EXfpwj`$aU<P942PVri6TF{^$;PV3J*VV8X`$;v4c)cl!R0LYEd~yy^?FS
z51Cz8CCU2dJSOTxu6S02C{ZgkC^HX*9&!5p#2)+oGo=HHI6Fp-*{KCj;mzo8Fa*EW
z$Te@7v#mIVbWJP$R;J5q=4`j!>C!6v<UQH3lR~@FuIhxVX|=xTo$CpA&8pCx*s?1r
z?51b6t2Oltwv@0-5_YA8UP<Up3Vq3%0|}(1uq}A*{8s*Z`QIo^)@+|UlNP#D!X8Q3
zvz(t41{3bu)#{$5W6Q55s|OR#iq)-si34YnTZa<PCcxynmPE@7$=ZRR+pXTbKl4;V
z1K9nEmCN_e4=yz<9bW2L3M@H4bnjcU;`yBOV-7!Sd0cLO%DGi?Ze6&U=zd|vIgqYw
zKy?ZLt1D{my?OV|buK4&fS)_Idge=Mk2mGnA_3^%NVV*hTJ}D*T88)n$$c{6_9fa*
ze&XO-+gCj$32%3z=WNn*4$oT)67FUsmhVluTP1gE!gu(w`-QbaO7xRruDL7Kv{P!@
zxpX$!v{z|er#t1Wl$@0-&T72Z-9w=r>3Wpvv9spWr(GyEqq%;#v-)ViV;FO|e(0tl
zqLA)!VFCmCLxT!3$eNf=q{jIV@D3f?FQA4~3CTPgR4u^OKLEG_#T#b^Av02D1I=U&
zT4s=xX`U(wM4GQ5O*_)G6K*k0(-G5&9Rs?W(JvYCbP`#won;1U!E8=E2ldRXpn4s*
z#_g9aMD;u~hCOaoV%&b+#@+shHg4JqLInoR3{a&`yF{IYFf)ZBVVDdFrl`V?&Gs6+
zpg3nwyht+`%!{#UvRj2{P8r4=shE^#2&?mgI^0!iS-WGJ(~T=(5HOUSmW_dSG$cSt
zY63w`aRZA>a!i488keDHWqR7cLnz;bLW>7={9>f~J}jK-gu^(LA)izBWJ`aM6e_Wm
zP6YXxfMvp8nNr-~lgJdK*o&Ov8H)1~ordT{0+qO5G3pPCJ;u!_Y%<F1LS0y^CX;#M
zQH0EF-6-y!H7$J`aif2L6A0o0uAxbhVnwCD9s1h9g7cj-$+B%rM^ZbFN;{9P6b*uU
z$lWt{I9*zMKXCW;ROvRUblcqEYH8K|?)%r?-UU+Q$~QWarQ6pzTmGJT9+GCE;qB^F
zWv5ixIqz7lthxWnJGkwZD!aeiv~>9o+LD$1iNj~5%Cn%Ax9^^}snX}#V#C5^$<whZ
z?2)JA<6NZuu^k23%rjG4khpky9>e|~go9bfS9oQny}@uryt0|a2HKiOVVX^aiA5V`
z+OH7{TBRyzhz%AC3|<#{x#b=1>-uxBm7JNqCaA~YIb(>Al9?^*2wETL10SML7iUP9
zphMQ7X;IMObuHM?doyZa+HP8{v|r?*>tRMl4|E$9L>>6PS+EagUm?!y>7%;NY^0!-
z5;|l9IB4@0+Q7$~rLUDTv%S%p|6l4oZ@CD$`WZDR1~luyw7`uLmdQFsi8swU;`X?m
zyg-7v5Ar@B?1=;QGgu5;(8VSr^%+@Mp4U#Aj(>!k=P$}Ay#u_F<FX}gy-wB!7p4n#
zPm|VcPDWqR?Fd0PSuYtMpRavG*27uZHlEb4->@;1?#xRWcTm3ZoCi7=0e-}^K1$5d
z&z~~uhZ|Fl5rSpMGxAX0c~1UXYl1=gthAJxnWv@roT$)YHW#I7)=FmlnldpuTgBSx
z^S+g<jhbh+t}<$MUdJefVRw4wyR4?8X77G>zRJ61V<s<HIND~EL%Ygg@mw*QMcFah
zsa+Yr7)g2h_j03+Kko>1$6Z0sgCfnNht=Ec-EJc<?FxCigSo-t2PGfal(4_o+wOQ?
z_S^IP?VsAXdCTpC&y<<oj8SXaleDkDQD#n;X4uopX2d)VZ5$3N4n!(4)1X+pLPcB;
z&#0UP(Ga>ms)n@!^kplp!u4=;DgYLa5ez;9XU$X$fo*}-O&(ENZs8!%+f3;Rz{g(U
z1<iAfsmh(Qb#i<J)PX~xE5ujP#xvDN7|$SpH@F0I9!Me$QuYdn8HNv2P__g8#X_?E
z5?q0<!ac@Dq=RgSlTRoj+oQ4RNJ!45xbTvh5M?|2Vc?I^7BeNP6)iM233#hOG#@X1
z5e4`K-!A8ppAk%Bk&w?Sh7c%T#t8{u2~37&tnga!S;Q~}IpLLaBOHufnW;p9)mBsK
z4q-9?3ZPdQ@>Pn16gf|=i9Z}vK;||U`U<%WumZ`&P|{UzB9L;EFyX~yCu=NxC)v)F
zV%edx2@QU7))S}3$B7@w1gILNkpXHMVNfcD#wM<Z;MWuJkB7n|S1wIVfi!SwoCgYq
zrkn_d<a{DK^eA$XpJjbUq3d2my~GnJyJ8TmptxY6ZUjV_@sucFIAT|1+vr4iTy_tS
z`1Ot@myQLlhSUNAga<>+2}8Dpf+Hbcz5=YzQoFc}){4rWY@$Yi+%A?tm?gn*H~WOL
zV`Oa79|riQ-_fwFL>pCdDpEeTlDE=hJefg^rX|fz8$j$=!R#jyJX1NafuhJDcz%G#
z(Jnw+!1O$>xBmxqe^~cn+404Z`5UQnA8dz-vg30uoK{^0x1;m>lZEw3m+;MjMOU(U
z=Ofq7)#92&{hnpl(rlvkXtEeg!{8HA!|NqyeL~o?;@rDhR(Egw?)c)-m9ib62VCju
z`c(B{srqoTdH_@eH2>l<rWDw|Rq$RxvZgCpwtcxd)q6_nJ+)GFdY$8QcSAF9d+rR~
z8oJ*txocDI9?9MF*u87bif7RDiHKksHXiu?@WbXm>HOo)WdBQv17{P$xfSR6RaNUS
z&)_Lnojc6W9ez?(_ipFgor^{A;YwBQk*fC0ouXV%-8z+W*GTS~bg8iDTHgDk8;LK5
z*1(R`e!^Mu3sC;DYF$eSerx=_@nqw!Wa;jwTxtF=KhHn$md;<B-<_!KcvRAnuI*U7
zw$!kAS*qPNKe$>ASC@D8FBbjY!G!m4qWy5vd-(prw725k(A}YhZpphP<?WHYJxfQv
zH}svMhuzSXesnqE?OE}@{JA3ithRG8_U$*{e{(q?bsbU~Ch^i)>4kI2+VjZ%`HzuB
z%G)k^+tor0u6Xx9BP^r5{gStT`TB}?aAOJeV0^BomTz^w*SS<AHTI+$4@!*(=TD_u
z+rI65-?>zlY~7piZdq;VNwu7iT2B0^E%8g2k}bmtZ!@KL>h7tOw^{NwC${w_UO1O{
z9j(#4;vL!WY~l69ju(E^l6WJ)9$wn;5R}@|m$io<dM~ZF(N|i_r#`T@H=`%*|Ng*3
zTk6oO(xF$AeXk|<Uq}eAKX$(H>H0aID?gzai|>>SZLw|eFeV+5{y!!EsAuVkqT3*p
z4DyKQruk{!XPLRA&x0?LG}R_EA$(a-X=h>&&Wlr_&CG@>%M|uO6Y8)YFu82ZdqbEE
z`cXpJ&K}^7*a105eM5D*R0PN*p3Ky56d;>K{$C<elvD(W5jbmk?)3d?->SQ4zU9}4
zFjU+XibhQ>qaC{EmK!J(EoFJj5!0T*56ftwQ5DDN4{;H<Jjl>wfvj{Ju@MW}IIMQM
zHg1I{kgmlVu~co`1~SeDy%JS`C08$}8Hol<s;Y%UkF10((ui$hlZFS89y=qZnZ~W_
z+t9X*G)-_{Frx%<UVP&->kpiW`dLSb`Oi8=y;%Xcg?-t9*t+G^h+!W4>sGX44>%16
z^nat|COW)9Ix4+g#edctnr9WRU|qe4CNl;>glude<T7nUBLT90374jY08C-Sq40IG
zTaJfrXrl%68U_n+5=b_HJMv^#tY@&OGNKQFLW`@Q9;8p%==stds(`*t{2{Y%MM5KR
zZ}v~X)q1mq3#8!<R%mSuGGHaNG6Tisuu^o4qH&-$+^Dz#1%dOu&#WYq)Cx+L#xPdN
zM`m8W93COhcXi|kV)Q~Jd<pLSBU9iT>6!835D|>(8#B8J>1xKeV`x}HuxC^=C#;wg
zXjz7(v_OH-R8-E@TXd%6i2u~-R*<yU{bSLQcpN9+jHRRBmoIyc934FT^6B&b!4t>)
z=T2NW3J4vE5iF*1F-#`cWPDmbecGs>)`R#d0~pSzDzZHmjsYS&ZYuc4F|GU-MDY<q
zq6P=WadcKdFV-cDVA-KGoi9fbbh-M+6K~TCR-i6<D`8Cboq$aB7TH{$#?Ou;-bboY
zvJfyNrn%JCP)&eQZ^ksx3Gx+Lu{>sc8)WSBqW%q~{xMFFw#A&gWbWW<*;d$DoUS{0
zxAN}qdF*U@vbQg__eE*%i+^pk?8r-Z@0=S*x!aTO_BFasI6L71wIdIcanEZ!L9BfV
zcjv0R@XqmD#}lP{$b|~nYTwV0V(zWnMDfWL=P5P$`TZ--di6R{(z@dG{n+J2LN!9F
zx<{(+`D?qitl){a9CF`Vo+{ZQm263sY?n&5CyKk5ikAjbJC92{kEeE?lXjj<^qha>
zc^PJ<vVyt6H4Z<pM&*0%oV;~%{`zBg-I|MYmwvilgra`BUW~_47i#_cB?Eo7A9n0M
z!rRPkI4@wz*gT~`Osa$j($EjG!ic4Y0&6yv816_Aa60W}Hl4&_sR>#~boU=q64nMP
zQ=Jr$9^rO&WaN_JVr)jv8t$qwos2acSGBaYU)YY&YM=nEm=Yc8lnCJrBF+)hCs#Ak
zt~wo;#~l#xRS@twa97reK=O2>G&M>tnDfA?(;d#Zsf$xEmt3fC@=-X_2J?tUoXyQ>
zQIlzrl{!x?HMlysIOTnIsj-AAZ=8?kqTJOsa@oz(T4UCg@phHk^cg><?o-x`cT6Ts
zYNxnMue&>@)2gFFM$+mfz>7;O4W@b{Zlg(DyOHkahzqa6pyffnLH%U(E}c%z2-Cp{
zGbs2B=d57C2+#hzgM|+~T6!b=Y<@<0x0;kUKUg%PFG<-@;?~WvgT<!pKpaEX5iBu{
z*`5^*w?VIIOcQ!e>$e0&R3PHefk+;JNNJ$i6o?QQId!@t2u~al7+@IQO`+J05L;mt
z(m)0Lf0Si#VUett*TWN2QB3TrHwbz3gh87O!+ALiCoos%Jayi{8mw_Gm(6Hj!66eP
zy~2shOd)8;N;4HLMJ7gQ9^X_}0|a~?^zb@kirR%MM7_i=YAGs{w~^G)M<iJpTP5>@
z;K%H2G2e!z8YF4R&iM2+PN!f}Aob`Xh}T)(Shis%p$!!Y=7P#N|GWG>9?-iER%7n>
ztvC4hd8jk8WqeY0hNH@oKDzJRF7v@mP39N5efV0To0DSy%-+p&t%}r$&eB`FFERn6
zZ?wNtf3pQWB1&T8KXZTc7Wb&?=t9wVFMaRocdkBc_-Er^>z1mHei|h;<5#Mh`LE|R
z^ZyCg>_DUBV8vkoj_D&x$diNW#o9sf*AOK0A{4QGbd^gEV65pG`S%gEoyOl;A~#Uc
zaaPgknQ9fN0h6(gBMcbD7k?eE%~VrQfGd(<g3){x;%^|1c!*Bl#0d+FCPuKzHVmkh
za~WQ5So*0r+uH-87?_rA1U8w`S+=4OvK1-IRyfkjma%~BCYN}4#<OLT;vGtLo=(3>
zC(;ZUFcN=@u6~<Nzk?Ipg@BfQ1qzY2M8OP{xxs{KE>uyufV{GF#2J<IjBD{*lu9W%
zN1;giJBr(ti;_?u$@yqi7KiyW%KUY?TFZgO_G5`5E!AYOjPgKoit8gNL99)l81vJY
ziAHIn(uSz=t9S)fFxY0&m1eelt{zuH-HQYmke$ascIoo!RC&Kt-aqI5v8!OUy7t}O
zZ|`1cPgZx$ody9_QFZUe-5dAgi-D!0#aEK$J5%L-QhDFQo<w<Hvi#Vbn+)V{BrCVg
z75uEU{NAf~U;SF}o4Xe4;5d`4+m|fu#Tv-c{<*w#``!<Q;|tf85C6;JKPmg;vVVT+
z9~C8p;|XUi&Z}jW=-msEm8zpZimsHMn{z#>X!>S!aeuO9&vKL0a^O+Rk%uKx#nHL^
z)vc}Hy7JzY#KrK3U89LtUt4<V`;9-?`iEQp>FeL&AC5`e&pqlIO>Vsk=c82==jFRE
zr%GF-(w0T{_boqg{Gmf??N1zfJz4t3TwW%mrEBLc=X_P7cJGRFpMHD)!eY;I!((S3
zD9S`(bJDftLCNA9Nnh_HSMO>~<HF&Ep2ea?>r&5h_X<3ws{7|o6VfG&8DAJ(cw@!A
zgVJI+w`;|@UCnbN&fUJ^>{fI9bzsqYuHgj#>AI8KewB}sTK&WPisR+BA8xhb{4ZMT
zj@LLh2tNXi)c>D~II)$UWTD4(_5lu}2qF>dtFR8!1g_2iF3$3|OTatmK-APN2z`hS
z()+O*lb;#Wr<7wMMW2S}2FY{7M@3P9H!HoFOM~>-dUCyRx1rU-BpCESpG_qDf#Qzx
zUAm%49ifb8a+0P+t|#JIgvu_(0K-C}B<g5HDdWk*3<ep`XKFW$qwL3fX#5;P5*R-P
zoVRSwiJ_zTqVc)g=8mP^-upSJ3ZI03Zr`orq~&b;Sy|QBdhXwR=RmT|H|I(hRwbM!
zOASe?vro8yJQ%g7HZj8WL&Fs0`~kFWQI{DKtz?OR2C1dJi=~L5m1eCV!E&^O(OFE$
zD-slRz*o$rTmgsbG!nYfQ9QF}JhKOR!rX|Xb}hsqa>#-7-C7F9FN}#W)GLPhcn;zc
z{)XW`&ce+6#^{Y84|0xL3J2zC;BO*_ZXZLJMb}mit**4V5$OU08|gwLP~V0Z8;z~3
zBd!~D<IcFH4^Npphf`mkX90Gz&YaUbqt@Z!KNcQ?$tyY;U<N25CWb;Fim(z7WDp@G
zy?3h=j5Zb&5syxphup~gcZ1;}U!M4<2mtoDDbm1JOk}L%6WSFo&_gHLn#fcn9;Vw;
zwG{BnRZ8KfQXnN78RDN%6f24$=i#JS&ES$tbKkIH!ig%bu!N)(%TX~!+>jWk8RKOt
zu~vL-RMoIygE&z?N|W_+77y{fs7KKMqW>KkV6-_om<vi;rIOZU$u<nT?tLGY_AWNf
z4}WdPyL;c>`%drOi9~7dTpmuenr!F0{crat%eP@}Dk__gCyScl+Le1??y&Cjh3T!d
zYn`*^A0U6PTE*9EiC^koye?JlhFe#41Bi>F1M>rEZ{7Xq-7hG{ip7_f_~nL#xBaoV
z?_(>Te{4q*YgQ!wNgh|%_|7XB-RY9*b<UD|lAjw$S2Qm4yj?hV0+Uv1YrnL$e|b8&
z^+dvrG#|N}*6b7w^o9qE{2M-9FXzhkvxQ>6Q#0VQZIJOaSebyJW+4|+2m#YQL-fv%
zHB!&pJp{6w8`Y&eQdf_l?r;hPOBWG_H(17i*I9B+RG1HR3|K=T9Kv9<VTCXA$ROH4
zaVRCaz--8CwZSlMz?<Y2%3tTiQd+f4qQh)`)dmi|CT<^rxQw%P!nd&+_cr*OI8S>B
z%>3qtK^y>|%jPWALy-}=G;SGB+pa9B(092|1KG|ph=k2DwAaWF0Ga~EKE14(qcP+S
ze@Q)C&7suLb!IwFFwX!;720(}P`w8*n$%^h8>CAoa}mJeQxX*73Y{kDMAKZB@1|@g
zDG_BBYM<h-DSIeLGd<G+0`W(9Q7+JiEfXH9Ncea3B!9yb@lAv=eMA!hicKem;F-?N
zGwJgz^RLig{~lh%V9(=f>R`J~msO?8+N83!WLXC$P8y`WQe|(lvTv>+ZCHW7u;P4C
zv%$KOHSLJK6ie+nF6}wKQgnj6#Cu@iEhg8`P7KJJZHqlpO&5IFE4HL6+N6rMWJL!#
ze)i1U(k11I>NcsQE$wYyI4^m(rMxhcb}uzO_U?Yt*}eEOOnwXJA9=TtGiT3Q4w9zz
zr9#44zuBpiz5yGs{{a_lM#pdVVKzW%i=_uvZOC8{QcCPFV-L+{ZgXBx8>G;P|NbfF
zYGp8f4b2%Ghu!CxQ8uoizHm-6P^i;N_Dnb9?uv~~cEzxTPv^*WQt55i!=W29p3LA*
zIKvEKcZw*oq}?cpiI;Ouyf_`ZGBHj&Qi#wZ;l~V}YFf6R7{j_L&D3beDiU;dk~-?F
zB>oYuXNop-N>U8N)bEDyj7>7R`FC8mTq$Rj<gB{izhs9nUvchU^_1Up-*u-v&61}%
z<=G~Awk6sQBt89e_El%$9rrDGB-BXGnv}CyayBo#{Mgy1bO%-HA$5+^G5T@bWbP$l
zhQlF8^-sj!W+&{#v;q8(Tl>rxbzyQYfL%~n#Wf=383rc!0foq^LtPN4-f1t<Q$rq!
zUqaR(Je=A~VgLa{a09xAU)gaE4l~2Bqu}O!#m+1KIj%FCUiL&$GIiZMD_<7O&VGE2
zz6mH~e3MVyTyD{w!dr#+ZST6?b}e36p8C*v^f|3Ngm<4c*f59OA}DA8K%)z1gjvkm
zUK>2LgBFOQEzqA#timAN^?`zKNa!f*faTNV%W8w2t!SlPcA$qThXJ^QJo%}zU3Ln!
zr^YY5Ty+m-W{uUsa7LUBf`w*WA|}sqfX*daEUW<LGyUj(h4<NKerohFEF4r<FtE<0
z7(0P^v1;;icvy$HjGlxy7N$Tf>C|SgD3~H~gmys?un7ch#ug@bIxP$?2<mb>rL*X{
z(pDFjhyle6qSKv`X}H?yQF=4gNG-*Tr-~LisH~P8zJd+o^oNWDJ5Ms`YA7^0vt<aI
zU8qY)+3aqV9^_pN_CuPN0jU`hC&g3IL!0P|`h>C|jV+p>rOz@rBBjzWl8O@uQSF3c
zGessHRatuGHkPWvE?H>Yu^n`<>x7!jX3L)&Ee&Ey$tBAjEA!Db4XpQ&A%vYLV;PkI
z>z=Z44m8ypsrv0w{q|&ace1cMT`9a<_jVl?L2Ms*cqDb?HR;G}iPr<E*RM*iUrlb0
zV6nrz`~Jjg38Czg=7npIN?OykO|<vJV&8Iovi8LMAfU9exx?b{vMqr<9;y$_LvgPE
z%|cpjC4A!H3M&)UhaQ$Zv?nSDlLf~T&STG+PTzda2v>I7Gn1%hqmChHv_|$pMz$&r
z(xQbaj=b3pJLdd}SuP)-ymWw9@i8A)6IB~>!%(qxvk68#6g^;FQ}tPS8nv9{;H}OB
zQ`^qLV5YPH;cC4W7~2@@ruzgL9uu?n+ogny%`muur<GhV>wHZgJpif<=NjXgd>mu6
z7&s<|u_qnYoT^Kfwe98D@+8_2kT5Z3b+*VGE0EcGZ?>xqmI*6@rVBgAVF@f`#t4iW
z6A?XI^23dek!C#(>&S$7HJUMJ(Y&jzY+}Py&QTYA%Ehd7Y~id{I<XDW<r+WjxyKfw
z(&j6w*QUBuR8hT&43Hhe#N|dbTYsS{Drn;t+LuM)oT{IbmTYH5kPEdu)HeaUH)cw@
z7lA1p3SGtaqSV{j&ytzZ_5?V_)`!w)&x-MDH0V=E3xmFZtFF&*L+p{NdQw$`Qq|yG
zp~_?}1QsqOXipbD_jMkOR$WJ`Znspod+EmazVe-~r1rcf?RhO(cj49-h}(Ldf3kI3
zYU?p+E5>XSBS^O;U2Tik9=WyyOQ%W*OXCjKdH422$@a9jY3?XIxICqE?zLR5zIVAn
zs_UEkLb~z5a$xyVqVX{D%|FG@7o;1zQ;oe+WAAc*vhn2ILga?<C*G!%cN=i|;=!bM
z|J>1Zp?A)$hzc7js2w!G81hadl;}|N)t2TUOB=50;G0G)lZjr8Y?$axVwk5MRJbh@
zV2}*~p8LKDn`Sz20SXLF;&~|=+n`L_g7&YHz{rG2ri%--mSWqM<romc%+_z%^-&6s
z_Mwbl@Oq91IU290rJT7m%-GT-W5W{N>Woxj>&re2j{&wkXc&UfX`a9OU1+|}I!1-8
z0Nk=AEhe>4Q)%4%hG{Caol5iOxZ)v%Z`~Yjx&+0vHPvzuHpx0hJF)_B`+*vywfeJ`
zbf~FzJv#+@^CmyKeRB*j!+^BI7Gn#P|JVKHx!-xm<`T|g+nUkM!JKKUXLwj(yBl8F
zRu@{ZEpClku%u;AY?qeQ=x*)G_(e{8jXUiMp}pF*@f**L=RL^%K$UMimbu-&4BNEL
zmlvQNkn)rXLJ(e5_B|G8uZSz+#5g$ws1pht{}k)(6gJw8WE%a2R))W^aR`WO!{oUE
zSSx$w#wH@F^Pfs{BLMq_kb43%Vd`YrsneMHH50dC6($D-ZB`ZHam?C=o0_`u3){O^
zuMgEr*_cG6Jv;#t*xDPK@zrX<l~LXP1*TJFYnki{x2h4y3`^A`<e?^)u}(*IRnQ`7
zPL4{e7|U*q_90a{D=UIH@XiQizoeB_QG|dUQ05JFRQ9)^f@%2++l&o{$LRslh(<At
zjNv9JwC=c>^_<asnwMub@uF6hxpuI1C;B=R|48_<nXl<E+6!JJD7YR~V+xFtDBVj{
z-e~tdK)xYt>}>3gLZ6fETSHASjGbq|mtq4OP2nSaM;<L#;0S`I9h<;Pd}v$IDXd4L
zEnx`mMWEoQWUS);qBIRQR-r9`;FLKrhE1gvIJu#THE78;p;lD75UuoQ@UgXj*LF?c
z^C``h2_<Q!W(p#xC6d+R7MzAQF!O}(Nq>F{YT%jN!#Pg;1|CDpEM;9EwtvklmicGm
z0e>?}Nhx6O7tX#&VC+&b&_C0@fwbD7A$J-sBx>wGBD6>F;4SX{OR3tOQti&SI0li<
zi$p3Ygt1MwGxZ&gvdT6q%7UPPvLHygxx{XKb>bm<jj6MPboBzA2=FLs?_bgt&6~;s
zD6*)r?O#MMU6I&Qh-g}GCH^j*#_4pAP6z39nocyC!Vr}q6qHRDi)eUk@M#qZg^T}#
zPH}pvfec`3Ph{xbSX!m-A;ZWi@f0Ha+=_+R3gJciv?3Jb;>{yL{4bQjf29nZ*gVHi
zstd)txgjfT?!x<Jte?ts5~ej{CD|^*6j({Gn|^%u!DxhNhl2O>H+<`vs%Q6u1^Vg*
zP<w#!tGJ$Bv>ieh@c3Np&YQR1OuFh88Xmcto)ng(3Y#AlHba@mvXzwACwYB~JHOrk
zem{VCTVJYeP-+{*-YDJ0s$LJvR7dx>hu$Ar?v~mQq}q>4?MGAXr=|AO>5Aq>Kb&wo
z&hSq;OGoj%?Ows%0&IQlX;|_2@Lqn&#}3ZB3%0u2Ef1`VM^f!ar1m4p)}vDGQP8SC
zYwA=sSXp%!&+k+;g{6vzJ6GJtQGn(=w&e=kb!qihqNX!h*0t<S?K>&$JGoMH>M2)|
zTMSZPXif=xC1LM!ktFO-2`44tWJ-8h5?;oRH0j2zss_<5H6BPc4oQtesm9l&#@7<=
z`gCE*ota;qVf)4?q;8w!Y10b%@Fl7JSgQTJ)P6qI{+iVOTC)B170(-3u9b2(V>if!
zmn7N`a-Zbhx8mNf1V3^&FY++@KXx~-w(L-Lp;`5m&Bs#ZT~c}1(yI?+E1uJA-<i21
zE7*C)&G|Y~t%s!6Ll29j)`3*(Yf>wUwuL1}E6`HzUdi2?*nfV-{c^gnb#dTPVb_m6
zWq)4Su<EHvdHN+!e;SL*+TLzsYu*k?)rYVxPg>~td9J;v_~RBd(Q{aox6rkp&6Cm&
z#%yg1MBcM@n)u~1^BpM6I1o6>Ze@<Lu)Aff%H=cIYnnb)Z98jz!QTjAyJTrrbGA3W
zJ{g<M#k%wdO?`sKaJl9q8JUK;Yg~7bXT+PvTmK$nX7bkJ#|X%_S3gIw{|OC3l8#K#
zuBcJI{9oH`p1dcXl5}Bls&JcBxGhn*d(93v^pv}Wb)(LtyK~)&NNX@r!}*89CG%6c
z<J-S+`IoNOMv%#~KAuW}k^Y-?VAD)S?FPy4oAr!tgV6k{us8?XGw{%yRGpUDc5;pF
zh)G19!HU&v0F(g_Xd)+0UkC`tP7G>a(|`|vb<D`XAc6vnVzi~5&JW$dLS^MoMi8^3
ze@*bi1cf$BYn@;gZh$@_D=xC2C2S0eu$MN7Qj{Gwq#%n84@@ke&Sa7mzzg<@mC`Vj
z(3Mu1EF%ddFE?Z9?2@ghu);i@56`1NV9RvN<w<5U!4hKjCky<FZAx}Bvj=jQo!Fb0
ztsRH|<HW=ykOoawa9l(iivJOpnY~hOWcAOS@c^DOCOzP|nXU~}#b>|p7u0o+At%;#
zX~AoU<fILCo!e8+U6ONGx~OFS_<Zl&SJEXFkUFWVgHqMOhx|iJqG}*rTA41bNEa2a
z<#V~a{|W}zJSKR2)}f(6pJfonqLIIS|KmqzF1>j0BhtKJ@0(FKhtoSnCyMPWm9g&`
zHM8F@=lT80pLoHw+wZ@I753_r9KSy}G3@t?uOKb9Ymj)7t|sa9bvpekI{hh~m`R-M
z(aioQ{smqAH#+?doeEHGtXNlfbz<XPtU}oP3Sv^M*?TA^od~x?$8h>8_p!xdcRqFR
zwKuNE_yYT$b)nOKkzfB3pJT6nT3l(bf4aNTUb23iciF4gt2~I-Tx1v4w>s?Y>mG-F
zkYD$B?8o`_<`R49({20g#cS7j&Qb8O#c9ubYQ@zWU47y$uq#c;@*hUl`hili<0%+o
z$bt>~23xSxuMK+#)2_iboE^mIT*#SrfV7-O^qFBcqz)Tq8(MQDv<Aa~Eevie%d&vf
zNts}}L_mSY>Vhq0uc?480~EbRmD36lyJ77NNhA9I^bsp9+%YotKZ7$!=0?BtjK&i?
z%q5j6A#b|=#>_hYf!cP+hm5l9U|SEX5|2|DL*4ZSWiT<OX{-tP_hVV@pXpMHCNkQ)
z54(tx!Dq8%QO73aR3>axw9aAG@Wjk!>`%z3ZY1#RXMctTe=mpFb=CKtzMH{&tID00
zzPfbLSf}<GS)e%2OMM7#CJetb=#D@21i+ptSrl9kgQAMg@1kMlnyJYk)JJpJi`n@M
zA{nVhsgGcOQ3f6j@0qGi8!hO2ApR|~ie5w{Cba512r^cuh3#xFuyjis{WhnuaIB^a
z4j-wSKB=Z}`F!fYS?R#p)PalAfs4tSFH)q+^cEleHm2J<>DR}+OMH^kr(5#XE`!XJ
zj?6mqFL3j$Y4|Mx-A3=m>^*ie^SIKw5;`QM%Z~AF&*=KPeOZeMhfC9(GP=2*Dq@mC
zn{}A}JqA<STT4^z^ahhLuwg&F4CPj!1((Vk&t`S#;$U;a_&YwBe!&yy+!P}@p#Nzy
z#pu>U5L?vUMCw~|skY}Sv^zM=Uk?mVfm&h;p`3p;0?Up@K8e%=6@Mq5b+ioiTHJ!P
zW;!=_uIKev7rtk77>T08Ik5~q<!X^!EeTgw8c^QXEBSg;z859mi%H+vxg(F=Ti1%Y
zZJjCKQOS2S<vS<&&Lz&jnmQkn&WDn|%cKQt)jL|sxgB%uk~h_TO6orK*m-(0bf=F<
z|DQg<=~>;*%%2D!-G*1P4l}EU_IVlPH|b~@9aWc{NS%0vtV4^bc9afXI-Vt(2HW#0
z>yk(tHviyE($E4ag(+a10j*_Yoq&Bkz$B6$vWHe(WHJXE&{7%Wg($-fab{XKe|qzn
zHT2PsAS3qCX&Gv#RNa}X-Y-?}Up|uRdr9hhDb@Fe)b~cR`XYI))wHK-x}}=#WDVOP
zv{L`Z&le`WsO$gvSJl2C<M7SCx<0EJA58mJ5I_1GY(C8V#zZM)9i|p1QvtJ~R9UIe
zt(ip#=67&OtS9QuDaNZ>nc)HM1siUGGv{8tkG%+Wk%9iq?xi9Zrf6)OHpTam?hqV0
zXkw#3XG9DBLmJVebU4=am=I#jlP+20GSiKIqGB6$-6EVad!uMYz)aKTuD6NhYNlRC
z?v<?95g@OXoV6+}52iW~N}UH+oQE*WDO5wM<p9>mBwG$Dlin7#5pbj4^)`x^73b+E
zWSu2<>Qu==spKG;dwp<@bQh-FTP63_$L>~mH|P486vFnPVhvTNmQM6{x5RonG5Ae#
zRH-c0O>CeOxo#;_IH64jIe(7uC|T%K?7Z&G2NbR=w4dSE8-a?Sdh+Z_ZY;X5R>^{~
zi9e-8uHhsXVGnOw0)?Fi@JHF`N_Hr}Y&Dqd$#~9IQn6KGvQu>txGDY{O2rN?9UDJ?
zldf}VXY$U#6#hII^?kV-lL!6)T&EvfG+hZru-j`C*9s_8w#u$Gi=nGAv~`sJCUhA6
zfkIZ+s4uHTN2ltQ;D?t)MBQKeH&6`rm*p}x>SihkYs-!83zAsTk@`gvANa>bM{t6*
zoadpV@V2LU9AEO(!SRJZ;R=7s)&G=h`UzM16R!BDT-9G8c>BNSb|$!;Kjr!`S(TRG
u=jZn%IM2GHh_7F7E#j-!TbuZnpP%Lj9em!$9G!oD*1d;^e*jMGL;o*_(zvkz

diff --git a/veroku/_cg_helpers/__pycache__/__init__.cpython-312.pyc b/veroku/_cg_helpers/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 42fb12993f8639513d0aa0dcbd9424d29cabf99b..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 133
zcmX@j%ge<81c%(eW`XF(AOanHW&w&!XQ*V*Wb|9fP{ah}eFmxdrJ`SyT9B__mRgjb
zU8*0SoF1Q%np2QkRIDE#pP83g5+AQuQ2C3)CO1E&G$+-rh!v=b5r~UHjE~HWjEqIh
GKo$T|g&r0F

diff --git a/veroku/_cg_helpers/__pycache__/_animation.cpython-312.pyc b/veroku/_cg_helpers/__pycache__/_animation.cpython-312.pyc
deleted file mode 100644
index 7aed63bcdccd2c942ae00f48e2dbcf76ab047272..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 7457
zcmcIpU2GKB6`t9d*<b%*FxZ%%!3ON{Z-6RFoWvw0IE8?d28U8G46{4q-L=;<+nHGt
zZ`P@aDkYKfU|tGQgJP;k5P?)bReme2B9*GGI<P@mjVu+Zd8yO~Vv;`a(w=i?X8+hg
zn$VH<&YgSDJ@?#u&-v~-Xa8JZAEw}0`rUsfw``)Qf8dAr_}t39Lr^(S$<%R5re$A>
zK2F1%N%^Lk<19_d>@TR}oXkP#m;F!%<N%aGIS6G)4nY}~!%#-#2$XfRKA|ovgkRvN
zH93<~_z6wtB{exMnMpOy$8{;4m`P@xiZKxWCrU9Y&^C8qT8b+%PbzE<z>k67z2~6-
z2|>C^8md)~i8SQNQ8_y9yXw+-?=18kp#&!T_b?C7VQEU?CEhS4RhD#_H<YxYn7pdV
z3a?7j3ZF4hQZu3O<{6Dwm1H~-)pTq_8jzW=8A?mKG!1NY(kx0M4j$siV4S7`E1>N%
z2*-h%1ES>vU^a(O<q%ylGrH<9b>wvW9gey=n}#Vt2J&qO9U4)zeWED%Y<5yhs<z+I
zbW@SxJAy*FlDZ#`6b5cP&)?rUs4Ho0a7NL!sm!1li;D>*l~#0PP;}2wQwP$scFQzu
zqUg>>nBwB~I^a?dKcfSRdFpO6Rk!{E`%&nF(8oKk^e(+=3H$OLFXmhK-;C_H*!}l_
zii)vVx{n{;<iw9b<ve8;Pdi8Fd{<rFm}4tXJjdpkYxGr@4^36{`l@?DKN;x<z=~|y
zzJ#R4;h^ErVp<ARRhs~9<rNtklPai5ER``#I2)q4CH2*!lS<4S;72tRM@y!|qJlUf
z8O7nCYp$Y^X&pr(y3&Pnb>X~c63JMiOq3)HC*sK{ikX1#iHsUElbXsyU5c3*DV3Tf
zT8c~zhfJxKlJAD)k!i`YqKbJ&QB+rJVYM=uv)l~4whDUOqiP~@^iiSGB*<1dI$LS(
zL<ZMx$~4g-CEH*)rc-5dl{VqnoilTp33=lkOZqk(lrthZb7y{4IpeB8cXB}CyW%=*
z5}b?9cj=1UB@p31VQr4ANe_X7>IklO2u3=LMg<=+0egdUZXzKSQ8I@>;PfUOR~)Rb
zK@LsThGcNij9A6%5hU2^@^h8(0lxY=plXAk@iY|k)K{%kYyXuK%f0yxBNn@Eg>5f1
ztX*ukh7MXs#jhD3=l{x2ahu8-|Ba10+HS0frtpC_MeOlesGO$&Uwt#QPS1ih)<WVO
zAav168K7onD4=F$X@QmEV9aC__a&6r6rTh`<Bd!dzzd-jRSv%aZ20b&rkYYxH5|qC
zXaod0LaQr$R5KIALRF~17`F=yMFsQF0KrmHI_*+R)u5e;ip~HRS{=Ubw2EtQpzbJ6
zze8CG;@I&J7C0}lmrS(Q@M&0F#b|8smSAdN_P9gHAgRhqT7g0}`LwPWiW-CKWx`=j
zq=u!Tq71oL1^F1UsWG@x0|4eJDW(Xl9fqBDXSD0cvb?WInJ{((sCp)*$Zn^B=a1YS
zHEcm9a8RPd0FOXSsya9p)Bya9K`0372b(Xn-wbRoG_EVO@SnGI-)!l=vS~@rw+zjX
z76NM)PTdT278=(UB25pf9I8H1xwoN0RE`EEsxP|=;F5>S0BPVkf?re>1+-L9pxRRU
zT2NYdlrz>TbKqE%lvbr@eZUbEcaF`m=r%~dEnODQu>jf=^@HtjPZy9HZjC5<I~h=9
zJWK^~3ND9~76aEu17$8Au~F$kc=|0$jy9tAP%@07I)EcprGu{Rh*5W(V+bBQ{u@V@
zop^=*7Y8KON~PjoQ;bZ?M8$Jd6P>zp)pV`T(@^g|*#Cw!olYsnkh9?7;o;K4M2UZn
z?~tOg4x+M^eNpV&wR=yguS{ll9CY*j{k*J9l&C!55CH_lG7tcbbvMiCE>=aUuS}dM
zd=P_jkRIh3ky3{8{}3JJu2|jUm3vIjIQPB29#nh;ZY4BPeFGE%XGh95p!_4MZ$zqg
zC~QAK4IFs&J=FOv<kYtTgT3%GPD253@B|fHyD)V#ux+Jr`{IeE-sLy*jW1ilm+u6c
zYc=2Xd-R32?Vq>x-E8ZFo2(<>_S}07cK}f8TQ7`S^*!?=g~*!u!w!BROnFZ+X!ru|
z8w?u2T`akg)THY~dgS=N>h`}#o%{nujRVCTH|LjqIsXi0(C<e~#3b?{^5py;_CQ~o
z%$PVMc_xEit@O^(9`|2CDD?>1V(0?2+(m9KP)1Jzxe{Nj<pQ!l#{g~MB2$uTE|?4E
z{8Qa<mIogxUHOcUlCFFu-%q-lr;y{&$&iC{?E9axRE{;8P4q{|BZqP{tTUYRK^eKo
zd3*XcJzFQ#OU-bA1V#3h+<D@=7JYiWOG%68{gTiQ!#RXysoG`s0L<|<zneqr1%X7c
za<8{`;8#KBd6W)3mt0f#<|ivDcT@ZLu4pQwbiupitd89G_4nWRcaNKUJN9P79ec-(
z{{C?T>YK1Weqx}9?9X#T_lfZ%Cws;Xp?jc5xX+EppWQWl-_OH)&+u5bMb#?z4t;Mv
z8zw%RSBG6B+cYpL1niKaW*{7d>(6GRnmkJ|!S?Bj?N^MLlvZp8K*$asl|bnIx~}O$
zsHSHeCcZPdRBbv5@hw4UF=+?Vk_lm%YS*Fn?KK<dSfjr}9^$m<&Co=O38)whXbND`
zI;wfY{K1tC{9?=Hjh8m&H}tJi5w7FC$h-8rPZc7K3s2pOw68SoUV7$w<i@evjYkWc
zIzRs5<pY-vT$##mAF?{1SswZ{`p4w&lh&&z@+0Hc{*%_pS!-i<A+WM_+eb4W%q+&2
zT9#&)rmnBI27h#;JHPeFLfxIUTNj_YwYImwcU|-SCiF>YsW;y}Y<2Bj&i<w2Z^EAh
zYfQ`^JZ&A2ENRZ#^47vjE1f$oKY8iND_u*kFF(E9d;O@j=g^HrzVjywhwkuw3*7ne
zx$uQu=jscax19^$-2hAYvK3<Pm4;TU{fVXarTXRLHzL>Ptg%y8o0xAnZ3R!?Wq{y8
zx2p)7_hFj|Y%>1?Y`*HkCOgLgY;rR+!X|(vM*y^`1fY``;a5EXQbmA$G=yGcWRAdq
zA3%@upg30>Qdj~hfjQ>=*8ox&qtV28iac_VKuYK$bJc}^0F$r~k+#$TlZj+1RhA$i
zv9kjl56=%&IC?IOkf@*3i+QjL+s715DV0PrQm)w(TXV7mXt)`OdJ<YDC8Oi%M2K>Q
zhgb|uOE6No5JW}7^pRLn8D8j}u!Z_|D6+f<CCIrJoaj4{b|(~L**)MTL%ik+OEwf1
z0jtAC<&C64a)c<+5HvZWWka~pWWPoQzutx1;BKRI0gGNNda&q&0{St&hLGIbL?^%w
zlWzheIz}pXgOXCFA*S-;9MsA((5MRF$!M}R{YfA^3qRvSC`hbBfMoN|#mwdGrEGrl
z?p4aqb=(ZL0g?<OlDu^*vZK%lPRp&vo)y01vj395uzvH0(T|cJB(H?>TXtKU_gH(5
zSnI~DV<)XsaqDElN~qRR&HCBT?=ik@%_S=b*Jw)z*m*t7@MVK%=c6}fZ%kP~jaqH7
ze1mKS<uVI*H5+6ti{*a_9~fBGir_KFdX4eIq4HeXWVw??7{X=EdbTr1=jh3zBjk3&
z>#AFwgP>{>(YfmJ`e_K!AlTxvM~E%#(^QDyounE$dJJYH{?!AAc*rEjl?pX??P?5^
zxkw9+Dl%~BvUP*zbb8QK409kpGXjw@JCjt-WSh#H2hwUBykqcuA==jM5X>c#l(fxi
z5P{olOoPNH7fWe|A~3F=rIRU<2xK=DtB~qR&l(tLf<`%kb2E`kG&QkEr9Te@coGKs
z%AiSMiVMGU=<K0|EsM(hq0iX9m8Q1y4d)uHt-JC~yXOxSTDF`&b?#KYWe3F2Z2dd0
zoPFgpwxtkhv)Hx=y<k*m6ye^#Km{K3g29VruN7lx*nGNHWL$#fT+v7N4jfdYc-$Cm
z=NRC~Ty>S?J8~?lE2fSfgM{V$eDY&ovCKW*6@PyTXZ=Dzf<J8>Z}<gS<|p7!3UG3}
zAr}qKED7Ne^^4hjfrlg!Nh}fUm3W{wz{228!6a5%G7QLv)%2Q?4^ixgT4P10BaL$%
zxsst_%T@OlqIa$TQ!027RIcqyJ9IV!zOZYm`W`R_avA82P_sF>M!`GfqL3e(8WmUq
z?6x0LhG720Hc3v^P1xFgN7$;wZFP9O4HhE0`zPYgmHsplT?Q|~<iCcW@mDCo>YJ!F
z>*o(Zf_8Do(la-N+w53@4Zm~v?BUOvw=ce)Z|(&k_=4>uncC%E>&M4Q_7*MzF7g1?
z!+3ZzblqlOd-x2;zHx?!@VL$P5eyRQ?SLrCT1*tl{cJM;qdEeSK7<ASK}0sz$w+L&
zPvW5Cz3OZ`?$9TY@WTdl*6s(Nb^b{l)?bECG-=~`DDE;eO@Hb0(d@k-MTfukQ*`HQ
uI7E-otF6tnf3>H9UbEV<oo-$orCVu<UVXBeR_N895WVqUYdhUfX812Qm!hx$

diff --git a/veroku/_cg_helpers/__pycache__/_cluster.cpython-312.pyc b/veroku/_cg_helpers/__pycache__/_cluster.cpython-312.pyc
deleted file mode 100644
index 72341e288ad741b292ae5189e9b28d4bde6c1c9b..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 11621
zcmbt4TWlLwb~AiwB$6U!(Rx_2G?x4jBU|>$juT5tVyzuJjukm^w1}$)nNZ|dqRfYO
zhO}1<jcfyd$h#@B3lwmIb~oPrNdl+Xv_DPSqRB@;w&()ogb7Hn0lGkc+CM!O2#}xl
zocrRC969Y~AYIOVoO{nbuY1n9^RK~RhXl_rul>*JD+eX%Ke56e4|~~JfR}qxLRyp(
za>A987iIG6T6Dp$JLOJ$7CmY2qF0s@o<*Nax+o>Qccg^xfs4+t*hbpgpiL2N%DOAs
zUbxUPtERJwd`efZXAL!(F>|p@E*Z-uGs|i`l{a&`VUn)AsYADVj<#JiVrwgEc4<|Q
z=gf(Y|Hg&pqpn)_`KK?;{$OrFyD)oh;mTF*>cW+|md06Vyb!0j(UKu5?Ysf?dy+1}
z7A4%?qB{{vxbDb{o`n03wCGKEp!DJP7TXd&D3t_kYq33{K-rOKhtjVH5*>G>2W<Yu
zAk_V~dMDHawt5KaL0dh%-Wd(o+So=5&vmHq%mOiDCZ)t5OC+2p?zU|k8I1LvUqW$D
zD#}Gk6WvAF{i=O5>nX~sTrk8~NqQjDN&$Xg76F&Unix-NUJka5eZGcT8?Pl?(5LVk
zh>E-LTS5rj#JMbpiII=z)EJi$^;R;sqQ){HB1sURlzKfD&w)U#Wpg^pQ);3^fKRQ(
zj96N|Ku6GlQ|iJBh#+msWmP6^IcQ{3*bELB@GdPAOY7R2p<hq_h)#qJYWBKngP#x+
zd?O#7kG9v^G`d{Pvzkq2YV9{;2ARmL`8BqtmQ2+4Xc;}Zyt0(d8=9%FnR?Ew^=pP6
z*ONE(gqGG#Gq$X=xy;&L+i*ZgH}p(gH)}mwHlMo{GwJ|qvD}JT>(b0MJr4BI^qa{9
zj*Yr&9#c<UulX2y-5eR)E=^=GaN?VT#|?cgd;F$uWN+k;Yw=}mMNh4P&cZv@)QPqA
znxbjQ7fmaK&#_kC(hC!rFF^5QX|q%68`|)^8QAnmgU3JW{=2@v>HGL_W$IaL>e=%5
zE?WbaH#}b`ebteJ_&Z#Uj^pp)>Y*d}J5oJ7hQFiL1BW&|Un)a8C_Qnm*;v7MM0{rt
z6wUI!E=OIle*`fWe40%pR7M?@Q%42aurn3JCTZ4tZzWSHHIvP$OFD{B0*4!VA|Kc7
zP<5$1sxIYoAiDsyq>F_KB-lE#P%IVCr@$U&Gbm7u-CzieY}!8O1jPi9A<$?{83RnJ
z8<d+SPI7A{8DAm5D0w-tZXyXnodk?<F_<Z~wq|61luXBRu#=@2?gu*J*-Qd-ESo_S
zZ3i*cvE&5Z=zKOam(1uf<6<mtnn}=0x_q=%4HHSw<7OeGTGT>(GXHBwVn?P<Oq@Kb
z9$7jvH92wOc2w+OJ}Mhsz}%?IKpxk^%@dm_1FCB5#okCPk!X?s!XOt>r`|DuGXqe7
zxQ3;XNg`<m3UQoSKzMDDG-CHi2No!4g)xEiRXv@(sjD%R9Iokbq=9yk2e%Xis1Iba
zB@>rn`0q6cs0N^Qtv3t%`34-jCjp-CK#@j?t_;&12&)Z4@SW(&`|xs4%8A_-T@ToM
zLcVbx=4yLZO1SuG_XeCHt9G3OXna<M)u(kVi!z@{mU6=K*XM_s#0g-BS|u(^y#?Q9
z;D6m6^~9b5<OJ<dgJX57Qso7~W}0!tR8t`Gs1kO{3vhN&FmkF{&_{!tH7cQOBAghc
zMU8>Z)Te5mhpa_SIFoN;&O!5Yw{)GVdmRsTEDmY|cEn5re{}=&73ydb%y@PUeIay>
z!2Kc03dX@m=!RI5OAq@6{PYai1ZIbfe1>Rm!yKUNV7PPZb!{?`k%cFoHjJz>r2;x|
z;KD8ij?}PZvMR{0kpgRh76Fd2WNZoiIfCZIeAHKSr}T^wg1Krw7^G(sH4oB)h;^-l
z(GbqMsGDkSuz}JwA3OF?9AQ6HcY~;%0+YgC#-xdc=EniTd<KdiOMloSg}Z-t`lqkG
z{lZUPFDY6{)yj&t@p@GWRFn}*8L22yONqXJ><i`buV&7E*7FZ@8=i_XY$?O{gBA60
zOMU!v<qXvmyL=;3_`fp+1)M3;D*QG-&VJMbrbjZh2<w7*vnWcyQF>yl%f#1ZmS4ql
zyVZ(1o$ge~TA`V=+D(kh2m{WB3I#Wv5vM5|%x53c+G$jQd+CH5P9rYBLS{b{U`7K{
zd$6L6TFPiedBjp4DUCn%rE<2F(r7^lr9TI{?MCUMjI-Vb@A3a?g}CLq?FJa(jlv}C
z`Lk=ecK+@>V%5+4>%V+f&g0vjZ=D5=eACl1i?`@rMMY|Qik_mE2Uf5T_bQ%&O%M9>
zAG&O#&{E?e+4S55F>vl-wDrOKcziZJMW5KKJBJ4%d5TEYK3=Q;7Ud7!50IPi+-@tj
zy(mRJg__WS=VCYDL{y)n&MgY831)-ZZ@t+7#i;vmJqi9vGSR9V!b*UNu{joOJoqz)
zp_^;y)qweerO?I-7=BjNwPniCb9o~}XJQx%#HYZ3uIW=8bJ4yKm1~|Gy1oWBt{e7T
zYsU@2aRMH`pE>hbi3W*PG*IMf9x(Ll#Gf$^kopaM-K_a;#!`83>3!6(tohS1V>y|L
zrIH2R=)`e8Fx7EARcm9|86(gdRj6?dh^>*escqH3YMZrAW@C6@65w91b`yF-^%_NB
z5F(zNyG0_kHa3}wXE-~CnC%XvfxSF(DMYyGwztj$kohGP#Lwy-sPr7OdXBxHvU;XB
z{MG*b?+(5*Sm}Sn>VKr%e{`d>>JL@?2Q2@AlK<FO1H<<{74@{Gp023VmO5QlpC}JJ
zxiR<E(8&E$mC-ZS=$XpsS!?ucdG!0`p>rEos{6+)`zNjalON4|HeBBS!p3~H|460(
zq}6}&qsyNqO8qCx{g-i(-nUOx2F_UU=RZ>&KVBKXWQ||??NMv|rBYx_%u+gerM&<7
zjrl)xNZtGH4}E;<)2BXps&p;!#U6d5ts3gt=xjA^s0zfmy-AIm>~xHPD%p=70Kw<R
z7?28`FqxYR;)Ho<uf1FqPFB4Y!g&WLi>opO;bKJ?>EL*QsYPRpE^*TXhUB<&Ptiq;
zG@1q{ES(ITdl!rxaCb6(oHD!M<G3^8Qexuan$Y5_H0tKs-D+x>!tpST+6W%2b1*So
z;SuIqaWIS=(>nTD7{BE(wB*VG83W@eP?+d4H4jQUpUNfIQtQN`7~|NB`fs3%ZybXn
z>LEIBpl?F^&%m3BL`RLJo>Yk8Cls=mui4bGjIh6kf`sbf-b!f13XR-PyqEn|_VduA
zB_&>ZEMA5(^k}tr;9l|P#Y*o{tM};pFa73~4_+zv&al{i?_ecz$ch}=Xs`MsZ+j|z
zr!DyNpRQ|E)EZwvjT#t!cjld$%D{v*Fi|>wxjZnpasJJ@-_M-;bpDh1%FGpO=1O_y
z1@zMnTgu`4w<<>-w~jdbX(+}-!Op_V!@UP5Z;cBOiaVTDa^Y_U7cc5L>XtWq^YuUj
zygBsfh+Eq#G?+=U8)YgrNeH%S0*Qcq%Q-~NxWI`YL+ECUM)2&=$DooyU2WqOHXMY4
zXLP7cbS&#RmTfBR;o?wlTStHqD2R35(^Kghv%1FKAGEqoSGuOHuIX~u6C1v2Xzxal
znmXp`0)!-?^bt-x11}AcrK5RsiX1sN9<X@{M`)rH<r+B>6QNx)0Rf-W86T&qD2M`)
z`j}v|h23yY<C#k-Hi2)0P}rmIpq*!CJpyTHzJowRP(TFIA%!D9J70;6Taocf<b)MD
zQI1TOLnlkh$yO@i&Ipxo?cL<n={R^1G6jVd!Sn@iW<*Ga89WG4O*0EAKTPV7tSS0C
zj20|SW0z6x?cgYpq7>7A;3Brj@B^036e5j<E-pR-_@^*-CjtevBayd?cZ-$KAuDvK
zq#Sw(CH6gp5<~*d3$$?8b@nzog?vM{G2jUaP)N7nVb-!46!*F=u*m`NFQDDT=!xy7
z5*oHb!zG2~RP2&3Y|v>KzAI0W>rD@rce2ZAfhz8R=GB}SX75F<z=yL74~Lc=qF-9*
z<m{po{{q@}(3@}Im1>35a%iNaj1YD~imE0>yD-g5a>QD#L(}N3j;7TDn)btdEX8`-
zG%b;hYnsu6C?HFX{a75r0z4VXn8xBsEY3nvQ+Qs&_&&A~K|@}UL+=BLAV7?kfx#Oo
zFsd=%fZ~p{<#KtI9VO&Fygj0LC$}RW@1gC0-+M{k9`t!<<?V2<w|9Fo?7b>)A8hyb
zZ1zaL&MlY6duqoGZ=3iA5h}L%yoXsEyg~AhwyB~`6>X!W4IxG;dWcyZ{>6imfX_|=
zil+M}7u+Fvbg%Ba?t(if8Sa@p(4y$=c<aO^VX*`1aQ`IgeyGDul&A;DjZ~1_NOeM=
z{YEN;_fd=C^#DX0Cjo)NDI!v{pfb*POx!;a_iZRkaS!f*J@`({l>skyqn;Du?Bwfl
zbRRG^0e@2{4EmMzizEyr>laDns!F63NkY|XPz!bqgdve#H|Wg|743!qPUsQt3?G*J
z6H(ff3JG>$R6y_f=}bp(Ya@_g@XUq6(2lNGHynHdKBQ#|k~#zDpytWvAx!jQ`8`lA
zffJ|}2Zs5HA?6+*>N55C&}nS+_=xHi!i=dC{3hnFaUhO{qbe-z?fWawyB+Uz{AHjF
zo|@;)_UgV-_z6`9$!$x2wRiu9=g$MwT-zl<q-p*MrrOQOK`g;l07miW#$$lAypD+p
z`;4sH`Qp(A<B+^r6{#D(2Bw{z(mWt-Zb*+XX*B^0l1}~;5J$n&b1QoMhMGjL417B{
zO7Z4R)zP}asY=~D-rOp6#EqjuKs`D(fi1JZ#50wR<y0e=P0`VYj`u%sMF1_jfuTKS
zDe#68qXa6<6pLhTU5z7>yUZCAbH<j;Y$~7oBj>aqp^!U)FoX*;A%+tgEHAQ@&87rB
zFTjPp2lrX?AZ80uukjM_iOTIYd?RTPAEhu8?V6WR&sfC%KZT-6xL<~*LMIn)3i|gr
zj9oHDq(Jzsr|v%Ww*GGRo$TlSW7Y0Hl0F!;{Db$s6?M{5CqMU3VsogQ`X(gKdGx&}
ze)Yshxz7%kLL*;<F4BG~|H5X$Iw(QJ621v9@YMuLGrToFX!sK@Qo6B(Q4Shm8|7i6
z95llzuIH8&p>E4X8C(Z%;fI3sB4~jNKgfE)B`)w0Zpy_)V-Ad+5KsZuko&^R!pyQw
z)EJMUT>upP!dgwK-^d+>pv_`UsfBiKi#ve5g!y&8gFAtEX&MABc%;`9QibX5X=vkB
z=(1Zg3iCT?HB(TK5GA;;+PUYg?A`2^TMiEWzH`r(*A?uBd*;y4R+~FGw5dp;?n>vd
z)j7P??g^@!9Z=u$dtppK3Jq)peZc{^o(6eH-Az?GN3G7$a_6C~P+Rcurdw+7+Kfoy
zzKu|;G@xV<Y1juZyIDix)?E@b!*hnoFT^J7d;t$t3~1y6&m)R%@L&lgn*tW1R)sFE
z8G<kWft13$0eA6UzY7;6L*HdD^-!#FFP!&~rrl*Xd<2|l_Wcl{Xx<N=RfTT89~<O<
z;f@+ya&%ZrirTs-)H%YR@8ps<1|D_ZQQ@{91$N6xd&M@5OMuHRPC4Hs1=+%Z&tlOF
zh4aPpciPW=ffTnBm-DIAQY?Ps*qok(%RNIKyF3?#+kd$DTgI<O8ZI%@>|~_a(&Puk
zj`4gp58nvnGf6nN(oq#)P4-zsGPfI%F3%mSuOiR_i$JpId-3}NJP|eg9s;u1WQ`Ug
zUI#K2_H!aS!h8cmOe800K>z~vw_dyZS|xPC3Y{p2CQHgBCAHl|3q$`rK<%d5PPrs-
zKmelodB6@4o?(g|u)7|D4|Z~>=e5goWB9So1S55^D2z63i3-NV8od@fZyG%pL1a3_
z&KT;SF!nmQGUx@=KQ3WQu&-Oh_b~Bn8s;HBjNOj{Q^yx14mkSYc5QjMAOvruw7Q(I
zi)51btSOw|CUOj>rP1OFR0?~!Of-PIfb!-6=qG1Kr0?GJ&!;QhN3Cw2%Iu!mP^zKc
zhZ_9<f8NG84@(+PW6^Bt{D`bD-6E3`1VoJs2+(2(Fx5{C+dspLJs@*-G#-{^%ZWhC
z(Q$VCN`p)Dx57GHDR5Zsj5GH|F1#v4^Bi1^QF-PJ+~quBvI+^nwe?m{g#n9cqdpQ3
z(|kJSNI-bt&W>EejU$=y$PwO1+FaJKtHB#Vs6v2ah21?UO|#GpaaE@j8F>5DyVLJX
zR|dwdf${Rdu@7^<x&6WIj~70D<&#&+$LD^R__y@Gq)RWqT6sBTy__n~r_0?LyR^+m
zyNo%+<vA?ovABW-$)_O44G$LR1{2rFK=V`&1?k?<AR4FvG@pV<8|WVsIimW3i2*{5
z_u$364FzOVJdjP<R{Y+f&3)3yqowKj9VzUMY#;3M_H7<!8IfU;5g8U4kprUbfM}yx
zl1<E#Y=?c`liT5Tn1$wF8geZ=Va3}=F+-%_B7|)C2Z$hHQWyRFa00kNzaKUYL5N!9
z!li54{FQm_`4`V?&&@7ey>#yB7iq4DY_W0M-zYOQarLCJ2J-{!B=a#SHr=u;Lo!MB
s>?o2P_;<<wwNH{S%GKV%k`(zmeAOk7Zb?{vz3RCo%YEAtmIUkn1+8v;C;$Ke

diff --git a/veroku/factors/__pycache__/__init__.cpython-312.pyc b/veroku/factors/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index f494044d1d8b4dddec0b6e69115b04d04e191ff6..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 129
zcmX@j%ge<81c%(eW`XF(AOanHW&w&!XQ*V*Wb|9fP{ah}eFmxdrJ!GwT9B__mRgjb
zU8<j!m|T)yRIDE#pP83g5+AQuQ2C3)CO1E&G$+-rh!v=T5r~UHjE~HWjEqIhKo$VN
C0UU_{

diff --git a/veroku/factors/__pycache__/_factor.cpython-312.pyc b/veroku/factors/__pycache__/_factor.cpython-312.pyc
deleted file mode 100644
index 5bff13dfd0f59644c097dae0f2dc84fa7101ac43..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 9363
zcmdT~TWlQF8J^jj*IwJ}*v`!f$s~@67h$I*(1L*q<6scvQUwE*CA5rpj_rwOcg)Oe
zs24+_irOGR1hrC<suHP+Dx&nEkCm!ced$xBYQac^1*w&aRQ0LGMndAH{r+=i&dhpu
z6Nf}d9m!|UIdg9R_g~LH{%coPhl1zmWB)x>+@&c0q(<;0{L1<fRL(1gGOZY@5wp}{
zY&uqqPsdei$F0P40>23>Sxil*ifz+vsuEKkRgB~r#YkO=iB+c4OYvM=#p;-vH(jl0
z8)b`W1-s<wX35p`lBUnNo}(8$ZBchv$<qp!?z(qs2AefYW@%3I=9yMRwOB4{v*l93
zGi^-t=5<fgElZolRNHYicit{rhBmLCW*z^gt#h$j+xWv1$C#(rx`R!M%$v83<9OG1
z<dMnor;bkLC&wqIPMpl2oH}u|p>rIa1wn@><9=iP4wax`%Cri2Vum^$XNl>g5j&$y
zr&ya2Kcignhfb%_PDI-6#sDBvr#o22NJaWPF|IAr?qV6%&9bvGBYj4dtMy=3dt}rW
zv<Hli$cSF_WFjN_j82@YAH7|X-mOMAdbgoB8|mF{^q_YKdbdP+ccR@JX%FC}eUbJq
zqaU+&8(UG{W^6;b$JmZ?udxHAwzM<1tCpJNjH(QFXn4k3@O_lOE%>s-5lo^a*w?>6
zabEENym-8T8OpMH#qSM%!%^Y8h3_hg)9KNA{4rF#^LP5O>a_*^r_w<!{0&!GR`PNM
zuPYd_ta{x+Jy_FCFROEE-FSKSW#tstzhI8|4Ni|a@(fF{T)Z;FVd21OZh4V8LQ6=G
zpgd*L0HG1S7R*4!pd8H5W*xi8RcJ<c(Mh@$oh9(5g)94w@}gxHbdPDLb;s0aEaqxv
zi5mHmUS#f=c0AW!i(9Nzi@VILbv&(GW%h{U*iJ1`uostVX@jvvUhBxqX|)d1g{pgc
zslaLp%XGb3B5#;Q=wQNS)@-d^4t0qen)cP+Lk?TC51nR?y-+^nYxtqOsEpD^`8+Iw
zm(N$SLaauEj$W+bPNR55`68`!X5Vnn-S_&-E15m-4qh^UJ^DfBTc7ssuHH8O=lfQA
zk5xO5eKxS?oso+p@3pTC+;ukbM)uR}&I`GBr#{Tyadq$Tg@v<6-Z=4D|Mm-scd{3=
zEB(V~6K}S!6SE4Em1vM4auIz9m8giGiV8B`(F4{823B<NGGP6aN=~gjE7|=h^Emee
z=?7iO8jZ7Lv_p;@bC_3lN@IMuM3jswc;_)E<a93XklZ>Xuuc}mW!34!k4q$J&Q|K~
zM^WkVv6ZXsrBT~a0Nie+r~j>&UVG`n)I0f$`IYQQH9g|cyE<fONsi0_D(8uI{BC?W
z&Cf_m8fb>Fu#yY2uUn?K)QV<|YD%r@kW4r`QA8-L#WB9p;ZunEFuf;8UQt##ZA-5$
zRnt2JNz&5beF}e^q)VtonGG8t*&WybCr&otC3QLG^en5Vq~*X={|OBHlS*iTy!PPj
zwe3V?oV0)y*p;X->5qX265DZYo>^o+0#B+9&%$;Tb!W~bcq=R?42h5?^0QHMz`bs0
zW8^d!mc}l7+VBDlz=M;z<+7aI6YDRq#o*<XQ)am+54nVDrybarVX_W%fXJS5nK3bt
zb{Ny1nTI0>87N@ZAfUdzLI|OGwg&shx5U<NxmXmZ3pGIM%2afxO-#(CoF1?S_Rn*K
z5^X`#$xuNmb2-j6sTK!0wFDj2B~gKS<!V*iGRM4pfEt-dx3a?*!G<^A#zc1<1(dB<
z>D+d%@XNy=X7*m~+jef~?8L{JENbWPef!>@ja55u`!w74^9fj~?u*?k{Re+L_+H`4
z@caFDtz-{Z(}x??5~~UsCQEc)SyFSc$|Z?(pny-5Eo(+EEQ}mwCcJ^84L@--rx_;f
z@*IOT2h83JjFmXU;2>Omj`{Hz0y{&~!I(nXF1y-rxnx4lia8B)Ns~2uRx`b*7zE~v
zSn|Ztk#HAztmBs(wRo!mi6PIDCr1ZF`F@q%Qm>o5eF!wKlcv6^G$KR&T)Xc?g&Qm~
zVH=)6XAN}$;~jM=h8Q<dc~c&BVxAQiG;<cnAn2Xtk&lL&#KRnAT7XG26e9B7WIDvU
zWCK0O6@SJYZ)uT@X*0HM$<Dby{PClY|GxamgHw|^)j0qX8f+juvxIDm4_Vmt7^b+m
z8<0ipQ964*$_%}q8CuC4d~fK3%%Q7&+plK(1%M<)(T4*Vik7|{H9>W;pEN^cg$jfk
zh5U`cvFFRWMGC5ea8i7MX%sqP9z_3`Mq=dSF6=?UE@A{MfoDg6^Cww0ZWE4YTVkTa
zEZu{cV=Tm;#EZ5r!_v?({bl));E%+yTdb+eHE{#6tulhEueD}WI~?YgEsrz^NHpx;
zOcahggJ4fCA&gT>5Kv1H!L<Y((IsY)C<!x_;<UMyu1PMrqoO&5G0qSb4Q?Kt4ff=m
zl*DMTU(av^jl^#~z;uIuF^h{9gYWmiHbkOCZWzW!c^|-|Beq>!3ZM~m%3}x=HYx!(
z<CTn0DNTQlNDS#DVU9i<h5PBKaJM8CK9>w2Q7euW`dk;X28(#Jv=cf)G-#8+$@sf9
zh-cK_>Tr@Xi0BEo(3Sdti_;?Vbb$?%U^e&0Hry^-)P&pR5droI=LBpb<qVIy0gv#g
zKEw6^{dzZ=38+K7Qt9<s7wMbFj0gv1ROYjB0|zTLdBPiEA9T<Z7p9xx-gT^2(cc9M
z@Pg^hhuGAGFd>$U4iYQ{PZA^`yd2}2@8k$cLL*T0w7>q6yhjBcZfgh$J`UjlR9d;n
z@WRZa`~S!j4Ub!<4xb1a3HHjhb_q??=KlhBT&eCN1bGk_MLb1*z?qSzRWz3|)}=cb
zceVb->gkp2fol4Iu(sEe;i?4q24omP7VhRZVSBD4y|lgo(VfAijl2szEd=-ZvhA6$
z^m3f9{EYyLMJ0fu`4a*=wAoR#zJ|E!&qZx|L}JBepoh|vI(gv{Z3g$Af?h&gJUffP
z1ZK0q9LjE@*JbXF2)87j_Th{fhMEM85zAa)8jP@mJH5z)j%Y4p+5~bobGC!rjYTIZ
zFl0qBkNr?5|LI@o=!m!$HM&%}X>-?l>sT!8yxa~df`nW%6%jN@4vXen5f$mB+{25n
zy?Eg}E7|?k^nRft#OUb5ZB!%*U5GMuGg?9()rMnqP74n`tdA~?QixG9Ou`?2HYfOT
z9S1IH-c%4%@5m9dmJ84!fnG$91Y>TIA3sg0Jlw#^GmE+(47iaUo4fB;2lQQ!xDh*)
zI;y3_()G?fB^HqE7R_H^d_<w6yd{=$-rkN%YyYzx3z9IcJ&@Qdr=8>=YcdXnf(yn|
zC>5x)j|-_**ySf4qQPi{F$AYr2pp85RRmIhY*X|h2hrR{WL7;Rn#%|7eBUDsA3#wL
zc$<HsO1B?5`R(7(NXq^NPKY$@@TJsB_Fy%AaC1TbucWANM!|$k<1XtIDfe`1;$Xr&
zSh0!T_<m($I<Q?%k!era^E<*ZbS^L>b<YMnQ+at47&vChBiRCv!=$BKe{s3N8-Z}I
zn%08A1k!dd$a@Yoe&3ob@}Hcn{iw83u^<b=)hkT*5&oxa&<DqbG?@wi2wNFSF9egP
zpEq)#mruf%fpAh~r!S$6ul|ICxs;28uy&9;K)Uwz7pv)k#&C%U;lv!c1~D7r)mJ4C
zkBNA53ET)%ITVXuHx<DX6~d&}=PUwFH3@}6n4G(DT0d~FCHVq%p?h0CkN6p1KmslH
z+ke5dAe59j`lnX1gVprlEx_ioTKSR0<_M4PzHwyk1BnjLPLZ4jcNqYJNU07G-u@fL
ztoyMw2ZYSpJuBIL)%3nw0ElyxPSgBInS35!=a@KFa8Hf&eMD1_Q^7MTHyO27ekvI=
zA(CBnoY_S3?8YQkCcwn?GZbBDIAu>8S(M7>+4JB~kXI7Te{2GUYrFa@zDe#>xGj3?
zo5jH_QBs>}*TUmuD?Cc94i9S5e=oS(P{6cxEB!mp-~aag7s@MrL)Gk1H9f>-<#<k=
z%I%}?p!6LupRaX5{rUe^px&9!Q@YfDLwaEs@_C1BV66+|@E;NULooVin_3!K1KcXS
zCH@V=p_H$)kBS5pWHp_GR3xcLQNh{Et@t5o@~iGWRO1o-7}a?2@etJ>rs4<{lT<uT
z#W5<rPX$MYrxpjPNs1soL8hrj1$|v{9|w!iD4)k-$@FSk*}D6cV{3^_GPgRQq`E(k
zrIMrTanx3+hGezq+bR2YuJ?2$?_S-br20RPC6k@>qJNcYK$r%%C%5{8QCr=Hw^#Sy
zQ+?pXn$j*uqsHGfS)qR|mX_mCTkYpNrDPv!Ydz`YQ1ch<$w7bRy4}{crIW+{jD|yl
zkhokPHF!ZHB$3?Z6N1`WXIt{XT5nr&e^{)edAop_z|FNgKfq5duFn*>gb1b+Z);n`
z2l&xE|2G4@<hc<M;Owbq*;nZYgbaSqc^30YDP5AI)wrsvV4a%yGOeh?pD3AsDU)BO
NSX{k*O`(z>=YNKiKI;Gg

diff --git a/veroku/factors/__pycache__/_factor_template.cpython-312.pyc b/veroku/factors/__pycache__/_factor_template.cpython-312.pyc
deleted file mode 100644
index 62b50fb46bb2195636730f1466b6d36ab0b78221..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 2824
zcmbtWO>7fK6rR~#2irKdlTg4xfmJ{xhG4feL2U$)2$UbSat}CAjL>SmJ5DyNchlK*
zz{aTnao|w3a0&-5m0Gn3sr1kudIa^>i=$9*w;Zarm)=qWRY8^7H@mjuIH5>oB+tC@
zd-J_FKks|{eS3QlLHkVlXL2Zj(64M#Z@!waxEq97q@oN`vC8Q<&t*8wWM1bpJckY=
zRk(~)AK`BC-kOY1<l}9nbHVh4W{G)IE$Bp4Ov9En!xCjfl(UviWyKb!WJ(NMRCL+0
z21J$QG($7SMSFsXmYHXZ@_Ex>3b~-$Vy<8)wq^oI&ZJ@v5MZ!LeoB{ZFlH#kN(6sr
zVZ^b+?;kyoQoNYFo~un3H-j*X2+CmC7^mV4uliK}GR_EWGZ|lzi?=!9L#~H(%|U4(
zC_>vWW@W49ZM8Tc0A`j_geK4IWY}-<PuH=E%SdXd-5IV=-B~?QROT-9l=%yr>@{`$
zq`xjLjb(hRw!Rs+h|AnX4pz6T+>Btat=pG{y7eXe0$i?c3Al|2U$BO6TGQA^5yyG?
zJU|55;jos5ONQ&VHCfk6geHOw%`iL*IWJDjRH|RDHSF5MUz(hS*97m!eJHi7vBZ8Y
zL59UseX?|3o9P=6`?7329bW>qi&LZ(6JSJLv+N}+&ow+&6(Td)Ym`=rqgl@||94O=
z?qt2yo4f6XJ6V4jZ>dtoAQ~hW6(Mi3rad8=IhL5u*(;=~x}<K6O|&M=g06~LBBo4(
zuzXn_yt7GqKDN`nq-;fY1jU>xI)0UqDOU;}m-Pa9i&B%ueU4xeJ?FG9yB4SWKU~Ec
zx)q)Rgn>$VYusXl=RVA5{Ygru%;Yqo=9xm$qZunHc|zk!CRm7)#GbGul{PHribP!z
z0aWV)=q{jzPPAp~72%$LQ*~#Ojs4Xf2{!gsL)$B%L}e&d89M&3cl+nNKH2qE`+V=n
zm4iQowp7FYmGG;TJ?~cbocKAaFYu^+{o^*&)pPyid}m)J)c0HR_1iNyXDa(n%qQQw
za`0Yg;9+9-?flJrW$)O0;y44@xyW)~X=Ecz7>l@!bP1Aj76nilO){gFc5&zG{~tsj
za|$;On5WkvG{bSgRFlp4H5`@KP#J%UKf>3z57!G|KLgbRm<dfb^JC5W<xl~$ttEVz
zz8q!|D-bV>`YiM-rLD+r@UiVyQx<_8s>fl68&b3`<$T)^<uN*mihz2KKZ(xbxKR4L
z!9oWnh;l~Ma&941wOo$4WwJpu4OSE_VnaoxgcYK^Y}+n5W{d8^ac!CyHHD;VioKFz
zy;ZK#BUokzv?tS|Sg?pH+GY*FMO+zxSL;~X3{zqksNum-VzGJ+?7~X9!nV_F$*6c3
z2*}hMTTUOkiQ)mus+`m2g+<xHQur=Gj{j{^bkpAn9yL^Q&XdFYZ72iTg6&ZQWrywr
z(g5yJ1y9@AKWm$I>2TAw#hyJxOgo#j?#Y$9Te7(6RJVh%^(AyHkpqEPHPZDU(mNOF
ztwa*l!8aZZ9-bRKd_Q{Ri|p0d)y~=2wb)!o{Q9Z+j`)1^$buiO+qmFELvKD9OwSFb
z??=a0vm0}Pj?E1oyB|%jW{|FSZFu@9fI5!ir@utUo;uO=U%&+&u^T%+HNKwwE?$Ye
z^9bQU?8mN+3p|X^tPu$LQuk;Nx)B=<3*Yb{eH(`E&YIY0mvBeyVDf9R(T&30AXDBA
zM_Avpd31!oyAMMj=ToT^&^wTwA?JxCIYCMCzUn{@Nz(fTS+8l<NRnzQl0>_}EoEO>
zbUo{UBanOEl+mo)v1GB>6<kJtaGcM-=zqm`0xu>yeKF6RS;l>|7Y2uyvkGPRM%gkC
vWI6CN|6VVq5xNab*vE>+{KGL|3=XjHB#7|3pU~RJZ3!H^dh7{;!S(bnxismr

diff --git a/veroku/factors/__pycache__/_factor_utils.cpython-312.pyc b/veroku/factors/__pycache__/_factor_utils.cpython-312.pyc
deleted file mode 100644
index 2ff2b11968bc221dada81543df26c69b4a8d33a1..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 20727
zcmch9Yit`=mSz<nB1KZ7-m+}jF2xUtu_RlvV<(R7#PK7E6FUzl-D#`U48@{k$`mPA
zQMN>ry=rgIj*NKMGCDh!Cket}0<;>*pxr<NYwQdb>D~R&!2T(U?pV#$0u8JeyTShP
z$i2X%=g01M?yVOo+Hr!OEl8L3xQ}yh-E+=&&ONvOOI@8$!12FF{_ptDpBIGxP8Y`E
z&`%z`kCPjMESwQ!QFbK6Ga~zSoN=;W*M$2_jVQ>@p9*I@vJ0tKb|bBoYmoY64^qF}
zDtmt_o(agcxT=$VNb6-k(x4nb+91~<ZItVgHpy*r5P6&B23)nsjYwPNCZuh0Gtzds
z1?jpON2onB<U1@)q~xhYOp2zG=}0^oPmW1rv1Ck%B&5-)WHcR5B~>Y%lFr5wlhVa_
z`m8h>iKbJEl$t~){y379rL+=Bs-r1og5T@+eMS906*Y!|uDtkn;{U-ZBsYYta8$VF
zh&slEsAITA5ONNOkadjXS>+*%aUm;yD*hYsy5nk_OUOBMj;!-E%8B^TIW7tzM`ThI
z1fPWCIHN*}NQt<bmQte<Co3HpK|j?rx~TU1SkC>E5hXIg^QmbiOa=B!Z=H>qMRAws
zr;7FLyt=R)kLsD}4C540W+Zho7LAY2&@iS^&4ox}Dy9+*bY-UlEvL-~<*g{O^puj^
zFC8|i&<n<7PPLMrnT+j6R}_{*@5{02$i!qKwx3@Ty@w7R(%WP`3&#?%iC8kN_6&7L
z!k6N??p~>T#5jqvli^<JQg^(2|E^q!wMErX?p-`D`-$Ren78r^AtaV+IC&vg$!iQ^
z$!{B^l1Fd2RBv{K5v02CqN#;HZQH5DCQ~~v#FW&zshxa=sXN2`Bs`UlC)EDQnNo{h
zE4?SPH;Ny%G~!>~jbv81zezYMzAAp%`s!`Zd~$y5M)G>H(6&2&so1t#YkhV06q03s
zhvw?|detekofH`vf6?)Tt8B8?pfWaD7jc5gD)Px1r^#AJlQrwe3Ks-byy~U1tfK?@
ze&)Cu<kK^a*~pKqbDZj_I6l*_KhyK&TxBKP71?pQri44|%DP7#Wo#fu{-wbNr!nf$
zv=qA#mt)B&n|)F=rVy87UMg{72h6}^Vn!NOQWM}8BP*NQ5^*)3iuzPGir^(k7th9{
zXX(BYlj5pblFu0?4=~@ODMg8?lc}Uk{J?pkobw`yM7XTg{ZbEcQ;0F4@kFv1te<lL
z=Ua7ZM2)4x=!}YToQW7mgc!yAF)^RjT^sEwNv#|qHVl;{=}j73X%b~rDkUQm7)a_g
z?;;~H<Se;pnwDJWVl!%~hCd3`lp5Fcx#YKXq$FM_wd(U;jY7zp<5LP4O@}WiYAI-4
zF(ISUge7K@B!#q6sd)@zqt|TYRod`mEB@6O67Wis@Z1UU%TD=r<8R;4-i$7tj4r&P
zNdvdK3euj!#ywi63_d}+(%i1C>$|&du&{2hxNc9e`Kj4gSK8KV8+P5@u&=OTUva}T
z#kT#kuPyuA7dC7D9?jMB^{PkM7!y?@<}Ydw2VK{^NXmH3gGY?Vev6YEf{g=&w5d4K
zBqi7}>iA5*tAOK@_#YK>jx^Q6j;zDrCfhyHxOc7xT<gp_mCkgnQ9>4fDx^t%umgN7
z8Z8`M!*6O+8hp<W8Et<6ot+htx;}CnZCn;-+@YF?%izHyXJgTGn2eD$*h`M9QOu&4
z6j9aqSdv6B@eVYviitv3Ouv$*h(;9fOe7Ic$1U~2i^XV~>8x1JOzA0ze_Q2Tlj$m`
zCk`%*##CYrq6U0x)(7>@m6cg7%_6&UETf0lTXxIPa5l=Qil`|BF>Lf2NkTt(0m&<Z
z$PmDAyCD1!FExi3DMQFc9n+3;>jhz2RNNwj>Nz}10wajRUx_zFQMlUS5@y7|bzT%h
z4uvMeDTV3<w>kQEmE5eeB^S}A(!>G{j2Zq^dw@{Q^rUhqvn5I|C2YNf{sW0rG?Gvc
z^_!Uvpsd=3<bMhOI4dkkkzZZ9HFaCgH|Aqsb`37dce@6)uEBy7`I;$@%NsX~8NXGd
zl-WUVHknF4#@p@5_(Ia8k|H@Rp9*<OzPK7ss_6)XcFE0NszMX5<V?hpB`3s3$(e~y
zmV7TK<=FHwMM)`8y*{h;QeD}*QG!(1XH7Fx?Q%KMP&ppTb`+pDrN)uW3V*B@I=AP?
zfBn?oZ@txbXT$SX&U}&iVq*6AN@L6X_kOnFQ)m8UQ5q~X4$hwVy}$Lt(-@Zj9R2Nf
z?agrU_`7$c$eoRmmHKrH&*n4vgf=*={pg%FoX`>%w2q6#`f1HOecvf;8WA6$F(FEC
z%{WZF`1iO|E*=bqvxy9o`Dy;B>(gdUvdEa#kv5g8B`7`+K5`j#T^22|VTlNc1br4W
zyz12PDufP%2~a4heW21>7a>unAwEQ5200lzbpoBbBD<@I1XCaw;`w3Xz+@|_N7t=!
zrCdhnY#mQa>e<v(LY5+vlThsGRJn*?h#1;~vv3OPQ@KzsP{1)|oX^F_n*0pbnlhzK
zE0eM&5fx@!_&CCXi==2IDUHM=gD75SrrEf*q@I*{Qks|ov`6lUWNCQ@vAJ<#4cMuW
zyW|8)DEYoeYLc-FV<$Gtl}&hi;2tN&g!4(QNjYu;Sdes~G2y&Y&w0goUrIloK97I(
zdq}`34MHF|r@r^}`|83oKl|~Le;X#gwxNGfU5shFhwuDoM2jYhKbp{nlUhfrSU;(G
zCs$l8@4vmU_h-Ym)i1Xmx$VsVU{U>>A1!S?@;lejukpk5`fuEU!yUddaY~b!ruc&d
z5<7E@lUS@c(&qIzb*SPPH#MmBAS)QtUKY<C1^U#P;51CF%wPLxNVsx~k4mull=w7F
z-pP~-m31K|$+1xwlj&Ib^y3-#Gi{?6g6?5s%4*zifUKU8R4Ney%8U`jwCA@q(q}Xx
z0gyu0vMQKTz#DZWClv|ZDb*xMk&eL#iH~72t7Ne7wpHqq{$e3>!yrD4DwRFBeG>m_
zHxefP0`=GSUfKKp6E{NFLwB3D6q>f=j~APEEJg}VJB$8ZnroLrdCRbkX+K=X6Eb#X
zkwnE96dehYVF=iqQ+DKBSqH9w%W`g;Fmq>}82~3^)UzTJYU0&a*_m@)UFQ<AE=9b$
z1?I9T=1{qQWSvGiD9opj7dAr3m6>7#^k!@#bpfD423m+mBY-2E#kmo{1Vj(UJqg*7
zIJm2SSBOSeVTDMjD5>c<hA#%;V%EUw)oa0YK*265$vK$4kmGNK98g^&0K%vvmXra6
zeGx^8%)k&l7b`hYrc^hTjGv#10nd|kQAqliT6EJfjQ3-<S8`3!o2&%9?VL(0pHb66
z)bxG)8=%)Gv`KmK`tbZ~vnQ9EH?9gb?kDFw%bT}q-p=Kgu2sQN+dFr3CD=5-XQBK0
zp<?ife6$!0EqCuIG;F=^#?#drp<(NCpyO^pDg>l_`|kpw`*o=0e!UQYWx0+|2c2cu
zTQS-71>Ci>Yt{yJt1+jcQIwFSoywSVpCBlHOJB*R9=r^_H*SJkMg>a@L-KSv;0_o$
z%oaC2W{c)@qZVZsP4kMn>y5h84aQkHm`DC*<4L;JIJ5c*nC<?^*0WGe=AYQKJCaJm
zYe4XtO<j@%QxlUj0JxZ3cCQvR1*}j2WPL`FQw#S1{31%Zl;Zc;#0;lK#$iP7{|?pn
z#NaH0?1}@|gR0R)Dv}OW*pj5N?9UB)p^{;w)6=!IuwH*fQ!8_TcarJCvk^#L0K_qP
z=wR`tk}>KaG$e2z4N#n%U-m9%o@E2}-3l|N&NLbzSDl)iOeyJ@9P%q0L7B1(Ny(Fx
z8G*`Xy7eU8a!$mPI+#VjOKvtQrP{aP&tjUn<RaG=M0C^Ij@!kxe<E@&7Up@B7g6&V
z{?!kVFnR55(weq@I`Z@JPsZ<f23Gv_TCl6=e<B}Q@^`N^b!r=jicLS%0zX_1cHIqb
zD+IR{gWa09d&Sd8<>Wh_9aYMlDK-shfgzO1cNKz=6<hWE>gUJui94R%c%pf`R(#Fx
zr?t-hV*5_5ZI`y|u-5WI(RW019a$?BJRq3l_k+a>p-@eSTg;FXZBSNBlN@BnIEl=P
z!(`@IR(zB&$iXWOabXGps~WJL<0Cj+(_}}mqk6v2ba5v;2`?zGr^zSxi2U%Um4j&~
zFKGkQdX37HC!oU&v1Nzp<4r~z)~_{AkM6G}+{WR2t~|1$?EKtijGpOZBQWpIEHfs2
z>ny;C;UqWs42~e_0z?K_o-`ZaEC~?eawcwI)qyFvAD0WNXeu!^0goIjQ!a@3y$V5;
zq`G>!Jn1!sUJo(69EVRqB~LW46JtF_r-`Z}x@;_K5+((SO78B>v@te>ykp`Mf<!$V
znT$!9Z7?^IWY1a>1sDQ-DyvI*4#NoUbw#G*YRC^mJO!_<SB}Ld>CBQ1%Jaxraw`y8
ziISVO!KH-6?z7fQe%R|6E_fp+R3N&hwZoy%LPDuFMmBJGLLDoKY6W0#VuFGb8Riuz
zr%~t<{?%V1VW7RP@!H8NC$;sx#X#TeF|hUgwhx;=UVn4_9naR~hSnSY>;9kB&AFG`
zdbPgi?)Duk^c~ZBk88)zX)TGlS}rT@2D=Nv?xMeEabU^cyVAa1+i~#jjw6K~N50%}
zG#^<woEJYhwzT2so%Ul|;Po$Nih<X)=41C7nr?Wnd$o=o#fILy4TFV-!D7RnIroac
z?%JU%hZeTwBX>-1TIVs5TLaGqjs(5ct$}Hv|8jU?@MTWKoEFIo2Dm^{haF{b0dt=5
z?i&oD?gb_-Gny?)WAKG)ugPvm>zpeP-|FYUuz)J?m-pFPw|UN7f(2s6$!S<|SbUvx
zCNJA0ppLB5rtC_aaKi>N+P|sxG1JgT{cqZ^xL&`}4~!9w;ow>dIKux1I<|ci9Y#B#
zB4`__8s^0Cd}IS#|H3(L!YOO8I2BlRsP>GxE7*HjXX|0ryapYzm(2+~EwzjmpPd$3
zjtluSpZUl#JPGX#IjEkWB0r;U>FJ9MggVN_9DiOR=D1`7crjKbQ60x`Wq^tB9?Qzs
z(scZjWJFkEFDWIb@o(Wmn`HubAQx;TD9T8UO-!a|Sl#_hu4VSvb5`kFg$U+FGkd?G
zlpG%&#VQI=qE0;xklO#JC-ibUe$z>_kCFrc1_@k7$ya3jXMz=FGtD~mv%io~tp&`u
zWF{{ogKkW&DlgFG5lYA!CJDUuO_jW$8bo37g}{dbt5&EG!L9T(oKA%~p<!N$@&n|&
zM!EMwJ}}hQ(5y8BiEW>KY1tE;AGn+&=Sjz*V*PWP_c^-Nbve7-9$FP#wL{|Ei!03=
z7sftK-)Zh$X_K_B?-$$N(Hh<%t8L$V*@bC9I(GjD#kMnA!<qZFRO*jDp{eD@y6fvm
z);IQDskv9%thH><pD(n8K0os7*2M#NYM;K>*vztQ=+oBs7aMn8sadHFXmy+OVxjJd
zV(pgv`K8*P6@RPN*0b1HXxp)PxX{-B>*im_ZUyf658i8SzwyrXceG8rimd}zj^85(
z&_V6c>)OFLv^Peyj%cx7*1YnvxBgn-N?`ttE5U`mA0N1RU{SpJ+>-an&(&Ld|J{LK
z9VqU6{)>U7okz)Y`W#e=_T(Y$&>LFEo5lLmn)mdwzj5~DT0m)9nO8BW<!ay?7F618
zaHtB5%))VD3CIfT&J@;$T7ZI~xx@}jY*&=BV5=#vjWTe2&^*SWyj2DxtH3=|OfmI>
zmQCxiOtlHsprXvgA>eG4dbu4-qF!~J5ST5EwTjBa0Hx@g)vlX~#~QnM40$sDgGr@_
zf<|3RJ_0oA60D5hA48H>1B|1F%v7*$%7j9%l)jjHYy??GLm7fp$P=2`RUv?qsiZX6
zXTzsDz=ZhH#R0u<CT5klse-08lC3`!;8MyGOJrqoQN<(|NfZVwxm+Wm#jH-{1kOUD
z!dyTEMs%Ma$A;xnX$X%A7OH=T#AZtxHr`6G@!Is2X^0Q4qfcAcUkvWlygTiNBP_#h
z`-;J*HSg2+xII~JhgvxC@RGleS);ENn_dSdWY#Ew$VIUbd{XOw{%-&ALjUnE&KLS$
zUJAafd0*CoFSAVB3&HKhV2|eQS@E@K?ayfYU)7#DshtdKt?w3n5zQ6hqQPA7Kxa%_
z)9b1f4b`ko8(R?zcuv3yG$uPNFdfqY--+M8G#E~2Z_s5PCNoxh#+*uw8Hp0NMM?Gc
z^}4FkW@GG%y5yQNAFPF3A3-mpsU7yId)z+Sdaq>9=U!tZEt+kkXQH`B_2V1bsIA%t
zy>E6{-e60_Td17;$_f^;ay7}r)t=k#nY8L<oG8<6p;>#*tRsWA&7SMCC0CQJd6Z2q
z+8vTLM(Lc#QYPb7R7KX4^^BSCD(AH+46_b+*ng@oG}q>Q56N*}&*9GnWM8f>>&rSW
z2udg$V87ca#%J7gQtE??pRCWI^dZj!#`94YBa}n@UalUsJN4S>cUx8jVt;h))t^_^
zUXLI;SGF!&Z>Z3$H(Q(ak2+{g`zo;6)qjN*0dKa3B8Ni$$Z3cJAA$D6mM?>a2q3<X
z!mSY8!^6f9ouI;>VTJvT#L^dISSYY714J0mstr&-c`wTYfb<9i-L=Wuw7@S@15{d0
zv32ug3>PW_9k9?~RYO{VxkV9jV=V~wN+VNPY3J*Q6STm9c*K+xiy%ZPh3pE-D5<G2
z7O=$HHP#1N?2fJrduZj4#qxwBdNhx5Jp#uqE2qaqfY@+^0`w~E3ThP&k|`Agn6Vsu
z#8OIS1ta@u%)e_5He&gDT3MGUs>B|9r4O62Mw2A18;;m1vg!j}G{oP&z7czUMz48g
z#+5!mv^X8-FNqPthMUgxDvV`7q5~0RQwbKvNmu6d<L|?ad87$U$M@lM-_Pja*Anlk
zbg=B+(9pm@uQV`-|J}pAWsjtxK|C77qrtV0cH_}*Jlef`c(|;THF^>0AOa?FJwOqY
z_#H&7q(KY)vTjzPN2*E;wfLy!Mk<@zUD2E|@?nY=Jt%eeb(_@Cc$)4@KIE!3c0)tE
z&@_$FF8dHYWO!I+8k$}D$Z#Ckt-BM^X<8vp#$qz_8iGj%?O>CwCvYoUdUz2oXfp4-
z1;Sy?kAShug8O)2qt3&ZA}M7g2XO+KLXJz2z#|r|cA3wB-UrXyUlJqCd5MB0apZp*
zB0l7^0ZLNxN{AA|oF$ivbq~JW;m#m>RfRVaq)})zf_EVCV$-2u$xV$!_|HhmZ<{Ul
zi;<Gocw40=RKfxq!<KW?n~Ys#_pq{pGoa~`k52gDmc)3;M>WUU0F=aWemTxBDKv^m
zpq~+yT>17%iE|#{u$hq@lgo|uu*r4`MH2ic{HyJNX#mKFDB@x2+NCR(ivA4?=a>AF
z=6XeY;*}y&zXaFl!yhjD8?HTj<=Of3@N>TX@zBko#m1XITJrDET(4<;uN9H{cRW^}
z4pnotQB#bDsgEz+ytFuQ6X6$qn(Iw%=i$3MUn=Z;>9<jB=S#(%Zx(S6!28=}|6`5d
z_0K(9^t6Atd*M=X!;U4-j^*Y}SG;fy%ncQ5J3c&}-%#Axw^ZB5Zr^Ke|IoSc%Hobf
z=TpUXdyCEc=Df?^hHG_K>aGS?>Ko^K-kX?xafN#t7WU;|<PM416Zblv$Uj}|=v@`O
z?!8y)=ES-ED;u}xr;8hRtqPvny;n}o9iGc9x3te4TW(mtaIVl0y5+lluCVLn<#ihu
z&fVR#v#@FBEnjidv$u!t9z0bzc<Q&A;=wc8rZa_gL-X$MT=4gsyBFPyQ^n0s&7GJ(
zztA<GUJ7*nLl6|*cY@OUEkdAeep>Ty)?Ay{8Xsmb#3neN%l#77Oo7jIz{uUz|No2+
z?%HMTxh%N;C}>{2gbm=E!1N(TkDFG@O~a<fYSmVU3A`UdNqHR}TOFoJVlx7)dnRqB
z5#WXqQ02Mpo=J;o1h`=Yn8t=Z=R=GDH%uin02iIt4}<D5Bfwl9$kkY3y44mbvo*5Q
zW(0U_i<M>_FaloDA-*?PD|>T30AqsqZ4BC*%asO2fcCZKOhlkPy{ViJ<@_i|puLTO
z_QxydXRzFt^_#HVlf_0K9hRR2B=_)O{!ne?$;XD|rd(EmJ2@IJTaZ(G9}|s3De7)$
z1`qg3**`xRH&G^QmB9D62jl24$TjfzfZfmk*mzv8!+_-9trDAB|1J>P=m#4L-O#YA
z{7$Ic=$5@o17ds=FgM6y*u1==KPNmln^}v{?XZ);3ZUnjTe}CoI}$fKRRxTHn|2rk
z$BQxm|DO|q+v%w2{!ls6?$=>6I%S0uJOXgjN`2<ps)hL4zwW_haYYj;X3)dHrZq0!
z1P=i^t=I64a2(qo9)ZLO#~U-DKlA6WbfjN-7aca1yqIg)1o27)kNCRR2%SYKktuti
z<Ta==&qkCndVZD?ijP;$QIbHy(YPLDkfggQN)$>|Bq}XX(?m9o3dqgJRgY4zLGBq8
zLnyhR{(B?_<et9v<10Td`Zwjfmi${Z*W22*w~I*qTL{=b^x?9<nS~W}75trfamnAM
zx!%>byjw)-?|S6Jdx7A*zZmGudw*X4N&Vvaf;6xc7`X3rxQE3*cz*c6O()BN0RZK?
zhR4nM&kCszFJOtU+m5I`?m>>Imm8W9&Eaod*ii6qU2f@I7`nT$zp$}?F;m>Q|Mp>R
z<H179Ap+QsmF@Q%w&ag3K2_W>Fz1^en2*fwS@N#CA4F@|UR8;T%~dbFR9a^P9u^+t
zVN2OjaWza#!5f4?@XL@03s0ibIDn3H#4J>GRc9S~Sx1$!9$Q%ekIExkll2&wh3(V<
zcCwYQ_eU?9^*##UWosYx)WUGpLO|fUwfb4DWgmjd{Q3?JtV-qxbqT;+dMSjK1zfaG
z!@QFVWCP=5$yXfcLlsxEQ4gHM?w_<-Zscm~hgtXMru!L~)<lU_gU!fATgMg)^f!>J
zx0OI}c;%6;muqF;=l;+18Bo^3y2{*`H70H^%L(Uy<&ibRc(8}Xt?yy+BkU~@DPkBI
zlz2S>he|{mluiE;a3<{y=i8s-QE3`DZX%8y&IsU=D2jqE%AKgwxXD3?nHg@%NvgWc
zGlgh%1n82?)IrgVS<tAMaNc7SBxe_I(R6$11?|;Wp^Hc`w!Btp$zIwb&g|8<C_SBs
zjKmV=sL%!N;AR6t9V~Cj%8P+`WZu#Em>SPu&o~>|_}CQmIo)9OS<bhwnAQ_ZPN?%!
zaD{pFa$m7+GT1ngh#_E49sBE>bbR$($u$E1Izszv)U((pf38#$o5n^)IaJSGVqWaM
zP$whNSjmemvS-JXxXjmUU&X8|iEouW@a|H8p+XwD<eW^Tv74NcNBR~qlT*ql)4XuW
zMU+wvAD>dq4C^jDYc6_|B^SN3l8eS(c@H%yS1HL+ou271r@%9#pVUl;i5OJEf9t0C
zjWCZo6yGTYGVF<dqlRCV{Ls$`Go+y7*ux!Y9(qmTL0P$p)+yFs{XaN?*6tLrbbRj0
zxrMC@=WllB_biH^?7QW>Q@;mpp!$Y~JfUEcq3c8W_QmdE>)=mL%^sgSzS7cm<E85_
zEsTDgxS9AMxj6dE#4i$`C84y6Er;&5JYQ&ee)i<O=GGfeUw?XW;>*qhaI3wQ@A~Nb
zOPvRb%?D>+{X<>H-MX$qT~~hl&wD@VE!ORvJ^lwzz2;fJ;`LwiUGXjK`<-{oN>l5N
z-s`;!7xEVtFWerv({y<Dl@*ugFJJx1tMeQ3r*F0W&h_*?T%Y*KiMb1R;D0mDf9GoZ
zdbL&9c#y>^{>SaXWB&43MbjCyjFGt^)C#uUNl=89N40fTE2xB`8cz#bzNwBX%3>@0
zxb(>hYX#F<6~#)P8PsCY!<8uC`}<MZ3g=}+PUajxc3c!M3e(OX2-u$L%G_bx^)la|
zz@4;M8Ztf&0T!E_>F1l1`s2w9rYL11Q;uP;a2#%Oy&SgHAWux8=w5t*gT9AQwj#xA
z(*y3Q5Z`yFmxh#Mr4e|?<fvi5kt3Zyz+w!~Yvkacm?*2(5*8W9e&4B34adv_7@(39
z)s+0N#*>E=W6UH_j?rxdB8;inoa;p8B@dD?<#Wd<V7F|8E;hX;FBqX=pP(p3x2o^r
z1e??wobG)qh}**Ms~dgS`|{3W)7Cl9{Td<AJbUUN|L7L5KkJz*&)oG(1;4Z^i0*yM
z^&MB``KR7Hx3KNwCvQHPf8%D~;*nd<#VI&s*FROP->Z4|{?mOYa{fuBxSh+Jw+Mf;
z@o>ob8)56=t<K+Ub>qBxfbBcT&bM=&!(>&079ue=h1=tPtN_kxdwVLUF(%EI(i3c)
zUyN}zm`IJ0afG09+7-2S{@}5x%t+U!rqYvG3?(@qPtqAL$L9|=l*?=8O-#Wyu!J;C
zyQTQ7;YBcMqNxc~!Pjy*A;$F3KT$#xh#s&K#xry3@S6Fwp;ws+zMMqPxc;F8sVCzN
zfl8_YbHwxgh(h0=;i|()HytH6BMYBWNR3UaBpmdG3guIr^Mob}%|V(dg12r?y?kk<
zzI7qE=+0kUJgc?sE7nsm4n<UB6W{!{_YTe;UG@iOUs)SIM_`KnA6!5JK#r6j)d2aU
z<&v?f-I^ZbRb-HDb1{=ASdkYaZ=*-m<^a7@8Q%|3u!$x@yNYO9=p0Vy3$I?9!itm9
zM;nd^bzpnVMaouL5?Cyj7?rTkkG|po1&l3uSm%$ZSZ!x5GcbpZQDeFQqJ??XsYe2+
z70cmeQbMQ5E`N-PQ88)ked&o{D+LAfa;caa+mEGrM6Ok#9m{#KF??kR`<-aQ_r;Tt
zjre09Q=m0CbC(sLh-{A$>s82QlUN=Va|$G|NfdIj$W<)o;lm6iKc0lKSrNNI)8$gi
zLr<s>d8=n>=1~k9w0o1#vEk#|o3(e>g$nCJi`$Fq1`4j$*`ssVNyO*f*7pu9>?ruR
zX|8Q+Cm#9F*~EJnCw5El(elIcyIYb(#+L}J&>Oi-O>t!za%TRHjfZ3i8H~EVn2L`i
zsaSG9KNVN_`aDz+J{OU|+~7h*Wj<QI&kXM@B8}liAO?heCrOtr22kfW`Ap#Fyje3c
zo5V*&+f3>Z+>UdwEA7|6c7(8RUivFCoB2)?7mrb<cfj_NA?AVhnlV7i2r79|eV96B
z7apY+x<et!QQ{I>8Yj8)D-`|L^iIh$gm>B?G&H|INHFTdBl(&SURmtA`C75L7ru|?
zUB%!4!j%2Zv#;@&NiWYhOnmbna7X{lm9f(are@A*$pp(RgK3H{2hk@4$k6}5H6~I7
z6}}2&){Lkg^ZO?-bKTc!qE7bdEFcvoZQO{ja%XF(95-}xo*eGUj;fN%^BKBIN6wq|
z+V?jxlMk_7IX8?xXXJ(<jZUPDJ&A0%FiR$Z-VwO2e+5jJGuC$~xK`jMAodN9@N3;t
zB#~r%^a5sMB#Jjsu9_%pe9hNP*i90A<|kATPcSn{8muf(h@mVVD+CJhVJ^@fL5NT~
zHkRW0j(rYHmrVR~LQGI_BJFyxY9x)-epwZINA&M2=vQQ&QpC%Qxkf{sXDSmYZVez~
z=8D`ajbpsQgEq!7SOK?Kv5d2S&uEE0e&WO}r3){!<f3Bmb8f+fLgqa_%Ed=lRfg%Z
zp6n`&31&S8NiDgfH2<*)i`i+dymc@}S*Dh%w`moR$Y%$4W^P~^Z68-r!w}M8di|<G
zpYga!3^s}rsOuJ?d*I8~fqdip(S@#mJG#_5aNB)5dh3$5=V+nz=<KPL=U({Ykal{g
z_}mZgb`Jj{yEt_#w(xfT?GJ{v&S89)sL(mQykX<V`)=;jwmgk55Mkr>GFyPAPY<;X
ze*IrNhxylsnhv+Pei=O6QG+PpchPo8JQeCFdBR~i6%B`3d~nIlR1XIqjnJxO$0gz;
z`0N;+m1_8}@|P&izBtA{rKD`9%YI7sP(nM+*?v^E$&BrBP$;CBg-s~r$Ypk+@(G=N
zN(m_vCVANCu#ed=iNc2SPu>Ik^L&St-yk1`PEe^5AXicR2Zuv+J@5)*;6aTbHvcza
z^J+tbxPEneKn$&J@`*Fz>Uy7e45>#Pc+gTOcC1Q`;!$z6rvVvyHi}KF&x?)X2yPq@
srPUvc2Sw?@^Nvko`|1l~Kx|&!<QE%OJALBz)%CSv%Y$`wqQpr1f6l$PoB#j-

diff --git a/veroku/factors/__pycache__/categorical.cpython-312.pyc b/veroku/factors/__pycache__/categorical.cpython-312.pyc
deleted file mode 100644
index 72b08be3909d225117d074d9dfb6e72592e3c3af..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 35623
zcmeHwdvsKHe&4<GkY+R^Y4kvEiIIeaMu@S*Ltue0LLi%$u#GSvz~f<NBnCzg-x=|c
zM~-*vwsO{uaW<*(W>d?FTg!pgY_q4)rfC=N`kat9=j2`n80|!R!byGFY<k*Y@Yb>W
zNI&1-ea`4&*v<CwN3P&^@BHrX{rJ9r-}~<i3kx`0zk2y^PP?W#?my5E^|C7u_rK0_
z+*@3j8|K1%*b?K1d3Lu9TiD$?Y-M-bn0+{pm(%1AI}m4$<&Qasoh;54D;RSPyOj6t
z;X=H($BM>^hl^QUUd%IAGF-x*^JArBWy59c*%2!rTQR(1tYWx==OT{Nezke}-Ni*L
zr#toE>eGW#k60h{Cdv<2Kj_`hT1VK4(rPT+lU%sqRW9s`)LypAEgP;2yI<vo>)E?P
zyeo<nYwsFZY%yXzkrFL-<pqncWO_$IpLc8`JQa(0M<xVsbUdC2jwhnQM09-A8=njc
z@rXAOJQ<6`z2~BdQ{LFbsCQDBI2k+{jYSjDNZeoW6KcYskIxiNjSIoEkys!)9*&$x
zM1FiS5{d?6c+49Jh7uD3o{HqBp~%=|ESQK;zQ7238JJ2$V{xA)Q?_&0K;NN#LxF+5
z{-FcU2A&-{uy0vpA0q#gIxivhf$msa?7Hv4?JX|CVRdn|vWBhbvo+)0Jsz4Ek4NK)
z$atbJ9*>TWkKt)BI2MWT5`+n1dToIhmob@FPv>O`y(}e5H|Vov9D%?%@&^K$f<QnX
zP&~T>ffuKOG38BuAP}Ai1p*&%_o;nfHa{jrCMO;{8xbbXOg$!#LHw~024!?Yh=zhO
z|KtV1jg%~C!b6;Xy~=%RvDh7V^EkUxC{<sFEO=5c+JUq(?ql;{1QP0qa7pg8vSQSv
zbib_pxU8g`u^4jjkCek|$YD{-Ij!z@LuE;;`gX>awC&_hV3*C<llG+LEEnfrci_p&
zo(hv((q4_6GkHl~dCE`bCG*d0!a(q^*C+DTV#9d<8(i3u%tL5R<|DNIX1-d_*LfRv
zf%Dl1ryGLWWP52&;%v>I4GK|O;ofPFHz-8B;}Z#Qgr?2gHf{4Z_IkhMeVAcuJd()R
z&O|Q6Gxn+R=)^di6`v#1s1^_p=;gE35D$c-p+q3~@FXWQ1t=vRKpjY~KdbSq!i)oH
zSizanWi<s&;!egL7$REAbO~knk!cEqPDMgz0{RYE)@q><3ES~MejULp+)_!oxS~6~
zVvDq5OKL@Ls$|<Mdma#Xarm1n(<QA^N$cEns$|_Odlt(Z?s0kcpk>yv=qkH7eZ$o_
zcj{{Ujn=J;jXSPwmKyho?gqo-o#IBZWmBqn(^5sZ`1oP*$P41(pcs7dF3tHa3vL2G
zK(_(Q9=h$doS@qt%ky-5-V&hO<`*p3VU<C8E(uybEu;ppt&#;N)SYmD5#9WUIglb;
zJ<E*%H@)f{wuP;Lt@cP>B!9#bw!O*&6WI~tj1+|PUe$Kbuq#}{^5i3rJM2J;!mtxz
z5kc$W;;;*$hr#KRFktj>X}AbsSs0LcxEy793}vkd*Mv(@Q$@HGZ!5!P2&=;72&*GC
z;T49Iwc!fH)`e@sl}KM7t_xS;-Z0CZ=Z9Aw<b3rRSHBKYrgs<6TIlnJVpu{yH_WFp
zLU|ZA_0k|tC-(fW^ME<(8}7A|B=?UHo8+(X>Yn7eq~(>mr0tc$uyrOcp}~n{o|@w8
zeA0H>Sc6jDjAgtj;ZzGxYOux-r`1A`LU8G&hi%5vUnxvlUopP5XTAN$371;SX#%@B
zSJHAtYwJvY(t5f$Cjow{a1~I_%W=m6p=TU3&P0it@-#v3oGa--pA=Y*QF12pla8%O
z^LmqwORP{6pRQ1!^t)QyMj${#$|^mD`V`h+BU0+UtWn?V_oS9G$pwnk_^^fk^i~35
z>N8?GYwE}v(mi;V9BS&X^NE#eo%&3huZv}K?KG64_tC4Cr{9ydM3egKN`cxdV}BDZ
z>ifiM^$9ph8v(T@<SAF*C)TJ>r#sXq{ch+D7pPR@llHIui?EB~GIx>(7AyQs`%Hmh
z%(NA1h||Zh4KOl)50@-ZR|3XQYq=UX<I3s-@UBV`VwFa)N&yvT+%ttUMd6~P8*L~~
z79sSYC3w>7O>}9kE>!!k-b0r2mNRILP_Cy>YN_Z=ycq2)R@?M-p69ZE>+}AQanwpx
z>rT3oZnj@WZ5*DtfVQeHSh9Mq&E8J#4fh+KkTuGMEGLkf?Nj%RC+Rk{V!hT|k6M#@
z|EA^jIvY3R!l-$2Yi#DafVa+Bc<v~6CC^>tUtfLRdXziIhY%OC&Uj|r=Qv+Ua0`f;
z0)nb^^@BQ12vebiH|RacXz+a#qeDca_`SP8g+~OU!vjQz#{-Ny_kwme{*0fRn2LqH
zCnMhY)Z}C=8VUOgwBmbEWN^%@5)<(r@6f3T{glZdMj83_)QJm|?5#}F^mx%UZw$n<
zo<c4!6cobI@u18W$Yo|lc_&7^XuDQX+}jrQM>-e|N}LiR5%0+;7zp8lo}$NlY+VQb
zPWb$2V>IrK#<f~$peDv+7rX+9wWtsYd!uss#&M8ahK%YkFb*dY46BVXjALXxJ|X1x
zJF5ph$el3lyP?h=AXg&$Kp|3J7}umzYv^=hY7*>}&l`+;iJJ5V$HUny6}>qdj7<@9
zMZHw7{ZWvwV9Si95y6VzQ)B3VV#0e0{Fiqc427Y@3(DBBv4|wFcrYGB<QfMqcO0@R
zM*7j{*~qxwoF29)vU*K@)^aIJEVooPHW+8{lx(!ogh?S12lEAnb7I^uDHuYmv*<~%
zgotm;ZLXna>J4k1Pp_S|Zh7V7Q)81C{Nv%EAOtTM_QS68K`^6{9zDwM_l73Ik+mmd
z6QMIbJ>JO+iBl8f`g@v^ZQHhao4tqFl+e01wn-c79<5Po7H!*kd%ee22UmBjKDqkD
zvQ);xdc7~Tb#`?6dOH1^JF-&x(axL;DZ41;x`(IilFQuiC@EQ)-7{IW(*RI!vi1n|
zigxU>lro&^^%{uLHbXCa4bKm45cOFb$6oE}k@97=mgUWg(N_^wBG2)J&_Ntw6q^!D
zHFlxHJEhHf?ke;Ct*3rjiM`(ONk3b&ZO4w`5eeF`6nq^NFaKEQJMl=Jr#`VuFK2_X
zoNnKV6U#^7Z#T)g{prn(c%+tVlWd%BZIMBW<kV6OPX7wq>EPzE&%LI=fS^X?Jj7E8
z0M4uhpveGKl;JPvivenm14Kc%g~`WCJsS;2a<VZ%Pe4$v(6F5S)7uHb=F|eHueF%r
z6d)-LYZE+)Lqg%jf*Vbo@=tGGj`w8<nuGYqrs4^P_DS+K0=$orvBysZCnK3W$hjtj
z$n;aW<FD4skViNQSy-Hat}FuqQlZ9RKu-d50EMH`j82IAr*~7gSm6f9t&$~j^OP=y
zCIrCw$q95?DKKj^{M5=YP1N)rt^8$jiL7=SMn}e%vSbAKRfvQln5nRL+RkvRKwQ)G
z4wB}f5ttvnFA%G|IK>dCA_G*!Ldpz>bL2w}-ZrH_^4O?NWm5}jk=5t(`f4%WQ<D*a
zM1s-rXo5t7&k;6f0z;t{jmcOstr^SsWX4Xo8Um$gA~F^iNT8MR$nqH-$!8qrg2Ffu
ze>_tJ;b7=gK>O{EM+tF_L}`Jd)QQoICwF!;c1Cby>})q=>?5&>AOu;oQZv@+=%l=H
zXgcB<TWDhPLdFq}L?+o&Vb&}O#B^rtLU4RElBq@KjRLQ@LE_~r&Di3R*oZ*fhp>%u
zxeWV3*hn!o>gX9ukqgOK$Ks<Iw~~b|q)dTfKy36TQ;ZlP5r~k)Hb5DwQR1>i!$fdG
z1Jzif7ooH^<I+2LA>+aONLGnV;6_O@&Om@kOag&8G3^Qz)o-sb>6$=Nv*~gJiu0?B
zfOwL)1jhcaU*SG`mgk&BujNaQs=3ESN7YTo+B>c)(dAt%UMUu@zH8%G9Ods?xsvkF
z99(7NT-i4#L{H0NT}QfZom98(wf#$lo{ROV!j<o>pS$qe+inzgEtS@Z^?_9B3!?jl
zMR%R(UNyf(T(gZuA5N7X5#2`?UA3aCd8xMkoy~7=o?m;jcJu7M#Z`}`S8bG5ZA`7&
zbdR$Xc1j-a#ez#ampt`pk6-fm=cgBXZ+dnwu6gXD`_k|YPupEPQhk=kmDZ$7+N6@U
zR7v}%oVBp`6Hisz(;|6V=1$%8Jhs%<{$bt+dGpCs+t!P=o1T`>^O5E*CH$;_^OT8Y
z&FM0qROU++w_gce^<5snQM`4j!YekONmax|Pi(2U{NjmJakIF3Q+jo;w7U03aW8ux
zOI3`Cp0TA>t?xhe?o;C0-j5I6T(x(0=S_FxC)M@e4$b-IPox^Qq^h^h+FmbOs&9Pf
z#M>w4dsFp~&)RM}Y8G8BqO0q!g>URw>=+Q&Jb7*E`qArq#luJLTKSd3{Oo~G$|}Ul
zu2k8&?}iq9zdL@TY^UfxbZsK#J|vdyTx#pMoF}?lmbN}|%_;7Uh@*+r)~S1(t?+qX
z@@&575Np=VAG=d=L_8W4kDP?~F~s+g6mo}UKi&E)gLE6TJVUn?&su1b8}C#$y%)OD
zEc%~FwQo<g_T8*J_VGb+_i$?0u^W}g&|C4uSjsad8J@+;V@usz{$S_#_kVA{xaU}E
z>+w|g3DM)5Z@b}Hf7eOvxm(0_?BZu_w;XMsS-A**iWg6j7&U<wK{^`YcUV5>IA6a-
z8hqjUDF|BUtG>JO4^}Lk|JN&1>vv1O-AIeK=<TQMVR6k)R@mq3F^g=@|Hu7KO2Ib7
z54p}gcIzM2uG~|a_wVfXJ;nK13JDVAk+}8#KVS+82v4}v_?de#p@HYCl@td#U7(lL
zgdc`D(~>VMstrX<WKbQbZy<2wAqudBETbd{sD~KDV&2Nrny^c6zb?>u)AIUChy$!F
zH;F}auG57%5%`&<6ronwl~zDh2;~TOS`)qLd1aLdYAZu+c{6rhtccOICG)Omf}Mlt
z4}=Yt8Ou5K$qu1|HTXN25{-m<HZmcEf#QK;RQ;2z`O`5z;qIV!JaP`=21-httDs~f
zA_4Go0{T88sR%-AIzp|EU<f!ELW0rQh2`=Hlp7!j&g2gPR)Z`>pbAxFA=jMCh?-_y
zE~gM8i78=RE>u>x$?Un-BSWKpex6Y4!_ULubv=|A{@EG4^$#zzOJ*83{6Asvh{-a!
zv~e_2{Kj+-$fu)psHY!=!DF1MUs=d)CTpqp7<lv!FPQZl=IEp|=%kgdEpTdHrxSnv
zuFlTRoain@ug{G}B%;?XkEYZcjM3A(h}<@5o)=m}uS)pSK4i2pgh=$PtaEk$#Qh&w
zWwMNjFrgoT&nZU`g~CWYfkfA!NlA+@(`wEHh(3_-Adj|Fs%8Yfe4&rhm6^0C!=KGm
zph}Qg*wkz*lTko46p6C}89l}-j}s(TCRJ8Y<|`91U1lVsl*n%)b^QAXUg7TcaPF0J
ztKRp&>%ZaZTr8`6>+v@q|K=8`6PH{?VsTT-)%;$3e#3{`KG>F8-E+g$!-%19sx%_H
zBa8jd-EKU*5R~($o4Tc@?yE1}YI<C3JS;jI5H8lPOxJcwwVmnO9;voR-11DS_F2$s
zi^0V0mMQVjiMepPbwFwzxOP6(`m~5BM-#%O;u^7Kv$*#du;&H-pye};^9&KPcMe&;
zxR=j09pS(D^Oh;5$p6UGwBvEx56UWbY_o-I=#+YC*zyv?mIl>2pHNgoP%bG?@k$-{
zg?U{muH(kv;C@q6lR+h*VK3kn6Z~{p!IXw{{8y!87?r<ZN%E$c?JMhm34keXJMB@2
zLcc@pV}b?EQmQRVl&QH-Yib!a1~}KWX7gH-mZbHH^|CTYarE|r&1VmO14E_l@qSXP
z%Q9%l7L;v=C*y_;LXJt&d-<&a+bHr<IbKFk#*~D3Lla{VEkSZRk&FG*T!#IkwMs3R
zm_DzNn25=R3lZ4ffJsJau?Y5dh@K$TlC6N0#xo{2nz-O)9I2sJCgSokM$#M9$_$>2
zPsFAYKWCXn+ze5{R4k#&6y%Oa;}b^tvp~Xv9`DJCiI~>cFFTcntFRE#3d5Mlav4aJ
zAtlGOkXB;=#zr<8m5h!0G30Y)3ZfA0kr7lV!oXa{IfRsqchA@;lMEsmXZsvhlMK&@
zs~6TH$T)(rSSSWa>9fo5F;8xkaFmh^QxcaP0~3tN3voMQ82po=UmhFu_;jhE;eI*p
zdq^3dLjVS{g7ef|YJG3b&0_yjX|32W_{RxxX!zeJuaAp$CsL))i|*$E1!og)y!_hB
zDObaL&2uB^)^4e_JJq!5hHKMeS=C}i-CN^tj?WFf|NOhprz$qgx)xo<X_r@WdDE^|
z$<;c)Cfz<DwGX7*_et&hZn*X#(^7HC8!x@~(xnY)1{$xfNv|7})(wh>j*2gYZxu(V
z+~P9X(n0|vXfMZ6CqZj+%+lg5+Ike5bAjxIR*VtfMD`MkpaDBQX_6<KAcgF;%<ww!
zGcWbDM(XQjsCq}_aOkn>(^uxOz=nZ(f@{W_v}&X^4}#h<tt&wG2hV^W#-^RTAg^N$
zCKz|UanYM5RWPHsM_KQNRiQ0=;b}AmtBozm?RaMER$%Cyki5^v7NU-GGfooD$jgsF
z8dV~TFDTEn$54r%TJ<N0jnj+)>3X=;Yu+D!cl^Iu`PS}SEO?irNJkU9e^S13e$|Km
z5B%x&Ua7q|)&9g{*T!_$fYddR?%FGL?M-#<U)*x&GrMKQVSd&Lb2d*k@aq@%TquNX
zi#ICzR@*|fcGQbd7h6YPM~HO<u*_J-LJJ3$2NotOQj{&qMl4_!wRNboXl52|1{N$Y
zX~9|q1IyMT>V$m<EYHsJ%swq2YtIFi%RyEjkC4uZbW~n}p}c}*0m>sQHb=5RDKBrP
zAn7oq1M)(Q#ngtb;Ih&y<XypZ&jrvt=ly)S!59`ygDIVXw%ly(CtYf7Gj5$I(CtPN
z8bh1ZY%bIs>V2j#q1nfnq3onPS%{sb?Dv_Xq|-36G!kTCV_XT!iqP#-l#wV#%3?MW
z>iqo-xiJ#?Y$S?7%$UFpSS%>xKI3`RkuVz_L!4&oGL0Uo{nu(KdB~`Fk|l;wD}}X?
zgUU(fQ8-h^c12OLR4te7iZa?2ia;P=6A0)}1zMchlb#MwK1=YoFl7ZQl<I@2!399Q
zNGw7IwP3D^pqLtG%5Wku66f%r$#WHRV&e6oxR+T2BV?3Gj4Xw%k~0ug82G3FRfk;K
zGTOv6<4HMVJObNC=pk4;mgSVA13_IBvAnv~q@OohO90NR`VCUhQ%}KqY28xCN7kB~
z)j+y#WHd9YP?Dd_ZBSM>ejzQ&s^TkJL^G-kieYYpZ1R<<XEU!1gK^T^C~sS^<D^g5
zGWHm;piKI)L6j9pBxA}R-Rz;)7N3eD%^Lmz4+8IeG!9mm=`h@|<A}htoh?k^8Eh8e
zSp*pyO@QzO{U)O=nWA$+Pl#4PkuVnbm1i94{Ao`oGo@;rK1o`fVN^3V>VBqB?qopD
z1Rcc0*x1B4WsPU72s0%@WGo2X(fDX!q)U!BMy+E}!VtB%L`k4C+L<y$DeWQdTUP$9
zKqNX4V0|I=UVz5Km^PjWD``tc<QlTdTxVA1I`cBMw0fB?rO(vKIB{d@o-p2J64;|O
zegd>MGYgrnGg2hEZ-0!!;(rOa4C<tTbAxwZf5Wx@M|Ix0s`<^Sx(&1Y7t6e2(+06@
zgXrF{R8cL~bfhZQrYm}+3b6J2Qx$`=t~(vuZr2^1J9w@6`mq~3j(qE&Sa(!(R3lt`
z;F~*58*W$ZzVyrjzi{lv=BIx3MX_S{tP8>7j)S-Bh8CU?>mN(kZ<OjcUJc%=-z?S*
zu@Z+C9o5&i+^#>c5EL6a(+%BH1Bo6Q9=}n4Kyn;FnmY}x>4r|Jp;PSIk!t7{9kol|
zRqq|TvR-^_dumNzs%1yYi`e?52JbuLZ;y*>w~J36zu9mC2|-0Y$sgfw*Bx1i>(z&D
z)%S>XM_BbosQQ;~*B`uQ)vJ%+YS?n4{-ESIh%}4Ks)xR(v1Q3!@@vgv#p+aPo2sk$
zc)j@KkyQUtsr_imJ$&D4X)Hjqka}gKNy94J#P%&x#g>IL5)IUks-Uv!6xZ!aRSnD*
zE*95aIwKbQM2GK-d+WLSVg8Fu-O(@pyka-*LtkX-4}5X2h^s$}==y{49?bc7oC6KE
ze{DnXk=;4aZ2PF#Mq#ycpw0GCvyH;FRRe2nKX6wKtjqi1x~hRqwvS7y2Davfh=f!x
zVgMLPISx#gW4H{0=pTXTFq(RT=;uxo(VTOET(KDlJREJnF$S4nv?&Ch9nucFAsuNL
zNd93`nkn(2884$e(lF%B*mNSqOhS{;%$Ch0C#cy>%93YbaPkf1o0%%->t@Ef;WqRR
zDjAn=-aEq>5OFP!l}rq)W92|>{%OrHRv&Cea;qavq@6A4c<5+>L<VW6jh{leI}OaH
z6D>6{lukMg%w_>hw`<jwByr3nSpb=kvX(TG%BGP|U;X3+`DB~^OhaD>r^dV!kWHxA
z4I(6AVhnVIDdQ-UM`s1tZnhE5f;Ayb98Z!U*l3~w62u?`29Xd4KNr#JRD?rkpziPS
z9zGRevMFF~iXe+pm=(%x5_Gf62ViSiq+y_@zJg(eu?Mg*M8Oe^rp&z-2|he$N=9-1
zWh^L+k{zjx<yt5W!_Z8;Qq0JVzyuCW0fV6o+C3R3j2_4a^8BPMug;IdtRn*3if+nH
zs9o4jK{EoMTb9dMF?w{KCo-9F6IKc&CIa+J#;e6@6p9UCUNWT$HAl&mIAH?CWr}oU
zO?iYDDY8M$P9+*`5@fqhVGxO!4A_AFWD|mnOYMJjIx<~p#C(PqZs5Ck0|K%pDCer`
z-#jN(c3v&J8ctPinRPF=wiA<nyJm2%WP!g{cVqMZZ*_?^gR{j57M~a-?9+HDOh7u_
zuuf`NceU$Q!$z?l*rx{JQdLd5s$HsTzp^R4W~;Pj>q0oa?Vz;npg0`6Sv59W_(@gG
zI|XkS%=LbEO6)z5+Vu3zs%HShTYMx;x?R0{j=%ci!oC}up88g!SiO6;2*F}iOS<YY
zsp>KD+2?O}2ChGIwISWLOX}KnEqJTzsT-YvRMiV8;@IeI-zjnE@cgQD`yQ!%&-L}G
z_5&iK9IXf;U7tICZU18T&}UZO^BfOBgY!B5i+d$p?E%6JKoSnFW)B`a17Bo(r{b$I
z&U4P44YuF0A^2|7&Su*Wx}7`QY(L~|6t1Y+xz_Q+%@sS>+03!Rdl+Nm0XlP$6a*2b
za9o8BILN`79cBR}v>LDm1WHL>!5UTtYuIM2IuzEKZX-^*j5g8*9k9-dKde5`!6d*+
z+Rt(V9lx^@q#G~L8P2e#TSrT(7zEXi?&YCBrr3i@0er>5zBe2O`07A<GYsM|z*pyt
z!+=i!|C3G=9kx}2ulkdNwAs`DO@nI(00;#Lx3LLjQ#Inqm~|V3x(QI$cthsZiUOOI
z!q8)fr$XRGWo4jl>8rp<Bd8q$Z>JS)0C@^fW<>)oGqWoKqcVU-uBf0?thMwP08IyF
z2<nop$BJa@u?QI`k_dYX=0lbYK2A?WI5D6IBefXRakBJ!JH;~CSRjiEUqwVFPk~j8
z&yeBa)HqHY(9ni64mx|ljL0gLp;H+I0LsXD@Gcp*%IDC@1qK&|Uq-=kQab5yPmz1e
zg=EXU<+vt-b#z3JfjVbJ+ObM<teQJG-+Fb`@A<#uzv<}H;N30;@5+APP2g@9fxBHx
zWtHEyUh1E#NL96^%6zkqPnuRQ?tJPG2R|CT?LN5h;-$X1s<-#g9=RC&<zrW-t`1#(
zNh<8Q;XVj*wi)E?N|4l5b?M3usj@>{yHl#%HS509{y5~H?OSr;6u=Q89j)yC31C&=
zT5=hzD&uMg0J0oh;Sg?l$Pp)=^s2MpYWsZ~f{)s2`yGxS)K~Nug3!S$^&<HfksJ4~
zBY3bB{lr0RK?^_<Zw9QG)UgyNW=-GXqz{2IW35W<P$B{pnZHX~Xd9cCD8FM;TK@Gx
zobs`%(sy<)*9s!&+uC;MV+MF2S)i;U35vSQa&2d!2Gh^4!rV1+E)oHy1L=}Xhv49Z
zR;IFn4Tw}pq=+!s(Q^V2s)CISdG%dA-NAG}bo9eerFp}8ykA;6yn{ZAyyIx^slxXF
zo@LU&sTnNBiFTolAa4OL(FtUKsMnKiT0h-k=!E}asUN3pGld$!7rVLgs<*bix$Pc~
zj33}<`xlE#FOH-uTBVBC8^x`6Dt27!PWK;_`VWdbhQy)g#KXtZha=MAi1^%ySUyTd
zYBg*dy!G;%FVBUf%J%t@w11oA-?k8!{QarQe$g{{?P$s~C|34=>Y_Si9guMykvx^H
zUN>TmC^h*DP-<gcl5Qa9(pBIL0lRWu<0tZIOp^W<E7>fTGi9TAv)F`&9L><)W!lNO
z*hw=B5c~@HH){_8gPaTPF^N^#ES%w_?Z>XuHR_XoM<2~{t3(6XuhU>fbFT-~spP_V
zlI}w_Q^VXswhZ=GLFZ1zB#q{qT_7}YI^P7HGeflLpJ=;vKNP=Fk|G-zALR^HmhRk$
zx(QOqsAl=Lm*GL~Rv%Mq$=>U-d{)h3*lb$!vhcN>kWAe`IwW+Ep-Ljn3J{K9JY<Yr
zEF7a}!n?w83QkaPiGmpln1K$lKftw26gB}9?_fC0j_1q#4Ab%TQj)x>$uJD>6r&u0
zfg55^ge1Ks7X?N$Yt>krxfNho+<=~GqY_lYB?BghI$YV7&1&ob0h<4UOu)~j57$dC
zI^1c;TFJ3?e&nWO<DC{?x}`^I=~;Ap((Xpd-8k2sZtjtqdlq(nfAD*Q*9X%3j!XNF
z-+X=~{rqX^`O`qltp$>!X}0j<OOP}<*UWE7uh}cD*}J%=E4^mFv}Qk80|1~;Iyyhx
z|H1x+Rq38#sb@IVaSWoRMTal#=#(6tS1Zz82c@oqHyuNFjx(0y&=IkH@Advv`_me?
zK^XklwcceI+|IQ}`8XNr{IJEnlg~!d8knPDfr}gdRoRYI**M6gT@OH}ridA730ve`
z*raB$mMj2cg`9|5#V(X%qVh&LCb2qzi4t-*N%2ofNpBiY-~a$3PvHRwK;(hT$TI+l
zd>s7OKr+e8lKCb8B9CbM;7@=vv`yF-8=HXYCl-Z@Jsc%Ux5G<j9qa^75MFDT(;2To
zPHh+|0Zqab0EGO5a<KC)5R|af7v7T>lm{7z;FRgO9N{OS$hcN-$Y2=@=OOXnsA^uP
zXtQz-Uc&s49VUWV4e7YNJ0duUJK{aWcB(fRBQGzBQ)BTC81FHt2cIwOxFZ?_n5NZh
zQfw$lwmNe26&X(`hNC~QEt;Hwgd84xVkq|<nomU`t<qqe{EQHnGeL)h<iW#PSPWip
z6ns$!5*v=#8pfmZu}-fhkdOPl2SE;D*im<UDs&3;Sv*4ZMZ9OmC(e1>6xkK&z~EMB
zOzxJ_P^Be4c{+?8)s2Sf3@|t}^~4X_N_|CrFm!}v1q4}`Q)aV7A}<{Qkn}6Nsnpd@
zYNtF5tf7yJCgkzK`Y^zDW;gV+qKFr#Cg3Y+{1I_P7ST_;3vy2G{_h|lqCdg*F$HF1
zx{Ev0Mx^+oq?!gyf~y~e7(sai(sC};r$H{Wot}hSC6HMPqE{gX+>TfV1>*Bym%`+B
zRxAYJTZn)kovD)<J65I;@mYn_h!W0Fd=bsCEZAe~nu^p=kVo0n5WSs*Eovx{O$&#}
zTr1|^iqpDS_uKrrsmIWV_;wWd3J2xNm31F>f6zU@T59OJdg|kKf7ty|_qEkh_im|v
z&+On*S?ya}-`qOqxYG1t+Xrn|w_RI*-H~d4CRO&V=zf-wwKDq7%fZqHv`i@7=a5-x
zhKc_vBAB$0p=04U=_ivDuE;^mvhll#+nzkRi`o3K9QOis?kelty&9|YAb+=jYi)ld
ztSUY~{;2r$PRH5#v+2j4ksf<S>^KXHuk@iQ>ChBC1Fs%@{<b%8y<db+pY^H6Cq-`n
ziXem}uwy86FA41SGlAWHu)S8U@dX)${=nki(eMBi`p4+m-*F0<*<To^z!13!H^30N
zX*?7xzeq~|&o!*JlVNU#a8zqq;Js`M*}ol?|NjVl8%TWjqmuXxGzz~(aG{Zc?Fh_i
zc^!BN{|t$i+t268-Oh#-a$J%i#U14Oc_?*A_a6zS{LGa4|0&4wL%X}b(H26VwTp;l
z!YlXBBFKU)rpVOH;!KrZnG^43C{#s?uxRCh82RZrZ4W%D5HBOlmI>k?^%!#7S=gpP
zbj+wAg;E-W#l{#cs<O^?Xw;sOrZF1SK$(V&2A?4YT1L^)EpuuDp%smitV_$2OJE0=
zA=&D~3!J27r5Y4laT4{YW~4Mm+3QbE|EskA*5M_S<kq*7lIIDj{R!F7IMx2t^;PLT
z0clSly(c2=iKOaA$Q+^AD>}T(ZHkFlVRLy85C8Y)Qdi1gB@m^PbLqCIV1q1B^H`ZR
zDOB33)Cc*@q)f6bm8oN(c&UaY#Wn*OQPQTUn5}fQ5KIw2ed*!rNYQgJF6jT_`pMVV
zk3froEgo6<KmrXJyvg?Q!WD{O=d;T}3>lUb^uJ&MGL_5LnnENI-3kIxU34Gf=XA3{
z<^q=)wDgT7vZICX&?@{IQezc*xJO)tpES45CEkDe-Iv8pPo<i7e{SWQ_wt`|T$F#(
zBA%MOiz4wfw;|o!FE#gHdrE5FFAkneHHV-JKuYKlK4lMgid&%|_~O2uVwnu#qtd#*
z^?6xfik3B7+P{JaCg?|#b1xMT!33VtvddH&U`p3tR!W4TfIrWhfvu!v8jCe#323D&
z;7dPnF-WXk40>wDfyqqKgWwQcPsnNERDp@ym%|~$+-WNtpoj^%2yzQwr+}HXTV>+<
z1w_DTZ(?*hPOVheLdL1pHod}7s$Yw~LTi8uhH$)ytE_!1`eyW-XJ%bX#TDsduT<=v
zD^E9eOO4&|L^*3)bd*8qbi=V~-X=LZZaG#h;*^)8<||~}*HOL^CYiBn>I5=>ecA+@
zO`)!eg{)T-<(RT#TtZ{w%%Bq3!%a8>u9sm3fjD(>kVXA8VB0jd8vOk!3t`3*w$h)9
z*M2c=0?YcamV>b+mi4RC{gR=bhJKnH9n;SPkRtpbm+PzT^_c9b4H~My($=Gjv4!9{
z@*@&qetIFU2HzQ)B7eqV?-@8=Ydd!;N@5Y_g-sTtkPJf0;blsoII_u}gvKMI@_DSi
z`*y~C#yun}m6=lyS&Gdb73*cKS&EX2-o2>1oXV0`@7=c+RA59HCB3koQK13YVJ<CJ
zSdFd0`1e8Zv0e0o(6+Fi0^;X|-=^SQ1Q{!=ZiuNLgO6N0Yn*(0G2=KB3&>7KtQeCV
zZI>f}Aq*fsTd1tYE?}bLgc=yBP*jmFTqPB*N)@(#%2}L8_$7C_A}wya>0Yx`S^d`e
zH_y-6!Lzr1&^li!c{{(`^n0z}X<b<HyKAp)yuR_HUTNJk;=$)qm4|1a`rJ-Mz_mts
z#ao--+<fWKd&2u?-#t4wD%G#O+VTfGzCZB2frU-dx*bwo|Hse%;d387cl}7J?73OT
zQjzD4k=I5p9!V87%vzyDn=SafkjlEt8ucZ!==t@&s{ShL53B6`jrmzNB^tr<G5Tf%
z4(6mJB(6kL<y`uvLoULAIhP7lXi1ye#hJ=+FQY|tv0Ns^446P35?zbnL94#1R#=jl
zfgQ+xIn&dj@Kd1n2v#HcVg3yIEIgxIp_p2kAYIs^+ujNM1wITm^)$)JaxQf|rV$^u
zQ-~HmB%RR?B@BntP>RC|D=EO$ae}Xie30^v;2&V%v|XdZhOC|D-5J=sukC4XGU<KB
z2af>kC!N2d7#S1#Gz~VKE9htvdsUTF8<k-&Mb~P~=9ZU(4OLD#1Pz(-JgHW|BWS#o
zlNf5d6kqMSy&$+0^3De_tJZc#4jAi02O$O~rTy3>Jo?cQ3A89{oDAdu6R~QAX%%Lj
z^~?rsQ?b~|VCc-+eUT`cnvh`o5dj@7_R+Qdb^rO#yKA2C@$7)+bfJM}=qZ?X6e#03
zT{LKb(>>m4m*2ZH0)wJhyr;nD(ph)mU!qvyISN`RV5+>|rza*1&5y>}5m9mxMII0l
zuE9&3PUxdFBr?o+at9z&ti`}kpS&ymD@vCyw=E$29%cO=MHK_8l0&3GSZ-UKRO6tH
z<V)7+6#_QvqcmM@=&?WR)xX0EkN+tO03fb<u)6I|O~X6>xBaP__Sxda8eh7mORDL*
z+L{IsUAH4u(~nrs%CrX#hB{~Mi=|bw`9E^i;tZ;6gpjIen|*T8Q<?U(NuD+&C@Otp
z?6t8=yXH2gihKaIuA+-&zx+5IKb?MU`cm_y_<Z@TV*j1Wn#BhH)s^Y4-BQ=?6iyX3
z?7e<QYB(w$52cUCq~o#F@o}kPeD(m&{$F}|J~V&mYRAGaiQ5i{^-rftpAp^9Fd)91
zxg;1z<j(z9(S0MVHiO9q2|1CeITs+GM%d`D%!oG?x~O*-4#67AHi64Od)Xl9&^P9r
z#)R|(tE$=~mN0C<nHe|8wt`?z$@2`^CnBwUp*<$0LiKMmSe27M8xshev@@8l;5=ZA
zJk6#WmVO|@ep`cD8lcVH_icOk`3#$1gR434(;M_c^G%8=KqUEqZWOv1t^91@vd>VW
z0ZN$@PETVX1^`F?E$+SonO53>=S;q0CLqItR*JGsjKhGL0f_DREn5Qo08grG4Uf{w
z03)l&=UJ&SMm`B6YwrIU6<DOcm0<#d2FnG6E6BAfDNF*Sr3058nwpr3Pd6GtfN7Gy
zAW%RERc4%5zBBOlz<cZ7?|HXpKAiUV!xAX%-!1ufr<(Vq>h_AYdvTn1sea`<hu=Ot
zHzdmr(=FSjmhGwfK5^%eRF4BOHFp|Y-fwuf0rqr_UDwwW+tnvE_FZdEH4cDvZtQ{{
zf!#l;UNxWi@Z}F)7N0)3xcv~+2{kx2Ty&?XG+pGCioA0T*IL9PZ>s1ig)*aq#Eo4t
zi@mvGNACj+d^hB5aNTA|-+EZEW~3N$(nSh4^1BT#O^)E;WP<<*yL2AJ)MVFS+-qJ7
zwxoL80rGheVsx;COm-m=B4s*Ec3nzU#G@%~(oA+WlEr8oY`Uq<4SJbHk6Nm>A#t<;
z2DiVWZ5VY!%1T@4U<tj;i;%fc49ZIRk!UDO5UJ%?*cV*@DziHJZ#|_^w#ll~UQPQ|
zt2{V?guN~x0nsF+F^1DbwK-ZE|DbXj(9AqmAjylod%sIhOz4m&qvuyCVt|4-DHuYK
zDPx|v*@;E@>o=fr*wQoNT&E_i&6Y}N(O=L8n?-rpU`23~cX9nU&VPITrNlcgzx{Hm
z)_<eeFFIZjJ6}j4gyRRru(c*t)sZS&3-+X;Sv>wi`uJ(-`03lL&cLbN)xL$Q@9dvD
zG9Ub{V;@glANt`-Qp>Y9R-H*T#OPER(COLN&Rz_sE7nLAYs8Kxq>AmS;y%&QM;f}8
zm?EGmsok-{ktLuaG{?|mHy(`W5o?&@b1rpXTvk>m57#*Gmas*ex~FmaRaWE6i-u0B
z$R}d69YpKk7e<yD`y^!({tapa#O=c^P8BFtOE$RbJeTdvfMV>}$;@LN#@GQbjI&{)
zG`=x$%h9l$3?RhK`dN;G-{MBI5wZzPK>ulMaxOChKphKs-QTGoWRsk-^(;`VGICJT
zJ8}xgPlN9QFlwhYc%Y{=91PH4MAA0O6GNo7gy&u#uo>0;W-=4)Pyn4JXWEQWZ5I2+
z6_2|xU?nSiqVwSmg#iN~ln}PA(buYMeov4h`+To%1;RcrrP8esM99Q54vTA^sbs-2
zZP82~P6kEB!@?>25Fq5@eDZ$Hlo(x!2iOT;+PxWvidBUt>1SzHGA6fJwu7r+R3DFk
zaHiEM`zDtq9Mh|^u;&9(xoGXZg32IuEa2)_Lc8%vP2D@~Z@1^*$C|!-oYlFVpWU-q
zSu5L~&kswLn`fU|DqHbZ_nY09V9MS+yK~W9pLVa3+^gOjnr~0FY+NW`$dg*O-Eu#1
zH=pujh2xCqk++YCt(#Iff(i$i_`Z&#arsIoi6C3)zs6R2m_MzpIJ{9Va}1@fpRk2i
z6KS~^d1<mc4CG}Ek(Y2+rQu1lJ)*B`B3gmd@SO!5<b&){UbzoD0EzaRkfUbUPwfMC
z;|{cpNK})Y>i4L0-H)kwLjNv|;mbB=cEDs1m$YeeRrm=>%Kj%TukXayD|9~%G6DQc
z+D=pPttpUHKB%A~;0MvQ*^pI%w^|LV4J&HU;=bga(|NMLyD#|yUqQxpdIDc;U<53!
zpG-Lp&#-fJA$C4bZk>!pCA`;3UxDq|T6|v)RH%;SVWNt2_O$=wiup{Y5=EYjfZ?U2
zVLB41xCnMI#u-(}hBOXJKuA}{%xp*FG(QMzf|n``VZ1Lx7&%f$g$=K!4f^}Yz|;cG
ztKav%>zm*C;ot{@sirLpr=_N+pvYM)Ysbf|2A}<t@jn{BU3TJH{Nm1U_oi!mrP|(w
zP^xxEs(i<dvJ+x3BEB#pm5l%|KX8xRob}k^WtHi&HmR&_zD6qBFuPOT;;X*7m40~B
zWm~1Ptqa4~%dekLl^vm7Uw+9Zx$9ng3Z7n_^>;m-r)swNi+g2U`SX07cGQO}`|a5_
zH6#LH`+HW!WOU90k+~Okz~7_2nPgvJtRafi8fH34><T`<5*}%&oSaMF$5_t_<Vf0=
z;TOMw8aBsdHdP!5Sdj-GJhIl*t7uL0AS5)`wlc#~1D4aiTcjAA;_FE>JdR9bkD0X}
zwE6PZ{(bC0(^hKm$MFzBr6uXOqV;ITnRIG8To}KChPF@tFKu_xo(_6p#2p;L*ICG-
z-R#pCGJRy+(~5kK9H|($k}jZwWR8qQ^=+m&Id3CBXUeBgl*6siJg8emmJBlgEZN0A
zSPZANT`xpolF5HYFz(-p&J9rKv;>1c`5Rme0h22>Dj|~}f*ZN9adOsi8_P_%K>@?+
zJ@mxD&2~IxU{jdLSSI0|TPqkWcOShfS=R83lL}|(KVuap&SiT8XXu_aLsmt@4M!~F
zmK&k~9H%_=f$)g=0k%;bT@H_An?1;JYYD3S8JY#CQp&BUoOQA--zk-K-s2q3UYy7A
zHqZ6XJv-+R-SvxQ6&Hm!H_h(+QQ4|RPj%Ykl|0_}$_axvZeG~A0Ig)-Ezb_vzHjPT
zSoMAX_x$7ly8Ad((k;*PKWbSAazBnEJ7fa5OKRD5?UdAV;O5f@aab+&^pRA{QLxiU
zD0&*9k;cOvwGOdy-PQ2b=cL9hw>(?#mY`vGak99M&iu?*%sX(tc-FlHmC3$0_svBY
z>TZ?~pd-aq<g@F3A(bTa+7&H3w&Ca}x~pCq6@8Y$9?c|PeQ&s%@!1OWVOT$DW#TJx
zn?P_b=L*}dXkW-8`V^_C?wpGtg6U}?OE~XJz6yUJj$+?kOY&dynkzNT6dGYixBwhF
zf5mlKq2_sRyy0iff5olR1kkO1rQa--voaH?sqesTIemrGx@+I3V<fK!-EE{}0UrQ<
zP6lB>j@Qcp%t&-J4o$yuk|sI|gL*GT<U$NB9XtN2ZS*Ymk*1C$fcL+RKxV6w91zcX
zARgnVM=i^}okH*di{syb)N$PK>AoyguDR<j?d&qxoQ*b!N=%o4&fY-K0`|r_IBoT>
z8xj678VXZpc3@{So}usr<-s6RMt=2|6ia7;;Nuqd{sx#S+p#E6#6}L1GAkdFE|Y&g
z5DT7+#27YbAXygM*XmGQE|A<2C~2oR8hH>li<&|7S7h5q(CIi@{|dMGSeNMTSgfkW
zIl;oC{6*VRS^cH(d%JFywJ$yn;%1>hDqsIe_u~tzem5$XuV3_ZrahY^&n9v6;ai>~
zcU_bTXANa@3emegRnZ5rep$`zAY(WL0ty-a<Pf;^zrf>9h)|H7KoCPVD5C*ehCiR-
zFJ$b1zBuueuPi9oihoJT|2qZ$0|7uiLl3PK@mCZOX254I$PZP<M*Yv&u%1t4tdlW(
z>S8n$%)svx6hn!?1?CJ&k>~tR%KJIxErx#HFmdrr0c(TIGyYek$YltHzd>ZSjDhOi
zMML_}@#+=sUXjyTd$)pvH{qI1Qq87xO|MkbyAYIWwnHUSQGM~yr6;5n?Xv}oIH9@s
z&AnGwUEG^0-vr3ov__^prKT<Eraq~uPuy`r3`fMKzEso5tn*@r<XCyfRVum~7Tqh}
z7<_Fo?OrLtBXY;p)@udg&@s`y@|OGf9g}zNl{ejcmmID)@?XpUhBNJGkQ@!S6cf7-
zY=gLbJmv^u>_MMbC`3O55(NkZi3AS??G!vm0a4ci5tl-c0y3$|xFKFnL_=fnCo&P1
zt>nK!FMo{!cE0VO(9`=Ad_Vy~DuL{`WW5;?;KC0m_#+Dbn1Vk+ka1w!;3Qn)f;{si
z_>pIxrU9RkmOs&flK?S%WSN(pY|t9pF4O(Zl%4{T4#X+<Un}2I{;A^-Z{Nk=8@H^o
z!&~z{o@?$Fw;s69mD|hjb-3--ck8&k(oZcN_V)W$Jl&<IpC0GS?a%S|I#y8Vci9i{
z_iC!>c|(nTKYwp?IfWfAd*i(tmwolUngV<6-6~d2vAs+whn|}1>}B`1;^|&ffqe&m
zugYd$iEWfu^r^*VZ=!@ncj@U~O{u-=ep`jT`t#0OyUfJ1{)EsK?XoIQ_dD>g?5nmm
z!&hzX_^vHKY-eAJg|fw$mod8BRzJ|KI5q7vd@+_CuNb*N@|}?3Oq3$<#iwl8m%U~A
z4x~O<45leH7dLc1Ny{Z8lq|QO)Ft|VpB6=qk0u~_*+&yJOf=WHfHXDYz>EMeuqa$W
zLDMiR`szHo*o+HkDIbzY!#Vg2rACO*C&+{2C_=-H{WL`6E!F_PRdKaCEXxscmYaJS
zEoVik?vpiv_uqYP@$WvjXv$MU4w_90{(t+qMH2t0J0cEa8hk%7@KSV!zM;tO%fC9v
zgh|RbQvZMcj$-!Keb6@)4bWB_2MmJ&ZVV~F_iy!SMO6lnd)K6I5Beg9$@eI8%P{`V
z>U3|`FWo&TWuPy8nDyOHhd~tsp*H!TDLc*H`_k&@>YmOSpRUt~)3L&=<ueE^yARkx
zCT56m5qc?LwmRGBX$JyDi69gKx3Djnu~<3LAl~Z~;VUwcL8MWZ!%B5Vv@d~0i8|bk
zWPc46)K=|7U^8H(aUdS99^Wr~w@~zNOL?E5Z&uYW`-s(2?aFt0-|n5SP1SCsPcl`>
z;(QhHqhyZAGKMif#se(K`LC@_TE1r41JyK`VoH&78AS8tB>sczV5>PZPDjYz<9~&R
zIKBcxHF95};X??pO<8WlQj2mf#1`a4;V1C8f|E6MGl{>g!N)KK8qQSwt1Bc2JNcb8
zyCejM-k0ogajML)G{{hm(IjAB<!>a0$jyu_6I+gD4LM~TOD>P#K9xT0i;{3KnVs&&
zqnwiQ)!8kP#o&f-`6@<ttbuH~%HLF`lC}P2nV`rYB*2+&>W(S_R5y|;sW$)ttrS?#
zw_r%+HOtmCTis-@18T2`iPJTBn#q&9z(~rREQ%W&e7Znywajl>&L(m!d*Q%N+mzEQ
z4b9Saf+4}{v>C?H9wr-eSBkEt#j-lFY!yCXhj4N0_Vm^R($)jFtDe4k@>2Ds(s!!g
zu9m91=8mPRyTq!eXLlpODbvM@m5XrGRMjR`wJp{(q-#2)nvTW##&rEUseavOPP?bz
zE}Y*KkYc;~8CgpH>(zbrHX#qo3a6C`96XTKA@#4|q@Vx+(=sbO1v%mqC?JVfoP-+0
zQ`jta$4?!N_U_LI_!4`8%>7a-@KcO|V&LXmG&NlaG9_55#5l&HC;gKb80(rR-vu7I
zGIr+ATGph{wubkvP;~Nw?EElKmaYo_kzQ1QznwTU<(F4U+^+yffwpL7rTI$@l?X(n
zW{R>?$$rI3lt|{B2-ZW1xPkS17une1#Z2|S15XAH9@;VVY+wISpucahf7iaivxoNW
zI+$6J^=hvg?c8-f6q%$gC6LBVwxMjMCpNUSROR8LvHjAqbqvl{Vv%h^BgO^)WIh`o
z@8kJTEf(H(zkuW2f65i(-;cSK_wzWu4EG;%)ql#B{S?32f6Vp#m}~npZU7FAyiM<%
zef#XC(Yf>QC*Mt8J^6bh-x;}jSgh~8X8FUskMb7IiFHqkT=gQpnb`ey_odZyo8RC1
z?$)c!vixeLSpE3Ida>#Wkz4Uusf~BeUHFW{?VhKA4_ZE}i8}bki>;q=bpPx~Ne^Fe
M$^TOhH`bm14QDX_LI3~&

-- 
2.43.0


From 740cee51d50d36a8960f2b2e60a2541b1e63e5bb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 68/70] fix: division method 1 of Gaussian mixtures failed, or
 resulted in Gaussians that do not match the quotient at its modes

---
 veroku/factors/_factor_utils.py               |  2 +-
 .../factors/experimental/gaussian_mixture.py  | 57 ++++++++++++-------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/veroku/factors/_factor_utils.py b/veroku/factors/_factor_utils.py
index a5a6ee4..929791c 100644
--- a/veroku/factors/_factor_utils.py
+++ b/veroku/factors/_factor_utils.py
@@ -93,7 +93,7 @@ def remove_duplicate_values(array_like, tol=0.0):
     for element in array_like:
         element_is_duplicate = False
         for uval in unique_values:
-            if abs(uval - element) <= tol:
+            if np.all(np.abs(uval - element) <= tol):
                 element_is_duplicate = True
         if not element_is_duplicate:
             unique_values.append(element)
diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 015e8d6..72691f9 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -497,21 +497,21 @@ class GaussianMixture(Factor):
         :return: The point where the function has a global minimum.
         :rtype: np.ndarray
         """
-        global_minimum_potential = float("inf")
+        global_minimum_log_potential = float("inf")
         global_argmin = None
         success = False
 
-        def gmm_pot(x_vals):
-            return self.potential(x_vals)
+        def gmm_log_pot(x_vals):
+            return self.log_potential(x_vals)
 
         for comp in self.components:
-            res = minimize(gmm_pot, x0=comp.get_mean(), method="BFGS", options={"disp": False})
+            res = minimize(gmm_log_pot, x0=comp.get_mean().ravel(), method="BFGS", options={"disp": False})
             x_local_min = res.x
-            if res.success:
+            if res.success or res.status == 2:
                 success = True
-                local_minimum_potential = self.potential(x_local_min)
-                if local_minimum_potential < global_minimum_potential:
-                    global_minimum_potential = local_minimum_potential
+                local_minimum_log_potential = self.log_potential(x_local_min)
+                if local_minimum_log_potential < global_minimum_log_potential:
+                    global_minimum_log_potential = local_minimum_log_potential
                     global_argmin = x_local_min
         if not success:
             raise Exception("could not find optimum")
@@ -568,6 +568,19 @@ class GaussianMixture(Factor):
         g_val = abs(log_weight - 0.5 * ut_k_u - 0.5 * log_det_term)
         return prec.real, h_vec.real, g_val.real
 
+    @staticmethod
+    def _neg_log_quotient_potential(gaussian_mixture_a, gaussian_mixture_b, x_val):
+        """
+        Get the negative of the log value of the Gaussian mixture quotient (gma/gmb).
+
+        :param gaussian_mixture_a: The numerator mixture
+        :param gaussian_mixture_b: The denominator mixture
+        :param x_val: The values of the variables of the numerator mixture (in that order).
+        :return: The negative log value.
+        """
+        b_indices = [gaussian_mixture_a.var_names.index(var) for var in gaussian_mixture_b.var_names]
+        return gaussian_mixture_b.log_potential(x_val[b_indices]) - gaussian_mixture_a.log_potential(x_val)
+
     @staticmethod
     def _get_inverse_gaussians(gaussian_mixture_a, gaussian_mixture_b):
         """
@@ -593,14 +606,13 @@ class GaussianMixture(Factor):
             inverse_gaussian_mixtures.append(inverse_gaussian_mixture)
 
             minimum_loc = inverse_gaussian_mixture._argmin()
-            minimum_locations.append(minimum_loc)
+            inverse_var_names = inverse_gaussian_mixture.var_names
+            minimum_locations.append(
+                np.array([minimum_loc[inverse_var_names.index(var)] for var in gaussian_mixture_a.var_names])
+            )
 
         def neg_gm_log_quotient_potential(x_val):
-            """
-            Get the negative of the log value of the Gaussian mixture quotient (gma/gmb)
-            """
-            potential = -1.0 * (gaussian_mixture_a.log_potential(x_val) - gaussian_mixture_b.log_potential(x_val))
-            return potential
+            return GaussianMixture._neg_log_quotient_potential(gaussian_mixture_a, gaussian_mixture_b, x_val)
 
         mode_locations = []
         for minimum_loc in minimum_locations:
@@ -608,7 +620,8 @@ class GaussianMixture(Factor):
                 neg_gm_log_quotient_potential, x0=minimum_loc, method="BFGS", options={"disp": False}
             )
             x_local_min = res.x
-            if res.success:
+            # A loss of precision (status 2) only means that the optimum cannot be located more accurately.
+            if res.success or res.status == 2:
                 mode_locations.append(x_local_min)
         unique_mode_locations = _factor_utils.remove_duplicate_values(mode_locations, tol=1e-3)
         return inverse_gaussian_mixtures, unique_mode_locations
@@ -629,19 +642,19 @@ class GaussianMixture(Factor):
         """
 
         resulting_gaussian_components = []
-        inverse_gaussian_mixtures, unique_mode_locations = GaussianMixture._get_inverse_gaussians(
-            gaussian_mixture_a, gaussian_mixture_b
-        )
-        inv_gm = GaussianMixture(inverse_gaussian_mixtures)
+        _, unique_mode_locations = GaussianMixture._get_inverse_gaussians(gaussian_mixture_a, gaussian_mixture_b)
+
+        def neg_gm_log_quotient_potential(x_val):
+            return GaussianMixture._neg_log_quotient_potential(gaussian_mixture_a, gaussian_mixture_b, x_val)
 
         for mode_location in unique_mode_locations:
-            prec_i = nd.Hessian(inv_gm.log_potential)(mode_location)
+            prec_i = nd.Hessian(neg_gm_log_quotient_potential)(mode_location)
             mean_i = _factor_utils.make_column_vector(mode_location)
             h_i = prec_i.dot(mean_i)
 
+            # the value of the Gaussian at its mean should be the value of the quotient at the mode
             ut_k_u = ((mean_i.transpose()).dot(prec_i)).dot(mean_i)
-            log_weight_i = -0.5 * np.log(np.linalg.det(prec_i / (2.0 * np.pi))) * inv_gm.log_potential(mean_i)
-            g_i = log_weight_i - 0.5 * ut_k_u + 0.5 * np.log(np.linalg.det(prec_i / (2.0 * np.pi)))
+            g_i = -1.0 * neg_gm_log_quotient_potential(mode_location) - 0.5 * ut_k_u
 
             component = gauss.Gaussian(prec=prec_i, h_vec=h_i, g_val=g_i, var_names=gaussian_mixture_a.components[0].var_names)
             resulting_gaussian_components.append(component)
-- 
2.43.0


From b8cf23864918c2ad76225418ecc7afaf1201d976 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 69/70] fix: division method 2 of Gaussian mixtures scaled the
 quotient wrongly (absolute value of the g parameters)

---
 veroku/factors/experimental/gaussian_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 72691f9..2c33812 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -565,7 +565,7 @@ class GaussianMixture(Factor):
         h_vec = prec.dot(mean)
         ut_k_u = ((mean.transpose()).dot(prec)).dot(mean)
         log_det_term = cmath.log(np.linalg.det(2.0 * np.pi * cov))
-        g_val = abs(log_weight - 0.5 * ut_k_u - 0.5 * log_det_term)
+        g_val = log_weight - 0.5 * ut_k_u - 0.5 * log_det_term
         return prec.real, h_vec.real, g_val.real
 
     @staticmethod
-- 
2.43.0


From ab5b3bb989a4c385acfd4e066021d9978ad9f69d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 70/70] fix: keep the cancel method of a Gaussian mixture in
 the results of its operations

---
 veroku/factors/experimental/gaussian_mixture.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 2c33812..4880929 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -157,7 +157,7 @@ class GaussianMixture(Factor):
                     new_components.append(comp_ai.multiply(comp_bi))
         else:
             raise TypeError("unsupported factor type.")
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def divide(self, factor):
         """
@@ -186,7 +186,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.divide(single_gaussian))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def reduce(self, vrs, values):
         """
@@ -202,7 +202,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.reduce(vrs, values))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def marginalize(self, vrs, keep=True):
         """
@@ -218,7 +218,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.marginalize(vrs, keep))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def distance_from_vacuous(self):
         """
@@ -339,7 +339,7 @@ class GaussianMixture(Factor):
             comp_copy = comp.copy()
             comp_copy._add_log_weight(-1.0 * unnormalized_log_weight)
             new_components.append(comp_copy)
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     @property
     def is_vacuous(self):
@@ -658,7 +658,7 @@ class GaussianMixture(Factor):
 
             component = gauss.Gaussian(prec=prec_i, h_vec=h_i, g_val=g_i, var_names=gaussian_mixture_a.components[0].var_names)
             resulting_gaussian_components.append(component)
-        return GaussianMixture(resulting_gaussian_components)
+        return GaussianMixture(resulting_gaussian_components, cancel_method=gaussian_mixture_a.cancel_method)
 
     @staticmethod
     def _gm_division_m2(gma, gmb):
@@ -699,7 +699,7 @@ class GaussianMixture(Factor):
             gaussian_approx = inverse_gaussian_approx._invert()
             resulting_gaussian_components.append(gaussian_approx)
         print("num pos def = ", count, "/", len(gma.components))
-        resulting_gm = GaussianMixture(resulting_gaussian_components)
+        resulting_gm = GaussianMixture(resulting_gaussian_components, cancel_method=gma.cancel_method)
         return resulting_gm
 
     def _get_limits_for_2d_plot(self):
-- 
2.43.0

