From f43523edb3d461f269715e829505fad4b846f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 01/14] fix: default value of a parameter with two finite
 bounds lies inside the bounds

---
 LinearResponseVariationalBayes/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index faa26f4..4fe3aa5 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -66,7 +66,7 @@ constrain_scalar_hess = autograd.hessian(constrain)
 def get_inbounds_value(lb, ub):
     assert lb < ub
     if lb > -float('inf') and ub < float('inf'):
-        return 0.5 * (ub - lb)
+        return 0.5 * (ub + lb)
     else:
         if lb > -float('inf'):
             # The upper bound is infinite.
-- 
2.43.0


From 634bfccd6936eae29a563a68fb97d1d78172b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 02/14] fix: refuse arrays of the wrong shape in vectors and
 arrays of positive-definite matrices

---
 LinearResponseVariationalBayes/MatrixParameters.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 6da871b..c6cd1c8 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -223,7 +223,7 @@ class PosDefMatrixParamVector(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if tuple(np.shape(val)) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
     def get(self):
@@ -347,9 +347,7 @@ class PosDefMatrixParamArray(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
-            print(val.shape)
-            print(self.__shape)
+        if tuple(np.shape(val)) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
 
-- 
2.43.0


From 76d41f642e09314cc029168a193042791be22169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 03/14] fix: default array shape and length() of
 PosDefMatrixParamArray

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index c6cd1c8..066be83 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -321,7 +321,7 @@ class PosDefMatrixParamVector(object):
 # In keeping with the vector version, the last two indices are indices
 # of the matrix.
 class PosDefMatrixParamArray(object):
-    def __init__(self, name='', array_shape=(1), matrix_size=2, diag_lb=0.0, val=None):
+    def __init__(self, name='', array_shape=(1,), matrix_size=2, diag_lb=0.0, val=None):
         self.name = name
         self.__matrix_size = int(matrix_size)
         self.__matrix_shape = np.array([ int(matrix_size), int(matrix_size) ])
@@ -468,7 +468,7 @@ class PosDefMatrixParamArray(object):
         return hessians
 
     def length(self):
-        return self.__length
+        return self.__array_length
     def matrix_size(self):
         return self.__matrix_size
     def free_size(self):
-- 
2.43.0


From 3e83d47f1982844b535a95e13600120368bb4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 04/14] fix: free-to-vector derivatives of scalar and
 positive-definite parameters do not touch the held value

---
 .../MatrixParameters.py                           | 15 +++++++++------
 LinearResponseVariationalBayes/Parameters.py      |  9 ++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 066be83..c24a46d 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -146,10 +146,6 @@ class PosDefMatrixParam(object):
         else:
             self.set(val)
 
-        # These will be dense, so just use autograd directly.
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
-
     def __str__(self):
         return self.name + ':\n' + str(self.__val)
     def names(self):
@@ -176,10 +172,17 @@ class PosDefMatrixParam(object):
     def free_to_vector(self, free_val):
         self.set_free(free_val)
         return self.get_vector()
+    # The Jacobian and Hessians will be dense, so just use autograd directly.
     def free_to_vector_jac(self, free_val):
-        return coo_matrix(self.free_to_vector_jac_dense(free_val))
+        if free_val.size != self.__vec_size:
+            raise ValueError('Free value is the wrong length')
+        return coo_matrix(pos_def_matrix_free_to_vector_jac(
+            free_val, self.__diag_lb))
     def free_to_vector_hess(self, free_val):
-        hess_dense = self.free_to_vector_hess_dense(free_val)
+        if free_val.size != self.__vec_size:
+            raise ValueError('Free value is the wrong length')
+        hess_dense = pos_def_matrix_free_to_vector_hess(
+            free_val, self.__diag_lb)
         return [ coo_matrix(hess_dense[ind, :, :])
                  for ind in range(hess_dense.shape[0]) ]
 
diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 4fe3aa5..ff49cb2 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -93,9 +93,6 @@ class ScalarParam(object):
         else:
             self.set(get_inbounds_value(lb, ub))
 
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
-
     def __str__(self):
         return self.name + ': ' + str(self.__val)
     def names(self):
@@ -128,12 +125,14 @@ class ScalarParam(object):
         self.set_free(free_val)
         return self.get()
     def free_to_vector_jac(self, free_val):
-        return coo_matrix(self.free_to_vector_jac_dense(free_val))
+        return coo_matrix(
+            constrain_scalar_jac(free_val, self.__lb, self.__ub))
     def free_to_vector_hess(self, free_val):
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore", "^Output seems independent of input\.$", UserWarning)
-            hess_dense = self.free_to_vector_hess_dense(free_val)
+            hess_dense = constrain_scalar_hess(
+                free_val, self.__lb, self.__ub)
         return [ coo_matrix(hess_dense[ind, :, :])
                  for ind in range(hess_dense.shape[0]) ]
 
-- 
2.43.0


From ffd0b6758ae484d583c6eba8611e5a7a24f79663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 05/14] fix: UVNMomentParamArray.var_exp returns the log-normal
 variance

---
 LinearResponseVariationalBayes/NormalParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/NormalParams.py b/LinearResponseVariationalBayes/NormalParams.py
index 509b07e..39691a3 100644
--- a/LinearResponseVariationalBayes/NormalParams.py
+++ b/LinearResponseVariationalBayes/NormalParams.py
@@ -121,7 +121,7 @@ class UVNMomentParamArray(vb.ModelParamsDict):
     def e_exp(self):
         return ef.get_e_lognormal(self['e'].get(), self.var())
     def var_exp(self):
-        return ef.get_e_lognormal(self['e'].get(), self.var())
+        return ef.get_var_lognormal(self['e'].get(), self.var())
     def e2_exp(self):
         return self.e_exp() ** 2 + self.var_exp()
     def entropy(self):
-- 
2.43.0


From b44315434c4c68418158aa31ef2528e68434430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 06/14] fix: WishartParam gives its matrix the requested size

---
 LinearResponseVariationalBayes/WishartParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 1db19cf..580306d 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -12,7 +12,7 @@ class WishartParam(vb.ModelParamsDict):
         assert min_df >= size - 1
         self.push_param(vb.ScalarParam('df', lb=min_df))
         self.push_param(
-            vb.PosDefMatrixParam('v', diag_lb=diag_lb))
+            vb.PosDefMatrixParam('v', size=self.__size, diag_lb=diag_lb))
 
     def e(self):
         return self['df'].get() * self['v'].get()
-- 
2.43.0


From e12093636c6818f71be7932611a08153a617d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 07/14] fix: WishartParam.e_inv returns the expected inverse

---
 LinearResponseVariationalBayes/WishartParams.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 580306d..c098ed3 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -20,7 +20,8 @@ class WishartParam(vb.ModelParamsDict):
         return ef.e_log_det_wishart(self['df'].get(),
                                     self['v'].get())
     def e_inv(self):
-        return self['df'].get() * np.linalg.inv(self['v'].get())
+        return np.linalg.inv(self['v'].get()) / \
+            (self['df'].get() - self.__size - 1)
 
     def entropy(self):
         return ef.wishart_entropy(self['df'].get(),
-- 
2.43.0


From dad2adbe37190e0350430b193d6538d17fe0ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 08/14] fix: normalizing constant of univariate_normal_log_prob

---
 LinearResponseVariationalBayes/Modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index f451c1a..31515ed 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -59,7 +59,7 @@ def get_standard_draws(num_draws):
 
 
 def univariate_normal_log_prob(u, u_mean, u_info):
-    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * u_info \
+    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * np.log(u_info) \
            - 0.5 * np.log(2 * np.pi)
 
 
-- 
2.43.0


From 814df38b8f39f66776b97f68219cb8f22aba7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 09/14] fix: refuse a second parameter under the same name in a
 ModelParamsDict

---
 LinearResponseVariationalBayes/ParameterDictionary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/LinearResponseVariationalBayes/ParameterDictionary.py b/LinearResponseVariationalBayes/ParameterDictionary.py
index 46ff59b..e139f41 100644
--- a/LinearResponseVariationalBayes/ParameterDictionary.py
+++ b/LinearResponseVariationalBayes/ParameterDictionary.py
@@ -37,6 +37,10 @@ class ModelParamsDict(object):
         return self.param_dict[key]
 
     def push_param(self, param):
+        if param.name in self.param_dict:
+            raise ValueError(
+                'A parameter named {} is already in {}'.format(
+                    param.name, self.name))
         self.param_dict[param.name] = param
         self.free_indices_dict[param.name] = \
             range(self.__free_size, self.__free_size + param.free_size())
-- 
2.43.0


From 8ffd910fcc50012c8a08224b69306a4fc6df4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 10/14] fix: consolidate_terms does not skip terms while
 removing

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 8ea1e86..3f2bd1e 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -248,7 +248,7 @@ def consolidate_terms(dterms):
     consolidated_dterms = []
     while len(unmatched_indices) > 0:
         match_term = dterms[unmatched_indices.pop(0)]
-        for ind in unmatched_indices:
+        for ind in list(unmatched_indices):
             if (match_term.eta_orders == dterms[ind].eta_orders):
                 match_term = match_term.combine_with(dterms[ind])
                 unmatched_indices.remove(ind)
-- 
2.43.0


From aaadc605ed24297cde93a897fd24149d0a389ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 11/14] fix: sensitivity objects honour hess0 and the
 coordinate flags

---
 .../ModelSensitivity.py                       | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 3f2bd1e..8d47e3b 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -402,7 +402,7 @@ class ParametricSensitivityTaylorExpansion(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
 
     def set_par_to_base_values(self):
@@ -420,7 +420,10 @@ class ParametricSensitivityTaylorExpansion(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
@@ -576,7 +579,7 @@ class ParametricSensitivityLinearApproximation(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
 
     def set_par_to_base_values(self):
         set_par(self.input_par, self.input_val0, self.input_is_free)
@@ -588,14 +591,24 @@ class ParametricSensitivityLinearApproximation(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
-        self.hyper_par_cross_hessian0 = \
-            self.joint_objective.fun_hessian_free1_vector2(
-                self.input_val0, self.hyper_val0)
+        if self.input_is_free and self.hyper_is_free:
+            eval_cross_hessian = self.joint_objective.fun_free_hessian12
+        elif self.input_is_free:
+            eval_cross_hessian = self.joint_objective.fun_hessian_free1_vector2
+        elif self.hyper_is_free:
+            eval_cross_hessian = self.joint_objective.fun_hessian_vector1_free2
+        else:
+            eval_cross_hessian = self.joint_objective.fun_vector_hessian12
+        self.hyper_par_cross_hessian0 = eval_cross_hessian(
+            self.input_val0, self.hyper_val0)
 
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
-- 
2.43.0


From 362f3f9f717a40acdb2c22cc9f8f0975a127f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 12/14] fix: Taylor expansion with a separate hyperparameter
 objective keeps the input-only derivatives of the full objective

---
 .../ModelSensitivity.py                          | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 8d47e3b..f8e861c 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -401,6 +401,8 @@ class ParametricSensitivityTaylorExpansion(object):
             self.input_par, self.objective_functor)
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
+        self.full_joint_objective = obj_lib.TwoParameterObjective(
+            self.input_par, self.hyper_par, self.objective_functor)
 
         self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
@@ -435,6 +437,13 @@ class ParametricSensitivityTaylorExpansion(object):
             input_val, hyper_val, self.input_is_free, self.hyper_is_free,
             *argv, **argk)
 
+    # The gradient of the full objective, including any part that does not
+    # depend on the hyperparameter.
+    def full_objective_gradient(self, input_val, hyper_val, *argv, **argk):
+        return self.full_joint_objective.fun_grad1(
+            input_val, hyper_val, self.input_is_free, self.hyper_is_free,
+            *argv, **argk)
+
     # Get a function returning the next derivative from the Taylor terms dterms.
     def get_dkinput_dhyperk_from_terms(self, dterms):
         def dkinput_dhyperk(input_val, hyper_val, dhyper, tolerance=1e-8):
@@ -460,6 +469,13 @@ class ParametricSensitivityTaylorExpansion(object):
         self.eval_g_derivs = generate_two_term_derivative_array(
             self.objective_gradient, order=self.order + 1)
 
+        # The derivatives with respect to the input alone also involve the
+        # part of the objective that does not depend on the hyperparameter.
+        full_g_derivs = generate_two_term_derivative_array(
+            self.full_objective_gradient, order=self.order + 1)
+        for g_derivs, full_derivs in zip(self.eval_g_derivs, full_g_derivs):
+            g_derivs[0] = full_derivs[0]
+
         self.taylor_terms_list = [ get_taylor_base_terms(self.eval_g_derivs) ]
         self.dkinput_dhyperk_list = []
         for k in range(self.order - 1):
-- 
2.43.0


From acc42895e8d4cf15c01b28d64c7b34158bc94a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 13/14] fix: ParametricSensitivity predicts outputs from the
 converted optimum, not from whatever output_par holds

---
 LinearResponseVariationalBayes/SparseObjectives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 8d1d313..0f974a1 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -546,7 +546,9 @@ class ParametricSensitivity(object):
             self.sensitivity_objective.fun_hessian_free1_vector2(
                 self.optimal_input_par, self.optimal_hyper_par)
 
-        self.optimal_output_par = self.output_par.get_vector()
+        self.optimal_output_par = \
+            self.parameter_converter.converter_free_to_vec(
+                self.optimal_input_par)
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
                 self.hessian_chol, self.hyper_par_cross_hessian)
-- 
2.43.0


From 6d690d3d8d082a9a6b3eb4690b2673d8f1dbf151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 14/14] fix: the log keeps the point it was given when the
 caller modifies its array afterwards

---
 LinearResponseVariationalBayes/SparseObjectives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 0f974a1..6a36375 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -65,6 +65,8 @@ class Logger(object):
         print('Iter ', self.iter, ' value: ', self.value)
 
     def log(self, value, x):
+        # Copy, since the caller may go on to modify x in place.
+        x = np.array(x)
         self.value = value
         self.x = x
         self.x_array.append(x)
-- 
2.43.0

