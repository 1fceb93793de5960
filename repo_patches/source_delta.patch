From 9512f9bfb9003d02a19b5086620c5ce12196d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 01/43] fix: restore the quadratic of a problem when its solve
 is interrupted

---
 regreg/problems/composite.py |  9 ++++++---
 regreg/problems/conjugate.py |  9 +++++----
 regreg/problems/simple.py    | 23 +++++++++++++----------
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 13a4b6f..c8b3f37 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -214,9 +214,12 @@ class smooth(composite):
         if quadratic is None:
             quadratic = sq(0, 0, 0, 0)
         oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
-        self.solver = FISTA(self)
-        self.solver.fit(**fit_args)
-        self.quadratic = oldq
+        try:
+            self.solver = FISTA(self)
+            self.solver.fit(**fit_args)
+        finally:
+            # restore the quadratic even if the solver is interrupted
+            self.quadratic = oldq
 
         if return_optimum:
             return self.objective(self.coefs), self.coefs
diff --git a/regreg/problems/conjugate.py b/regreg/problems/conjugate.py
index e9133d8..11b0dd9 100644
--- a/regreg/problems/conjugate.py
+++ b/regreg/problems/conjugate.py
@@ -60,12 +60,13 @@ class conjugate(composite):
 
         old_lin = self.conjugate_quadratic.linear_term
         new_lin = -v if old_lin is None else old_lin - v
-        self.conjugate_quadratic.linear_term = new_lin
+        # work on a copy: the caller's quadratic is never modified
+        quadratic = copy(self.conjugate_quadratic)
+        quadratic.linear_term = new_lin
         if isinstance(self.atom, smooth_atom):
-            minimizer = self.problem.solve(self.conjugate_quadratic, max_its=5000, **self.fit_args)
+            minimizer = self.problem.solve(quadratic, max_its=5000, **self.fit_args)
         else: # it better have a proximal method!
-            minimizer = self.atom.proximal(self.conjugate_quadratic)
-        self.conjugate_quadratic.linear_term = old_lin
+            minimizer = self.atom.proximal(quadratic)
 
         # retain a reference
         self.argmin = minimizer
diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index c782fef..b81cc14 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -80,16 +80,19 @@ class simple_problem(composite):
         else:
             oldq = self.quadratic
 
-        solver = FISTA(self)
-        solver.composite.coefs[:] = self.coefs
-        self.solver_results = solver.fit(**fit_args)
-        self.final_step = solver.step
-
-        if return_optimum:
-            value = (self.objective(self.coefs), self.coefs)
-        else:
-            value = self.coefs
-        self.quadratic = oldq
+        try:
+            solver = FISTA(self)
+            solver.composite.coefs[:] = self.coefs
+            self.solver_results = solver.fit(**fit_args)
+            self.final_step = solver.step
+
+            if return_optimum:
+                value = (self.objective(self.coefs), self.coefs)
+            else:
+                value = self.coefs
+        finally:
+            # restore the quadratic even if the solver is interrupted
+            self.quadratic = oldq
         return value
 
     
-- 
2.43.0


From 4d45ea5e45936b15c9d64e6dd6053967fc6bd488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 02/43] fix: container.solve honours its quadratic argument and
 proximal the quadratics of the problem

---
 regreg/problems/container.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 526e7ca..ab28f1c 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -105,8 +105,10 @@ class container(composite):
                 prox_defaults.update(prox_control)
             prox_control = prox_defaults
 
+            # the quadratics of the problem are part of the prox
+            proxq = proxq + self.quadratic + self.smoothq
             primal_objective = zero_nonsmooth(transform.input_shape)
-            primal_objective.quadratic = proxq + self.quadratic + self.smoothq
+            primal_objective.quadratic = proxq
             dual_objective = primal_objective.conjugate
             dualp = dual_problem(dual_objective,
                                  transform,
@@ -157,17 +159,20 @@ class container(composite):
 
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
         if quadratic is not None:
-            oldq, newq = self.quadratic, self.quadratic + quadratic
+            oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
         else:
-            oldq = newq = self.quadratic
+            oldq = self.quadratic
 
-        solver = FISTA(self)
-        solver.fit(**fit_args)
+        try:
+            solver = FISTA(self)
+            solver.fit(**fit_args)
 
-        if return_optimum:
-            value = (self.objective(self.coefs), self.coefs)
-        else:
-            value = self.coefs
-        self.quadratic = oldq
+            if return_optimum:
+                value = (self.objective(self.coefs), self.coefs)
+            else:
+                value = self.coefs
+        finally:
+            # restore the quadratic even if the solver is interrupted
+            self.quadratic = oldq
         return value
 
-- 
2.43.0


From 417c97a3cf5e011e1083a1b7fac53d287c576ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 03/43] fix: value of the Huberized SVM loss agrees with its
 gradient for every smoothing parameter

---
 regreg/smooth/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 8d0a9b3..d1bc02c 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -926,5 +926,5 @@ def _huber_svm(z, smoothing_parameter):
     eps = smoothing_parameter
     arg = (1 - z) / eps # function of (2 * y - 1) * eta when y is binary
     proj_arg = (0 < arg) * (arg < 1) * arg + (arg >= 1) 
-    return arg * proj_arg - eps * proj_arg**2 / 2, -proj_arg
+    return (1 - z) * proj_arg - eps * proj_arg**2 / 2, -proj_arg
 
-- 
2.43.0


From a8501d1b5fe6dde7b6b7c3962d741934853e1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 04/43] fix: missing imports of smooth_conjugate made
 conjugates of atoms with a quadratic fail

---
 regreg/atoms/linear_constraints.py | 2 +-
 regreg/atoms/simplex.py            | 1 +
 regreg/atoms/slope.py              | 1 +
 regreg/atoms/svd_norms.py          | 1 +
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 17920cd..f9062d8 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -3,7 +3,7 @@ from scipy import sparse
 from copy import copy
 import warnings
 
-from ..problems.composite import composite, nonsmooth
+from ..problems.composite import composite, nonsmooth, smooth_conjugate
 from .cones import cone, affine_cone
 from ..identity_quadratic import identity_quadratic
 from ..atoms import _work_out_conjugate
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 42468d6..436f07a 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -5,6 +5,7 @@ import numpy as np
 from copy import copy
 
 from ..atoms import atom, _work_out_conjugate, affine_atom
+from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
 
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 000f03b..02e696c 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -20,6 +20,7 @@ from ._isotonic_py import pav as isotonic_regression_py
 from .seminorms import seminorm
 
 from ..atoms import _work_out_conjugate
+from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
 
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 4745552..5509c79 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -9,6 +9,7 @@ from copy import copy
 import numpy as np
 
 from ..atoms import atom, _work_out_conjugate
+from ..problems.composite import smooth_conjugate
 from .seminorms import conjugate_seminorm_pairs, seminorm, l1norm, supnorm
 from .cones import cone, conjugate_cone_pairs
 from .projl1_cython import projl1, projl1_epigraph
-- 
2.43.0


From 5c4c76d4f64c612be0bf75142beaee40275c09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 05/43] fix: xrange is not defined in python 3

---
 regreg/atoms/block_norms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 7abb416..e69b0a4 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -87,7 +87,7 @@ class block_sum(seminorms.seminorm):
         x = x.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, x, lipschitz, lagrange)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.lagrange_prox(x[i], lipschitz=lipschitz,
                                            lagrange=lagrange)
         return v
@@ -201,7 +201,7 @@ class block_max(block_sum):
         bound = seminorms.seminorm.bound_prox(self, x,
                                       bound=bound)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.bound_prox(x[i], 
                                         bound=bound)
         return v
-- 
2.43.0


From ef7c77a3896d9f007e2260c0256cb91cd16bdf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 06/43] fix: quasi_newton does not fail on a step without
 curvature and stops at an optimum of 0

---
 regreg/problems/newton.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index ac4fd46..f3b32dc 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -133,7 +133,13 @@ class quasi_newton(object):
         # update is done in place
         # note that this means self.quadratic_problem.Q is also updated!
         
-        self.hessian += np.multiply.outer(y, y) / y.dot(s) - np.multiply.outer(Bs, Bs) / s.dot(Bs)
+        yTs = y.dot(s)
+        sTBs = s.dot(Bs)
+        if not (yTs > 0 and sTBs > 0):
+            # no curvature information along this step (which might be 0)
+            return
+
+        self.hessian += np.multiply.outer(y, y) / yTs - np.multiply.outer(Bs, Bs) / sTBs
 
 
     def smooth_objective(self, x, mode='both', check_feasibility=False):
@@ -341,7 +347,7 @@ class quasi_newton(object):
             Next gradient.
         """
         return (np.fabs(old_soln - new_soln).max()
-                < 1.e-6 * np.linalg.norm(new_soln))
+                <= 1.e-6 * np.linalg.norm(new_soln))
 
     def backtrack(self, 
                   direction,
-- 
2.43.0


From 8ba238d22694deecc4fc42c4a4c92bde2f2e4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 07/43] fix: group and mixed lasso atoms hand out fresh arrays,
 not their scratch buffers

---
 regreg/atoms/group_lasso.py | 134 +++++++++++++++++++-----------------
 regreg/atoms/mixed_lasso.py |  44 ++++++------
 2 files changed, 96 insertions(+), 82 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 77ff69b..6eeae41 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -194,9 +194,10 @@ class group_lasso(seminorm):
                                      check_feasibility=check_feasibility)
         arg = np.asarray(arg, float)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self._norms_cython[:] = 0
+        norms = np.zeros_like(self._norms_cython)
 
         return lagrange * seminorm_mixed_lasso(arg, 
                                                self._l1_cython,
@@ -205,7 +206,7 @@ class group_lasso(seminorm):
                                                self._nonnegative_cython,
                                                self._group_array,
                                                self._weight_array,
-                                               self._norms_cython,
+                                               norms,
                                                False)
 
     @doc_template_user
@@ -213,11 +214,12 @@ class group_lasso(seminorm):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         arg = np.asarray(arg, float)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self._norms_cython[:] = 0
-        self._factors_cython[:] = 0
-        self._projection_cython[:] = 0
+        norms = np.zeros_like(self._norms_cython)
+        factors = np.zeros_like(self._factors_cython)
+        projection = np.zeros_like(self._projection_cython)
 
         return mixed_lasso_lagrange_prox(arg, 
                                          float(lagrange),
@@ -228,20 +230,21 @@ class group_lasso(seminorm):
                                          self._nonnegative_cython,
                                          self._group_array,
                                          self._weight_array,
-                                         self._norms_cython,
-                                         self._factors_cython,
-                                         self._projection_cython)
+                                         norms,
+                                         factors,
+                                         projection)
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
         bound = seminorm.bound_prox(self, arg, bound)
         arg = np.asarray(arg, float)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self._norms_cython[:] = 0
-        self._factors_cython[:] = 0
-        self._projection_cython[:] = 0
+        norms = np.zeros_like(self._norms_cython)
+        factors = np.zeros_like(self._factors_cython)
+        projection = np.zeros_like(self._projection_cython)
 
         return mixed_lasso_bound_prox(arg, float(bound),
                                       self._l1_cython,
@@ -250,9 +253,9 @@ class group_lasso(seminorm):
                                       self._nonnegative_cython,
                                       self._group_array,
                                       self._weight_array,
-                                      self._norms_cython,
-                                      self._factors_cython,
-                                      self._projection_cython)
+                                      norms,
+                                      factors,
+                                      projection)
 
     @doc_template_user
     def constraint(self, arg, bound=None):
@@ -342,9 +345,10 @@ class group_lasso_dual(group_lasso):
                                      check_feasibility=check_feasibility)
         arg = np.asarray(arg, float)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self._norms_cython[:] = 0
+        norms = np.zeros_like(self._norms_cython)
 
         return lagrange * seminorm_mixed_lasso_dual(arg, 
                                                     self._l1_cython,
@@ -353,7 +357,7 @@ class group_lasso_dual(group_lasso):
                                                     self._nonnegative_cython,
                                                     self._group_array,
                                                     self._weight_array,
-                                                    self._norms_cython,
+                                                    norms,
                                                     False)
 
     @doc_template_user
@@ -361,11 +365,12 @@ class group_lasso_dual(group_lasso):
         bound = seminorm.bound_prox(self, arg, bound)
         arg = np.asarray(arg, float)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self._norms_cython[:] = 0
-        self._factors_cython[:] = 0
-        self._projection_cython[:] = 0
+        norms = np.zeros_like(self._norms_cython)
+        factors = np.zeros_like(self._factors_cython)
+        projection = np.zeros_like(self._projection_cython)
 
         return mixed_lasso_dual_bound_prox(arg, float(bound),
                                            self._l1_cython,
@@ -374,20 +379,21 @@ class group_lasso_dual(group_lasso):
                                            self._nonnegative_cython,
                                            self._group_array,
                                            self._weight_array,
-                                           self._norms_cython,
-                                           self._factors_cython,
-                                           self._projection_cython)
+                                           norms,
+                                           factors,
+                                           projection)
 
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         arg = np.asarray(arg, float)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self._norms_cython[:] = 0
-        self._factors_cython[:] = 0
-        self._projection_cython[:] = 0
+        norms = np.zeros_like(self._norms_cython)
+        factors = np.zeros_like(self._factors_cython)
+        projection = np.zeros_like(self._projection_cython)
 
         r = mixed_lasso_bound_prox(arg, lagrange / lipschitz,
                                    self._l1_cython,
@@ -396,9 +402,9 @@ class group_lasso_dual(group_lasso):
                                    self._nonnegative_cython,
                                    self._group_array,
                                    self._weight_array,
-                                   self._norms_cython,
-                                   self._factors_cython,
-                                   self._projection_cython)
+                                   norms,
+                                   factors,
+                                   projection)
         return arg - r
 
 
@@ -536,11 +542,12 @@ class group_lasso_epigraph(group_lasso_cone):
     def cone_prox(self, arg, lipschitz=1):
         arg = np.asarray(arg, float)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self.snorm._norms_cython[:] = 0
-        self.snorm._factors_cython[:] = 0
-        self.snorm._projection_cython[:] = 0
+        norms = np.zeros_like(self.snorm._norms_cython)
+        factors = np.zeros_like(self.snorm._factors_cython)
+        projection = np.zeros_like(self.snorm._projection_cython)
 
         return mixed_lasso_epigraph(arg,
                                     self.snorm._l1_cython,
@@ -549,9 +556,9 @@ class group_lasso_epigraph(group_lasso_cone):
                                     self.snorm._nonnegative_cython,
                                     self.snorm._group_array,
                                     self.snorm._weight_array,
-                                    self.snorm._norms_cython,
-                                    self.snorm._factors_cython,
-                                    self.snorm._projection_cython)
+                                    norms,
+                                    factors,
+                                    projection)
 
     @doc_template_user
     def proximal(self, quadratic, prox_control=None):
@@ -585,11 +592,12 @@ class group_lasso_epigraph_polar(group_lasso_cone):
     def cone_prox(self, arg, lipschitz=1):
         arg = np.asarray(arg, float)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self.snorm._norms_cython[:] = 0
-        self.snorm._factors_cython[:] = 0
-        self.snorm._projection_cython[:] = 0
+        norms = np.zeros_like(self.snorm._norms_cython)
+        factors = np.zeros_like(self.snorm._factors_cython)
+        projection = np.zeros_like(self.snorm._projection_cython)
 
         return arg - mixed_lasso_epigraph(arg,
                                           self.snorm._l1_cython,
@@ -598,9 +606,9 @@ class group_lasso_epigraph_polar(group_lasso_cone):
                                           self.snorm._nonnegative_cython,
                                           self.snorm._group_array,
                                           self.snorm._weight_array,
-                                          self.snorm._norms_cython,
-                                          self.snorm._factors_cython,
-                                          self.snorm._projection_cython)
+                                          norms,
+                                          factors,
+                                          projection)
 
     @doc_template_user
     def constraint(self, arg):
@@ -642,11 +650,12 @@ class group_lasso_dual_epigraph(group_lasso_cone):
     def cone_prox(self, arg, lipschitz=1):
         arg = np.asarray(arg, float)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self.snorm._norms_cython[:] = 0
-        self.snorm._factors_cython[:] = 0
-        self.snorm._projection_cython[:] = 0
+        norms = np.zeros_like(self.snorm._norms_cython)
+        factors = np.zeros_like(self.snorm._factors_cython)
+        projection = np.zeros_like(self.snorm._projection_cython)
 
         return arg + mixed_lasso_epigraph(-arg,
                                            self.snorm._l1_cython,
@@ -655,9 +664,9 @@ class group_lasso_dual_epigraph(group_lasso_cone):
                                            self.snorm._nonnegative_cython,
                                            self.snorm._group_array,
                                            self.snorm._weight_array,
-                                           self.snorm._norms_cython,
-                                           self.snorm._factors_cython,
-                                           self.snorm._projection_cython)
+                                           norms,
+                                           factors,
+                                           projection)
 
     @doc_template_user
     def constraint(self, arg):
@@ -700,11 +709,12 @@ class group_lasso_dual_epigraph_polar(group_lasso_cone):
     def cone_prox(self, arg,  lipschitz=1):
         arg = np.asarray(arg, float)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self.snorm._norms_cython[:] = 0
-        self.snorm._factors_cython[:] = 0
-        self.snorm._projection_cython[:] = 0
+        norms = np.zeros_like(self.snorm._norms_cython)
+        factors = np.zeros_like(self.snorm._factors_cython)
+        projection = np.zeros_like(self.snorm._projection_cython)
 
         return -mixed_lasso_epigraph(-arg,
                                       self.snorm._l1_cython,
@@ -713,9 +723,9 @@ class group_lasso_dual_epigraph_polar(group_lasso_cone):
                                       self.snorm._nonnegative_cython,
                                       self.snorm._group_array,
                                       self.snorm._weight_array,
-                                      self.snorm._norms_cython,
-                                      self.snorm._factors_cython,
-                                      self.snorm._projection_cython)
+                                      norms,
+                                      factors,
+                                      projection)
 
     @doc_template_user
     def constraint(self, arg):
diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 0f9b969..de24f97 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -163,9 +163,10 @@ class mixed_lasso(atom):
 
     def seminorm(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self._norms_cython[:] = 0
+        norms = np.zeros_like(self._norms_cython)
 
         v = seminorm_mixed_lasso(x_offset,
                                  self._l1_penalty,
@@ -174,7 +175,7 @@ class mixed_lasso(atom):
                                  self._nonnegative,
                                  self._groups,
                                  self._weight_array,
-                                 self._norms_cython,
+                                 norms,
                                  np.int(check_feasibility))
 
         return v * self.lagrange
@@ -205,11 +206,12 @@ class mixed_lasso(atom):
 
         prox_arg = -totalq.linear_term / totalq.coef
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self._norms_cython[:] = 0
-        self._factors_cython[:] = 0
-        self._projection_cython[:] = 0
+        norms = np.zeros_like(self._norms_cython)
+        factors = np.zeros_like(self._factors_cython)
+        projection = np.zeros_like(self._projection_cython)
 
         eta = mixed_lasso_lagrange_prox(prox_arg, 
                                         self.lagrange, 
@@ -220,9 +222,9 @@ class mixed_lasso(atom):
                                         self._nonnegative,
                                         self._groups,
                                         self._weight_array,
-                                        self._norms_cython,
-                                        self._factors_cython,
-                                        self._projection_cython)
+                                        norms,
+                                        factors,
+                                        projection)
 
         if offset is None:
             return eta
@@ -341,9 +343,10 @@ class mixed_lasso_dual(mixed_lasso):
     def seminorm(self, x, lagrange=1, check_feasibility=False):
         x_offset = self.apply_offset(x)
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self._norms_cython[:] = 0
+        norms = np.zeros_like(self._norms_cython)
 
         v = seminorm_mixed_lasso_dual(x_offset, 
                                       self._l1_penalty,
@@ -352,7 +355,7 @@ class mixed_lasso_dual(mixed_lasso):
                                       self._nonnegative,
                                       self._groups,
                                       self._weight_array,
-                                      self._norms_cython)
+                                      norms)
         return v 
 
     def proximal(self, proxq, prox_control=None):
@@ -380,11 +383,12 @@ class mixed_lasso_dual(mixed_lasso):
 
         prox_arg = -totalq.linear_term / totalq.coef
 
-        # flush buffers for computations
+        # fresh buffers for computations: they are handed out
+        # in the result and callers may share this atom
 
-        self._norms_cython[:] = 0
-        self._factors_cython[:] = 0
-        self._projection_cython[:] = 0
+        norms = np.zeros_like(self._norms_cython)
+        factors = np.zeros_like(self._factors_cython)
+        projection = np.zeros_like(self._projection_cython)
 
         eta = mixed_lasso_dual_bound_prox(prox_arg, 
                                           self.bound, 
@@ -394,9 +398,9 @@ class mixed_lasso_dual(mixed_lasso):
                                           self._nonnegative,
                                           self._groups,
                                           self._weight_array,
-                                          self._norms_cython,
-                                          self._factors_cython,
-                                          self._projection_cython)
+                                          norms,
+                                          factors,
+                                          projection)
 
         if offset is None:
             return eta
-- 
2.43.0


From 12a017f3a6fdc2e56702203123bb45631d18f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 08/43] fix: gengrad takes proximal steps instead of solving
 the whole problem at each step

---
 regreg/problems/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index b81cc14..ac71e5f 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -107,7 +107,7 @@ def gengrad(simple_problem, lipschitz, tol=1.0e-8, max_its=1000, debug=False,
     while True:
         vnew, g = simple_problem.smooth_objective(coef, 'both')
         vnew += simple_problem.nonsmooth_objective(coef)
-        newcoef = simple_problem.solve(identity_quadratic(lipschitz, coef, g, 0))
+        newcoef = simple_problem.proximal(identity_quadratic(lipschitz, coef, g, 0))
         if coef_stop:
             coef_stop_check = (np.linalg.norm(coef-newcoef) <= tol * 
                                np.max([np.linalg.norm(coef),
-- 
2.43.0


From e0433995598507daa6febbc867fe769da61f6a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:22 +0000
Subject: [PATCH 09/43] fix: evaluating a loss with its own case weights does
 not modify the case weights passed in

---
 regreg/smooth/binary.py | 14 +++++++-------
 regreg/smooth/cox.py    |  4 ++--
 regreg/smooth/glm.py    | 12 ++++++------
 regreg/smooth/mglm.py   |  2 +-
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index d1bc02c..370fdb8 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -92,7 +92,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -169,7 +169,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         if np.max(x) > 1e2:
             overflow = True
@@ -350,7 +350,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -417,7 +417,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -590,7 +590,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -660,7 +660,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -826,7 +826,7 @@ class huber_svm(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         huber_arg = (2 * self.successes - 1) * param # first encode binary as \pm 1
diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f977389..f9d11f7 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -97,7 +97,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         censoring = self.censoring
 
@@ -170,7 +170,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         eta = natural_param # shorthand
         eta = self.apply_offset(eta)
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index e2acad2..55d7d02 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -913,7 +913,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         natural_param = self.apply_offset(natural_param)
         resid = natural_param - self.response 
@@ -957,7 +957,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
         return self.scale(np.ones_like(natural_param) * cw)
 
     def get_data(self):
@@ -1104,7 +1104,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -1151,7 +1151,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         return self.scale(cw * np.exp(x))
             
@@ -1289,7 +1289,7 @@ class huber_loss(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         resid = param - self.response 
@@ -1481,7 +1481,7 @@ class stacked_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         linpred = natural_param # shorthand
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index a2e738a..1a78de6 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -345,7 +345,7 @@ class stacked_common_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
-- 
2.43.0


From d6bf1a81a8c154ac43cd3818466476cdc785c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 10/43] fix: gradients of Cox and stacked losses and adjoints
 of selector and posneg are new arrays, not reused buffers

---
 regreg/affine/__init__.py | 13 +++++--------
 regreg/smooth/cox.py      |  4 ++--
 regreg/smooth/glm.py      | 11 ++++++-----
 regreg/smooth/mglm.py     | 11 ++++++-----
 4 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 4289826..bee178d 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -329,12 +329,11 @@ class selector(linear_transform):
         return self.affine_transform.affine_map(x_indexed)
 
     def adjoint_map(self, u):
-        if not hasattr(self, "_output"):
-            self._output = np.zeros(self.initial_shape)
+        output = np.zeros(self.initial_shape)
         if self.reshape is not None:
-            u.shape = self.affine_transform.output_shape
-        self._output[self.index_obj] = self.affine_transform.adjoint_map(u)
-        return self._output
+            u = u.reshape(self.affine_transform.output_shape)
+        output[self.index_obj] = self.affine_transform.adjoint_map(u)
+        return output
 
 class scaler(linear_transform):
 
@@ -947,10 +946,8 @@ class posneg(affine_transform):
 
     def __init__(self, linear_transform):
         self.linear_transform = astransform(linear_transform)
-        # where to store output so we don't recreate arrays 
         self.affine_offset = None
         self.input_shape = (2,) + self.linear_transform.input_shape
-        self._adjoint_output = np.zeros(self.input_shape)
         self.output_shape = self.linear_transform.output_shape
 
     def linear_map(self, x):
@@ -961,7 +958,7 @@ class posneg(affine_transform):
         return self.linear_map(x)
 
     def adjoint_map(self, x):
-        u = self._adjoint_output
+        u = np.zeros(self.input_shape)
         u[0] = self.linear_transform.adjoint_map(x)
         u[1] = -u[0]
         return u
diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f9d11f7..c274cc5 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -48,7 +48,6 @@ class cox_loglike(smooth_atom):
             self.case_weights = np.ones(self.event_times.shape, float)
 
         # buffers to store results used by C code
-        self._G = np.zeros(self.event_times.shape, float) # gradient 
         self._exp_buffer = np.zeros(self.event_times.shape, float) # exp(eta)
         self._exp_accum = np.zeros(self.event_times.shape, float) # accum of exp(eta)
         self._expZ_accum = np.zeros(self.event_times.shape, float) # accum of Z*exp(eta)
@@ -102,7 +101,8 @@ class cox_loglike(smooth_atom):
         censoring = self.censoring
 
         if mode in ['both', 'grad']:
-            G = cox_gradient(self._G,
+            # a new array: the gradient is handed out to the caller
+            G = cox_gradient(np.zeros(self.event_times.shape, float),
                              eta,
                              self._exp_buffer,
                              self._exp_accum,
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 55d7d02..95ee29a 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1435,7 +1435,6 @@ class stacked_loglike(smooth_atom):
             idx += l.shape[0]
 
         self._losses = losses
-        self._gradient = np.zeros(self.shape)
 
         if case_weights is not None:
             if not np.all(case_weights >= 0):
@@ -1487,9 +1486,10 @@ class stacked_loglike(smooth_atom):
 
         linpred = self.apply_offset(linpred)
         if mode == 'grad':
+            gradient = np.zeros(self.shape)
             for d, slice in enumerate(self._slices):
-                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
-            return self.scale(self._gradient)
+                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
+            return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
@@ -1497,11 +1497,12 @@ class stacked_loglike(smooth_atom):
             return self.scale(value)
         elif mode == 'both':
             value = 0
+            gradient = np.zeros(self.shape)
             for d, slice in enumerate(self._slices):
                 f, g = self._losses[d].smooth_objective(linpred[slice], 'both')
-                self._gradient[slice] = g
+                gradient[slice] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(gradient)
         else:
             raise ValueError("mode incorrectly specified")
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 1a78de6..4c1c1e4 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -299,7 +299,6 @@ class stacked_common_loglike(smooth_atom):
         self.data = np.array([l.data for l in losses]).T
 
         self._losses = losses
-        self._gradient = np.zeros(self.shape)
 
         if case_weights is not None:
             if not np.all(case_weights >= 0):
@@ -351,11 +350,12 @@ class stacked_common_loglike(smooth_atom):
 
         x = self.apply_offset(x)
         if mode == 'grad':
+            gradient = np.zeros(self.shape)
             for i in range(len(self._losses)):
-                self._gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
+                gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
                                                                        'grad', 
                                                                        case_weights=cw) 
-            return self.scale(self._gradient)
+            return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for i in range(len(self._losses)):
@@ -365,13 +365,14 @@ class stacked_common_loglike(smooth_atom):
             return self.scale(value)
         elif mode == 'both':
             value = 0
+            gradient = np.zeros(self.shape)
             for i in range(len(self._losses)):
                 f, g = self._losses[i].smooth_objective(x[:,i], 
                                                         'both', 
                                                         case_weights=cw)
-                self._gradient[:,i] = g
+                gradient[:,i] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(gradient)
         else:
             raise ValueError("mode incorrectly specified")
 
-- 
2.43.0


From 0b3868988dbf745df7b2a2e69504bd235021d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 11/43] fix: problems and sums of losses have coefficients of
 their own instead of sharing an array with their parts

---
 regreg/problems/simple.py | 3 ++-
 regreg/smooth/__init__.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index ac71e5f..d92bf6e 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -19,7 +19,8 @@ class simple_problem(composite):
     def __init__(self, smooth_atom, proximal_atom):
         self.smooth_atom = smooth_atom
         self.proximal_atom = proximal_atom
-        self.coefs = self.smooth_atom.coefs = self.proximal_atom.coefs
+        # an array of its own: the atoms may be part of other problems
+        self.coefs = np.array(self.proximal_atom.coefs)
 
     def smooth_objective(self, x, mode='both', check_feasibility=False):
         """
diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 1cb06d6..bc7558d 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -322,7 +322,8 @@ class sum(smooth_atom):
             raise ValueError('weights and atoms have different lengths')
         if np.any(self.weights < 0):
             raise ValueError('weights should be non-negative to maintain convexity')
-        self.coefs = self.atoms[0].coefs
+        # an array of its own: the atoms may be part of other problems
+        self.coefs = np.array(self.atoms[0].coefs)
         self.shape = self.coefs.shape
 
     def smooth_objective(self, x, mode='both', check_feasibility=False):
-- 
2.43.0


From 3917682bf5c5d5fc61f9516781c4e66c95fea843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 12/43] fix: solve of an atom and smoothed atoms return the
 answer of this call, not what another thread left in an attribute

---
 regreg/problems/composite.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index c8b3f37..beed82b 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -174,11 +174,13 @@ class nonsmooth(composite):
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
         if quadratic is None:
             quadratic = sq(0, 0, 0, 0)
-        self.coefs = self.proximal(quadratic)
+        # the answer is not read back from the attribute, which
+        # another thread may have replaced
+        coefs = self.coefs = self.proximal(quadratic)
         if return_optimum:
-            return self.objective(self.coefs) + quadratic.objective(self.coefs, 'func'), self.coefs
+            return self.objective(coefs) + quadratic.objective(coefs, 'func'), coefs
         else:
-            return self.coefs
+            return coefs
 
 @objective_doc_templater()
 class smooth(composite):
@@ -387,12 +389,12 @@ class smooth_conjugate(smooth):
             objective = -optimal_value
             # retain a reference
             self.grad = argmin
-            return objective, self.grad
+            return objective, argmin
         elif mode == 'grad':
             argmin = self.atom.solve(quadratic=q)
             # retain a reference
             self.grad = argmin
-            return self.grad
+            return argmin
         elif mode == 'func':
             optimal_value, argmin = self.atom.solve(quadratic=q, return_optimum=True)
             objective = -optimal_value
-- 
2.43.0


From f1bedbfd6160ccfb2cc2f974dc0202a73848adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 13/43] fix: an offset of zeros replaces the previous offset
 instead of being ignored

---
 regreg/problems/composite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index beed82b..fe6303b 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -41,10 +41,10 @@ class composite(object):
     def set_offset(self, value):
         if value is not None:
             value = asarray(value)
-            if npany(value != 0):
-                self._offset = value
-        else:
-            self._offset = None
+            if not npany(value != 0):
+                # an offset of 0 replaces a previous one
+                value = None
+        self._offset = value
 
     def get_offset(self):
         if not hasattr(self, "_offset"):
-- 
2.43.0


From 70e45b3e267ad5b39d9a02ad74f97308e3c2cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:03 +0000
Subject: [PATCH 14/43] fix: the conjugate of a block norm uses its current
 multiplier or bound

---
 regreg/atoms/block_norms.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index e69b0a4..6b4cfe7 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -128,8 +128,8 @@ class block_sum(seminorms.seminorm):
             atom = cls(atom_cls, 
                        self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -309,12 +309,11 @@ class linf_l2(block_max):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-
+            # the multiplier or bound of self.atom may be out of date
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -536,12 +535,11 @@ class l1_l2(block_sum):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-
+            # the multiplier or bound of self.atom may be out of date
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
-- 
2.43.0


From c833ecbb989a6328e8610226b21956c74bcd59c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 15/43] fix: setting the data of a glm, Cox or binary loss
 reaches everything computed from the data, and refused data change nothing

---
 regreg/smooth/binary.py | 48 +++++++++++++++++++++++------------------
 regreg/smooth/cox.py    |  7 +++---
 regreg/smooth/glm.py    |  7 ++++--
 3 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 370fdb8..95e24fe 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -195,23 +195,25 @@ class logistic_loglike(smooth_atom):
 
         if sparse.issparse(successes):
             #Convert sparse success vector to an array
-            self.successes = successes.toarray().flatten() * 1.
+            successes = successes.toarray().flatten() * 1.
         else:
-            self.successes = np.asarray(successes).astype(float)
+            successes = np.asarray(successes).astype(float)
 
         if trials is None and hasattr(self, 'trials') and self.trials is not None:
             trials = self.trials
 
         if trials is None:
-            if not set([0,1]).issuperset(np.unique(self.successes)):
+            if not set([0,1]).issuperset(np.unique(successes)):
                 raise ValueError("Number of successes is not binary - must specify number of trials")
-            self.trials = np.ones_like(self.successes)
+            trials = np.ones_like(successes)
         else:
-            if np.min(trials-self.successes) < 0:
+            if np.min(trials-successes) < 0:
                 raise ValueError("Number of successes greater than number of trials")
-            if np.min(self.successes) < 0:
+            if np.min(successes) < 0:
                 raise ValueError("Response coded as negative number - should be non-negative number of successes")
-            self.trials = trials * 1.
+
+        # set only once the data are known to be acceptable
+        self.successes, self.trials = successes, trials * 1.
 
     data = property(get_data, set_data)
 
@@ -436,23 +438,25 @@ class probit_loglike(smooth_atom):
 
         if sparse.issparse(successes):
             #Convert sparse success vector to an array
-            self.successes = successes.toarray().flatten() * 1.
+            successes = successes.toarray().flatten() * 1.
         else:
-            self.successes = np.asarray(successes).astype(float)
+            successes = np.asarray(successes).astype(float)
 
         if trials is None and hasattr(self, 'trials') and self.trials is not None:
             trials = self.trials
 
         if trials is None:
-            if not set([0,1]).issuperset(np.unique(self.successes)):
+            if not set([0,1]).issuperset(np.unique(successes)):
                 raise ValueError("Number of successes is not binary - must specify number of trials")
-            self.trials = np.ones_like(self.successes)
+            trials = np.ones_like(successes)
         else:
-            if np.min(trials-self.successes) < 0:
+            if np.min(trials-successes) < 0:
                 raise ValueError("Number of successes greater than number of trials")
-            if np.min(self.successes) < 0:
+            if np.min(successes) < 0:
                 raise ValueError("Response coded as negative number - should be non-negative number of successes")
-            self.trials = trials * 1.
+
+        # set only once the data are known to be acceptable
+        self.successes, self.trials = successes, trials * 1.
 
     data = property(get_data, set_data)
 
@@ -681,23 +685,25 @@ class cloglog_loglike(smooth_atom):
 
         if sparse.issparse(successes):
             #Convert sparse success vector to an array
-            self.successes = successes.toarray().flatten() * 1.
+            successes = successes.toarray().flatten() * 1.
         else:
-            self.successes = np.asarray(successes).astype(float)
+            successes = np.asarray(successes).astype(float)
 
         if trials is None and hasattr(self, 'trials') and self.trials is not None:
             trials = self.trials
 
         if trials is None:
-            if not set([0,1]).issuperset(np.unique(self.successes)):
+            if not set([0,1]).issuperset(np.unique(successes)):
                 raise ValueError("Number of successes is not binary - must specify number of trials")
-            self.trials = np.ones_like(self.successes)
+            trials = np.ones_like(successes)
         else:
-            if np.min(trials-self.successes) < 0:
+            if np.min(trials-successes) < 0:
                 raise ValueError("Number of successes greater than number of trials")
-            if np.min(self.successes) < 0:
+            if np.min(successes) < 0:
                 raise ValueError("Response coded as negative number - should be non-negative number of successes")
-            self.trials = trials * 1.
+
+        # set only once the data are known to be acceptable
+        self.successes, self.trials = successes, trials * 1.
 
     data = property(get_data, set_data)
 
diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index c274cc5..20f3fb1 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -35,10 +35,6 @@ class cox_loglike(smooth_atom):
 
         self.data = np.asarray([event_times, censoring]).T
 
-        self._ordering = np.argsort(self.event_times).astype(np.intp)
-        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
-        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
-
         if case_weights is not None:
             case_weights = np.asarray(case_weights).astype(float)
             if not np.all(case_weights >= 0):
@@ -200,6 +196,9 @@ class cox_loglike(smooth_atom):
         event_times, censoring = np.asarray(data).T
         self.event_times, self.censoring = (np.asarray(event_times),
                                             np.asarray(censoring).astype(np.intp))
+        self._ordering = np.argsort(self.event_times).astype(np.intp)
+        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
+        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
 
     data = property(get_data, set_data)
 
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 95ee29a..806e3d3 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -139,10 +139,13 @@ class glm(smooth_atom):
 
     def set_data(self, data):
         X, Y = data
-        self._transform = astransform(X)
+        transform = astransform(X)
+        # may refuse Y, nothing has been changed at this point
+        self.saturated_loss.data = Y
+        self._transform = transform
         self._X = X
         self._is_transform = id(self._X) == id(self._transform) # i.e. astransform was a nullop
-        self.saturated_loss.data = Y
+        self.affine_atom = affine_smooth(self.saturated_loss, X)
 
     data = property(get_data, set_data, doc="Data for the general linear model.")
 
-- 
2.43.0


From dab2f5f4894f15b1ac11e74762e7f0f5cd5a7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:03 +0000
Subject: [PATCH 16/43] fix: stacked losses use their case weights, so that
 their subsamples leave cases out

---
 regreg/smooth/glm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 806e3d3..138c6b4 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1491,18 +1491,18 @@ class stacked_loglike(smooth_atom):
         if mode == 'grad':
             gradient = np.zeros(self.shape)
             for d, slice in enumerate(self._slices):
-                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
+                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
             return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
-                value += self._losses[d].smooth_objective(linpred[slice], 'func')
+                value += self._losses[d].smooth_objective(linpred[slice], 'func', case_weights=cw[slice])
             return self.scale(value)
         elif mode == 'both':
             value = 0
             gradient = np.zeros(self.shape)
             for d, slice in enumerate(self._slices):
-                f, g = self._losses[d].smooth_objective(linpred[slice], 'both')
+                f, g = self._losses[d].smooth_objective(linpred[slice], 'both', case_weights=cw[slice])
                 gradient[slice] = g
                 value += f
             return self.scale(value), self.scale(gradient)
-- 
2.43.0


From f4e0ff27ce2e379bbb0d000fea245b5d7f367128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:03 +0000
Subject: [PATCH 17/43] fix: multinomial losses use their own case weights

---
 regreg/smooth/mglm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 4c1c1e4..a240715 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -831,6 +831,8 @@ class multinomial_loglike(smooth_atom):
             cw = np.ones(natural_param.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         if mode == 'both':
             ratio = ((self.trials/np.sum(exp_eta, axis=1)) * exp_eta.T).T
@@ -975,6 +977,8 @@ class multinomial_baseline_loglike(smooth_atom):
             cw = np.ones(eta.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         #TODO: Using transposes to scale the rows of a 2d array - should we use an affine_transform to do this?
         #JT: should be able to do this with np.newaxis
-- 
2.43.0


From e0484c58adb33a494ac8f9b20dab7d67e999ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:03 +0000
Subject: [PATCH 18/43] fix: setting the data of stacked and multinomial losses
 takes effect

---
 regreg/smooth/glm.py  |  6 ++++++
 regreg/smooth/mglm.py | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 138c6b4..128b055 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1513,6 +1513,12 @@ class stacked_loglike(smooth_atom):
         return self._data
 
     def set_data(self, data):
+        if hasattr(self, '_losses') and data is not self._data:
+            # each loss gets its part of the new data
+            losses = [copy(l) for l in self._losses]
+            for l, part in zip(losses, self._slices):
+                l.data = data[part]
+            self._losses = losses
         self._data = data
 
     data = property(get_data, set_data)
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index a240715..e283c22 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -380,6 +380,12 @@ class stacked_common_loglike(smooth_atom):
         return self._data
 
     def set_data(self, data):
+        if hasattr(self, '_losses') and data is not self._data:
+            # each loss gets its part of the new data
+            losses = [copy(l) for l in self._losses]
+            for l, part in zip(losses, np.asarray(data).T):
+                l.data = part
+            self._losses = losses
         self._data = data
 
     data = property(get_data, set_data)
@@ -805,6 +811,7 @@ class multinomial_loglike(smooth_atom):
         return self._data
 
     def set_data(self, data):
+        self.counts, self.trials = data
         self._data = data
 
     data = property(get_data, set_data)
@@ -951,6 +958,9 @@ class multinomial_baseline_loglike(smooth_atom):
         return self._data
 
     def set_data(self, data):
+        counts, trials = data
+        self.firstcounts = counts[:,range(self.J-1)]
+        self.counts, self.trials = counts, trials
         self._data = data
 
     data = property(get_data, set_data)
-- 
2.43.0


From c348cd4c2932db21f613288ee6eaae257067e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:22 +0000
Subject: [PATCH 19/43] fix: copies of Huber losses keep their case weights

---
 regreg/smooth/binary.py | 3 ++-
 regreg/smooth/glm.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 95e24fe..f244760 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -924,7 +924,8 @@ class huber_svm(smooth_atom):
                          coef=self.coef,
                          offset=copy(self.offset),
                          quadratic=copy(self.quadratic),
-                         initial=copy(self.coefs))
+                         initial=copy(self.coefs),
+                         case_weights=copy(self.case_weights))
     
     # End loss API
 
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 128b055..d79a081 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1383,7 +1383,8 @@ class huber_loss(smooth_atom):
                           coef=self.coef,
                           offset=copy(self.offset),
                           quadratic=copy(self.quadratic),
-                          initial=copy(self.coefs))
+                          initial=copy(self.coefs),
+                          case_weights=copy(self.case_weights))
 
     # End loss API
 
-- 
2.43.0


From b64871cbc4f3ce27c724cda523d162257b7ecdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:42 +0000
Subject: [PATCH 20/43] fix: copies of binary, Poisson and multinomial losses
 do not add the deviance constant again, multinomial copies do not share
 weights

---
 regreg/smooth/binary.py | 54 +++++++++++++++++++++++------------------
 regreg/smooth/glm.py    | 16 ++++++------
 regreg/smooth/mglm.py   | 22 +++++++++++++++++
 3 files changed, 61 insertions(+), 31 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index f244760..3b2715f 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -219,14 +219,16 @@ class logistic_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return logistic_loglike(self.shape,
-                                copy(successes),
-                                trials=copy(trials),
-                                coef=self.coef,
-                                offset=copy(self.offset),
-                                quadratic=copy(self.quadratic),
-                                initial=copy(self.coefs),
-                                case_weights=copy(self.case_weights))
+        loss_cp = logistic_loglike(self.shape,
+                                   copy(successes),
+                                   trials=copy(trials),
+                                   coef=self.coef,
+                                   offset=copy(self.offset),
+                                   initial=copy(self.coefs),
+                                   case_weights=copy(self.case_weights))
+        # it already has the constant of the deviance
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
 
     def subsample(self, case_idx):
         """
@@ -462,14 +464,16 @@ class probit_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return probit_loglike(self.shape,
-                              copy(successes),
-                              trials=copy(trials),
-                              coef=self.coef,
-                              offset=copy(self.offset),
-                              quadratic=copy(self.quadratic),
-                              initial=copy(self.coefs),
-                              case_weights=copy(self.case_weights))
+        loss_cp = probit_loglike(self.shape,
+                                 copy(successes),
+                                 trials=copy(trials),
+                                 coef=self.coef,
+                                 offset=copy(self.offset),
+                                 initial=copy(self.coefs),
+                                 case_weights=copy(self.case_weights))
+        # it already has the constant of the deviance
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
 
     def subsample(self, case_idx):
         """
@@ -709,14 +713,16 @@ class cloglog_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return cloglog_loglike(self.shape,
-                               copy(successes),
-                               trials=copy(trials),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        loss_cp = cloglog_loglike(self.shape,
+                                  copy(successes),
+                                  trials=copy(trials),
+                                  coef=self.coef,
+                                  offset=copy(self.offset),
+                                  initial=copy(self.coefs),
+                                  case_weights=copy(self.case_weights))
+        # it already has the constant of the deviance
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
 
     def subsample(self, case_idx):
         """
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index d79a081..e0988c0 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1168,13 +1168,15 @@ class poisson_loglike(smooth_atom):
 
     def __copy__(self):
         counts = self.data
-        return poisson_loglike(self.shape,
-                               copy(counts),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        loss_cp = poisson_loglike(self.shape,
+                                  copy(counts),
+                                  coef=self.coef,
+                                  offset=copy(self.offset),
+                                  initial=copy(self.coefs),
+                                  case_weights=copy(self.case_weights))
+        # it already has the constant of the deviance
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
 
     def subsample(self, case_idx):
         """
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index e283c22..e241d76 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -856,6 +856,17 @@ class multinomial_loglike(smooth_atom):
         else:
             raise ValueError("mode incorrectly specified")
 
+    def __copy__(self):
+        loss_cp = multinomial_loglike(self.shape,
+                                      copy(self.counts),
+                                      coef=self.coef,
+                                      offset=copy(self.offset),
+                                      initial=copy(self.coefs),
+                                      case_weights=copy(self.case_weights))
+        # it already has the constant of the deviance
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
@@ -1008,6 +1019,17 @@ class multinomial_baseline_loglike(smooth_atom):
         else:
             raise ValueError("mode incorrectly specified")
 
+    def __copy__(self):
+        loss_cp = multinomial_baseline_loglike(self.shape,
+                                               copy(self.counts),
+                                               coef=self.coef,
+                                               offset=copy(self.offset),
+                                               initial=copy(self.coefs),
+                                               case_weights=copy(self.case_weights))
+        # it already has the constant of the deviance
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
-- 
2.43.0


From b0b34a734472379027a200459e4a0806574b2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:42 +0000
Subject: [PATCH 21/43] fix: copies of stacked losses do not share their losses
 with the original

---
 regreg/smooth/glm.py  | 2 +-
 regreg/smooth/mglm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index e0988c0..f12db4f 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1527,7 +1527,7 @@ class stacked_loglike(smooth_atom):
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_loglike(copy(self._losses),
+        return stacked_loglike([copy(l) for l in self._losses],
                                coef=self.coef,
                                offset=copy(self.offset),
                                quadratic=copy(self.quadratic),
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index e241d76..58c7520 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -391,7 +391,7 @@ class stacked_common_loglike(smooth_atom):
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_common_loglike(copy(self._losses),
+        return stacked_common_loglike([copy(l) for l in self._losses],
                                       coef=self.coef,
                                       offset=copy(self.offset),
                                       quadratic=copy(self.quadratic),
-- 
2.43.0


From c0365bfba7f73d4c849a0427243ba0f2de60727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 22/43] fix: the conjugate of a sparse group block norm uses
 its current multiplier or bound

---
 regreg/atoms/sparse_group_block.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 14bdeae..47a4854 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -93,14 +93,13 @@ class sparse_group_block(l1_l2):
                                                self.quadratic)
 
             cls = sparse_group_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-
+            # the multiplier or bound of self.atom may be out of date
             atom = cls(self.shape, 
                        self.l1_weight,
                        self.l2_weight,
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -213,14 +212,13 @@ class sparse_group_block_dual(sparse_group_block):
                                                self.quadratic)
 
             cls = sparse_group_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-
+            # the multiplier or bound of self.atom may be out of date
             atom = cls(self.shape, 
                        self.l1_weight,
                        self.l2_weight,
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
-- 
2.43.0


From de36b92832af6a3bdecb865bbb8b80a96144b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 23/43] fix: squared_error and signal_approximator do not
 change the LaTeX form of every other quadratic loss

---
 regreg/smooth/quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index f0c48dd..1adee66 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -250,7 +250,7 @@ def squared_error(X, Y, coef=1):
 
     """
     atom = quadratic_loss.affine(X, -Y, coef=coef)
-    atom.atom.objective_vars['offset'] = 'Y'
+    atom.atom.objective_vars = dict(atom.atom.objective_vars, offset='Y')
     atom.atom.objective_template = r"""\frac{%(coef)s}{2}\left\|%(var)s\right\|^2_2"""
     return atom
 
@@ -264,7 +264,7 @@ def signal_approximator(signal, coef=1):
 
     """
     atom = quadratic_loss.shift(signal, coef=coef)    
-    atom.objective_vars['offset'] = 'Y'
+    atom.objective_vars = dict(atom.objective_vars, offset='Y')
     atom.objective_template = r"""\frac{%(coef)s}{2}\left\|%(var)s\right\|^2_2"""
     return atom
 
-- 
2.43.0


From 16e2962e69c325c433da527d86b406f1185533d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 24/43] fix: Cox losses whose last cases have weight zero are
 finite

---
 regreg/smooth/cox_fns.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/cox_fns.c b/regreg/smooth/cox_fns.c
index 3ac752a..ceedeeb 100644
--- a/regreg/smooth/cox_fns.c
+++ b/regreg/smooth/cox_fns.c
@@ -98,7 +98,9 @@ void _update_outer_1st(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight / *exp_accum;
+    if ((censoring != 0) && (case_weight != 0)) { // otherwise, exp_accum may be 0
+      cur_val = cur_val + censoring * case_weight / *exp_accum;
+    }
     outer_1st_accum = ((double *) outer_1st_accum_ptr + idx);
     *outer_1st_accum = cur_val;
   }
@@ -134,7 +136,9 @@ void _update_outer_2nd(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    if ((censoring != 0) && (case_weight != 0)) { // otherwise, exp_accum may be 0
+      cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    }
     outer_2nd_accum = ((double *) outer_2nd_accum_ptr + idx);
     *outer_2nd_accum = cur_val;
   }
@@ -169,7 +173,9 @@ double _cox_objective(double *linear_pred_ptr,     /* Linear term in objective *
     censoring = *((size_t *) censoring_ptr + idx);
     case_weight = *((double *) case_weight_ptr + idx);
     linear_pred = *((double *) linear_pred_ptr + idx);
-    cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    if ((censoring != 0) && (case_weight != 0)) { // otherwise, exp_accum may be 0
+      cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    }
   }
 
   return(cur_val);
-- 
2.43.0


From 2c98773b8334c64dea5ef1bef4b99fb266ba7fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:02 +0000
Subject: [PATCH 25/43] fix: copies of atoms have a quadratic of their own

---
 regreg/atoms/linear_constraints.py | 2 +-
 regreg/atoms/mixed_lasso.py        | 8 ++++----
 regreg/atoms/simplex.py            | 4 ++--
 regreg/atoms/slope.py              | 2 +-
 regreg/atoms/sparse_group_block.py | 2 +-
 regreg/atoms/sparse_group_lasso.py | 2 +-
 regreg/atoms/svd_norms.py          | 2 +-
 regreg/atoms/weighted_atoms.py     | 2 +-
 8 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index f9062d8..54f2876 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -54,7 +54,7 @@ class linear_constraint(cone):
         return self.__class__(copy(self.shape),
                               self.basis.copy(),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index de24f97..2d0892b 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -90,10 +90,10 @@ class mixed_lasso(atom):
     def __copy__(self):
         return self.__class__(copy(self.penalty_structure),
                               self.lagrange,
-                              weights=self.weights,
+                              weights=copy(self.weights),
                               offset=copy(self.offset),
                               initial=self.coefs,
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
@@ -275,10 +275,10 @@ class mixed_lasso_dual(mixed_lasso):
     def __copy__(self):
         return self.__class__(copy(self.penalty_structure),
                               self.bound,
-                              weights=self.weights,
+                              weights=copy(self.weights),
                               offset=copy(self.offset),
                               initial=self.coefs,
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 436f07a..7b9b94c 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -28,7 +28,7 @@ class simplex_constraint(atom):
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
@@ -160,7 +160,7 @@ class maximum(atom):
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 02e696c..b01a5c9 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -90,7 +90,7 @@ class slope(seminorm):
 
     def __copy__(self):
          return self.__class__(self.weights.copy(),
-                               quadratic=self.quadratic,
+                               quadratic=copy(self.quadratic),
                                initial=self.coefs,
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 47a4854..11e21c2 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -113,7 +113,7 @@ class sparse_group_block(l1_l2):
          return self.__class__(self.shape,
                                self.l1_weight,
                                self.l2_weight,
-                               quadratic=self.quadratic,
+                               quadratic=copy(self.quadratic),
                                initial=self.coefs,
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index e11fb5b..554b148 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -120,7 +120,7 @@ class sparse_group_lasso(group_lasso, seminorm):
          return self.__class__(self.groups.copy(),
                                self.lasso_weights.copy(),
                                weights=copy(self.weights),
-                               quadratic=self.quadratic,
+                               quadratic=copy(self.quadratic),
                                initial=self.coefs,
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 5509c79..9cc23b1 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -195,7 +195,7 @@ class svd_cone(cone):
         return self.__class__(copy(self.matrix_shape),
                               offset=copy(self.offset),
                               initial=self.coefs,
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
 
     def __repr__(self):
diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 18b7c63..f7a069d 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -52,7 +52,7 @@ class seminorm(unweighted_seminorm):
 
     def __copy__(self):
         return self.__class__(self.weights.copy(),
-                              quadratic=self.quadratic,
+                              quadratic=copy(self.quadratic),
                               initial=self.coefs,
                               bound=copy(self.bound),
                               lagrange=copy(self.lagrange),
-- 
2.43.0


From 096242a00473b71526c4461ae3c66a3f633c5b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 26/43] fix: copies of smooth losses have a quadratic, and
 composites with affine maps a scale, of their own

---
 regreg/smooth/__init__.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index bc7558d..33d7534 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -2,6 +2,7 @@ import numpy as np
 from scipy import sparse
 import warnings
 import inspect
+from copy import copy as _copy
 
 from ..problems.composite import smooth as smooth_composite
 from ..affine import affine_transform, linear_transform, astransform
@@ -139,6 +140,16 @@ class smooth_atom(smooth_composite):
     def conjugate(self):
         return self.get_conjugate()
  
+    def __copy__(self):
+        # the copy shares the data, but has a quadratic
+        # and coefficients of its own
+        smooth_cp = self.__class__.__new__(self.__class__)
+        smooth_cp.__dict__.update(self.__dict__)
+        smooth_cp.quadratic = _copy(self.quadratic)
+        if 'coefs' in smooth_cp.__dict__:
+            smooth_cp.coefs = _copy(self.coefs)
+        return smooth_cp
+
 
 def acceptable_init_args(cls, proposed_keywords):
     """
@@ -253,6 +264,12 @@ class affine_smooth(smooth_atom):
             v = self.atom.smooth_objective(eta, mode='func')
             return v 
 
+    def __copy__(self):
+        # coef is the one of the atom
+        smooth_cp = smooth_atom.__copy__(self)
+        smooth_cp.atom = _copy(self.atom)
+        return smooth_cp
+
     @property
     def dual(self):
         try: 
-- 
2.43.0


From aa940d1080eefa89f78ba9b875cb5bc5c080733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 27/43] fix: quasi_newton takes the quadratic of its loss into
 account in its steps

---
 regreg/problems/newton.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index f3b32dc..626697e 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -250,7 +250,9 @@ class quasi_newton(object):
         # warm start the subproblem
         self.quadratic_problem.coefs[:] = self.coefs 
 
-        quad_soln = self.quadratic_problem.solve(quad + self.quadratic,
+        quad_soln = self.quadratic_problem.solve(quad + 
+                                                 self.smooth_atom.quadratic +
+                                                 self.quadratic,
                                                  **fit_args)
         direction = quad_soln - self.coefs
         return direction, grad, quad_soln 
-- 
2.43.0


From 52870105ab9a6fe06e28e18803d60ae7d73d851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 28/43] fix: a container uses the present multipliers, bounds
 and quadratics of its atoms in its prox

---
 regreg/problems/container.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index ab28f1c..9e70ec6 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -42,12 +42,20 @@ class container(composite):
         if len(self.nonsmooth_atoms) == 0:
             self.nonsmooth_atoms = [zero_nonsmooth(self.smooth_atoms[0].shape)]
 
-        self.transform, self.atom = stacked_dual(self.smooth_atoms[0].shape, *self.nonsmooth_atoms)
+        self._stack_atoms()
         self.coefs = np.zeros(self.transform.input_shape)
 
-        self.smoothq = identity_quadratic(0,0,0,0)
+    def _stack_atoms(self):
+        """
+        The dual form used in the prox, for the present multipliers, bounds, offsets
+        and quadratics of the atoms.
+        """
+        self.transform, self.atom = stacked_dual(self.smooth_atoms[0].shape, *self.nonsmooth_atoms)
+
+        smoothq = identity_quadratic(0,0,0,0)
         for atom in self.smooth_atoms:
-            self.smoothq += atom.quadratic
+            smoothq = smoothq + atom.quadratic
+        self.smoothq = smoothq
 
     def smooth_objective(self, x, mode='both', check_feasibility=False):
         """
@@ -90,6 +98,8 @@ class container(composite):
         The proximal function for the primal problem
         """
 
+        # the atoms may have been modified since the last call
+        self._stack_atoms()
         transform, atom = self.transform, self.atom
 
         if not (isinstance(transform, afidentity) or
-- 
2.43.0


From fb6458419c6587d31c09818c98774373dfe93f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 29/43] fix: admm_problem uses the adjoint of its transform and
 the quadratics of the loss and of the problem

---
 regreg/problems/admm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index 4cf141b..0c66ec8 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -56,7 +56,7 @@ class admm_problem(object):
 
         self.fit_args = fit_args # for the smooth_sum FISTA run
 
-        assert (self.loss.shape == self.transform.output_shape)
+        assert (self.loss.shape == self.transform.input_shape)
 
     def update_loss_coefs(self):
         """
@@ -68,8 +68,12 @@ class admm_problem(object):
                             self.transform.affine_offset)
         if alpha is None:
             alpha = 0
-        linear_term = self.linear_transform.dot(y - rho * (z - alpha))
-        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
+        linear_term = self.linear_transform.adjoint_map(y - rho * (z - alpha))
+        # the quadratic of the loss is not part of the augmented loss
+        quadratic = identity_quadratic(0, 0, linear_term, 0) + self.loss.quadratic
+        if self.quadratic is not None:
+            quadratic = quadratic + self.quadratic
+        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=quadratic,
                                                        **self.fit_args)
 
     def update_atom_coefs(self):
-- 
2.43.0


From 4417733f94a8bfd017ed4889f903962bdcc6e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 30/43] fix: nesta takes the quadratic of its smooth atom into
 account

---
 regreg/problems/simple.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index d92bf6e..90535e5 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -191,6 +191,9 @@ def nesta(smooth_atom, proximal_atom, conjugate_atom, epsilon=None,
 
     if quadratic is None:
         quadratic = identity_quadratic(0,0,0,0)
+    if smooth_atom is not None:
+        # it is not part of the smooth sum below
+        quadratic = quadratic + smooth_atom.quadratic
 
     primal_old = np.zeros(transform.output_shape)
     value = np.inf
-- 
2.43.0


From c8544ef752695815298eb4f4f40c2707c8e39140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:11 +0000
Subject: [PATCH 31/43] fix: quasi_newton and admm_problem do not write into
 arrays handed out before

---
 regreg/problems/admm.py   |  2 +-
 regreg/problems/newton.py | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index 0c66ec8..5d9d850 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -43,7 +43,7 @@ class admm_problem(object):
                             augmented_param,
                             quadratic)
 
-        self.loss_coefs = self.loss.coefs                       # x in ADMM notes
+        self.loss_coefs = np.array(self.loss.coefs)             # x in ADMM notes
         self.dual_coefs = np.zeros(self.transform.output_shape) # y in ADMM notes
         self.atom_coefs = np.zeros(self.transform.output_shape) # z in ADMM notes
         self.augmented_param = augmented_param                  # rho in ADMM notes
diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index 626697e..f7be88d 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -61,7 +61,8 @@ class quasi_newton(object):
         '''
         self.smooth_atom = smooth_atom
         self.proximal_atom = proximal_atom
-        self.coefs = self.smooth_atom.coefs = self.proximal_atom.coefs
+        # an array of its own: the atoms may be part of other problems
+        self.coefs = np.array(self.proximal_atom.coefs)
         H0 = initial_hessian
         self.hessian = H0 + (self.damping_term *
                              (np.diag(H0).mean() *
@@ -314,9 +315,10 @@ class quasi_newton(object):
             self.solver_results.append(val)
 
         self.solver_results = np.array(self.solver_results)
-        self.coefs[:] = quad_soln # ensures the last solution
-                                  # will satisfy the constraint
-                                  # if in bound form
+        # ensures the last solution will satisfy the constraint
+        # if in bound form; not written over the array
+        # returned by a previous call
+        self.coefs = np.array(quad_soln)
         return self.coefs
 
     def converged(self,
-- 
2.43.0


From 6e38cc19eaac1fd2a512b24c21f164bd9d614f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:31 +0000
Subject: [PATCH 32/43] fix: copies of generalized linear models keep their
 scale coefficient

---
 regreg/smooth/glm.py  | 16 +++++++++-------
 regreg/smooth/mglm.py | 14 ++++++++------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index f12db4f..d32c3e9 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -256,13 +256,15 @@ class glm(smooth_atom):
     def __copy__(self):
         klass = self.__class__
         X, Y = self.data
-        return klass(copy(X), 
-                     copy(Y), 
-                     copy(self.saturated_loss), 
-                     quadratic=copy(self.quadratic),
-                     initial=copy(self.coefs),
-                     offset=copy(self.offset),
-                     case_weights=self.case_weights.copy())
+        loss_cp = klass(copy(X), 
+                        copy(Y), 
+                        copy(self.saturated_loss), 
+                        quadratic=copy(self.quadratic),
+                        initial=copy(self.coefs),
+                        offset=copy(self.offset),
+                        case_weights=self.case_weights.copy())
+        loss_cp.coef = self.coef
+        return loss_cp
 
     def subsample(self, idx):
         """
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 58c7520..77780ee 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -136,12 +136,14 @@ class mglm(glm):
     def __copy__(self):
         klass = self.__class__
         X, _ = self.data
-        return klass(copy(X), 
-                     copy(self.saturated_loss), 
-                     quadratic=copy(self.quadratic),
-                     initial=copy(self.coefs),
-                     offset=copy(self.offset),
-                     case_weights=copy(self.case_weights))
+        loss_cp = klass(copy(X), 
+                        copy(self.saturated_loss), 
+                        quadratic=copy(self.quadratic),
+                        initial=copy(self.coefs),
+                        offset=copy(self.offset),
+                        case_weights=copy(self.case_weights))
+        loss_cp.coef = self.coef
+        return loss_cp
        
     @classmethod
     def multinomial(klass, 
-- 
2.43.0


From 03d2f311d93e6fbf7e0badde813b2a68735371a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 33/43] fix: copies of smooth losses have an offset, and copies
 of sums atoms and weights, of their own

---
 regreg/smooth/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 33d7534..0362a19 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -141,11 +141,12 @@ class smooth_atom(smooth_composite):
         return self.get_conjugate()
  
     def __copy__(self):
-        # the copy shares the data, but has a quadratic
-        # and coefficients of its own
+        # the copy shares the data, but has a quadratic,
+        # an offset and coefficients of its own
         smooth_cp = self.__class__.__new__(self.__class__)
         smooth_cp.__dict__.update(self.__dict__)
         smooth_cp.quadratic = _copy(self.quadratic)
+        smooth_cp.offset = _copy(self.offset)
         if 'coefs' in smooth_cp.__dict__:
             smooth_cp.coefs = _copy(self.coefs)
         return smooth_cp
@@ -343,6 +344,13 @@ class sum(smooth_atom):
         self.coefs = np.array(self.atoms[0].coefs)
         self.shape = self.coefs.shape
 
+    def __copy__(self):
+        # the atoms and their weights are its own as well
+        smooth_cp = smooth_atom.__copy__(self)
+        smooth_cp.atoms = [_copy(atom) for atom in self.atoms]
+        smooth_cp.weights = _copy(self.weights)
+        return smooth_cp
+
     def smooth_objective(self, x, mode='both', check_feasibility=False):
 
         """
-- 
2.43.0


From 315fdd8b0a69d3ce4ed2af831ed3a86695fd414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 34/43] fix: strong_rules solves the first grid point too and
 always refits unpenalized groups

---
 regreg/paths/__init__.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index f1ace48..e4ec796 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -238,17 +238,24 @@ def strong_rules(path_obj,
     grad_solution = grad_solution.copy()
 
     linear_predictor = path_obj.X.dot(solution)
-    ever_active = path_obj.updated_ever_active([])
 
     dev_solution = path_obj.saturated_loss.smooth_objective(linear_predictor, 'func')
-    solutions = [solution.T.copy()]
+    solutions = []
     dev_explained = [dev_solution]
 
     all_failing = np.zeros(path_obj.group_shape, np.bool)
-    subproblem_set = path_obj.updated_ever_active([])
 
-    for lagrange_new, lagrange_cur in zip(lagrange_seq[1:], 
-                                          lagrange_seq[:-1]):
+    # the subproblems always include the unpenalized groups
+    # and the groups the initial solution uses
+
+    initial_set = np.zeros(path_obj.group_shape, np.bool)
+    initial_set[path_obj.unpenalized[1]] = True
+    initial_set += path_obj.active_set(solution)
+    subproblem_set = path_obj.updated_ever_active(initial_set)
+
+    for lagrange_new, lagrange_cur in zip(lagrange_seq,
+                                          np.hstack([lagrange_seq[:1],
+                                                     lagrange_seq[:-1]])):
         tol = inner_tol
         num_tries = 0
         debug = False
-- 
2.43.0


From 373d1286e1af92e10a3287c6b4e05b92a6b8a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 35/43] fix: warm_start leaves its solve_args and the path as
 they are

---
 regreg/paths/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index e4ec796..ccf9267 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -397,9 +397,9 @@ def warm_start(path_obj,
     # take a guess at the inverse step size
     if initial_step is None:
         _lipschitz = power_L(path_obj.X, max_its=50)
-        path_obj.final_step = 1000. / _lipschitz 
+        final_step = 1000. / _lipschitz 
     else:
-        path_obj.final_step = initial_step
+        final_step = initial_step
 
     objective = []
     solutions = []
@@ -411,14 +411,13 @@ def warm_start(path_obj,
 
         problem = simple_problem(total_loss, penalty)
         problem.coefs[:] = solution
-        solve_args['tol'] = inner_tol
-        solve_args['start_step'] = path_obj.final_step
+        solve_args = dict(solve_args, tol=inner_tol, start_step=final_step)
         solution = problem.solve(**solve_args)
 
         objective.append(loss.smooth_objective(solution, mode='func'))
         solutions.append(solution.T.copy())
         grad_solution = total_loss.smooth_objective(solution, 'grad')
-        path_obj.final_step = problem.final_step
+        final_step = problem.final_step
 
         if verbose:
             print({'lagrange':lagrange,
-- 
2.43.0


From f3a981dc09f7e78675865f76e1d954a80a5ee130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 36/43] fix: basil solves every grid point asked for and does
 not write in the initial gradient

---
 regreg/paths/basil.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 0fc2327..a3ba5d7 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -46,7 +46,8 @@ def basil_inner_loop(path_obj,
 
     candidate_bool = np.zeros(path_obj.group_shape, np.bool)
     subproblem_set = path_obj.updated_ever_active((inactive_ranks < M) * (inactive_ranks >= 0) +
-                                                  unpen)
+                                                  unpen + 
+                                                  path_obj.active_set(solution)) # used by initial solution
     if candidate_set is not None:
         subproblem_set = sorted(set(subproblem_set + candidate_set))
 
@@ -114,13 +115,14 @@ def basil(path_obj,
           step_lagrange=5,
           solve_args={}):
 
-    lagrange_solved, solutions, candidate_set = [np.inf], [], []
+    solutions, candidate_set = [], []
 
-    cur_data = initial_data
+    # the inner loop leaves the latest gradient, used to screen next time, in cur_data
+    cur_data = (initial_data[0], initial_data[1].copy())
 
     while True:
         
-        lagrange_start = np.sum(lagrange_seq >= np.min(lagrange_solved))
+        lagrange_start = len(solutions)
         lagrange_cand = lagrange_seq[lagrange_start:(lagrange_start + step_lagrange)] 
 
         if len(lagrange_cand) > 0:
@@ -138,7 +140,6 @@ def basil(path_obj,
                 cur_soln = (solution_incr[-1], last_grad)
 
                 solutions.extend(solution_incr)
-                lagrange_solved.extend(lagrange_incr)
         else:
             break
 
-- 
2.43.0


From da6bca59c3d8b9a98d264c998cd0680fca9103cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 37/43] fix: subsamples of a sparse group lasso path have the
 penalty of the path

---
 regreg/paths/sparse_group_lasso.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 680c16e..8ebdc67 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -33,21 +33,22 @@ class sparse_group_lasso_path(group_lasso_path):
                  elastic_net_param=None,
                  alpha=1.,  # elastic net mixing -- 1 is LASSO
                  l1_alpha=0.95, # mix between l1 and l2 penalty
+                                # if None, use the weights as they are
                  ):
 
         self.saturated_loss = saturated_loss
         self.X = astransform(X)
-        self.l1_alpha = l1_alpha # used only in constructor and 
-                                 # in subsample
+        self.l1_alpha = l1_alpha # used only in constructor
 
         # the penalty parameters
 
         self.alpha = alpha
         self.penalty = sparse_group_lasso(groups, lasso_weights, weights=weights, lagrange=1)
-        l2_weight = 1 - l1_alpha
-        for g in self.penalty.weights.keys():
-            self.penalty.set_weight(g, l2_weight * self.penalty.weights[g])
-        self.penalty.lasso_weights = self.penalty.lasso_weights * l1_alpha
+        if l1_alpha is not None:
+            l2_weight = 1 - l1_alpha
+            for g in self.penalty.weights.keys():
+                self.penalty.set_weight(g, l2_weight * self.penalty.weights[g])
+            self.penalty.lasso_weights = self.penalty.lasso_weights * l1_alpha
         self.group_shape = (len(np.unique(self.penalty.groups)),)
         self.shape = self.penalty.shape
 
@@ -155,7 +156,7 @@ class sparse_group_lasso_path(group_lasso_path):
                               weights=self.penalty.weights,
                               elastic_net_param=self.elastic_net_param,
                               alpha=self.alpha,
-                              l1_alpha=self.l1_alpha)
+                              l1_alpha=None) # weights already include l1_alpha
 
     def check_KKT(self,
                   grad_solution,
-- 
2.43.0


From 670a08d68d8aacb2c5c3981d4f8254b0cd65604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 38/43] fix: sparse group lasso path tells penalized from
 unpenalized groups

---
 regreg/paths/sparse_group_lasso.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 8ebdc67..e80170e 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -67,7 +67,7 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self._unpenalized_vars = _candidate_bool(self.penalty.groups, 
                                                  unpenalized_groups)
-        self._penalized_vars = np.zeros(self.shape, np.bool)
+        self._penalized_vars = np.ones(self.shape, np.bool)
         self._penalized_vars[self._unpenalized_vars] = 0
 
         if np.any(unpenalized_idx):
@@ -112,7 +112,7 @@ class sparse_group_lasso_path(group_lasso_path):
             self._unpen_groups = []
             self._unpen_group_idx = np.zeros(self.group_shape, np.bool)
             for i, g in enumerate(self.penalty._sorted_groupids):
-                unpen_group = (self.penalty.weights[g] == 0 +
+                unpen_group = (self.penalty.weights[g] == 0 and
                                np.any(self.penalty.lasso_weights[self.penalty.groups == g]
                                       == 0))
                 self._unpen_group_idx[i] = unpen_group
@@ -416,7 +416,7 @@ def _check_KKT(sglasso,
             inactive_results[i] = _gauge_function_dual_strong(subgrad_g, l1weight_g,
                                                               l2weight_g)[0] / lagrange
         else:   # unpenalized
-            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sqlasso.l1weight_g.mean()) * UNPENALIZED
+            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sglasso.lasso_weights.mean()) * UNPENALIZED
 
     inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
-- 
2.43.0


From 5e40ab86a9024900721a2f670adc8c53091cc3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 39/43] fix: dual of the sparse group lasso leaves unpenalized
 groups out, as that of the group lasso does

---
 regreg/atoms/sparse_group_lasso.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index 554b148..2cdf41e 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -258,6 +258,14 @@ class sparse_group_lasso_dual(sparse_group_lasso):
          lagrange = seminorm.seminorm(self, x, 
                                       check_feasibility=check_feasibility, 
                                       lagrange=lagrange)
+         if not check_feasibility:
+             # as in the dual of the group LASSO, unpenalized coordinates
+             # only matter for feasibility
+             unpenalized = np.equal(self.lasso_weights, 0)
+             for g in self._sorted_groupids:
+                 if self.weights[g] != 0:
+                     unpenalized[self.groups == g] = False
+             x = np.where(unpenalized, 0, x)
          return gauge_function_dual(self.base_conjugate, x) * lagrange
 
      @doc_template_user
-- 
2.43.0


From 9fa11609849c5df59562283efbe1dad56a7c1cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 40/43] fix: sparse group block path applies l1_alpha to its
 penalty and leaves the penalties handed in alone

---
 regreg/paths/sparse_group_block.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 4169ce3..b8ada4e 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -55,15 +55,15 @@ class sparse_group_common_path(group_lasso_path):
         self.l1_penalty = l1_penalty
         self.l2_penalty = l2_penalty
         if l1_alpha is not None:
-            self.l1_penalty *= l1_alpha
-            self.l2_penalty *= (1 - l1_alpha)
+            self.l1_penalty = l1_penalty * l1_alpha
+            self.l2_penalty = l2_penalty * (1 - l1_alpha)
 
         # the penalty parameters
 
         self.alpha = alpha
         self.penalty = sparse_group_block(self.X.input_shape,
-                                          l1_penalty, 
-                                          l2_penalty, 
+                                          self.l1_penalty, 
+                                          self.l2_penalty, 
                                           lagrange=1)
         self.group_shape = (self.penalty.shape[0],)
         self.shape = self.penalty.shape
-- 
2.43.0


From 09fea03ca3eea9de405c55046145f573eda52490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 41/43] fix: stacked losses can be made for every response
 family, with trials optional as documented

---
 regreg/smooth/glm.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index d32c3e9..98eef02 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1661,8 +1661,9 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
+        losses = [logistic_loglike(successes[i].shape,
+                                   successes[i],
+                                   trials=None if trials is None else trials[i],
                                    coef=coef)
                   for i in range(len(successes))]
 
@@ -1715,8 +1716,9 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [probit_loglike(successes[i],
-                                 trials[i],
+        losses = [probit_loglike(successes[i].shape,
+                                 successes[i],
+                                 trials=None if trials is None else trials[i],
                                  coef=coef)
                   for i in range(len(successes))]
 
@@ -1769,8 +1771,9 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [cloglog_loglike(successes[i],
-                                  trials[i],
+        losses = [cloglog_loglike(successes[i].shape,
+                                  successes[i],
+                                  trials=None if trials is None else trials[i],
                                   coef=coef)
                   for i in range(len(successes))]
 
@@ -1818,10 +1821,10 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -1831,7 +1834,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def huber(klass,
-              X, 
               responses,
               smoothing_parameter,
               case_weights=None,
@@ -1886,7 +1888,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def huber_svm(klass,
-                  X, 
                   successes,
                   smoothing_parameter,
                   case_weights=None,
@@ -1941,7 +1942,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def cox(klass, 
-            X, 
             event_times,
             censoring,
             coef=1., 
@@ -1955,9 +1955,6 @@ class stacked_loglike(smooth_atom):
         Parameters
         ----------
 
-        X : [ndarray, `regreg.affine.affine_transform`]
-            Design matrix
-
         event_times : ndarray
             Observed times for Cox proportional hazard model.
 
-- 
2.43.0


From 8e03574235f46a5e4b7b8f5d197c0281a422995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 42/43] fix: basil always finishes: a failing group already in
 the subproblem is solved more accurately

---
 regreg/paths/basil.py | 86 ++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 33 deletions(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index a3ba5d7..1419805 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -1,3 +1,5 @@
+from warnings import warn
+
 import numpy as np
 from ..affine import power_L
 
@@ -10,7 +12,8 @@ def basil_inner_loop(path_obj,
                      check_active=False,
                      step_nvar=50,
                      candidate_set=None,
-                     solve_args={}):
+                     solve_args={},
+                     max_tries=10):
 
     debug = True
     coef_stop = False
@@ -53,38 +56,55 @@ def basil_inner_loop(path_obj,
 
     for lagrange in lagrange_subseq:
 
-        (final_step, 
-         subproblem_grad, 
-         subproblem_soln,
-         subproblem_linpred,
-         subproblem_vars) = path_obj.solve_subproblem(solution, # for warm start
-                                                      subproblem_set,
-                                                      lagrange,
-                                                      tol=inner_tol,
-                                                      start_step=final_step,
-                                                      debug=debug and verbose,
-                                                      coef_stop=coef_stop,
-                                                      **solve_args)
-
-        saturated_grad = path_obj.saturated_loss.smooth_objective(subproblem_linpred, 'grad')
-        # as subproblem always contains ever active, 
-        # rest of solution should be 0
-        solution[subproblem_vars] = subproblem_soln
-
-        enet_grad = path_obj.enet_grad(solution, 
-                                       path_obj._penalized_vars,
-                                       lagrange)
-        grad_solution[:] = (path_obj.full_gradient(path_obj.saturated_loss, 
-                                                   subproblem_linpred) + 
-                            enet_grad)
-        failing_A, failing_I_ranks = path_obj.check_KKT(grad_solution, 
-                                                        solution, 
-                                                        path_obj.alpha * lagrange)
-
-        if check_active:
-            all_failing = failing_A + (failing_I_ranks >= 0)
-        else:
-            all_failing = failing_I_ranks >= 0
+        # a failing group already in the subproblem needs
+        # a more accurate solution rather than another group
+
+        tol, num_tries = inner_tol, 0
+        while True:
+
+            (final_step, 
+             subproblem_grad, 
+             subproblem_soln,
+             subproblem_linpred,
+             subproblem_vars) = path_obj.solve_subproblem(solution, # for warm start
+                                                          subproblem_set,
+                                                          lagrange,
+                                                          tol=tol,
+                                                          start_step=final_step,
+                                                          debug=debug and verbose,
+                                                          coef_stop=coef_stop,
+                                                          **solve_args)
+
+            saturated_grad = path_obj.saturated_loss.smooth_objective(subproblem_linpred, 'grad')
+            # as subproblem always contains ever active, 
+            # rest of solution should be 0
+            solution[subproblem_vars] = subproblem_soln
+
+            enet_grad = path_obj.enet_grad(solution, 
+                                           path_obj._penalized_vars,
+                                           lagrange)
+            grad_solution[:] = (path_obj.full_gradient(path_obj.saturated_loss, 
+                                                       subproblem_linpred) + 
+                                enet_grad)
+            failing_A, failing_I_ranks = path_obj.check_KKT(grad_solution, 
+                                                            solution, 
+                                                            path_obj.alpha * lagrange)
+
+            if check_active:
+                all_failing = failing_A + (failing_I_ranks >= 0)
+            else:
+                all_failing = failing_I_ranks >= 0
+
+            if (not np.any(all_failing) or
+                set(path_obj.updated_ever_active(all_failing)).difference(subproblem_set)):
+                break
+
+            tol /= 10.
+            num_tries += 1
+            if num_tries >= max_tries:
+                warn('convergence of active set not achieved for lagrange=%0.4e, moving on' % lagrange)
+                all_failing[:] = False
+                break
 
         if not all_failing.sum():
             ever_active_incr = path_obj.updated_ever_active(path_obj.active_set(solution))
-- 
2.43.0


From a29c9ae772114df2b206149a51d792741dbdd05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 43/43] fix: the composite solver raises on gradients, and
 rejects proximal points, that are not finite

---
 regreg/algorithms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index b034926..6b2efc9 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -133,6 +133,7 @@ class FISTA(algorithm):
             else:
                 #Use specified Lipschitz constant
                 working_grad = self.composite.smooth_objective(self.working_coefs, mode='grad')
+                self.check_gradient(working_grad)
                 lipschitz = self.composite.lipschitz
                 self.step = 1. / lipschitz
                 if self.prox_control != {}:
@@ -225,12 +226,18 @@ class FISTA(algorithm):
             self.weight_new = 1.
             self.working_coefs = proposed_coefs
 
+    def check_gradient(self, gradient):
+        # a proximal map can make a finite point of a gradient that is not
+        if not np.all(np.isfinite(gradient)):
+            raise ValueError('gradient is not finite')
+
     def backtrack(self, itercount):
 
         if np.mod(itercount+1,100)==0 or self.attempt_decrease:
             self.step *= self.alpha
             self.attempt_decrease = True
         working_smooth, working_grad = self.composite.smooth_objective(self.working_coefs, mode='both')
+        self.check_gradient(working_grad)
         while True:
             if self.prox_control != {}:
                 proposed_coefs = self.composite.proximal_step(sq(1. / self.step, 
@@ -246,7 +253,7 @@ class FISTA(algorithm):
 
             proposed_smooth = self.composite.smooth_objective(proposed_coefs, mode='func')
 
-            if not np.isfinite(proposed_smooth):
+            if not (np.isfinite(proposed_smooth) and np.all(np.isfinite(proposed_coefs))):
                 stop = False
             elif np.fabs(proposed_smooth - working_smooth)/np.max([1., proposed_smooth]) > 1e-10:
                 stop = (proposed_smooth <= (working_smooth + 
-- 
2.43.0

