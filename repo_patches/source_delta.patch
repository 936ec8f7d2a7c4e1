From 11ee370adb7ddc3dae439ba99793cf4a0210e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 01/14] fix: count performed iterations

performed_iter_ is documented as the number of iterations performed but was
never incremented.
---
 col_gen_estimator/_col_gen_classifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 07b27fe..7907d31 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -380,6 +380,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
             if self.max_iterations > 0 and self.iter_ >= self.max_iterations:
                 break
             self.iter_ += 1
+            self.performed_iter_ += 1
             print("Iteration number: ", self.iter_)
             print("Time elapsed: ", time() - t_start)
             master_time_start = time()
-- 
2.43.0


From b8863966ccb6574ffff501ba0201bff3d8294983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 02/14] fix: measure training time with the monotonic clock

The wall clock can be stepped while training runs; a step backwards made the
time limit ineffective and the recorded times wrong.
---
 col_gen_estimator/_col_gen_classifier.py | 3 ++-
 col_gen_estimator/_dtree_classifier.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 7907d31..3aab932 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -3,7 +3,8 @@ Base Column Genaration Classifier. One needs to extend this for implementing
 column generation based classifiers.
 """
 
-from time import time
+# The monotonic clock is not affected by changes of the system time.
+from time import monotonic as time
 
 from ortools.linear_solver import pywraplp
 from ortools.sat.python import cp_model
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 849dc8a..7b0a989 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -127,7 +127,7 @@ from ._col_gen_classifier import BaseMasterProblem
 from ._col_gen_classifier import BaseSubproblem
 from ._col_gen_classifier import ColGenClassifier
 
-from time import time
+from time import monotonic as time
 
 
 class Row:
-- 
2.43.0


From c46ba193f9831d49fbdad5c877eeb16819e26b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 03/14] fix: read integer variables of the rule models with a
 tolerance

MIP solvers return integer values only up to their integrality tolerance, so
a zero variable can be reported as a tiny positive number. Such features were
added to the clause, which then could exceed the allowed size.
---
 col_gen_estimator/_bdr_classifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index d5ea232..7405e9d 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -346,7 +346,7 @@ class BDRMasterProblem(BaseMasterProblem):
         all_vars = solver.variables()
         assert len(all_vars) == num_xi_vars + len(self.clause_vars_)
         for i in range(num_xi_vars, len(all_vars)):
-            if all_vars[i].solution_value() > 0:
+            if all_vars[i].solution_value() > 0.5:
                 orig_var = self.solver_.variable(
                     self.clause_vars_[i-num_xi_vars])
                 self.explanation.append(self.clause_dict_[orig_var.index()])
@@ -602,7 +602,7 @@ class BDRSubProblem(BaseSubproblem):
         clause = []
         for i in range(len(self.z_vars_)):
             z_var = self.solver_.variable(self.z_vars_[i])
-            if z_var.solution_value() > 0:
+            if z_var.solution_value() > 0.5:
                 clause.append(i)
 
         return [clause]
-- 
2.43.0


From b3b8afa9fd9c81b3f4431147d2f15a939e9460d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 04/14] fix: accept rule duals that are negative within the
 solver tolerance

Training was aborted by an assertion when the LP solver returned a dual of
about -1e-12 for a clause satisfaction constraint.
---
 col_gen_estimator/_bdr_classifier.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index 7405e9d..f139603 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -577,9 +577,10 @@ class BDRSubProblem(BaseSubproblem):
         cc_dual = dual_costs[0]
         cs_duals = dual_costs[1]
         # We assume the positive dual cost in this model.
-        assert cc_dual >= 0, "Negative clause complexity dual"
+        # LP solvers return duals that are feasible only up to a tolerance.
+        assert cc_dual >= -1e-6, "Negative clause complexity dual"
         for cs_dual in cs_duals:
-            assert cs_dual >= 0, "Negative clause satisfaction dual"
+            assert cs_dual >= -1e-6, "Negative clause satisfaction dual"
 
         if self.generated_:
             self.update_objective(cc_dual, cs_duals)
@@ -745,9 +746,10 @@ class BDRHeuristic(BaseSubproblem):
         cc_dual = dual_costs[0]
         cs_duals = dual_costs[1]
         # We assume the positive dual cost in this model.
-        assert cc_dual >= 0, "Negative clause complexity dual"
+        # LP solvers return duals that are feasible only up to a tolerance.
+        assert cc_dual >= -1e-6, "Negative clause complexity dual"
         for cs_dual in cs_duals:
-            assert cs_dual >= 0, "Negative clause satisfaction dual"
+            assert cs_dual >= -1e-6, "Negative clause satisfaction dual"
 
         n_words = X.shape[1]
         n_samples = X.shape[0]
-- 
2.43.0


From 0a02c493aa3c7596ba09a52d9f47e14a71e6e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 05/14] fix: give paths that no training row follows a valid
 target

---
 col_gen_estimator/_dtree_classifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 7b0a989..d6d7bd1 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1298,7 +1298,7 @@ class DTreeSubProblem(BaseSubproblem):
         # only one class selected
         # Binary variables indicating that the class is selected.
         self.w_vars_ = [None]*len(self.targets_)
-        single_target_cons = self.solver_.Constraint(0, 1, 'single_target')
+        single_target_cons = self.solver_.Constraint(1, 1, 'single_target')
         for i in range(len(self.targets_)):
             target = self.targets_[i]
             w_var = self.solver_.BoolVar('w_' + str(target))
@@ -1971,7 +1971,8 @@ class DTreeSubProblemHeuristic(BaseSubproblem):
             n_rows = X.shape[0]
 
             possible_targets = {}
-            best_target = -1
+            # Any target is valid when no row follows the path.
+            best_target = self.targets_[0]
             best_target_count = 0
             row_satisfies_path_array = [False]*n_rows
 
-- 
2.43.0


From 5e74604a7f87d32ec843837e2b41ece512fd0b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 06/14] fix: compute the true cost of generated paths

Feasible but not optimal solutions can leave the z variables at 0 although
the row follows the path with its target, and the old subproblem ignored the
weights of merged rows. Both understated the cost of the generated path.
---
 col_gen_estimator/_dtree_classifier.py | 52 +++++++++++++++-----------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index d6d7bd1..9c5add7 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1465,11 +1465,11 @@ class DTreeSubProblem(BaseSubproblem):
                 if self.data_rows[i].removed_from_sp:
                     continue
                 obj_coeff = self.data_rows[i].weight
-            z_var = self.solver_.variable(self.z_vars_[i])
-
-            path.cost += obj_coeff * z_var.solution_value()
-            # if z_var.solution_value() > 0.5:
-            #     print(self.z_vars_[i], z_var)
+            # Feasible solutions may leave the z variable at 0 even when the
+            # row follows the path with the correct target.
+            y_var = self.solver_.variable(self.y_vars_[i])
+            if self.y_[i] == path.target and y_var.solution_value() > 0.5:
+                path.cost += obj_coeff
         return [path]
 
     def update_subproblem(self, X, y, dual_costs):
@@ -1512,7 +1512,8 @@ class PathGenerator(cp_model.CpSolverSolutionCallback):
                  leaf_dual,
                  leaf, targets,
                  nodes,
-                 orig_obj_coeffs):
+                 orig_obj_coeffs,
+                 row_targets):
         cp_model.CpSolverSolutionCallback.__init__(self)
         self.u_vars = u_vars
         self.w_vars = w_vars
@@ -1524,6 +1525,7 @@ class PathGenerator(cp_model.CpSolverSolutionCallback):
         self.targets = targets
         self.nodes = nodes
         self.orig_obj_coeffs = orig_obj_coeffs
+        self.row_targets = row_targets
         self.solution_count = 0
         self.paths = []
         self.original_objective = 0.0
@@ -1531,12 +1533,21 @@ class PathGenerator(cp_model.CpSolverSolutionCallback):
     def on_solution_callback(self):
         self.solution_count += 1
         original_objective = 0.0
+        path_target = -1
+        for target in self.targets:
+            if self.Value(self.w_vars[target]) > 0.5:
+                path_target = target
+                break
+
+        # Intermediate solutions may leave z variables at 0 even when the row
+        # follows the path with the correct target. So we use y variables to
+        # compute the cost.
         path_cost = 0.0
-        for z_var in self.z_vars:
-            if z_var == None:
+        for row, y_var in enumerate(self.y_vars):
+            if y_var == None or self.row_targets[row] != path_target:
                 continue
-            path_cost += self.orig_obj_coeffs[z_var] * \
-                self.Value(z_var)
+            path_cost += self.orig_obj_coeffs[self.z_vars[row]] * \
+                self.Value(y_var)
 
         original_objective += path_cost
 
@@ -1579,11 +1590,7 @@ class PathGenerator(cp_model.CpSolverSolutionCallback):
                 if self.Value(u_var) > 0.5:
                     path.splits.append(split)
                     break
-        for target in self.targets:
-            w_var = self.w_vars[target]
-            if self.Value(w_var) > 0.5:
-                path.target = target
-                break
+        path.target = path_target
         self.paths.append(path)
         # print("Path cost", path_cost)
 
@@ -1907,7 +1914,8 @@ class DTreeSubProblemSat(BaseSubproblem):
                                        self.yc_vars_, leaf_dual, self.leaf_,
                                        self.targets_,
                                        self.nodes_,
-                                       self.orig_obj_coeffs)
+                                       self.orig_obj_coeffs,
+                                       self.y_)
         # status = self.cp_solver_.Solve(self.model_, path_generator)
         self.solve_model(self.model_, time_limit=2, callback=path_generator)
         # print(self.leaf_id_, " Path generation status: ",
@@ -2110,7 +2118,7 @@ class DTreeSubProblemOld(BaseSubproblem):
             y_var = self.solver_.BoolVar('y_'+str(i))
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
             self.y_vars_[i] = y_var.index()
@@ -2209,12 +2217,12 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
 
             y_var = self.solver_.variable(self.y_vars_[i])
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
 
@@ -2335,10 +2343,10 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
             y_var = self.solver_.variable(self.y_vars_[i])
-            if self.y_[i] == self.target_:
-                path.cost += 1 * y_var.solution_value()
+            if self.y_[i] == self.target_ and y_var.solution_value() > 0.5:
+                path.cost += obj_coeff
         return [path]
 
     def update_subproblem(self, X, y, dual_costs):
-- 
2.43.0


From 34237becff0e926957d961d9ab16991565b91ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 07/14] fix: raise when the master problem is not solved to
 optimality

There are no valid dual costs then. With the zero or missing duals the
subproblems could find no columns and training claimed optimality.
---
 col_gen_estimator/_bdr_classifier.py   | 9 ++++++---
 col_gen_estimator/_dtree_classifier.py | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index f139603..c3b568c 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -294,9 +294,12 @@ class BDRMasterProblem(BaseMasterProblem):
         print('Number of variables RMIP = %d' % self.solver_.NumVariables())
         print('Number of constraints RMIP = %d' %
               self.solver_.NumConstraints())
-        if result_status == pywraplp.Solver.OPTIMAL:
-            print('RMP Optimal objective value = %f' %
-                  self.solver_.Objective().Value())
+        # Without an optimal solution, there are no valid dual costs.
+        if result_status != pywraplp.Solver.OPTIMAL:
+            raise RuntimeError("Master problem not solved correctly: " +
+                               str(result_status))
+        print('RMP Optimal objective value = %f' %
+              self.solver_.Objective().Value())
 
         # Dual costs
         clause_comp_cons = self.solver_.constraint(self.clause_complexity_)
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 9c5add7..802e899 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1106,9 +1106,10 @@ class DTreeMasterProblem(BaseMasterProblem):
                             self.ns_constraints_[
                             leaf.id][node.id][split].dual_value()
         else:
-            print("Master problem not solved correctly:",
-                  self.rmp_result_status)
+            # Without an optimal solution, there are no valid dual costs.
             # print(self.solver_.ExportModelAsLpFormat(False))
+            raise RuntimeError("Master problem not solved correctly: " +
+                               str(self.rmp_result_status))
 
         return (leaf_duals, row_duals, ns_duals, cut_duals, newly_added_cuts)
 
-- 
2.43.0


From 61a5890b46275845f5a9356d34adbd1a372f36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 08/14] fix: create the problems of the rule learners again on
 each fit

A second fit kept the models of the first one, and parameters that were
changed with set_params were ignored.
---
 col_gen_estimator/_bdr_classifier.py     | 23 +++++++++++++++++++----
 col_gen_estimator/_col_gen_classifier.py |  8 ++++++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index c3b568c..c2b2950 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -666,13 +666,21 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
             rmp_solver_params=rmp_solver_params,
             master_ip_solver_params=master_ip_solver_params,
             subproblem_params=subproblem_params)
-        # Not used after this but we have to store them for sklearn
-        # compatibility.
+        # These are used for creating the problems again before training. We
+        # also have to store them for sklearn compatibility.
         self.C = C
         self.p = p
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
 
+    def create_problems(self):
+        """Creates the master problem and the subproblems from the current
+        parameters.
+        """
+        self.master_problem = BDRMasterProblem(
+            self.C, self.p, self.rmp_solver)
+        self.subproblems = [[BDRSubProblem(self.C, self.subproblem_solver)]]
+
     def _more_tags(self):
         return {'X_types': ['categorical'],
                 'non_deterministic': True,
@@ -841,9 +849,16 @@ class BooleanDecisionRuleClassifierWithHeuristic(
             rmp_solver_params=rmp_solver_params,
             master_ip_solver_params=master_ip_solver_params,
             subproblem_params=subproblem_params)
-        # Not used after this but we have to store them for sklearn
-        # compatibility.
+        # These are used for creating the problems again before training. We
+        # also have to store them for sklearn compatibility.
         self.C = C
         self.p = p
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
+
+    def create_problems(self):
+        """Creates the master problem and the subproblems from the current
+        parameters.
+        """
+        super().create_problems()
+        self.subproblems.insert(0, [BDRHeuristic(K=1)])
diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 3aab932..3588ae4 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -327,6 +327,13 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         for level in range(len(subproblems)):
             assert len(subproblems[level]) == len(subproblem_params[level])
 
+    def create_problems(self):
+        """ (Optional) Creates the master problem and the subproblems from the
+        current parameters. This is called at the start of each :meth:`fit` so
+        that the training doesn't depend on the earlier calls.
+        """
+        pass
+
     def fit(self, X, y):
         """Runs the column generation loop.
 
@@ -362,6 +369,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                 "Classifier can't train when only one class is present.")
 
         # Initiate the master and subproblems
+        self.create_problems()
         self.master_problem.generate_mp(X, self.processed_y_)
 
         self.performed_iter_ = 0
-- 
2.43.0


From 9ec10203b9ea1cccb2b865169b5c8c99e8ee7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 09/14] fix: create the tree problems again on each fit and
 keep the description unchanged

---
 col_gen_estimator/_col_gen_classifier.py |  7 ++-
 col_gen_estimator/_dtree_classifier.py   | 79 +++++++++++++++++-------
 2 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 3588ae4..f5e6a8f 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -334,6 +334,10 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         """
         pass
 
+    def get_subproblem_params(self):
+        """Returns the parameters of the subproblems as per their levels."""
+        return self.subproblem_params
+
     def fit(self, X, y):
         """Runs the column generation loop.
 
@@ -370,6 +374,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
 
         # Initiate the master and subproblems
         self.create_problems()
+        subproblem_params = self.get_subproblem_params()
         self.master_problem.generate_mp(X, self.processed_y_)
 
         self.performed_iter_ = 0
@@ -429,7 +434,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                     generated_columns = self.subproblems[sp_level][sp_ind] \
                         .generate_columns(
                         X, self.processed_y_, dual_costs,
-                        self.subproblem_params[sp_level][sp_ind])
+                        subproblem_params[sp_level][sp_ind])
                     sp_time_end = time()
                     self.time_spent_sp_[
                         sp_level][sp_ind] += sp_time_end - sp_time_start
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 802e899..10f3611 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -114,6 +114,7 @@ the path (y variable is set) and the right target is selected (w variable is
 set). The constraint (8) ensures that exactly one target is selected for the
 path being generated.
 """
+import copy
 import numpy as np
 import math
 import random
@@ -2468,7 +2469,6 @@ class DTreeClassifier(ColGenClassifier):
             leaf_id += 1
         # Each path can only contain nodes and leaves provided.
         for path in self.initial_paths:
-            path.initial = True
             assert path.leaf_id in leaf_ids
             for node_id in path.node_ids:
                 assert node_id in node_ids
@@ -2478,48 +2478,78 @@ class DTreeClassifier(ColGenClassifier):
             assert len(path.node_ids) == self.tree_depth
             assert len(path.splits) == self.tree_depth
 
+        self.use_old_sp = use_old_sp
+        self.master_solver_type = master_solver_type
+        self.create_problems()
+        rmp_is_ip = True
+        super().__init__(max_iterations, time_limit,
+                         self.master_problem, self.subproblems,
+                         rmp_is_ip, rmp_solver_params, master_ip_solver_params,
+                         self.get_subproblem_params())
+        # The base class expects the parameters as per the levels. We have to
+        # store the given value for sklearn compatibility.
+        self.subproblem_params = subproblem_params
+
+    def create_problems(self):
+        """Creates the master problem and the subproblems from the current
+        parameters. The training updates the paths, nodes, splits and data
+        rows. So we use copies to keep the given ones unchanged.
+        """
+        paths = []
+        for path in self.initial_paths:
+            path = copy.copy(path)
+            path.initial = True
+            paths.append(path)
+        nodes = [copy.copy(node) for node in self.nodes]
+        splits = []
+        for split in self.splits:
+            split = copy.copy(split)
+            split.left_cuts = set()
+            split.right_cuts = set()
+            splits.append(split)
+        data_rows = None
+        if self.data_rows is not None:
+            data_rows = []
+            for data_row in self.data_rows:
+                data_row = copy.copy(data_row)
+                data_row.reachable_paths = set()
+                data_rows.append(data_row)
+
         self.master_problem = DTreeMasterProblem(
-            self.initial_paths, self.leaves, self.nodes, self.splits,
-            num_cuts_round=num_master_cuts_round,
-            beta_constraints_as_cuts=master_beta_constraints_as_cuts,
-            generate_cuts=master_generate_cuts,
-            solver_type=master_solver_type,
+            paths, self.leaves, nodes, splits,
+            num_cuts_round=self.num_master_cuts_round,
+            beta_constraints_as_cuts=self.master_beta_constraints_as_cuts,
+            generate_cuts=self.master_generate_cuts,
+            solver_type=self.master_solver_type,
             data_rows=data_rows)
         self.subproblems = []
-        all_subproblem_params = []
         heuristic = DTreeSubProblemHeuristic(
-            self.leaves, self.nodes, self.splits, self.targets,
+            self.leaves, nodes, splits, self.targets,
             self.tree_depth, data_rows=data_rows)
         self.subproblems.append([heuristic])
-        all_subproblem_params.append([""])
         self.subproblems.append([])
-        all_subproblem_params.append([])
         for leaf in self.leaves:
-            if use_old_sp:
+            if self.use_old_sp:
                 for target in self.targets:
                     subproblem = DTreeSubProblemOld(
-                        leaf, self.nodes, self.splits, target,
+                        leaf, nodes, splits, target,
                         self.tree_depth, solver_str='sat',
                         data_rows=data_rows)
                     self.subproblems[1].append(subproblem)
-                    all_subproblem_params[1].append(subproblem_params)
             else:
                 # subproblem = DTreeSubProblem(
-                #     leaf, self.nodes, self.splits, self.targets,
+                #     leaf, nodes, splits, self.targets,
                 #     self.tree_depth, solver_str='sat',
                 #     data_rows=data_rows)
                 subproblem = DTreeSubProblemSat(
-                    leaf, self.nodes, self.splits, self.targets,
+                    leaf, nodes, splits, self.targets,
                     self.tree_depth,
                     data_rows=data_rows)
                 self.subproblems[1].append(subproblem)
-                all_subproblem_params[1].append(subproblem_params)
 
-        rmp_is_ip = True
-        super().__init__(max_iterations, time_limit,
-                         self.master_problem, self.subproblems,
-                         rmp_is_ip, rmp_solver_params, master_ip_solver_params,
-                         all_subproblem_params)
+    def get_subproblem_params(self):
+        """Returns the parameters of the subproblems as per their levels."""
+        return [[""], [self.subproblem_params]*len(self.subproblems[1])]
 
     def _more_tags(self):
         return {'X_types': ['categorical'],
@@ -2541,15 +2571,18 @@ class DTreeClassifier(ColGenClassifier):
         """
         X = check_array(X, accept_sparse=True)
         check_is_fitted(self, 'is_fitted_')
+        # The parameters might have changed after the training.
         selected_paths = self.master_problem.selected_paths
+        leaves = self.master_problem.leaves_
+        splits = self.master_problem.splits_
         # Check for each row, which path it satisfies. There should be exactly
         # one.
         num_rows = X.shape[0]
         y_predict = np.zeros(X.shape[0], dtype=int)
         for row in range(num_rows):
             for path in selected_paths:
-                if row_satisfies_path(X[row], self.leaves[path.leaf_id],
-                                      self.splits, path):
+                if row_satisfies_path(X[row], leaves[path.leaf_id],
+                                      splits, path):
                     y_predict[row] = path.target
                     break
         return self.label_encoder_.inverse_transform(y_predict)
-- 
2.43.0


From a8dec38106f765806340c861d8532b5e98aed1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 10/14] fix: an aborted training doesn't leave a fitted
 classifier

---
 col_gen_estimator/_col_gen_classifier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index f5e6a8f..ea6f70b 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -354,6 +354,9 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
             Returns self.
         """
         t_start = time()
+        # An aborted training must not leave a partially trained classifier.
+        if hasattr(self, 'is_fitted_'):
+            del self.is_fitted_
         # Check that X and y have correct shape
         X, y = check_X_y(X, y)
         has_time_limit = self.time_limit > 0
@@ -468,8 +471,8 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
             self.time_spent_master_ip_ += time() - master_ip_start_time
             assert solved, "RMP integer program couldn't be solved."
 
-        self.is_fitted_ = True
         self.time_elapsed_ = time() - t_start
+        self.is_fitted_ = True
         # Return the classifier
         return self
 
-- 
2.43.0


From fb91203df25bc21693a8bf495a67496060319a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 11/14] fix: measure the experiment's time budgets with the
 monotonic clock

---
 examples/dtree_experiment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index bf7f9fe..c768765 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -25,7 +25,8 @@ from sklearn import tree
 
 from sklearn.preprocessing import LabelEncoder
 
-from time import time
+# The monotonic clock is not affected by changes of the system time.
+from time import monotonic as time
 
 from col_gen_estimator import DTreeClassifier
 from col_gen_estimator import Split
-- 
2.43.0


From 3661a6edc4aae09b17ab61d04db9fb5cc073d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 12/14] fix: keep the experiment's time limit when
 preprocessing uses it up

---
 examples/dtree_experiment.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index c768765..38aa7e8 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -282,16 +282,23 @@ def main(argv):
     splits = add_rows_to_splits(splits, X_train.to_numpy())
     # EXP: Set default aggressive mode to True/False.
     use_aggressive_mode = is_large_dataset
-    if preprocessing_time_limit > 0 and (time() - t0) > preprocessing_time_limit:
-        use_aggressive_mode = False
+    # No limit for preprocessing by default.
+    remaining_time = -1
+    if preprocessing_time_limit > 0:
+        remaining_time = preprocessing_time_limit - (time() - t0)
+        if remaining_time <= 0:
+            use_aggressive_mode = False
     data_rows = preprocess(nodes, splits, X_train.to_numpy(),
                            y_train, experiment_max_depth,
                            aggressive=use_aggressive_mode,
-                           time_limit=preprocessing_time_limit - (time() - t0))
+                           time_limit=remaining_time)
     t2 = time()
     preprocessing_time = t2-t0
     print("Total preprocessing time: ", t2-t0)
-    time_limit -= preprocessing_time
+    if time_limit > 0:
+        # The time limit must remain positive. Otherwise the training runs
+        # without a limit.
+        time_limit = max(time_limit - preprocessing_time, 1e-6)
 
     t0 = time()
     clf = DTreeClassifier(paths.copy(), leaves.copy(), nodes.copy(),
-- 
2.43.0


From 99586cf2ee88b6573f4b07eafcf0e4cdfbaacfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 13/14] fix: initial paths of the experiment only use the
 splits of their nodes

---
 examples/dtree_experiment.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 38aa7e8..6ba0541 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -217,17 +217,18 @@ def main(argv):
             combined_nodes[node_id].candidate_splits_count.append(0)
             combined_nodes[node_id].last_split = 0
 
+    nodes = get_nodes_list(combined_nodes)
+
+    if REDUCED_SPLITS:
+        nodes = reduce_splits(nodes, splits, q_root, q_node)
+
+    # The paths can only use the splits that remain in the nodes.
     all_leaves, all_paths = get_all_leaves_paths(
         combined_nodes, experiment_max_depth, splits, X_train.to_numpy(),
         y_train)
 
     paths = get_paths_list(all_paths)
     leaves = get_leaves_list(all_leaves)
-    splits = get_splits_list(combined_splits)
-    nodes = get_nodes_list(combined_nodes)
-
-    if REDUCED_SPLITS:
-        nodes = reduce_splits(nodes, splits, q_root, q_node)
 
     # for split in splits:
     #     print("Split removed ", split.id, split.removed)
@@ -264,7 +265,7 @@ def main(argv):
             path = get_path_for_leaf(
                 leaf, tree_nodes, experiment_max_depth, splits,
                 X_train.to_numpy(),
-                y_train)
+                y_train, nodes)
             if path == None:
                 continue
             found = False
@@ -610,7 +611,7 @@ def get_all_leaves_paths(all_nodes, depth, splits, X, y):
     return all_leaves, all_paths
 
 
-def get_path_for_leaf(leaf, tree_nodes, depth, splits, X, y):
+def get_path_for_leaf(leaf, tree_nodes, depth, splits, X, y, nodes):
     path = Path()
     path.id = -1
     path.leaf_id = leaf.id
@@ -624,7 +625,7 @@ def get_path_for_leaf(leaf, tree_nodes, depth, splits, X, y):
         selected_split = tree_nodes[father].last_split
         if selected_split == -1:
             return None
-        if splits[selected_split].removed:
+        if selected_split not in nodes[father].candidate_splits:
             return None
         path.splits.append(selected_split)
         count = father
@@ -782,6 +783,8 @@ def reduce_splits(nodes, splits, q_root, q_node):
         print(list1[:q_value], list2[:q_value])
         node.candidate_splits_count = list1[:q_value]
         node.candidate_splits = list2[:q_value]
+        if node.last_split not in node.candidate_splits:
+            node.last_split = node.candidate_splits[0]
         final_nodes.append(node)
         for split_id in node.candidate_splits:
             used_split_ids.add(split_id)
-- 
2.43.0


From 0cb0733409ecf209f1b0fde3e54233eafb4f9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 14/14] Revert the repairs of the experiment driver (examples
 are left unchanged)

---
 examples/dtree_experiment.py | 37 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 6ba0541..bf7f9fe 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -25,8 +25,7 @@ from sklearn import tree
 
 from sklearn.preprocessing import LabelEncoder
 
-# The monotonic clock is not affected by changes of the system time.
-from time import monotonic as time
+from time import time
 
 from col_gen_estimator import DTreeClassifier
 from col_gen_estimator import Split
@@ -217,18 +216,17 @@ def main(argv):
             combined_nodes[node_id].candidate_splits_count.append(0)
             combined_nodes[node_id].last_split = 0
 
-    nodes = get_nodes_list(combined_nodes)
-
-    if REDUCED_SPLITS:
-        nodes = reduce_splits(nodes, splits, q_root, q_node)
-
-    # The paths can only use the splits that remain in the nodes.
     all_leaves, all_paths = get_all_leaves_paths(
         combined_nodes, experiment_max_depth, splits, X_train.to_numpy(),
         y_train)
 
     paths = get_paths_list(all_paths)
     leaves = get_leaves_list(all_leaves)
+    splits = get_splits_list(combined_splits)
+    nodes = get_nodes_list(combined_nodes)
+
+    if REDUCED_SPLITS:
+        nodes = reduce_splits(nodes, splits, q_root, q_node)
 
     # for split in splits:
     #     print("Split removed ", split.id, split.removed)
@@ -265,7 +263,7 @@ def main(argv):
             path = get_path_for_leaf(
                 leaf, tree_nodes, experiment_max_depth, splits,
                 X_train.to_numpy(),
-                y_train, nodes)
+                y_train)
             if path == None:
                 continue
             found = False
@@ -283,23 +281,16 @@ def main(argv):
     splits = add_rows_to_splits(splits, X_train.to_numpy())
     # EXP: Set default aggressive mode to True/False.
     use_aggressive_mode = is_large_dataset
-    # No limit for preprocessing by default.
-    remaining_time = -1
-    if preprocessing_time_limit > 0:
-        remaining_time = preprocessing_time_limit - (time() - t0)
-        if remaining_time <= 0:
-            use_aggressive_mode = False
+    if preprocessing_time_limit > 0 and (time() - t0) > preprocessing_time_limit:
+        use_aggressive_mode = False
     data_rows = preprocess(nodes, splits, X_train.to_numpy(),
                            y_train, experiment_max_depth,
                            aggressive=use_aggressive_mode,
-                           time_limit=remaining_time)
+                           time_limit=preprocessing_time_limit - (time() - t0))
     t2 = time()
     preprocessing_time = t2-t0
     print("Total preprocessing time: ", t2-t0)
-    if time_limit > 0:
-        # The time limit must remain positive. Otherwise the training runs
-        # without a limit.
-        time_limit = max(time_limit - preprocessing_time, 1e-6)
+    time_limit -= preprocessing_time
 
     t0 = time()
     clf = DTreeClassifier(paths.copy(), leaves.copy(), nodes.copy(),
@@ -611,7 +602,7 @@ def get_all_leaves_paths(all_nodes, depth, splits, X, y):
     return all_leaves, all_paths
 
 
-def get_path_for_leaf(leaf, tree_nodes, depth, splits, X, y, nodes):
+def get_path_for_leaf(leaf, tree_nodes, depth, splits, X, y):
     path = Path()
     path.id = -1
     path.leaf_id = leaf.id
@@ -625,7 +616,7 @@ def get_path_for_leaf(leaf, tree_nodes, depth, splits, X, y, nodes):
         selected_split = tree_nodes[father].last_split
         if selected_split == -1:
             return None
-        if selected_split not in nodes[father].candidate_splits:
+        if splits[selected_split].removed:
             return None
         path.splits.append(selected_split)
         count = father
@@ -783,8 +774,6 @@ def reduce_splits(nodes, splits, q_root, q_node):
         print(list1[:q_value], list2[:q_value])
         node.candidate_splits_count = list1[:q_value]
         node.candidate_splits = list2[:q_value]
-        if node.last_split not in node.candidate_splits:
-            node.last_split = node.candidate_splits[0]
         final_nodes.append(node)
         for split_id in node.candidate_splits:
             used_split_ids.add(split_id)
-- 
2.43.0

