From 3a9c0906751e9ac2cd33377638f848d265f8a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 01/52] fix: honour pending and ignored locations that contain
 only zeros

---
 GPyOpt/util/duplicate_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/util/duplicate_manager.py b/GPyOpt/util/duplicate_manager.py
index fe1807c..bc056d1 100644
--- a/GPyOpt/util/duplicate_manager.py
+++ b/GPyOpt/util/duplicate_manager.py
@@ -21,10 +21,10 @@ class DuplicateManager(object):
         self.unique_points = set()
         self.unique_points.update(tuple(x.flatten()) for x in zipped_X)
 
-        if np.any(pending_zipped_X):
+        if pending_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in pending_zipped_X)
 
-        if np.any(ignored_zipped_X):
+        if ignored_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in ignored_zipped_X)
 
 
-- 
2.43.0


From 8146995dda94c5269f40d21a658e2d22145f95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 02/52] fix: keep the acquisition optimum in a de-duplicated
 batch when it is the origin

---
 GPyOpt/core/evaluators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index d2ab81f..8cfa11f 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -57,7 +57,7 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
 
         x0 = self.initialize_batch(duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
-        if np.any(x0):
+        if x0 is not None:
             batch.append(x0)
             already_suggested_points.add(self.zip_and_tuple(x0))
 
-- 
2.43.0


From 9314773819d15ae400a3289115e4eebbc50b889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 03/52] fix: evaluate the objective with num_cores processes,
 not batch_size

---
 GPyOpt/methods/bayesian_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index c3ad58b..f914247 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -103,7 +103,7 @@ class BayesianOptimization(BO):
         self.num_cores = num_cores
         if f is not None:
             self.f = self._sign(f)
-            self.objective = SingleObjective(self.f, self.batch_size,self.objective_name)
+            self.objective = SingleObjective(self.f, self.num_cores,self.objective_name)
         else:
             self.f = None
             self.objective = None
-- 
2.43.0


From 55f8699dd3e09f65cb8779670bc92111d1707170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 04/52] fix: do not hang when a worker process dies during
 parallel evaluation

---
 GPyOpt/core/task/objective.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 8118515..dc95219 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -86,18 +86,24 @@ class SingleObjective(Objective):
 
         # --- parallel evaluation of the function
         divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]
-        pipe = [Pipe() for i in range(self.n_procs)]
-        proc = [Process(target=spawn(self._eval_func),args=(c,k)) for k,(p,c) in zip(divided_samples,pipe)]
-        [p.start() for p in proc]
-        [p.join() for p in proc]
+        pipe, proc = [], []
+        for k in divided_samples:
+            p, c = Pipe()
+            proc.append(Process(target=spawn(self._eval_func),args=(c,k)))
+            proc[-1].start()
+            c.close() # only the worker holds this end: if it dies, recv() below raises instead of waiting forever
+            pipe.append(p)
 
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
         f_evals = np.zeros((x.shape[0],1))
         cost_evals = np.ones((x.shape[0],1))
-        i = 0
-        for (p,c) in pipe:
-            f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
-            i += 1
+        try:
+            # results are received before joining: a worker only terminates once its result has been read
+            for i, p in enumerate(pipe):
+                f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
+        finally:
+            [p.close() for p in pipe]
+            [p.join() for p in proc]
         return f_evals, cost_evals
 
     def _asyncronous_batch_evaluation(self,x):
-- 
2.43.0


From 5d38740b39a92a36c73711ad71c7b408b48fd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 05/52] fix: keep inputs and outputs aligned when the objective
 raises

---
 GPyOpt/core/bo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 8fb0d93..060f62f 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -149,12 +149,12 @@ class BO(object):
 
             self.suggested_sample = self._compute_next_evaluations()
 
-            # --- Augment X
-            self.X = np.vstack((self.X,self.suggested_sample))
-
             # --- Evaluate *f* in X, augment Y and update cost function (if needed)
             self.evaluate_objective()
 
+            # --- Augment X (only once the evaluation succeeded, so X and Y always have the same rows)
+            self.X = np.vstack((self.X,self.suggested_sample))
+
             # --- Update current evaluation time and function evaluations
             self.cum_time = time.time() - self.time_zero
             self.num_acquisitions += 1
-- 
2.43.0


From a6796b06861d72e006e4b2bd711d0b5a7a5170a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 06/52] fix: variable dimensions for bandits with several
 components

---
 GPyOpt/core/task/space.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index e5f0b6a..d7de096 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -365,8 +365,8 @@ class Design_space(object):
         Returns the dimension of the continuous components of the domain.
         """
         continuous_dims = []
-        for i in range(self.dimensionality):
-            if self.space_expanded[i].type == 'continuous':
+        for i, variable in enumerate(self.space_expanded):
+            if variable.type == 'continuous':
                 continuous_dims += [i]
         return continuous_dims
 
@@ -400,8 +400,8 @@ class Design_space(object):
         Returns the dimension of the discrete components of the domain.
         """
         discrete_dims = []
-        for i in range(self.dimensionality):
-            if self.space_expanded[i].type == 'discrete':
+        for i, variable in enumerate(self.space_expanded):
+            if variable.type == 'discrete':
                 discrete_dims += [i]
         return discrete_dims
 
-- 
2.43.0


From 3957bf796af76a332f59c6cfb708080af2aec83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 07/52] fix: accept a user defined local penalization
 acquisition

---
 GPyOpt/util/arguments_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 7bbfc55..2745dc4 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -33,6 +33,7 @@ class ArgumentsManager(object):
             if model_type not in ['GP', 'sparseGP', 'GP_MCMC', 'warpedGP']:
                 raise InvalidConfigError('local_penalization evaluator can only be used with GP models')
 
+            acquisition_lp = acquisition
             if not isinstance(acquisition, AcquisitionLP):
                 acquisition_lp = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
             return LocalPenalization(acquisition_lp, batch_size)
-- 
2.43.0


From 704510c87d4ea7b187a0b21027c1238798e9beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 08/52] fix: allow unnamed variables with a dimensionality

---
 GPyOpt/core/task/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index d7de096..89f0c57 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -115,8 +115,9 @@ class Design_space(object):
         """
         self.config_space_expanded = []
 
-        for variable in self.config_space:
+        for i, variable in enumerate(self.config_space):
             variable_dic = variable.copy()
+            variable_dic['name'] = variable_dic.get('name', 'var_' + str(i))
             if 'dimensionality' in variable_dic.keys():
                 dimensionality = variable_dic['dimensionality']
                 variable_dic['dimensionality'] = 1
-- 
2.43.0


From d52155bb96d1d24702ff92a06af4eb2dfb8453ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 09/52] fix: copying a GPModel_MCMC

---
 GPyOpt/models/gpmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 9310be8..27289b2 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -328,7 +328,7 @@ class GPModel_MCMC(BOModel):
         Makes a safe copy of the model.
         """
 
-        copied_model = GPModel( kernel = self.model.kern.copy(),
+        copied_model = GPModel_MCMC( kernel = self.model.kern.copy(),
                                 noise_var= self.noise_var ,
                                 exact_feval= self.exact_feval,
                                 n_samples = self.n_samples,
-- 
2.43.0


From 91cd075c5463f8dcfde3b3df3700b857556c9f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 10/52] fix: keep sparse, num_inducing and mean_function when
 copying a GPModel

---
 GPyOpt/models/gpmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 27289b2..6e87eea 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -151,8 +151,11 @@ class GPModel(BOModel):
                             optimizer=self.optimizer,
                             max_iters=self.max_iters,
                             optimize_restarts=self.optimize_restarts,
+                            sparse=self.sparse,
+                            num_inducing=self.num_inducing,
                             verbose=self.verbose,
-                            ARD=self.ARD)
+                            ARD=self.ARD,
+                            mean_function=None if self.mean_function is None else self.mean_function.copy())
 
         copied_model._create_model(self.model.X,self.model.Y)
         copied_model.updateModel(self.model.X,self.model.Y, None, None)
-- 
2.43.0


From 2ee21c8df85a2ba56000ec8e09f65a5299564bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 11/52] fix: run models that do not expose parameters

---
 GPyOpt/core/bo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 060f62f..c5085e3 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -261,6 +261,10 @@ class BO(object):
         self._save_model_parameter_values()
 
     def _save_model_parameter_values(self):
+        if not hasattr(self.model, 'get_model_parameters'):
+            # optional in the model interface (e.g. random forests do not have parameters to save)
+            return
+
         if self.model_parameters_iterations is None:
             self.model_parameters_iterations = self.model.get_model_parameters()
         else:
-- 
2.43.0


From d747e349d2bbf96aedf50175e3ea0b32e654674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 12/52] fix: make the evaluation_time cost usable

---
 GPyOpt/core/bo.py                       | 7 +++----
 GPyOpt/core/task/cost.py                | 2 +-
 GPyOpt/methods/bayesian_optimization.py | 6 ++++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index c5085e3..0d04e6f 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -50,7 +50,7 @@ class BO(object):
         self.model_update_interval = model_update_interval
         self.X = X_init
         self.Y = Y_init
-        self.cost = CostModel(cost)
+        self.cost = cost if isinstance(cost, CostModel) else CostModel(cost)
         self.normalization_type = 'stats' ## not added in the API
         self.de_duplication = de_duplication
         self.model_parameters_iterations = None
@@ -125,8 +125,7 @@ class BO(object):
         # --- Initial function evaluation and model fitting
         if self.X is not None and self.Y is None:
             self.Y, cost_values = self.objective.evaluate(self.X)
-            if self.cost.cost_type == 'evaluation_time':
-                self.cost.update_cost_model(self.X, cost_values)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
         # --- Initialize iterations and running time
         self.time_zero = time.time()
@@ -200,7 +199,7 @@ class BO(object):
         Evaluates the objective
         """
         self.Y_new, cost_new = self.objective.evaluate(self.suggested_sample)
-        self.cost.update_cost_model(self.suggested_sample, cost_new)
+        self.cost.update_cost_model(self.space.unzip_inputs(self.suggested_sample), cost_new)
         self.Y = np.vstack((self.Y,self.Y_new))
 
     def _compute_results(self):
diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index 946cc05..0d422f7 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -61,7 +61,7 @@ class  CostModel(object):
         """
 
         if self.cost_type == 'evaluation_time':
-            cost_evals = np.log(np.atleast_2d(np.asarray(cost_x)).T)
+            cost_evals = np.log(np.asarray(cost_x).reshape(-1,1))
 
             if self.num_updates == 0:
                 X_all = x
diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index f914247..6bbdaaa 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -192,10 +192,12 @@ class BayesianOptimization(BO):
         # Case 1:
         if self.X is None:
             self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
         # Case 2
         elif self.X is not None and self.Y is None:
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
     def _sign(self,f):
          if self.maximize:
-- 
2.43.0


From 55930ece4bedcd043b9f99d5588f230c570e702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:15 +0000
Subject: [PATCH 13/52] fix: evaluation_time cost before the first timed
 evaluation

---
 GPyOpt/core/task/cost.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index 0d422f7..0f52c9b 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -49,6 +49,9 @@ class  CostModel(object):
         """
         Predicts the time cost and its gradient of evaluating the function at x.
         """
+        if self.num_updates == 0:
+            # no evaluation has been timed yet
+            return constant_cost_withGradients(x)
         m, _, dmdx, _= self.cost_model.predict_withGradients(x)
         return np.exp(m), np.exp(m)*dmdx
 
-- 
2.43.0


From cfd7cae0914a7c88b99611be6df17c6d687bf610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 14/52] fix: gradient of the local penalizers

---
 GPyOpt/acquisitions/LP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 0686ec5..ea18ea8 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -97,9 +97,9 @@ class AcquisitionLP(AcquisitionBase):
         z = (nm- r_x0)/s_x0
         h_func = norm.cdf(z)
 
-        d = 1./(s_x0*np.sqrt(2*np.pi)*h_func)*np.exp(-np.square(z)/2)/nm
+        d = 1./(s_x0*np.sqrt(2*np.pi)*h_func)*np.exp(-np.square(z)/2)/np.where(nm>0, nm, 1.)
         d[h_func<1e-50] = 0.
-        d = d[:,:,None]
+        d = d[:,:,None]*dx
         return d.sum(axis=1)
 
     def acquisition_function(self, x):
-- 
2.43.0


From c89aa8f5390905819f51a72d3afdfa858fb9f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 15/52] fix: contexts in constrained domains

---
 GPyOpt/optimization/anchor_points_generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 22ca1c3..73b4661 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -27,7 +27,9 @@ class AnchorPointsGenerator(object):
         ## --- We use the context handler to remove duplicates only over the non-context variables
         if context_manager and not self.space._has_bandit():
             space_configuration_without_context = [self.space.config_space_expanded[idx] for idx in context_manager.nocontext_index_obj]
-            space = Design_space(space_configuration_without_context, context_manager.space.constraints)
+            # The constraints are expressed in terms of the whole input, they are checked once the context has been added
+            has_context = len(context_manager.context_index_obj) > 0
+            space = Design_space(space_configuration_without_context, None if has_context else context_manager.space.constraints)
             add_context = lambda x : context_manager._expand_vector(x)
         else:
             space = self.space
@@ -45,6 +47,10 @@ class AnchorPointsGenerator(object):
         ## --- Add context variables
         X = add_context(X)
 
+        ## --- Remove infeasible points, if the constraints have not been taken into account by the design
+        if self.space.has_constraints() and not space.has_constraints():
+            X = X[self.space.indicator_constraints(self.space.zip_inputs(X)).flatten() == 1, :]
+
         if duplicate_manager:
             is_duplicate = duplicate_manager.is_unzipped_x_duplicate
         else:
-- 
2.43.0


From 602a702e85026018addadbdcc9f1ba4addeb4df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 16/52] fix: never suggest infeasible locations after rounding
 or optimizing the acquisition

---
 GPyOpt/optimization/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 5ca8f37..b2b737b 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -162,8 +162,10 @@ def apply_optimizer(optimizer, x0, f=None, df=None, f_df=None, duplicate_manager
     suggested_x_with_context = add_context(optimized_x)
     suggested_x_with_context_rounded = space.round_optimum(suggested_x_with_context)
 
-    ## --- Run duplicate_manager
-    if duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(suggested_x_with_context_rounded):
+    ## --- Run duplicate_manager and check that the optimizer (or the rounding) did not leave the feasible region
+    is_duplicate = duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(suggested_x_with_context_rounded)
+    is_infeasible = space.has_constraints() and not np.all(space.indicator_constraints(space.zip_inputs(suggested_x_with_context_rounded)))
+    if is_duplicate or is_infeasible:
         suggested_x, suggested_fx = x0, np.atleast_2d(f(x0))
     else:
         suggested_x, suggested_fx = suggested_x_with_context_rounded, f(suggested_x_with_context_rounded)
-- 
2.43.0


From 76f355d9ce1d97999813eccd5c8e9ec6ad71691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 17/52] fix: honour de_duplication in the local penalization
 evaluator

---
 GPyOpt/core/evaluators/batch_local_penalization.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/evaluators/batch_local_penalization.py b/GPyOpt/core/evaluators/batch_local_penalization.py
index e527581..b39355f 100644
--- a/GPyOpt/core/evaluators/batch_local_penalization.py
+++ b/GPyOpt/core/evaluators/batch_local_penalization.py
@@ -3,6 +3,7 @@
 
 from .base import EvaluatorBase
 import scipy
+from ..errors import FullyExploredOptimizationDomainError
 from ...util.general import samples_multidimensional_uniform
 import numpy as np
 
@@ -29,7 +30,7 @@ class LocalPenalization(EvaluatorBase):
         self.acquisition.update_batches(None,None,None)
 
         # --- GET first element in the batch
-        X_batch = self.acquisition.optimize()[0]
+        X_batch = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
         k=1
 
         if self.batch_size >1:
@@ -40,7 +41,14 @@ class LocalPenalization(EvaluatorBase):
         # --- GET the remaining elements
         while k<self.batch_size:
             self.acquisition.update_batches(X_batch,L,Min)
-            new_sample = self.acquisition.optimize()[0]
+            if duplicate_manager:
+                # The elements of the batch cannot be repeated either
+                duplicate_manager.unique_points.update(tuple(x) for x in self.acquisition.space.zip_inputs(X_batch))
+            try:
+                new_sample = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
+            except FullyExploredOptimizationDomainError:
+                print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, k))
+                break
             X_batch = np.vstack((X_batch,new_sample))
             k +=1
 
-- 
2.43.0


From a468fe16cf15736c0ac583ecd150cb60cb751e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 18/52] fix: grid design in domains without continuous
 variables

---
 GPyOpt/experiment_design/grid_design.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GPyOpt/experiment_design/grid_design.py b/GPyOpt/experiment_design/grid_design.py
index 9b82d85..cb488f9 100644
--- a/GPyOpt/experiment_design/grid_design.py
+++ b/GPyOpt/experiment_design/grid_design.py
@@ -17,6 +17,10 @@ class GridDesign(ExperimentDesign):
         super(GridDesign, self).__init__(space)
 
     def _adjust_init_points_count(self, init_points_count):
+        if not self.space.has_continuous():
+            # There is no continuous variable to build a grid with
+            return init_points_count
+
         # TODO: log this
         print('Note: in grid designs the total number of generated points is the smallest closest integer of n^d to the selected amount of points')
         continuous_dims = len(self.space.get_continuous_dims())
-- 
2.43.0


From f2d99b046e032a67077106222c3729282b27dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 19/52] fix: reject unknown evaluator and model types

---
 GPyOpt/util/arguments_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 2745dc4..efac3b4 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -38,6 +38,8 @@ class ArgumentsManager(object):
                 acquisition_lp = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
             return LocalPenalization(acquisition_lp, batch_size)
 
+        else:
+            raise InvalidConfigError('Invalid evaluator selected.')
 
 
     def acquisition_creator(self, acquisition_type, model, space, acquisition_optimizer, cost_withGradients):
@@ -141,3 +143,6 @@ class ArgumentsManager(object):
             return InputWarpedGPModel(space, input_warping_function, kernel, noise_var,
                                       exact_feval, model_optimizer_type, max_iters,
                                       optimize_restarts, verbosity_model, ARD)
+
+        else:
+            raise InvalidConfigError('Invalid model selected.')
-- 
2.43.0


From cf68192e12636d491f7ae12484d1f4d604f7548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 20/52] fix: reports of modular optimizations

---
 GPyOpt/methods/modular_bayesian_optimization.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/GPyOpt/methods/modular_bayesian_optimization.py b/GPyOpt/methods/modular_bayesian_optimization.py
index 45439a0..f359346 100644
--- a/GPyOpt/methods/modular_bayesian_optimization.py
+++ b/GPyOpt/methods/modular_bayesian_optimization.py
@@ -26,6 +26,18 @@ class ModularBayesianOptimization(BO):
         self.initial_iter = True
         self.modular_optimization = True
 
+        # --- Description of the problem and of the handlers, used in the report
+        self.initial_design_numdata = 0 if X_init is None else X_init.shape[0]
+        self.objective_name = getattr(objective, 'objective_name', 'no_name')
+        self.exact_feval = getattr(model, 'exact_feval', False)
+        self.constraints = getattr(space, 'constraints', None)
+        self.model_type = type(model).__name__
+        self.acquisition_type = type(acquisition).__name__
+        self.acquisition_optimizer = getattr(acquisition, 'optimizer', None)
+        self.evaluator_type = type(evaluator).__name__
+        self.batch_size = getattr(evaluator, 'batch_size', 1)
+        self.num_cores = getattr(objective, 'n_procs', 1)
+
         # --- Create optimization space
         super(ModularBayesianOptimization ,self).__init__(  model                  = model,
                                                             space                  = space,
-- 
2.43.0


From 0266cef5ad302b3eead1041dc44bbcc51b2a6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 21/52] fix: contexts that fix all the variables

---
 GPyOpt/optimization/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index b2b737b..c5ea4ef 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -155,8 +155,11 @@ def apply_optimizer(optimizer, x0, f=None, df=None, f_df=None, duplicate_manager
     if duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(x0):
         raise ValueError("The starting point of the optimizer cannot be a duplicate.")
 
-    ## --- Optimize point
-    optimized_x, _ = optimizer.optimize(problem.x0_nocontext, problem.f_nocontext, problem.df_nocontext, problem.f_df_nocontext)
+    ## --- Optimize point (there is nothing to optimize when the context fixes all the variables)
+    if context_manager and len(context_manager.noncontext_index) == 0:
+        optimized_x = problem.x0_nocontext
+    else:
+        optimized_x, _ = optimizer.optimize(problem.x0_nocontext, problem.f_nocontext, problem.df_nocontext, problem.f_df_nocontext)
 
     ## --- Add context and round according to the type of variables of the design space
     suggested_x_with_context = add_context(optimized_x)
-- 
2.43.0


From f5ef221c83fb232ea54aa32b5874d92a6bd9f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 22/52] fix: Thompson batches with models that do not provide
 gradients

---
 GPyOpt/core/evaluators/batch_thompson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/evaluators/batch_thompson.py b/GPyOpt/core/evaluators/batch_thompson.py
index ec86187..91b4d6e 100644
--- a/GPyOpt/core/evaluators/batch_thompson.py
+++ b/GPyOpt/core/evaluators/batch_thompson.py
@@ -21,7 +21,8 @@ class ThompsonBatch(SamplingBasedBatchEvaluator):
         self.model              = self.acquisition.model
         self.optimizer_name     = 'lbfgs'
         self.f                  = self.acquisition.acquisition_function
-        self.f_df               = self.acquisition.acquisition_function_withGradients
+        # gradients are only used when the model provides them (as in the optimization of the acquisition)
+        self.f_df               = self.acquisition.acquisition_function_withGradients if self.acquisition.analytical_gradient_acq else None
         self.space              = self.acquisition.space
 
     def initialize_batch(self, duplicate_manager=None, context_manager=None):
-- 
2.43.0


From 5f2f50d1ec9d61e4f3e8f1acd9fc773eb63196d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 23/52] Revert "fix: Thompson batches with models that do not
 provide gradients"

This reverts commit f5ef221c83fb232ea54aa32b5874d92a6bd9f23f.
---
 GPyOpt/core/evaluators/batch_thompson.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/GPyOpt/core/evaluators/batch_thompson.py b/GPyOpt/core/evaluators/batch_thompson.py
index 91b4d6e..ec86187 100644
--- a/GPyOpt/core/evaluators/batch_thompson.py
+++ b/GPyOpt/core/evaluators/batch_thompson.py
@@ -21,8 +21,7 @@ class ThompsonBatch(SamplingBasedBatchEvaluator):
         self.model              = self.acquisition.model
         self.optimizer_name     = 'lbfgs'
         self.f                  = self.acquisition.acquisition_function
-        # gradients are only used when the model provides them (as in the optimization of the acquisition)
-        self.f_df               = self.acquisition.acquisition_function_withGradients if self.acquisition.analytical_gradient_acq else None
+        self.f_df               = self.acquisition.acquisition_function_withGradients
         self.space              = self.acquisition.space
 
     def initialize_batch(self, duplicate_manager=None, context_manager=None):
-- 
2.43.0


From b5b78ee981eae0d7229827e6ded48ec094490e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 24/52] fix: initial designs with several bandit variables

---
 GPyOpt/experiment_design/random_design.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/experiment_design/random_design.py b/GPyOpt/experiment_design/random_design.py
index 1b6f8e6..b61611e 100644
--- a/GPyOpt/experiment_design/random_design.py
+++ b/GPyOpt/experiment_design/random_design.py
@@ -49,7 +49,8 @@ class RandomDesign(ExperimentDesign):
             elif isinstance(var, BanditVariable):
                 # Bandit variable is represented by a several adjacent columns in the samples array
                 idx_samples = np.random.randint(var.domain.shape[0], size=init_points_count)
-                bandit_idx = np.arange(idx, idx + var.domain.shape[1])
+                first_idx = sum(v.domain.shape[1] for v in self.space.space_expanded[:idx])
+                bandit_idx = np.arange(first_idx, first_idx + var.domain.shape[1])
                 samples[:, bandit_idx] = var.domain[idx_samples,:]
 
 
-- 
2.43.0


From 30b7aab3bb99c9c6fe7f41969c94c0654f4c76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 25/52] fix: rounding in domains with several bandit variables

---
 GPyOpt/core/task/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 89f0c57..3042657 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -337,7 +337,7 @@ class Design_space(object):
             var_value = x[value_index : value_index + variable.dimensionality_in_model]
             var_value_rounded = variable.round(var_value)
 
-            x_rounded.append(var_value_rounded)
+            x_rounded.append(np.ravel(var_value_rounded))
             value_index += variable.dimensionality_in_model
 
         return np.atleast_2d(np.concatenate(x_rounded))
-- 
2.43.0


From b8fe6a707405f554f328192746780ee58274fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 26/52] fix: contexts on bandit variables

---
 GPyOpt/core/task/space.py                      | 10 +++++++++-
 GPyOpt/core/task/variables.py                  |  2 +-
 GPyOpt/optimization/anchor_points_generator.py |  4 ++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 3042657..969b913 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -141,10 +141,18 @@ class Design_space(object):
         counter_model     = 0
 
         for variable in self.space_expanded:
+            if variable.type == 'bandit':
+                num_components = variable.dimensionality_in_model
+                variable.set_index_in_objective(list(range(counter_objective,counter_objective + num_components)))
+                variable.set_index_in_model(list(range(counter_model,counter_model + num_components)))
+                counter_objective +=num_components
+                counter_model +=num_components
+                continue
+
             variable.set_index_in_objective([counter_objective])
             counter_objective +=1
 
-            if variable.type is not 'categorical':
+            if variable.type != 'categorical':
                 variable.set_index_in_model([counter_model])
                 counter_model +=1
             else:
diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index 2681f2c..2a47431 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -128,7 +128,7 @@ class BanditVariable(Variable):
         super(BanditVariable, self).__init__(name, 'bandit', domain, dimensionality)
 
     def objective_to_model(self, x_objective):
-        return x_objective
+        return list(x_objective)
 
     def is_bandit(self):
         return True
diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 73b4661..5f8760b 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -31,6 +31,10 @@ class AnchorPointsGenerator(object):
             has_context = len(context_manager.context_index_obj) > 0
             space = Design_space(space_configuration_without_context, None if has_context else context_manager.space.constraints)
             add_context = lambda x : context_manager._expand_vector(x)
+        elif context_manager:
+            # Bandits: the arms are sampled in the whole space, the components fixed by the context are then overwritten
+            space = self.space
+            add_context = lambda x : context_manager._expand_vector(x[:, context_manager.noncontext_index])
         else:
             space = self.space
             add_context = lambda x: x
-- 
2.43.0


From dccbec5bb68188f8e6147856354f8b956a381c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 27/52] fix: do not modify the constraint and domain
 descriptions of the caller

---
 GPyOpt/core/task/space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 969b913..1e1db98 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -81,6 +81,7 @@ class Design_space(object):
         # Because of the misspelling API used to expect "constrain" as a key
         # This fixes the API but also supports the old form
         if constraints is not None:
+            constraints = [dict(c) for c in constraints] # the caller's descriptions are not modified
             for c in constraints:
                 if 'constrain' in c:
                     c['constraint'] = c['constrain']
@@ -91,6 +92,7 @@ class Design_space(object):
         import six
         from ast import literal_eval
 
+        space = [dict(d) for d in space] # the given configuration is not modified
         for d in space:
             if isinstance(d['dimensionality'],six.string_types):
                 d['dimensionality'] = int(d['dimensionality'])
-- 
2.43.0


From f94d22dc3386bacf59b6bfd417f0fff681370550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 28/52] fix: state in the report whether the problem has
 constraints

---
 GPyOpt/core/bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 0d04e6f..209d0cb 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -345,7 +345,7 @@ class BO(object):
             file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
             file.write('Noiseless evaluations:       ' + str(self.exact_feval) +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
-            file.write('Constraints:                  ' + str(self.constraints==True) +'\n')
+            file.write('Constraints:                  ' + str(bool(self.constraints)) +'\n')
 
             file.write('\n')
             file.write('------------------------------' + ' Optimization set up ' + '---------------------------------\n')
-- 
2.43.0


From 13a144fad18546c26e58ce1a25b15fcb4ae337ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:11 +0000
Subject: [PATCH 29/52] fix: name every surrogate parameter, fixed and
 vector-valued ones too

---
 GPyOpt/models/gpmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 6e87eea..626b498 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -171,7 +171,7 @@ class GPModel(BOModel):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names_flat().tolist()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
 
     def get_covariance_between_points(self, x1, x2):
         """
@@ -355,4 +355,4 @@ class GPModel_MCMC(BOModel):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
-- 
2.43.0


From b3dbb86863a558c247dba1ea037e363f79ff4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 30/52] fix: saved surrogate parameters are not overwritten by
 later fits

---
 GPyOpt/core/bo.py        | 2 +-
 GPyOpt/models/gpmodel.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 209d0cb..dd5782b 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -265,7 +265,7 @@ class BO(object):
             return
 
         if self.model_parameters_iterations is None:
-            self.model_parameters_iterations = self.model.get_model_parameters()
+            self.model_parameters_iterations = np.array(self.model.get_model_parameters())
         else:
             self.model_parameters_iterations = np.vstack((self.model_parameters_iterations,self.model.get_model_parameters()))
 
diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 626b498..b61db03 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -165,7 +165,7 @@ class GPModel(BOModel):
         """
         Returns a 2D numpy array with the parameters of the model
         """
-        return np.atleast_2d(self.model[:])
+        return np.atleast_2d(self.model[:]).copy()
 
     def get_model_parameters_names(self):
         """
@@ -349,7 +349,7 @@ class GPModel_MCMC(BOModel):
         """
         Returns a 2D numpy array with the parameters of the model
         """
-        return np.atleast_2d(self.model[:])
+        return np.atleast_2d(self.model[:]).copy()
 
     def get_model_parameters_names(self):
         """
-- 
2.43.0


From e2929094ab232752c66f4d0a8f40bc4f1f8b8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:22 +0000
Subject: [PATCH 31/52] fix: warped GP surrogates can be updated with more data

---
 GPyOpt/models/warpedgpmodel.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/GPyOpt/models/warpedgpmodel.py b/GPyOpt/models/warpedgpmodel.py
index fd80d50..22a25ee 100644
--- a/GPyOpt/models/warpedgpmodel.py
+++ b/GPyOpt/models/warpedgpmodel.py
@@ -33,10 +33,10 @@ class WarpedGPModel(BOModel):
     def _create_model(self, X, Y):
         # --- define kernel
         self.input_dim = X.shape[1]
-        if self.kernel is None:
+        if self.model is not None:
+            self.kernel = self.model.kern.copy() # continue from the current parameters
+        elif self.kernel is None:
             self.kernel = GPy.kern.Matern32(self.input_dim, variance=1.) #+ GPy.kern.Bias(self.input_dim)
-        else:
-            self.kernel = self.kernel
 
         # --- define model
         noise_var = Y.var()*0.01 if self.noise_var is None else self.noise_var
@@ -50,10 +50,8 @@ class WarpedGPModel(BOModel):
                 self.model.Gaussian_noise.constrain_positive(warning=False)
 
     def updateModel(self, X_all, Y_all, X_new, Y_new):
-        if self.model is None:
-            self._create_model(X_all, Y_all)
-        else:
-            self.model.set_XY(X_all, Y_all)
+        # --- The data of a warped GP cannot be replaced by data of another size: the model is created again
+        self._create_model(X_all, Y_all)
 
         self.model.optimize(optimizer = self.optimizer, messages=self.verbose, max_iters=self.max_iters)
 
-- 
2.43.0


From 2a9cdfde89b703658bbeb97fb163d6256fc3bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 32/52] fix: gradients of penalised acquisitions at several
 locations

---
 GPyOpt/acquisitions/LP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index ea18ea8..402fc95 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -117,10 +117,10 @@ class AcquisitionLP(AcquisitionBase):
 
         if self.transform=='softplus':
             fval = -self.acq.acquisition_function(x)[:,0]
-            scale = 1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval)))
+            scale = (1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval))))[:,None]
         elif self.transform=='none':
             fval = -self.acq.acquisition_function(x)[:,0]
-            scale = 1./fval
+            scale = (1./fval)[:,None]
         else:
             scale = 1.
 
-- 
2.43.0


From b727e9489dd355d1d7f887d706546930ba698bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:11 +0000
Subject: [PATCH 33/52] fix: equal outputs are only shifted by the
 normalization

---
 GPyOpt/util/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/util/general.py b/GPyOpt/util/general.py
index b280496..dc561d5 100644
--- a/GPyOpt/util/general.py
+++ b/GPyOpt/util/general.py
@@ -219,7 +219,8 @@ def normalize(Y, normalization_type='stats'):
     if normalization_type == 'stats':
         Y_norm = Y - Y.mean()
         std = Y.std()
-        if std > 0:
+        if np.ptp(Y) > 0:
+            # (the std. of equal values can be positive because of round-off errors)
             Y_norm /= std
     elif normalization_type == 'maxmin':
         Y_norm = Y - Y.min()
-- 
2.43.0


From f185e6462c281cc6bbae2f0530c3b3a94ce27ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:39 +0000
Subject: [PATCH 34/52] fix: verbosity_model reaches the surrogate

---
 GPyOpt/methods/bayesian_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index 6bbdaaa..3694597 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -86,7 +86,7 @@ class BayesianOptimization(BO):
         self.kwargs = kwargs
 
         # --- Handle the arguments passed via kwargs
-        self.problem_config = ArgumentsManager(kwargs)
+        self.problem_config = ArgumentsManager(dict(kwargs, verbosity_model=verbosity_model))
 
         # --- CHOOSE design space
         self.constraints = constraints
-- 
2.43.0


From 8cc5f53c2bd096020ca34f89bdd8e5433b9d8a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:39 +0000
Subject: [PATCH 35/52] fix: warped GP surrogates get the options of the user

---
 GPyOpt/util/arguments_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index efac3b4..f1d07fe 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -127,7 +127,7 @@ class ArgumentsManager(object):
         # --- Initialize WapedGP in the outputs
         # --------
         elif model_type =='warpedGP':
-            return WarpedGPModel()
+            return WarpedGPModel(kernel, noise_var, exact_feval, model_optimizer_type, max_iters, optimize_restarts, verbose=verbosity_model)
 
         # --------
         # --- Initialize WapedGP in the inputs
-- 
2.43.0


From 19e3ce27034956f81cf8748467f541cbc24558b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:39 +0000
Subject: [PATCH 36/52] fix: sampled surrogates keep the noise variance of
 exact evaluations

---
 GPyOpt/models/gpmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index b61db03..9a50683 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -252,7 +252,10 @@ class GPModel_MCMC(BOModel):
 
         # update the model generating hmc samples
         self.model.optimize(max_iters = 200)
-        self.model.param_array[:] = self.model.param_array * (1.+np.random.randn(self.model.param_array.size)*0.01)
+        perturbation = 1.+np.random.randn(self.model.param_array.size)*0.01
+        if self.model._fixes_ is not None:
+            perturbation[~self.model._fixes_] = 1. # fixed parameters keep their values
+        self.model.param_array[:] = self.model.param_array * perturbation
         self.hmc = GPy.inference.mcmc.HMC(self.model, stepsize=self.step_size)
         ss = self.hmc.sample(num_samples=self.n_burnin + self.n_samples* self.subsample_interval, hmc_iters=self.leapfrog_steps)
         self.hmc_samples = ss[self.n_burnin::self.subsample_interval]
-- 
2.43.0


From 1d37e026099b83d5d720bcb489dc5a1e77f3de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:39 +0000
Subject: [PATCH 37/52] fix: objectives that modify their input do not change
 the history

---
 GPyOpt/core/task/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index dc95219..79d4e26 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -71,7 +71,7 @@ class SingleObjective(Objective):
 
         for i in range(x.shape[0]):
             st_time    = time.time()
-            rlt = self.func(np.atleast_2d(x[i]))
+            rlt = self.func(np.atleast_2d(x[i]).copy()) # the objective may modify its input
             f_evals     = np.vstack([f_evals,rlt])
             cost_evals += [time.time()-st_time]
         return f_evals, cost_evals
-- 
2.43.0


From c2b511b7828661a12dfbff9b523fca6e157c351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 38/52] fix: objects in configuration files replace plain
 default values

---
 GPyOpt/interface/config_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/config_parser.py b/GPyOpt/interface/config_parser.py
index 7f3bdc6..cb97225 100644
--- a/GPyOpt/interface/config_parser.py
+++ b/GPyOpt/interface/config_parser.py
@@ -66,7 +66,7 @@ def update_config(config_new, config_default):
     '''
     if any([isinstance(v, dict) for v in list(config_new.values())]):
         for k,v in list(config_new.items()):
-            if isinstance(v,dict) and k in config_default:
+            if isinstance(v,dict) and isinstance(config_default.get(k),dict):
                 update_config(config_new[k],config_default[k])
             else:
                 config_default[k] = v
-- 
2.43.0


From e12ad90a25d7ffa30d62982f982967b6fb52549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 39/52] fix: configured search spaces accept literal domains
 and default dimensionalities

---
 GPyOpt/core/task/space.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 1e1db98..2d1a481 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -94,9 +94,10 @@ class Design_space(object):
 
         space = [dict(d) for d in space] # the given configuration is not modified
         for d in space:
-            if isinstance(d['dimensionality'],six.string_types):
+            if isinstance(d.get('dimensionality'),six.string_types):
                 d['dimensionality'] = int(d['dimensionality'])
-            d['domain'] = literal_eval(d['domain'])
+            if isinstance(d['domain'],six.string_types):
+                d['domain'] = literal_eval(d['domain'])
         return Design_space(space, None if len(constraints)==0 else constraints)
 
     def _expand_config_space(self):
-- 
2.43.0


From d2c42fce8cb15e7b62e83dc3478215c021c141c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 40/52] fix: bandit arms can be given as a list

---
 GPyOpt/core/task/variables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index 2a47431..0e78002 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -125,6 +125,7 @@ class BanditVariable(Variable):
         if dimensionality is None:
             dimensionality = len(domain[0])
 
+        domain = np.array(domain)
         super(BanditVariable, self).__init__(name, 'bandit', domain, dimensionality)
 
     def objective_to_model(self, x_objective):
-- 
2.43.0


From ecc8aab588612142bacbbd4575885de5871fbb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 41/52] fix: covariance between points of a GP surrogate

---
 GPyOpt/models/gpmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 9a50683..e40605e 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -177,7 +177,8 @@ class GPModel(BOModel):
         """
         Given the current posterior, computes the covariance between two sets of points.
         """
-        return self.model.posterior_covariance_between_points(x1, x2)
+        # the noise is not part of the covariance of the function between two locations
+        return self.model.posterior_covariance_between_points(x1, x2, include_likelihood=False)
 
 
 class GPModel_MCMC(BOModel):
-- 
2.43.0


From 8fc103cdf13fde814a4106a4fafe6e7487387b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 42/52] fix: negative covariances in predict_covariance

---
 GPyOpt/models/gpmodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index e40605e..d3c084b 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -96,7 +96,12 @@ class GPModel(BOModel):
         if X.ndim == 1:
             X = X[None,:]
         m, v = self.model.predict(X, full_cov=full_cov, include_likelihood=include_likelihood)
-        v = np.clip(v, 1e-10, np.inf)
+        if full_cov:
+            # only the variances are bounded from below, covariances may be negative
+            v = np.array(v)
+            np.fill_diagonal(v, np.clip(np.diag(v), 1e-10, np.inf))
+        else:
+            v = np.clip(v, 1e-10, np.inf)
         return m, v
 
     def predict(self, X, with_noise=True):
-- 
2.43.0


From de08300529e6638110beb66ac705421c6b93a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:22 +0000
Subject: [PATCH 43/52] fix: the reported optimum is not a view of the history

---
 GPyOpt/core/bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index dd5782b..b383b6f 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -207,7 +207,7 @@ class BO(object):
         Computes the optimum and its value.
         """
         self.Y_best = best_value(self.Y)
-        self.x_opt = self.X[np.argmin(self.Y),:]
+        self.x_opt = self.X[np.argmin(self.Y),:].copy()
         self.fx_opt = np.min(self.Y)
 
     def _distance_last_evaluations(self):
-- 
2.43.0


From 9311186bfff7fae9da5567949da25d75cae63405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:58 +0000
Subject: [PATCH 44/52] fix: anchor points of constrained bandits with a
 context are feasible

---
 GPyOpt/optimization/anchor_points_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 5f8760b..6bd00d7 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -51,8 +51,8 @@ class AnchorPointsGenerator(object):
         ## --- Add context variables
         X = add_context(X)
 
-        ## --- Remove infeasible points, if the constraints have not been taken into account by the design
-        if self.space.has_constraints() and not space.has_constraints():
+        ## --- Remove infeasible points (the design does not take the constraints into account, or the context has overwritten components)
+        if self.space.has_constraints():
             X = X[self.space.indicator_constraints(self.space.zip_inputs(X)).flatten() == 1, :]
 
         if duplicate_manager:
-- 
2.43.0


From 857c2cac570eafa1c6314cdafde5411248227eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:22 +0000
Subject: [PATCH 45/52] fix: the last free locations of a large finite domain
 are found, whatever the random anchor points missed

---
 .../optimization/anchor_points_generator.py   | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 6bd00d7..97ce373 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -1,6 +1,7 @@
 # Copyright (c) 2016, the GPyOpt Authors
 # Licensed under the BSD 3-clause license (see LICENSE.txt)
 
+import itertools
 import logging
 
 import numpy as np
@@ -22,6 +23,24 @@ class AnchorPointsGenerator(object):
     def get_anchor_point_scores(self, X):
         raise NotImplementedError("get_anchor_point_scores is not implemented in the parent class.")
 
+    def _free_locations(self, space, add_context, is_duplicate, max_locations):
+        """
+        Goes through the locations of a finite domain until max_locations of them are found that are feasible and no duplicates.
+        """
+        free = []
+        found = set()
+        for location in itertools.product(*[variable.get_possible_values() for variable in space.space_expanded]):
+            x = add_context(np.concatenate([np.empty(0)] + [np.ravel(value) for value in location])[None, :])
+            if tuple(x[0]) in found or is_duplicate(x[0]):
+                continue
+            if self.space.has_constraints() and not self.space.indicator_constraints(self.space.zip_inputs(x)).all():
+                continue
+            found.add(tuple(x[0]))
+            free.append(x)
+            if len(free) == max_locations:
+                break
+        return np.vstack(free) if free else np.empty((0, self.space.model_dimensionality))
+
     def get(self, num_anchor=5, duplicate_manager=None, unique=False, context_manager=None):
 
         ## --- We use the context handler to remove duplicates only over the non-context variables
@@ -63,6 +82,11 @@ class AnchorPointsGenerator(object):
 
         non_duplicate_anchor_point_indexes = [index for index, x in enumerate(X) if not is_duplicate(x)]
 
+        ## --- The sample may miss the last free locations of a finite domain: look for them one by one
+        if len(non_duplicate_anchor_point_indexes) < num_anchor and not space.has_continuous():
+            X = self._free_locations(space, add_context, is_duplicate, max(num_anchor, self.num_samples))
+            non_duplicate_anchor_point_indexes = list(range(X.shape[0]))
+
         if not non_duplicate_anchor_point_indexes:
             raise FullyExploredOptimizationDomainError("No anchor points could be generated ({} used samples, {} requested anchor points).".format(self.num_samples,num_anchor))
 
-- 
2.43.0


From 8168812185bbf69f3511d76eb6404fbbd3689630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:02 +0000
Subject: [PATCH 46/52] fix: hand the variables to the objective of a
 configured experiment by name

---
 GPyOpt/interface/driver.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index de1144f..7c6dbed 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -24,12 +24,19 @@ class BODriver(object):
     def _get_obj(self,space):
 
         """
-        Imports the acquisition function.
+        Imports the objective function. It takes each variable of the space by its name, with one row per location.
         """
         obj_func = self.obj_func
+
+        def unfolded_func(x):
+            args, start = {}, 0
+            for variable in space.space:
+                args[variable.name] = x[:, start:start+variable.dimensionality]
+                start += variable.dimensionality
+            return obj_func(**args)
         
         from ..core.task import SingleObjective
-        return SingleObjective(obj_func, self.config['resources']['cores'], space=space, unfold_args=True)
+        return SingleObjective(unfolded_func, self.config['resources']['cores'], space=space)
         
     def _get_space(self):
         """
-- 
2.43.0


From c2fe27aabf95168780cb6bd10f814ab532d75039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:02 +0000
Subject: [PATCH 47/52] fix: load the objective of a configured experiment
 without the imp module

---
 GPyOpt/interface/func_loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/interface/func_loader.py b/GPyOpt/interface/func_loader.py
index 6456a51..386f24f 100644
--- a/GPyOpt/interface/func_loader.py
+++ b/GPyOpt/interface/func_loader.py
@@ -15,8 +15,10 @@ def load_objective(config):
     os.chdir(config['prjpath'])
     if config['language'].lower()=='python':
         assert config['main-file'].endswith('.py'), 'The python problem file has to end with .py!'
-        import imp
-        m = imp.load_source(config['main-file'][:-3], os.path.join(config['prjpath'],config['main-file']))
+        from importlib.util import spec_from_file_location, module_from_spec
+        spec = spec_from_file_location(config['main-file'][:-3], os.path.join(config['prjpath'],config['main-file']))
+        m = module_from_spec(spec)
+        spec.loader.exec_module(m)
         func = m.__dict__[config['main-file'][:-3]]
     return func
 
-- 
2.43.0


From 83d3621022e5052da111e8b1ddc47ece2ee28f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:02 +0000
Subject: [PATCH 48/52] fix: limits of configured experiments: the run time is
 in minutes, iterations may be unlimited

---
 GPyOpt/interface/driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index 7c6dbed..e7dfa9b 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -121,6 +121,7 @@ class BODriver(object):
         from ..methods import ModularBayesianOptimization
         bo = ModularBayesianOptimization(model, space, obj_func, acq, acq_eval, X_init)
                 
-        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = self.config['resources']['max-run-time'] if self.config['resources']['max-run-time']!="NA" else np.inf,
+        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'] if self.config['resources']['maximum-iterations']!="NA" else np.inf,
+                              max_time = self.config['resources']['max-run-time']*60. if self.config['resources']['max-run-time']!="NA" else np.inf,
                               eps = self.config['resources']['tolerance'], verbosity=True)        
         return bo
-- 
2.43.0


From e6422efdd63fcc426427103ef021cc91c92400ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:13 +0000
Subject: [PATCH 49/52] fix: configured confidence bound and integrated
 acquisitions are built as themselves

---
 GPyOpt/acquisitions/EI_mcmc.py  | 4 ++++
 GPyOpt/acquisitions/LCB.py      | 4 ++++
 GPyOpt/acquisitions/LCB_mcmc.py | 4 ++++
 GPyOpt/acquisitions/MPI_mcmc.py | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/GPyOpt/acquisitions/EI_mcmc.py b/GPyOpt/acquisitions/EI_mcmc.py
index 1ea68cf..2f80042 100644
--- a/GPyOpt/acquisitions/EI_mcmc.py
+++ b/GPyOpt/acquisitions/EI_mcmc.py
@@ -26,6 +26,10 @@ class AcquisitionEI_MCMC(AcquisitionEI):
         
         assert self.model.MCMC_sampler, 'Samples from the hyper-parameters are needed to compute the integrated EI'
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionEI_MCMC(model, space, optimizer, cost_withGradients, jitter=config['jitter'])
+
     def _compute_acq(self,x):
         """
         Integrated Expected Improvement
diff --git a/GPyOpt/acquisitions/LCB.py b/GPyOpt/acquisitions/LCB.py
index f13047a..9721233 100644
--- a/GPyOpt/acquisitions/LCB.py
+++ b/GPyOpt/acquisitions/LCB.py
@@ -32,6 +32,10 @@ class AcquisitionLCB(AcquisitionBase):
         if cost_withGradients is not None:
             print('The set cost function is ignored! LCB acquisition does not make sense with cost.')  
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionLCB(model, space, optimizer, cost_withGradients, exploration_weight=config.get('exploration_weight', 2))
+
     def _compute_acq(self, x):
         """
         Computes the GP-Lower Confidence Bound 
diff --git a/GPyOpt/acquisitions/LCB_mcmc.py b/GPyOpt/acquisitions/LCB_mcmc.py
index 18cecb4..7505012 100644
--- a/GPyOpt/acquisitions/LCB_mcmc.py
+++ b/GPyOpt/acquisitions/LCB_mcmc.py
@@ -23,6 +23,10 @@ class AcquisitionLCB_MCMC(AcquisitionLCB):
         super(AcquisitionLCB_MCMC, self).__init__(model, space, optimizer,cost_withGradients,exploration_weight)
         assert self.model.MCMC_sampler, 'Samples from the hyper-parameters are needed to compute the integrated GP-LCB'
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionLCB_MCMC(model, space, optimizer, cost_withGradients, exploration_weight=config.get('exploration_weight', 2))
+
     def _compute_acq(self,x):
         """
         Integrated GP-Lower Confidence Bound
diff --git a/GPyOpt/acquisitions/MPI_mcmc.py b/GPyOpt/acquisitions/MPI_mcmc.py
index 6ac4898..5478e1e 100644
--- a/GPyOpt/acquisitions/MPI_mcmc.py
+++ b/GPyOpt/acquisitions/MPI_mcmc.py
@@ -26,6 +26,10 @@ class AcquisitionMPI_MCMC(AcquisitionMPI):
 
         assert self.model.MCMC_sampler, 'Samples from the hyper-parameters are needed to compute the integrated EI'
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionMPI_MCMC(model, space, optimizer, cost_withGradients, jitter=config['jitter'])
+
     def _compute_acq(self,x):
         """
         Integrated Expected Improvement
-- 
2.43.0


From 6002166435f3b244f131263b04d5731c14901754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:47 +0000
Subject: [PATCH 50/52] fix: local penalization in configured experiments

---
 GPyOpt/interface/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index e7dfa9b..b3f399e 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -86,6 +86,9 @@ class BODriver(object):
         from copy import deepcopy
         eval_args = deepcopy(self.config['acquisition']['evaluator'])
         del eval_args['type']
+        if self.config['acquisition']['evaluator']['type'] == 'local_penalization':
+            from ..acquisitions import AcquisitionLP
+            acq = AcquisitionLP(acq.model, acq.space, acq.optimizer, acq)
         return select_evaluator(self.config['acquisition']['evaluator']['type'])(acq, **eval_args)
     
     def _check_stop(self, iters, elapsed_time, converged):
-- 
2.43.0


From 684be89be32471d81555099b343bda1abc1f933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:39 +0000
Subject: [PATCH 51/52] fix: probabilities of the minimum with nearly certain
 comparisons

The smallest message of the expectation propagation was 1.2e-7, far above the message
of a comparison with a quantile beyond 5, while its contribution to the probability
assumes the exact one: probabilities came out wrong by factors, even above one before
the normalisation.
---
 GPyOpt/util/epmgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/util/epmgp.py b/GPyOpt/util/epmgp.py
index e9514a4..ec92ad6 100644
--- a/GPyOpt/util/epmgp.py
+++ b/GPyOpt/util/epmgp.py
@@ -45,7 +45,7 @@ from scipy import special
 
 # some variables
 sq2 = np.sqrt(2)
-eps = np.finfo(np.float32).eps
+eps = np.finfo(np.float64).eps
 l2p = np.log(2) + np.log(np.pi)
 
 
-- 
2.43.0


From 5b58dd7967b319aa1007487d62fc1e244badfe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:09 +0000
Subject: [PATCH 52/52] fix: entropy search keeps no beliefs about an earlier
 state of the surrogate

Representer points and their probabilities were computed once, and scored every later
proposal of a run although the surrogate had been updated since.
---
 GPyOpt/acquisitions/ES.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/acquisitions/ES.py b/GPyOpt/acquisitions/ES.py
index a0378c6..46acda7 100644
--- a/GPyOpt/acquisitions/ES.py
+++ b/GPyOpt/acquisitions/ES.py
@@ -81,6 +81,14 @@ class AcquisitionEntropySearch(AcquisitionBase):
         self.repr_points = None
         self.repr_points_log = None
         self.logP = None
+        self.model_state = None
+
+    def _model_state(self):
+        """
+        Data and parameters of the model, which the representer points and their probabilities depend on.
+        """
+        gp = self.model.model
+        return [np.array(v, copy=True) for v in (gp.X, gp.Y, gp.param_array)]
 
     def _update_parameters(self):
         """
@@ -110,12 +118,15 @@ class AcquisitionEntropySearch(AcquisitionBase):
         self.logP, self.dlogPdMu, self.dlogPdSigma, self.dlogPdMudMu = epmgp.joint_min(mu, var, with_derivatives=True)
         # add a second dimension to the array
         self.logP = np.reshape(self.logP, (self.logP.shape[0], 1))
+        self.model_state = self._model_state()
 
     def _required_parameters_initialized(self):
         """
-        Checks if all required parameters are initialized.
+        Checks if all required parameters are initialized, for the current state of the model.
         """
-        return not (self.repr_points is None or self.repr_points_log is None or self.logP is None)
+        if self.repr_points is None or self.repr_points_log is None or self.logP is None or self.model_state is None:
+            return False
+        return all(np.array_equal(v, w) for v, w in zip(self.model_state, self._model_state()))
 
     @staticmethod
     def fromConfig(model, space, optimizer, cost_withGradients, config):
-- 
2.43.0

