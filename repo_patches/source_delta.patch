From 4bf6652cbe52b23c1fbdb8fe5741e60449efbab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 01/32] fix: multi-fidelity samplers consume the caller's
 num_samples list

---
 src/mfpml/design_of_experiment/mf_samplers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 5b572f3..91703c6 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -60,6 +60,8 @@ class MultiFidelitySampler:
         data = []
         # check the number of samples
         self._mf_samples_rules(num_samples)
+        # work on a copy, the list of the caller should not be consumed
+        num_samples = list(num_samples)
 
         # get the samples of low fidelity first
         data.insert(0, self._get_non_nested_samples(
-- 
2.43.0


From e06cbb897d831cf4508f8c89921ecf03698275fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 02/32] fix: nested multi-fidelity Latin hypercube ignores the
 seed

---
 src/mfpml/design_of_experiment/mf_samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 91703c6..2afe509 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -213,7 +213,8 @@ class MFLatinHyperCube(MultiFidelitySampler):
                             data_higher_fidelity) -> None:
 
         # generate index randomly for nested sampling without repeating
-        index = np.random.choice(
+        rng = np.random.RandomState(self.seed)
+        index = rng.choice(
             np.arange(data_higher_fidelity.shape[0]),
             size=num_sample,
             replace=False
-- 
2.43.0


From 34edc90ff7871efd139e94188c5f15ec51711b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 03/32] fix: SobolSequence draws 2**num_samples points before
 sampling

---
 src/mfpml/design_of_experiment/sf_samplers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 891412d..2f7643d 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,8 +311,6 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        # generate lots of samples first
-        sobol_sampler.random_base2(m=num_samples)
         _ = sobol_sampler.reset()
         _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
-- 
2.43.0


From 3943e3b2860c764b45ea0a00187d05a18067497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 04/32] fix: AckleyN2 has its optimum and its optimum scheme
 swapped

---
 src/mfpml/problems/sf_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 197fb0b..9a7a80b 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -506,8 +506,8 @@ class AckleyN2(Functions):
     num_obj: int = 1
     num_cons: int = 0
     input_domain: np.ndarray = np.array([[-32.0, 32.0], [-32.0, 32.0]])
-    optimum: float = [0.0, 0.0]
-    optimum_scheme: List = -200.0
+    optimum: float = -200.0
+    optimum_scheme: List = [0.0, 0.0]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From b61c0ffd7a468f91a2760e194442ded79b7f843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 05/32] fix: AckleyN2 accepts dimensions other than two

---
 src/mfpml/problems/sf_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 9a7a80b..084e9a5 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -518,7 +518,8 @@ class AckleyN2(Functions):
         return d == 2
 
     def __init__(self, num_dim: int = 2) -> None:
-        self.is_dim_compatible(d=num_dim)
+        assert self.is_dim_compatible(d=num_dim), \
+            "Can not change dimension for AckleyN2 function"
 
     @staticmethod
     def f(x: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 2ceac6e25a4ae79b26f441c754a6ee539fbc88f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 06/32] fix: mf_Park91A is nan on the boundary x1 = 0 of its
 domain

---
 src/mfpml/problems/mf_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 826070a..ac14c04 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -950,7 +950,8 @@ class mf_Park91A(MultiFidelityFunctions):
         x4 = x[:, 3]
 
         # calculate the terms
-        term1 = x1/2 * (np.sqrt(1 + (x2 + x3**2) * x4/x1**2) - 1)
+        # (this form is also defined on the boundary x1 = 0 of the domain)
+        term1 = (np.sqrt(x1**2 + (x2 + x3**2) * x4) - x1) / 2
         term2 = (x1 + 3*x4)*np.exp(1 + np.sin(x3))
 
         # calculate the objective function
-- 
2.43.0


From 44cc98d371dbd93e94b6464efe06c4e02c839eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 07/32] fix: instances of Ackley and Thevenot overwrite each
 other's dimension, domain and optimum

---
 src/mfpml/problems/functions.py    | 10 +++++-----
 src/mfpml/problems/sf_functions.py | 13 ++++---------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/mfpml/problems/functions.py b/src/mfpml/problems/functions.py
index bb09e83..c1e0a54 100644
--- a/src/mfpml/problems/functions.py
+++ b/src/mfpml/problems/functions.py
@@ -227,7 +227,7 @@ class Functions(ABC):
         dimension: int
             dimension of the problem
         """
-        return self.__class__.num_dim
+        return self.num_dim
 
     @property
     def _get_low_fidelity(self) -> list:
@@ -240,7 +240,7 @@ class Functions(ABC):
 
         """
 
-        return self.__class__.low_fidelity
+        return self.low_fidelity
 
     @property
     def _optimum(self) -> float:
@@ -252,7 +252,7 @@ class Functions(ABC):
             name of the class
 
         """
-        return self.__class__.optimum
+        return self.optimum
 
     @property
     def _optimum_variable(self) -> list:
@@ -264,7 +264,7 @@ class Functions(ABC):
             Best design scheme
 
         """
-        return self.__class__.optimum_scheme
+        return self.optimum_scheme
 
     @property
     def _input_domain(self) -> np.ndarray:
@@ -274,7 +274,7 @@ class Functions(ABC):
         -------
 
         """
-        return self.__class__.input_domain
+        return self.input_domain
 
 
 class FunctionWrapper:
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 084e9a5..c187240 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -404,14 +404,12 @@ class Thevenot(Functions):
 
     def __update_parameters(self):
 
-        self.__class__.num_dim = self.num_dim
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for i in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for i in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class Ackley(Functions):
@@ -489,15 +487,12 @@ class Ackley(Functions):
 
         """
 
-        self.__class__.num_dim = self.num_dim
-
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for _ in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for _ in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class AckleyN2(Functions):
-- 
2.43.0


From 009efd3f66c7273d89735804eb27318d8336f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 08/32] fix: retraining keeps the noise estimated from the
 previous data

---
 src/mfpml/models/gaussian_process.py     | 3 +++
 src/mfpml/models/hierarchical_kriging.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 0b98649..8536a56 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -61,6 +61,7 @@ class GaussianProcessRegression:
         # basis function
         self.regr = regr
         # noisy data prior or not
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self,
@@ -77,6 +78,8 @@ class GaussianProcessRegression:
         """
         # record the training time for the model
         time_start = time.time()
+        # an unknown noise has to be estimated again for every training
+        self.noise = self.noise_prior
         # get number samples
         self.num_samples = X.shape[0]
         # the original sample_x
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 8c43517..1c350c5 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -29,6 +29,7 @@ class HierarchicalKriging(_mfGaussianProcess):
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
         self.kernel = RBF(theta=np.zeros(self.num_dim), bounds=kernel_bound)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
         # define the low-fidelity model
         self.lfGP = GP(design_space=design_space,
@@ -46,6 +47,8 @@ class HierarchicalKriging(_mfGaussianProcess):
         Y : np.ndarray
             array of high-fidelity responses
         """
+        # an unknown noise has to be estimated again for every training
+        self.noise = self.noise_prior
         # get samples
         self.sample_xh = X
         self.sample_yh = Y
-- 
2.43.0


From 06678b7656f33a83ed2d0aa8e215d48f132e8c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 09/32] fix: a trained Gaussian process changes when the caller
 reuses its arrays

---
 src/mfpml/models/gaussian_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 8536a56..d171563 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -82,11 +82,12 @@ class GaussianProcessRegression:
         self.noise = self.noise_prior
         # get number samples
         self.num_samples = X.shape[0]
-        # the original sample_x
-        self.sample_x = X
+        # the original samples (copied, so that they can not be changed by the
+        # caller after the training)
+        self.sample_x = np.array(X)
         self.sample_scaled_x = self.normalize_input(X, self.bounds)
         # get the response
-        self.sample_y = Y.reshape(-1, 1)
+        self.sample_y = np.array(Y).reshape(-1, 1)
         self.sample_y_scaled = self.normalize_output(self.sample_y)
 
         # optimizer hyper-parameters
-- 
2.43.0


From b5a1c5c8de1e090339ba4760c42a317a739158d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 10/32] fix: CoKriging rescales its noise again on every
 training and prediction

---
 src/mfpml/models/co_kriging.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index ff5ffec..84f08ee 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -351,6 +351,7 @@ class CoKriging:
             noise_prior=noise_prior)
 
         # noise (unscaled, it will be scaled later)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self, samples: List, responses: List) -> None:
@@ -378,10 +379,12 @@ class CoKriging:
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh.copy())
         self.sample_yl_scaled = (self.sample_yl - self.yh_mean) / self.yh_std
         # scale the noise value
-        if self.noise is not None:
-            self.noise = self.noise / self.yh_std
-            # update the noise value of the low-fidelity model
-            self.lfGP.noise = self.noise
+        if self.noise_prior is not None:
+            self.noise_scaled = self.noise_prior / self.yh_std
+        else:
+            self.noise_scaled = None
+        # update the noise value of the low-fidelity model
+        self.lfGP.noise = self.noise_scaled
         # train the low-fidelity model
         start_time = time.time()
 
@@ -397,13 +400,15 @@ class CoKriging:
         self._optHyp()
         # update rho value
         self.rho = self.opt_param[0]
-        if self.noise is None:
+        if self.noise_scaled is None:
             # scaled noise value
-            self.noise = self.opt_param[1]
+            self.noise_scaled = self.opt_param[1]
             # calculate the covariance matrix
             self.kernel.set_params(self.opt_param[2:])
         else:
             self.kernel.set_params(self.opt_param[1:])
+        # noise value at the original scale
+        self.noise = self.noise_scaled * self.yh_std
         # update the kernel matrix
         self._update_parameters()
         end_time_hf = time.time()
@@ -457,7 +462,6 @@ class CoKriging:
                 - c.T.dot(solve(self.LC.T, solve(self.LC, c)))
             )
             self.epis_std = np.sqrt(np.maximum(np.diag(s2), 0))*self.yh_std
-            self.noise = self.noise * self.yh_std
             total_std = np.sqrt((self.epis_std**2 + self.noise**2))
             return fmean.reshape(-1, 1), total_std.reshape(-1, 1)
 
@@ -491,7 +495,7 @@ class CoKriging:
     def _optHyp(self) -> None:
         """Optimize the hyperparameters"""
         # consider the situation where noise exists
-        if self.noise is None:
+        if self.noise_scaled is None:
             # the type II maximum likelihood should be used to optimize the
             # for both the hyper-parameters and noise value
             # noise value needs to be optimized
@@ -563,13 +567,13 @@ class CoKriging:
         params = np.atleast_2d(params)
         out = np.zeros(params.shape[0])
         for i in range(params.shape[0]):
-            if self.noise is None:
+            if self.noise_scaled is None:
                 rho = params[i, 0]
                 noise_sigma = params[i, 1]
                 theta = params[i, 2:]
             else:
                 rho = params[i, 0]
-                noise_sigma = self.noise / self.yh_std
+                noise_sigma = self.noise_scaled
                 theta = params[i, 1:]
             # correlation matrix R
             K = self.kernel(self.sample_xh_scaled,
@@ -588,7 +592,7 @@ class CoKriging:
             gamma = solve(L.T, solve(L, (diff_y - mu)))
             sigma2 = np.dot((diff_y - mu).T, gamma) / self._num_xh
             # negative log likelihood
-            if self.noise == 0.0:
+            if self.noise_scaled == 0.0:
                 logp = -0.5 * self._num_xh * np.log(sigma2) - \
                     np.sum(np.log(np.diag(L)))
             else:
@@ -602,7 +606,7 @@ class CoKriging:
         # correlation matrix R
         self.K = self.kernel.get_kernel_matrix(self.sample_xh_scaled,
                                                self.sample_xh_scaled) +\
-            np.eye(self._num_xh) * (self.noise)**2
+            np.eye(self._num_xh) * (self.noise_scaled)**2
 
         # cholesky decomposition
         L = cholesky(self.K)
-- 
2.43.0


From 43776b2ff4f8e2ab272e05db7e4d9597c07b3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 11/32] fix: CoKriging lacks the interface used by the
 multi-fidelity acquisitions

---
 src/mfpml/models/co_kriging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 84f08ee..4d372a1 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -7,6 +7,7 @@ from scipy.optimize import minimize
 
 from .basis_functions import Ordinary
 from .kernels import RBF
+from .mf_gaussian_process import _mfGaussianProcess
 
 
 class _GP:
@@ -305,7 +306,7 @@ class _GP:
         return self.sample_x.shape[0]
 
 
-class CoKriging:
+class CoKriging(_mfGaussianProcess):
     def __init__(
         self,
         design_space: np.ndarray,
@@ -333,7 +334,7 @@ class CoKriging:
         rho_bound : list, optional
             bound for scale factor, by default [1e-2, 1e2]
         """
-        super().__init__()
+        super().__init__(design_space)
         # get information of the modeling problem
         self.bounds = design_space
         self.optimizer = optimizer
-- 
2.43.0


From 3838609eecac52f035f95f0be8aed4e1f55c3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 12/32] fix: ScaledKriging scales the discrepancy instead of
 the low fidelity

---
 src/mfpml/models/scale_kriging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 5b0b92f..15f7c8f 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -122,8 +122,8 @@ class ScaledKriging(_mfGaussianProcess):
             prediction of high-fidelity
         """
         if not return_std:
-            return self.disc_model.predict(X) * self.rho \
-                + self.lfGP.predict(X)
+            return self.rho * self.lfGP.predict(X) \
+                + self.disc_model.predict(X)
         else:
             pre_lf, std_lf = self.lfGP.predict(X, return_std)
             pre_disc, std_disc = self.disc_model.predict(X, return_std)
-- 
2.43.0


From bfebf35685d57702965d0591922e837dd8db74a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 13/32] fix: PSO and DE report an empty generation as the best
 after an early stop

---
 src/mfpml/optimization/evolutionary_algorithms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 3b53049..7f46724 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -235,8 +235,8 @@ class PSO(EABase):
 
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
             "best_x_historical": self.gen_best_x,
             "best_y_historical": self.gen_best,
             "all_samples": self.samples,
@@ -402,8 +402,8 @@ class DE(EABase):
                     break
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
             "best_x_historical": self.gen_best_x,
             "best_y_historical": self.gen_best,
             "all_samples": self.samples,
-- 
2.43.0


From c34a392653f6ab2c801f0f83fbbf5818898a4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 14/32] fix: single-fidelity acquisitions do not pass the
 surrogate to the optimizer

---
 src/mfpml/optimization/sf_cons_acqusitions.py   | 1 +
 src/mfpml/optimization/sf_uncons_acqusitions.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index a13115f..2c852fa 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -69,6 +69,7 @@ class SFConsAcq(ABC):
                 self.eval,
                 num_dim=obj_surrogate.num_dim,
                 design_space=obj_surrogate.bounds,
+                args=(obj_surrogate, cons_surrogate),
             )
 
         return opt_x
diff --git a/src/mfpml/optimization/sf_uncons_acqusitions.py b/src/mfpml/optimization/sf_uncons_acqusitions.py
index 2a90b30..ce64e29 100644
--- a/src/mfpml/optimization/sf_uncons_acqusitions.py
+++ b/src/mfpml/optimization/sf_uncons_acqusitions.py
@@ -66,6 +66,7 @@ class SFUnConsAcq(ABC):
                 self.eval,
                 num_dim=surrogate.num_dim,
                 design_space=surrogate.bounds,
+                args=(surrogate,),
             )
 
         return opt_x
-- 
2.43.0


From ed4788323c6cf9b26ac915d69cc6f9e82030b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 15/32] fix: CEI can not be evaluated at more than one point

---
 src/mfpml/optimization/sf_cons_acqusitions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index 2c852fa..66a7c27 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -132,9 +132,9 @@ class CEI(SFConsAcq):
         mse_g = np.zeros((x.shape[0], num_cons))
         for ii in range(num_cons):
             cons_surrogate = cons_surrogates[ii]
-            u_g[:, ii], mse_g[:, ii] = cons_surrogate.predict(
-                x, return_std=True)
+            mean, std = cons_surrogate.predict(x, return_std=True)
+            u_g[:, ii], mse_g[:, ii] = mean.ravel(), std.ravel()
 
         # probability of feasibility
-        pof = np.prod(norm.cdf(0-u_g / (mse_g + 1e-9)), axis=1)
+        pof = np.prod(norm.cdf(0-u_g / (mse_g + 1e-9)), axis=1, keepdims=True)
         return pof
-- 
2.43.0


From 915e1638f0d8cd5d0d833e97c754e236caad8895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 16/32] fix: ExtendedPI mixes up the points of a batch

---
 src/mfpml/optimization/mf_acqusitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index edf9705..3bcb526 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -524,7 +524,7 @@ class ExtendedPI(MFUnConsAcq):
             cr = cost_ratio
             eta = np.prod(mf_surrogate._eval_corr(
                 x, mf_surrogate._get_sample_lf, fidelity=1), axis=1)
-        return -pi*corr*cr*eta
+        return -pi*corr*cr*eta.reshape(-1, 1)
 
     def query(self, mf_surrogate: _mfGaussianProcess,
               cost_ratio: float = 1.0,
-- 
2.43.0


From 496bb7818c728ffb8336b45f898043c538d44c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 17/32] fix: VFEI ignores the fidelity it is evaluated for

---
 src/mfpml/optimization/mf_acqusitions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 3bcb526..1a0f88e 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -281,12 +281,12 @@ class VFEI(MFUnConsAcq):
         elif fidelity == 1:
             # get predicted standard deviation for low-fidelity
             _, std_lf = mf_surrogate.predict_lf(x, return_std=True)
-            s = mf_surrogate.beta * std_lf
+            s = np.abs(mf_surrogate.beta) * std_lf
         else:
             ValueError('Unknown fidelity input.')
         # expected improvement
-        z = (fmin - pre) / (std + 1e-8)
-        vfei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
+        z = (fmin - pre) / (s + 1e-8)
+        vfei = (fmin - pre) * norm.cdf(z) + s * norm.pdf(z)
         vfei[s < np.finfo(float).eps] = 0.
         return (- vfei).ravel()
 
-- 
2.43.0


From 7472821fc5cf4670b09cbf1d2ff12615cc24529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 18/32] fix: multi-fidelity optimization never starts when the
 optimum is unknown

---
 src/mfpml/optimization/mf_uncons_bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index dd685b9..1d1775f 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -78,7 +78,7 @@ class mfUnConsBayesOpt:
         iteration = 0
         error = self.__update_error()
         print(f"Error: {error}")
-        while iteration < max_iter and error > stopping_error:
+        while iteration < max_iter and error >= stopping_error:
             # update the surrogate model
             update_x, fidelity = self.acquisition.query(
                 mf_surrogate=self.surrogate,
-- 
2.43.0


From 8e4292a4caef3a0807cee745cba4a1a3b1b54f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 19/32] fix: multi-fidelity acquisitions fail with a
 user-defined optimizer

---
 src/mfpml/optimization/mf_acqusitions.py | 48 ++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 1a0f88e..836eb0a 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -166,7 +166,17 @@ class AugmentedEI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # identify the best point for every fidelity by the optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 0))
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 1))
         # choose fidelity
         if opt_hf <= opt_lf:
             update_x = np.atleast_2d(x_hf)
@@ -330,7 +340,17 @@ class VFEI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # identify the best point for every fidelity by the optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(fmin, mf_surrogate, 0))
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(fmin, mf_surrogate, 1))
         # choose fidelity
         if opt_hf <= opt_lf:
             update_x = np.atleast_2d(x_hf)
@@ -444,7 +464,17 @@ class VFLCB(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # identify the best point for every fidelity by the optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 0))
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 1))
         # choose fidelity with better optimal value
         if opt_hf <= opt_lf:
             # choose high high fidelity
@@ -570,7 +600,17 @@ class ExtendedPI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # identify the best point for every fidelity by the optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, premin.fun, cost_ratio, 0))
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, premin.fun, cost_ratio, 1))
         # choose fidelity with better optimal value
         if opt_hf <= opt_lf:
             # choose high high fidelity
-- 
2.43.0


From 6b09206b1e2ca46a169883d9ed8ebbab35bda2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 20/32] fix: constrained optimization can report an infeasible
 best scheme

---
 src/mfpml/optimization/sf_cons_bo.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 515cbe1..65db275 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -126,10 +126,11 @@ class BayesConsOpt(ABC):
         try:
             feasible_index = np.where(
                 np.sum(self.init_cons_response <= 0, axis=1)
-                == self.problem.num_cons)
+                == self.problem.num_cons)[0]
             # get the best feasible sample
             self.best = np.min(self.init_obj_response[feasible_index])
-            min_index = np.where(self.init_obj_response == self.best)[0]
+            min_index = feasible_index[np.where(
+                self.init_obj_response[feasible_index] == self.best)[0]]
             # get the best feasible sample
             self.best_x = self.init_sample[min_index, :]
             # record the optimization history
@@ -151,10 +152,11 @@ class BayesConsOpt(ABC):
         try:
             feasible_index = np.where(
                 np.sum(self.cons_response <= 0, axis=1)
-                == self.problem.num_cons)
+                == self.problem.num_cons)[0]
             # get the best feasible sample
             min_y = np.min(self.obj_response[feasible_index])
-            min_index = np.where(self.obj_response == min_y)[0]
+            min_index = feasible_index[np.where(
+                self.obj_response[feasible_index] == min_y)[0]]
             print(f"min_index: {min_index}")
             # update best
             self.best = min_y
-- 
2.43.0


From 9c30b08b8239acb0ec8c2789dc4f3142e73e360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 21/32] fix: GoldPrice records a scheme that is not its optimum

---
 src/mfpml/problems/sf_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index c187240..3ff7563 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -93,7 +93,7 @@ class GoldPrice(Functions):
     num_cons: int = 0
     input_domain = np.array([[-2.0, 2.0], [-2.0, 2.0]])
     optimum: float = 3.0
-    optimum_scheme: List = [0.0, 1.0]
+    optimum_scheme: List = [0.0, -1.0]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From 569e9974b5efdb73b3fa37fd7bf60ee07d3ed52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 22/32] fix: Hartman3 records a scheme that does not reach its
 optimum

---
 src/mfpml/problems/mf_functions.py | 2 +-
 src/mfpml/problems/sf_functions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index ac14c04..e967a41 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -150,7 +150,7 @@ class mf_Hartman3(MultiFidelityFunctions):
     input_domain: np.ndarray = np.array([[0.0, 1.0], [0.0, 1.0], [0.0, 1.0]])
     design_space: dict = {"x1": [0.0, 1.0], "x2": [0.0, 1.0], "x3": [0.0, 1.0]}
     optimum: float = -3.86278214782076
-    optimum_scheme: list = [0.1, 0.55592003, 0.85218259]
+    optimum_scheme: list = [0.11461434, 0.55564885, 0.85254695]
     low_fidelity: list = ["low"]
 
     def __init__(self, num_dim: int = 3, cost: list = [1.0, 0.2]) -> None:
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 3ff7563..0e8c5c1 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -228,7 +228,7 @@ class Hartman3(Functions):
     num_cons: int = 0
     input_domain = np.array([[0.0, 1.0], [0.0, 1.0], [0.0, 1.0]])
     optimum: float = -3.86278214782076
-    optimum_scheme: List = [0.1, 0.55592003, 0.85218259]
+    optimum_scheme: List = [0.11461434, 0.55564885, 0.85254695]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From 495b16ee2c67dc87cf2c2b8a050334af0cbe02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 23/32] fix: Branin_2 records an infeasible optimum that can
 not be reached

---
 src/mfpml/problems/sf_cons_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/sf_cons_functions.py b/src/mfpml/problems/sf_cons_functions.py
index d9013f1..b1914e4 100644
--- a/src/mfpml/problems/sf_cons_functions.py
+++ b/src/mfpml/problems/sf_cons_functions.py
@@ -59,8 +59,8 @@ class Branin_2(Functions):
     num_obj: int = 1
     num_cons: int = 1
     input_domain = np.array([[0, 1], [0.0, 1]])
-    optimum: float = 12.001
-    optimum_scheme: List = [0.941, 0.317]
+    optimum: float = 12.005047
+    optimum_scheme: List = [0.940573, 0.317108]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From ed609029e2ff57f077f8c284e12be10f52a951cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 24/32] fix: Sobol samplers fail when no points are skipped

---
 src/mfpml/design_of_experiment/mf_samplers.py | 3 ++-
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 2afe509..cfa725b 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -268,7 +268,8 @@ class MFSobolSequence(MultiFidelitySampler):
         """
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
         _ = sobol_sampler.reset()
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples
         samples = sobol_sampler.random(n=num_sample)
 
diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 2f7643d..0e8185d 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -312,7 +312,8 @@ class SobolSequence(SingleFidelitySampler):
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
         _ = sobol_sampler.reset()
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
 
-- 
2.43.0


From 31e408c727917059a2845a0fe73de3940e5d3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 25/32] fix: PSO and DE alias the array an objective returns

---
 src/mfpml/optimization/evolutionary_algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 7f46724..f8f2bce 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -277,7 +277,7 @@ class PSO(EABase):
         self.x = self._location_initialzer()
         self.__velocity_initialzer()
         self.obj = self.func(self.x)
-        self.obj = np.reshape(self.obj, (self.num_pop, 1))
+        self.obj = np.reshape(self.obj, (self.num_pop, 1)).copy()
 
         # find the best values for individuals
         self.pop_best = self.obj
@@ -424,7 +424,7 @@ class DE(EABase):
         self.v = np.zeros([self.num_pop, self.num_dim])
         self.u = np.zeros([self.num_pop, self.num_dim])
         self.obj = self.func(self.x)
-        self.obj = np.reshape(self.obj, (self.num_pop, 1))
+        self.obj = np.reshape(self.obj, (self.num_pop, 1)).copy()
         # find the best value for population
         self.gen_best[0, :] = self._gen_best_obj(obj=self.obj)
         self.gen_best_x[0, :] = self._gen_best_x(pop=self.x, obj=self.obj)
-- 
2.43.0


From c36efed5cde42102253177bef1e8bb11dee83ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 26/32] fix: ScaledKriging ignores the kernel bounds of its
 discrepancy model

---
 src/mfpml/models/scale_kriging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 15f7c8f..0b14c93 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -17,7 +17,7 @@ class ScaledKriging(_mfGaussianProcess):
         disc_model: Any = None,
         optimizer: Any = None,
         optimizer_restart: int = 0,
-        kernel_bound: list = [-4.0, 3.0],
+        kernel_bound: list = [-2.0, 3.0],
         rho_optimize: bool = False,
         rho_method: str = "error",
         rho_bound: list = [1e-2, 1e1],
@@ -46,7 +46,7 @@ class ScaledKriging(_mfGaussianProcess):
             the 'L-BFGS-B' method in scipy is used
         kernel_bound: list, optional
             log bound of the kernel for discrepancy Kriging model, by
-            default [-3, 2]
+            default [-2, 3]
         rho_optimize : bool, optional
             whether to optimize the scale factor, if not the scale
             factor is 1, by default False
@@ -80,6 +80,7 @@ class ScaledKriging(_mfGaussianProcess):
         if disc_model is None:
             self.disc_model = GaussianProcessRegression(
                 design_space=design_space,
+                kernel=self.kernel,
                 optimizer=optimizer,
                 optimizer_restart=optimizer_restart,
                 noise_prior=noise_prior
-- 
2.43.0


From 05ac552d360e96a3466047e481f6316b888a7996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 27/32] fix: default scale-factor search of ScaledKriging
 depends on the units of the responses

---
 src/mfpml/models/scale_kriging.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 0b14c93..6901232 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -55,7 +55,8 @@ class ScaledKriging(_mfGaussianProcess):
         rho_bound : list, optional
             bound for the factor rho if optimizing rho, by default [1e-1, 1e1]
         rho_optimizer : any, optional
-            optimizer for the parameter rho, by default 'L-BFGS-B'
+            optimizer for the parameter rho, by default the exact minimizer
+            for 'error' and 'L-BFGS-B' for 'bumpiness'
         """
         super().__init__(design_space)
         self.lfGP = lfGP
@@ -146,13 +147,14 @@ class ScaledKriging(_mfGaussianProcess):
         """Optimize the rho value"""
         if self.rho_optimizer is None:
             if self.rho_method == "error":
-                x0 = np.random.uniform(self.rho_bound[0], self.rho_bound[1], 1)
-                optRes = minimize(
-                    self._eval_error,
-                    x0=x0,
-                    method="L-BFGS-B",
-                    bounds=np.array([self.rho_bound]),
-                )
+                # the squared error is a parabola of rho, its minimizer does
+                # not depend on the magnitude of the responses
+                rho = np.linalg.lstsq(
+                    self.predict_lf(self.sample_xh).reshape(-1, 1),
+                    self.sample_yh.ravel(),
+                    rcond=None,
+                )[0]
+                self.rho = np.clip(rho, self.rho_bound[0], self.rho_bound[1])
             elif self.rho_method == "bumpiness":
                 x0 = np.random.uniform(self.rho_bound[0], self.rho_bound[1], 1)
                 optRes = minimize(
@@ -161,9 +163,9 @@ class ScaledKriging(_mfGaussianProcess):
                     method="L-BFGS-B",
                     bounds=np.array([self.rho_bound]),
                 )
+                self.rho = optRes.x
             else:
-                pass
-            self.rho = optRes.x
+                raise ValueError("Unknown rho_method.")
         else:
             if self.rho_method == "error":
                 optRes, _, _ = self.rho_optimizer.run_optimizer(
-- 
2.43.0


From 5a9c9da160ec58330975acc94eccde1b76e2334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 28/32] fix: plot designs of more than five fidelities

Colours (five) and markers (six) are reused for further fidelities; every
pair of them remains distinct for up to thirty fidelities.
---
 src/mfpml/visualization/samplers_visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/visualization/samplers_visualization.py b/src/mfpml/visualization/samplers_visualization.py
index bc04a4b..70a42bd 100644
--- a/src/mfpml/visualization/samplers_visualization.py
+++ b/src/mfpml/visualization/samplers_visualization.py
@@ -236,11 +236,11 @@ class MFSamplerVisualization:
 
     def __get_color(self, fidelity: int) -> str:
         colors = ['#EE7733', '#0077BB', '#009988', '#EE3377', '#CC3311']
-        return colors[fidelity]
+        return colors[fidelity % len(colors)]
 
     def __get_marker(self, fidelity: int) -> str:
         markers = ['+', 'o', 'v', '^', 's', 'D']
-        return markers[fidelity]
+        return markers[fidelity % len(markers)]
 
 
 # test the mf sampler visualization
-- 
2.43.0


From 62cfd9b1a40b46506fd4ed9017427942ce636da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 29/32] fix: multi-fidelity optimization aliases arrays of the
 problem and the acquisition

The stored samples and responses were a shallow copy of the lists and the best
location was the array returned by the acquisition, so reusing those arrays
changed the record of the optimization.
---
 src/mfpml/optimization/mf_uncons_bo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index 1d1775f..879aa2b 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -145,7 +145,8 @@ class mfUnConsBayesOpt:
         if fidelity == 0:
             if update_y[0][0] < self.best:
                 self.best = update_y[0][0]
-                self.best_x = update_x
+                # copied, the acquisition may reuse its array
+                self.best_x = np.array(update_x)
 
         # record the optimization history
         self.history_best.append(self.best)
@@ -179,8 +180,8 @@ class mfUnConsBayesOpt:
         self.surrogate.train(self.init_sample, self.init_response)
 
         # update the sample and response
-        self.sample = self.init_sample.copy()
-        self.response = self.init_response.copy()
+        self.sample = [x.copy() for x in self.init_sample]
+        self.response = [y.copy() for y in self.init_response]
 
         # initialize best scheme
         self.best = np.min(self.response[0])
-- 
2.43.0


From 1967b0a2c569667bd2af4c244218e6394dce242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 30/32] fix: kernels accept integer parameters

10**theta raises for negative integers and keeps integer precision
otherwise; use a floating base.
---
 src/mfpml/models/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/models/kernels.py b/src/mfpml/models/kernels.py
index 1c2dd30..1fbbd2f 100644
--- a/src/mfpml/models/kernels.py
+++ b/src/mfpml/models/kernels.py
@@ -99,7 +99,7 @@ class RBF(KernelCore):
         bounds : list, optional
             log bounds of the parameters, by default [-4, 3]
         """
-        self.param = 10**theta
+        self.param = 10.0**theta
         self.parameters = parameters
         self.bounds = []
         self.num_para = theta.size
@@ -159,7 +159,7 @@ class RBF(KernelCore):
         X = np.atleast_2d(X)
         Y = np.atleast_2d(Y)
         # deal with parameters
-        param = 10**param
+        param = 10.0**param
         # compute the distance
         X_sq = np.sum(X**2 * param, axis=1, keepdims=True)
         Y_sq = np.sum(Y**2 * param, axis=1)
@@ -172,7 +172,7 @@ class RBF(KernelCore):
         """
         Set the parameters of the kernel.
         """
-        setattr(self, "param", 10**params)
+        setattr(self, "param", 10.0**params)
 
 # =========================================================================== #
 
-- 
2.43.0


From e0f0eb09646cb690dcc1f3935b95171fdcbd5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:11 +0000
Subject: [PATCH 31/32] fix: low-fidelity CurrinExp truncates the shift of
 integer points

---
 src/mfpml/problems/mf_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index e967a41..7425207 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -754,7 +754,7 @@ class mf_CurrinExp(MultiFidelityFunctions):
     def lf(x: np.ndarray) -> np.ndarray:
 
         # reshape the input
-        x = np.atleast_2d(x)
+        x = np.atleast_2d(x).astype(float)
 
         # calculate the terms
         xx = x.copy()
-- 
2.43.0


From 129d49cd4a99c920531c8e1eef398fddcc8c5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 32/32] fix: low-fidelity model of co-Kriging keeps the noise
 of its first training

---
 src/mfpml/models/co_kriging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 4d372a1..37bbecc 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -41,6 +41,8 @@ class _GP:
         self.optimizer_restart = optimizer_restart
         # get basis function
         self.regr = regr
+        # noise (the prior is kept, None means that it is estimated)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def _hyper_paras_optimization(self) -> None:
@@ -253,6 +255,8 @@ class _GP:
         sample_y : np.ndarray
             responses of the sample
         """
+        # an estimated noise is estimated again
+        self.noise = self.noise_prior
         # get number samples
         self.num_samples = sample_x.shape[0]
         # the original sample_x
@@ -385,7 +389,7 @@ class CoKriging(_mfGaussianProcess):
         else:
             self.noise_scaled = None
         # update the noise value of the low-fidelity model
-        self.lfGP.noise = self.noise_scaled
+        self.lfGP.noise_prior = self.noise_scaled
         # train the low-fidelity model
         start_time = time.time()
 
-- 
2.43.0

