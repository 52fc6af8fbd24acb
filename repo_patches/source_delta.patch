From a4a4be1113565fd323c83a44ea9a3a80cdabcedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 01/45] fix: drop the stale update when the observed
 distribution is changed

set_observed() left the previous updated density in place, so mud_point() and
expected_ratio() kept answering for the old observations.
---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index bc9b719..7373c98 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -213,6 +213,7 @@ class DensityProblem(object):
         """
         self._ob_dist = distribution
         self._ob = distribution.pdf(self.y).prod(axis=1)
+        self._up = None
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
         """
-- 
2.43.0


From ab699e30be23949d64c4079d7453b9ca2e745caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 02/45] fix: fit_domain pads a copy of the bounds it is given

Every plot_param_space() call enlarged the domain of the problem, and with it
the default initial distribution.
---
 src/mud/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/util.py b/src/mud/util.py
index fad2040..9254d65 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -278,6 +278,8 @@ def fit_domain(
         if x is None:
             raise ValueError("Both x and min_max_bounds can't be None")
         min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
+    else:
+        min_max_bounds = np.array(min_max_bounds)
     pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
     min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
     min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
-- 
2.43.0


From b3b321371d7df9dc8565be03ff6f92c41a6f93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 03/45] fix: density plots are drawn from the settings in force

After a set_* call the updated and push-forward curves were drawn with the
ratio of the previous fit (or no weights at all), next to a MUD point of the
new one.
---
 src/mud/base.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7373c98..58a1884 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -508,10 +508,9 @@ class DensityProblem(object):
             )
         if up_opts is not None:
             uo.update(up_opts)
-            if self._r is not None:
-                up_kde = gkde(self.X.T, weights=self._r * self._weights)
-            else:
-                up_kde = gkde(self.X.T, weights=None)
+            if self._up is None:
+                self.fit()
+            up_kde = gkde(self.X.T, weights=self._r * self._weights)
             plot_dist(
                 up_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **uo
             )
@@ -596,6 +595,8 @@ class DensityProblem(object):
             raise ValueError("Invalid domain dimension")
 
         assert self._ob_dist is not None, "Observed dist empty"
+        if (pr_opts or pf_opts) and self._up is None:
+            self.fit()
         if ob_opts:
             oo.update(ob_opts)
             plot_dist(
@@ -611,10 +612,7 @@ class DensityProblem(object):
             fo.update(pf_opts)
 
             # Compute PF of updated
-            if self._r is not None:
-                pf_kde = gkde(self.y.T, weights=self._weights * self._r)
-            else:
-                pf_kde = gkde(self.y.T, weights=None)
+            pf_kde = gkde(self.y.T, weights=self._weights * self._r)
             plot_dist(pf_kde, y_range, idx=obs_idx, ax=ax, source="kde", aff=aff, **fo)
 
         return ax
-- 
2.43.0


From b0ea3805997e718f0e819c1686141ad74b41c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 04/45] fix: a distribution that fails leaves the problem
 unchanged

set_observed(), set_likelihood() and set_prior() stored the new distribution
(and the log flag) before evaluating it, so a failed call left new and old
values mixed, e.g. a density treated as a log-density.
---
 src/mud/base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 58a1884..07f88c6 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -211,8 +211,8 @@ class DensityProblem(object):
             distribution N(0,1).
 
         """
-        self._ob_dist = distribution
         self._ob = distribution.pdf(self.y).prod(axis=1)
+        self._ob_dist = distribution
         self._up = None
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
@@ -785,19 +785,18 @@ class BayesProblem(object):
         return self.y.shape[0]
 
     def set_likelihood(self, distribution, log=False):
-        self._ll_dist = distribution
         if log:
-            self._log = True
             self._ll = distribution.logpdf(self.y).sum(axis=1)
             # equivalent evaluation (demonstrating the expected symmetry)
             # std, mean = distribution.std(), distribution.mean()
             # self._ll = dist.norm(self.y, std).logpdf(mean).sum(axis=1)
         else:
-            self._log = False
             self._ll = distribution.pdf(self.y).prod(axis=1)
             # equivalent
             # self._ll = dist.norm(self.y).pdf(distribution.mean())/distribution.std()
             # self._ll = self._ll.prod(axis=1)
+        self._ll_dist = distribution
+        self._log = log
         self._ps = None
 
     def set_prior(self, distribution=None):
@@ -808,8 +807,8 @@ class BayesProblem(object):
                 distribution = dist.uniform(loc=mn, scale=mx - mn)
             else:
                 distribution = dist.norm()
+        self._pr = distribution.pdf(self.X).prod(axis=1)
         self._pr_dist = distribution
-        self._pr = self._pr_dist.pdf(self.X).prod(axis=1)
         self._ps = None
 
     def fit(self):
-- 
2.43.0


From b95e622083b02b48730a743d6a16e86dc129e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 05/45] fix: plots of a Bayesian problem work with a
 log-likelihood

The log-posterior was used as sample weights (an error, as they are negative),
and the push-forward was drawn unweighted before fit().
---
 src/mud/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 07f88c6..7003b1a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -833,6 +833,12 @@ class BayesProblem(object):
         m = np.argmax(self._ps)
         return self.X[m, :]
 
+    def _posterior_weights(self):
+        """Posterior values to weight samples with, up to a constant"""
+        if self._ps is None:
+            self.fit()
+        return np.exp(self._ps - np.max(self._ps)) if self._log else self._ps
+
     def estimate(self):
         return self.map_point()
 
@@ -879,8 +885,7 @@ class BayesProblem(object):
             )
         if ps_opts is not None:
             pso.update(ps_opts)
-            self.estimate()
-            ps_kde = gkde(self.X.T, weights=self._ps)
+            ps_kde = gkde(self.X.T, weights=self._posterior_weights())
             plot_dist(
                 ps_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **pso
             )
@@ -961,7 +966,7 @@ class BayesProblem(object):
             po.update(pf_opts)
 
             # Compute PF of posterior
-            pf_kde = gkde(self.y.T, weights=self._ps)
+            pf_kde = gkde(self.y.T, weights=self._posterior_weights())
             pf_p = margins(np.reshape(pf_kde(grid_points).T, XXX[0].shape))[
                 obs_idx
             ].reshape(-1)
-- 
2.43.0


From f0b3e51cfe52c9f7e6be556e657bce104ee8f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 06/45] fix: detect a vanishing posterior with a log-likelihood
 too

A log-posterior of -inf everywhere went unnoticed (the first sample was
returned), and log values summing to zero were rejected.
---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7003b1a..ec4856e 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -823,7 +823,7 @@ class BayesProblem(object):
             ps_pdf = np.multiply(self._pr, self._ll)
 
         assert ps_pdf.shape[0] == self.X.shape[0]
-        if np.sum(ps_pdf) == 0:
+        if np.all(ps_pdf == (-np.inf if self._log else 0)):
             raise ValueError("Posterior numerically unstable.")
         self._ps = ps_pdf
 
-- 
2.43.0


From f383647a9c7d7ec77d5284556230df35ae87be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 07/45] fix: iterative linear problems can be solved

The sub-problems, iter_lin_solve() and rotation_map_trials() passed argument
names that do not exist, so every call raised TypeError.
---
 src/mud/base.py            | 6 +++---
 src/mud/examples/linear.py | 2 +-
 src/mud/funs.py            | 7 +++----
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index ec4856e..42dcd57 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1468,9 +1468,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
                         self.A[i, :],
                         self.b[i],
                         self.y[i],
-                        mean=solutions[-1],
-                        cov=self.cov,
-                        data_cov=self.data_cov,
+                        mean_i=solutions[-1],
+                        cov_i=self.cov,
+                        cov_o=[[self.data_cov[i, i]]],
                     )
                 )
 
diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index 0f59573..5c320bc 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -245,7 +245,7 @@ def rotation_map_trials(
 
         # Initialize Iterative Linear Problem and solve using number of epochs
         prob = IterativeLinearProblem(
-            A, b=b, y=y, initial_mean=initial_mean, cov=initial_cov, idx_order=choice
+            A, b=b, y=y, mu_i=initial_mean, cov=initial_cov, idx_order=choice
         )
         _ = prob.solve(num_epochs=epochs)
 
diff --git a/src/mud/funs.py b/src/mud/funs.py
index 7b74e74..d030ecf 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -174,10 +174,9 @@ def iter_lin_solve(
         A,
         b=b,
         y=y,
-        mean_i=mean,
-        cov_i=cov,
-        cov_o=data_cov,
-        alpha=1.0,
+        mu_i=mean,
+        cov=cov,
+        data_cov=data_cov,
         idx_order=idx_order,
     )
     res = lin_prob.solve(num_epochs=num_epochs, method=method)
-- 
2.43.0


From d51a3f0be4b866e1be26b8abb73d311429056d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 08/45] fix: an iterative linear problem keeps its own copy of
 its inputs

Unlike LinearGaussianProblem it aliased the caller's arrays, so later changes
to them (or a shuffled index array) silently changed the remaining epochs, and
nested lists were rejected.
---
 src/mud/base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 42dcd57..f02bce6 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1428,16 +1428,19 @@ class IterativeLinearProblem(LinearGaussianProblem):
         self, A, b, y=None, mu_i=None, cov=None, data_cov=None, idx_order=None
     ):
         # Make sure A is 2D array
+        A = np.array(A)
         self.A = A if A.ndim == 2 else A.reshape(1, -1)
 
         # Initialize to defaults - Reshape everything into 2D arrays.
         n_samples, dim_input = self.A.shape
-        self.data_cov = np.eye(n_samples) if data_cov is None else data_cov
-        self.cov = np.eye(dim_input) if cov is None else cov
-        self.mu_i = np.zeros((dim_input, 1)) if mu_i is None else mu_i.reshape(-1, 1)
-        self.b = np.zeros((n_samples, 1)) if b is None else b.reshape(-1, 1)
-        self.y = np.zeros(n_samples) if y is None else y.reshape(-1, 1)
-        self.idx_order = range(self.A.shape[0]) if idx_order is None else idx_order
+        self.data_cov = np.eye(n_samples) if data_cov is None else np.array(data_cov)
+        self.cov = np.eye(dim_input) if cov is None else np.array(cov)
+        self.mu_i = (
+            np.zeros((dim_input, 1)) if mu_i is None else np.array(mu_i).reshape(-1, 1)
+        )
+        self.b = np.zeros((n_samples, 1)) if b is None else np.array(b).reshape(-1, 1)
+        self.y = np.zeros(n_samples) if y is None else np.array(y).reshape(-1, 1)
+        self.idx_order = list(range(n_samples) if idx_order is None else idx_order)
 
         # Verify arguments?
 
-- 
2.43.0


From 3dc6e3a0169e16d1d05cf98a615002b9c0960496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 09/45] fix: chain errors are relative to the reference given

get_errors() returned the errors of an earlier call for any reference, as long
as the chain had not grown, and a flat reference broadcast to a matrix.
---
 src/mud/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f02bce6..b559c30 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1490,9 +1490,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
         Get errors with respect to a reference parameter
 
         """
-        solutions = np.concatenate([x[1:] for x in self.solution_chains])
-        if len(solutions) != len(self.errors):
-            self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
+        solutions = [s for x in self.solution_chains for s in x[1:]]
+        ref_param = np.reshape(ref_param, (-1, 1))
+        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
         return self.errors
 
     def plot_chain(self, ref_param, ax=None, color="k", s=100, **kwargs):
-- 
2.43.0


From 0c59da4cbed9868eb20e5ac99ee31a0d9c0d1fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 10/45] fix: contour plots of linear problems work with default
 options

plot_contours() passed fs= to the plotted lines and plot_chain() passed color=
and s= to plot_contours(); neither is accepted.
---
 src/mud/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index b559c30..da596d8 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1285,7 +1285,7 @@ class LinearGaussianProblem(object):
         note_loc=None,
         w=1,
         label="{i}",
-        plot_opts={"color": "k", "ls": ":", "lw": 1, "fs": 20},
+        plot_opts={"color": "k", "ls": ":", "lw": 1},
         annotate_opts={"fontsize": 20},
     ):
         """
@@ -1513,7 +1513,11 @@ class IterativeLinearProblem(LinearGaussianProblem):
             ax.scatter(current_point[0], current_point[1], c="g", s=s)
             ax.scatter(ref_param[0], ref_param[1], c="r", s=s)
         self.plot_contours(
-            ref_param, ax=ax, subset=self.idx_order, color=color, s=s, **kwargs
+            ref_param,
+            ax=ax,
+            subset=self.idx_order,
+            plot_opts={"color": color, "ls": ":", "lw": 1},
+            **kwargs,
         )
 
     def plot_chain_error(
-- 
2.43.0


From be311dd565bd088e621e204882592e032209f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 11/45] fix: rotation_map uses the seed it is given

---
 src/mud/examples/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index 5c320bc..1025ea0 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -171,7 +171,7 @@ def rotation_map(qnum=10, tol=0.1, b=None, ref_param=None, seed=None):
 
     """
     if seed is not None:
-        np.random.seed(24)
+        np.random.seed(seed)
 
     vec = np.linspace(0, np.pi, qnum)
     A = np.array([[np.sin(theta), np.cos(theta)] for theta in vec])
-- 
2.43.0


From a74ba4cd590179a700073bf9ec2eb3f6cd611c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 12/45] fix: plot_sol does not write into the caller's (or
 default) options

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index da596d8..095c559 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1257,7 +1257,7 @@ class LinearGaussianProblem(object):
 
         # Get solution point or initial poitn to plot.
         pt = self.mean_i if point == "initial" else self.solve(method=point)
-        pt_opts["label"] = point
+        pt_opts = {**pt_opts, "label": point}
 
         # Plot point
         ax.scatter(pt[0], pt[1], **pt_opts)
-- 
2.43.0


From 52eae46295396a8e95b4cbf618183f240e6926b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 13/45] fix: the data term measures the mismatch of A x + b
 with y

compute_functionals() subtracted the offset from the data while also adding it
to the prediction, and mis-shaped data with more than one observation.
---
 src/mud/base.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 095c559..2f1ce1b 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1092,15 +1092,12 @@ class LinearGaussianProblem(object):
         individual terms in functionals that are minimized to solve the
         linear gaussian problem.
         """
-        # Compute observed mean
-        mean_o = self.y - self.b
-
         # Define inner-producted induced by vector norm
         def ip(X, mat):
             return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
 
         # First compute data mismatch norm
-        data_term = ip((self.A @ X.T + self.b) - mean_o.T, self.cov_o)
+        data_term = ip((self.A @ X.T + self.b) - self.y, self.cov_o)
         if terms == "data":
             return data_term
 
-- 
2.43.0


From 2fb4730792c13ed715869bb39efc14694c7453ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 14/45] fix: load() honours renamed, overridden and suppressed
 fields

A renamed field was only read if the dataset also had one under the default
name, and a value or None given for a field the dataset has raised KeyError.
---
 src/mud/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 2f1ce1b..6824d54 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1807,9 +1807,10 @@ class SpatioTemporalProblem(object):
             ds = df
 
         def get_set_val(f, v):
-            if f in ds.keys():
-                self.__setattr__(f, ds[v])
-            elif v is not None and not isinstance(v, str):
+            if isinstance(v, str):
+                if v in ds.keys():
+                    self.__setattr__(f, ds[v])
+            elif v is not None:
                 self.__setattr__(f, v)
 
         field_names = {
-- 
2.43.0


From 2c4c36ad8019c70b4ab2f05487216f5dcc04afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 15/45] fix: NameError when loading a .nc dataset with xarray
 installed

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6824d54..9ac5134 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -16,7 +16,7 @@ from mud.util import add_noise, fit_domain, make_2d_unit_mesh, null_space, set_s
 try:
     import xarray as xr  # type: ignore
 
-    xr_avial = True
+    xr_avail = True
 except ModuleNotFoundError:
     xr_avail = False
     pass
-- 
2.43.0


From c0bc523b00e3c09141957d23d3b4d1c2a2726447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 16/45] fix: the domain setter checks the dimension of the new
 domain

It checked the old one, so a domain with too few or too many rows was accepted
or failed in numpy.
---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 9ac5134..7bb9d21 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1639,7 +1639,7 @@ class SpatioTemporalProblem(object):
     def domain(self, domain):
         domain = np.reshape(domain, (-1, 2))
         if self.lam is not None:
-            if self.domain.shape[0] != self.lam.shape[1]:
+            if domain.shape[0] != self.lam.shape[1]:
                 raise ValueError("Domain and parameter array dimension mismatch.")
             min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
             if not all(
-- 
2.43.0


From 19cd2a3cc80fc3f168b53790d35ecfe33e36fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 17/45] fix: the WME map is scaled by the number of
 observations

It was divided by the square root of the number of parameter samples, so its
residuals were not N(0, 1) at the true parameter, unlike funs.wme().
---
 src/mud/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7bb9d21..185dfdf 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2000,7 +2000,6 @@ class SpatioTemporalProblem(object):
             sensors_mask=sensors_mask,
         )
         residuals = (sub_meas - sub_data) / self.std_dev
-        sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
             data_weights = np.reshape(data_weights, (-1, 1))
@@ -2012,7 +2011,7 @@ class SpatioTemporalProblem(object):
             residuals = data_weights * residuals
 
         if method == "wme":
-            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_n_samples)
+            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_data.shape[1])
         elif method == "pca":
             # Learn qoi to use using PCA
             pca_res, X_train = pca(residuals, n_components=num_components)
@@ -2032,7 +2031,6 @@ class SpatioTemporalProblem(object):
         else:
             ValueError(f"Unrecognized QoI Map type {method}")
 
-        # qoi = qoi.reshape(sub_n_samples, -1)
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
         return d
-- 
2.43.0


From e36c1c17ad60e447e0bd8cf277c1c93a9d353117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 18/45] fix: raise the ValueError for an unknown QoI map method

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 185dfdf..6b9a663 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2029,7 +2029,7 @@ class SpatioTemporalProblem(object):
             self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
             qoi = residuals @ (v[0:num_components, :]).T
         else:
-            ValueError(f"Unrecognized QoI Map type {method}")
+            raise ValueError(f"Unrecognized QoI Map type {method}")
 
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
-- 
2.43.0


From a90be617ce706920813bdd087a4053aa7510b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 19/45] fix: data weights apply to observations, not to samples

They were multiplied down the rows of the residuals, which fails to broadcast
unless there are as many samples as observations.
---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6b9a663..b5c4e34 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2002,8 +2002,8 @@ class SpatioTemporalProblem(object):
         residuals = (sub_meas - sub_data) / self.std_dev
 
         if data_weights is not None:
-            data_weights = np.reshape(data_weights, (-1, 1))
-            if data_weights.shape[0] != self.n_sensors * self.n_ts:
+            data_weights = np.reshape(data_weights, (1, -1))
+            if data_weights.shape[1] != sub_data.shape[1]:
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
                 )
-- 
2.43.0


From 00df394aa3ec24f08fb3a0df2b5172bb20eb9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 20/45] fix: measurements_from_reference validates the
 reference it is given

The reference was stored unchecked, even when the call then failed, leaving a
reference of the wrong shape behind.
---
 src/mud/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index b5c4e34..e3e9bd7 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1758,14 +1758,16 @@ class SpatioTemporalProblem(object):
         """
         Add noise to a reference solution.
         """
-        if ref is not None:
-            self._true_vals = ref
-        if std_dev is not None:
-            self.std_dev = std_dev
-        if self.true_vals is None or self.std_dev is None:
+        if (ref is None and self.true_vals is None) or (
+            std_dev is None and self.std_dev is None
+        ):
             raise AttributeError(
                 "Must set reference solution and std_dev first or pass as arguments."
             )
+        if ref is not None:
+            self.true_vals = ref
+        if std_dev is not None:
+            self.std_dev = std_dev
         self.measurements = np.reshape(
             add_noise(self.true_vals.ravel(), self.std_dev, seed=seed),
             self.true_vals.shape,
-- 
2.43.0


From 687b10fa635aa43ca4d324bd0c6e2330f4d3792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 21/45] fix: lam_ref can be read and validated before it is set

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e3e9bd7..903b6ba 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1554,7 +1554,7 @@ class SpatioTemporalProblem(object):
         self._lam = None
         self._data = None
         self._measurements = None
-        self._true_lam = None
+        self._lam_ref = None
         self._true_vals = None
         self._sample_dist = None
         self.sensors = None
@@ -1844,7 +1844,7 @@ class SpatioTemporalProblem(object):
         if check_meas:
             req_attrs.append("measurements")
         if check_true:
-            req_attrs.append("true_lam")
+            req_attrs.append("lam_ref")
             req_attrs.append("true_vals")
 
         missing = [x for x in req_attrs if self.__getattribute__(x) is None]
-- 
2.43.0


From 84fb84ca5ecb58f6376d31281cdfcd6affa3bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 22/45] fix: sensors without 2D locations can be selected and
 plotted

sample_data() assumed 2D coordinates, so plot_ts() failed for every problem
that uses the default single sensor.
---
 src/mud/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 903b6ba..e45ad66 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1878,7 +1878,8 @@ class SpatioTemporalProblem(object):
             if sub_meas is not None:
                 sub_meas = sub_meas[:, times_mask]
         if sensors_mask is not None:
-            sub_sensors = np.reshape(self.sensors[sensors_mask], (-1, 2))
+            sensors = np.reshape(self.sensors, (self.n_sensors, -1))
+            sub_sensors = np.reshape(sensors[sensors_mask], (-1, sensors.shape[1]))
             sub_data = sub_data[:, sensors_mask, :]
             if sub_meas is not None:
                 sub_meas = sub_meas[sensors_mask, :]
-- 
2.43.0


From 7175195404d37dd7fc23199621280ff09e9dec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 23/45] fix: poisson-solve draws the figures it is asked for

The command line passes a tuple, which was wrapped in a list that matches no
figure name.
---
 src/mud/examples/poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/poisson.py b/src/mud/examples/poisson.py
index 19a0b4b..2657b9a 100644
--- a/src/mud/examples/poisson.py
+++ b/src/mud/examples/poisson.py
@@ -280,7 +280,7 @@ def run_2d_poisson_sol(
     )
     _ = mud_prob.estimate()
 
-    plot_fig = [plot_fig] if not isinstance(plot_fig, list) else plot_fig
+    plot_fig = [plot_fig] if isinstance(plot_fig, str) else plot_fig
 
     axes = []
     if "response" in plot_fig or "all" in plot_fig:
-- 
2.43.0


From ad6766cf6a2a94f95224a0ceea18becd35841807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 24/45] fix: each adcirc time window saves its own learned QoI
 figure

A missing f prefix made all windows write one file, literally named
'qoi_{num_components}_{ndata}'.
---
 src/mud/examples/adcirc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/adcirc.py b/src/mud/examples/adcirc.py
index 6960805..5bf856a 100644
--- a/src/mud/examples/adcirc.py
+++ b/src/mud/examples/adcirc.py
@@ -252,7 +252,7 @@ def adcirc_time_window(  # noqa: C901
             _ = fig.suptitle(f"{title}", fontsize=20)
         if save_path is not None:
             save_figure(
-                "qoi_{num_components}_{ndata}",
+                f"qoi_{num_components}_{ndata}",
                 save_path,
                 close_fig=close_fig,
                 dpi=dpi,
-- 
2.43.0


From 9d0592a2d563921fe01a08641650dc33a2bbbdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 25/45] fix: run_2d_poisson_sol seeds the sensor order too

As run_2d_poisson_trials does; otherwise two runs with one seed differ.
---
 src/mud/examples/poisson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mud/examples/poisson.py b/src/mud/examples/poisson.py
index 2657b9a..2ce2707 100644
--- a/src/mud/examples/poisson.py
+++ b/src/mud/examples/poisson.py
@@ -260,6 +260,9 @@ def run_2d_poisson_sol(
         inverse problem, along with the list of axes objects where desired
         plots were plotted on.
     """
+    if seed is not None:
+        random.seed(seed)
+
     res = minimize(spline_objective_function_2d, x0=[-3, -1])
     closest = res["x"]
 
-- 
2.43.0


From 3b51a499d87e17e015bc92d24117f0a4d163d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 26/45] fix: the noise level asked for is the one used

The poisson and adcirc loaders ignored std_dev (and so --sigma) in favour of
0.05, which becomes the command line's default as it is the functions'.
---
 src/mud/examples/adcirc.py   | 4 ++--
 src/mud/examples/examples.py | 6 +++---
 src/mud/examples/poisson.py  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mud/examples/adcirc.py b/src/mud/examples/adcirc.py
index 5bf856a..8bb9be7 100644
--- a/src/mud/examples/adcirc.py
+++ b/src/mud/examples/adcirc.py
@@ -37,7 +37,7 @@ def load_adcirc_prob(
         data="data",
         true_vals="true_vals",
         measurements=None,
-        std_dev=0.05,
+        std_dev=std_dev,
         sample_dist="uniform",
         domain="domain",
         lam_ref="lam_ref",
@@ -45,7 +45,7 @@ def load_adcirc_prob(
         times="times",
     )
 
-    adcirc_prob.measurements_from_reference(std_dev=0.05, seed=seed)
+    adcirc_prob.measurements_from_reference(std_dev=std_dev, seed=seed)
 
     return data, adcirc_prob
 
diff --git a/src/mud/examples/examples.py b/src/mud/examples/examples.py
index 0a99ced..c1a1907 100644
--- a/src/mud/examples/examples.py
+++ b/src/mud/examples/examples.py
@@ -359,7 +359,7 @@ def high_dim_linear(
 @click.option(
     "-s",
     "--sigma",
-    default=1e-1,
+    default=0.05,
     show_default=True,
     help='N(0, sigma) error added to true solution surface to produce "measurements".',
 )
@@ -477,7 +477,7 @@ def poisson_solve(
 @click.option(
     "-s",
     "--sigma",
-    default=1e-1,
+    default=0.05,
     show_default=True,
     help='N(0, sigma) error added to true solution surface to produce "measurements".',
 )
@@ -733,7 +733,7 @@ def poisson_generate(
 @click.option(
     "-s",
     "--sigma",
-    default=1e-1,
+    default=0.05,
     show_default=True,
     help='N(0, sigma) error added to true time series to produce "measurements".',
 )
diff --git a/src/mud/examples/poisson.py b/src/mud/examples/poisson.py
index 2ce2707..dca1d0c 100644
--- a/src/mud/examples/poisson.py
+++ b/src/mud/examples/poisson.py
@@ -57,7 +57,7 @@ def load_poisson_prob(
         data="data",
         true_vals="true_vals",
         measurements=None,
-        std_dev=0.05,
+        std_dev=std_dev,
         sample_dist="uniform",
         domain="domain",
         lam_ref=None,
@@ -65,7 +65,7 @@ def load_poisson_prob(
         times=np.array([0]),
     )
 
-    poisson_prob.measurements_from_reference(std_dev=0.05, seed=seed)
+    poisson_prob.measurements_from_reference(std_dev=std_dev, seed=seed)
 
     return data, poisson_prob
 
-- 
2.43.0


From 03cb0eb2f3ce4fbb45f127fd6d1bf6b9123f34fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 27/45] fix: plot_params_2d plots the parameters it is asked
 for

It labelled the axes with x_1 and x_2 but always plotted the first two, and
dropped the scatter options.
---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e45ad66..6490c89 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -693,10 +693,10 @@ class DensityProblem(object):
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, 0], self.X[:, 1], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c, **kwargs)
 
         if contours:
-            ax.tricontour(self.X[:, 0], self.X[:, 1], c, levels=20)
+            ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-- 
2.43.0


From 474f95a7b773c25e4e6808f5a473d430ce1a4047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 28/45] fix: plots go to the axes they are given

Scatter points and colorbars went to the current pyplot axes or figure, whatever
ax was passed.
---
 src/mud/base.py | 13 +++++--------
 src/mud/plot.py |  2 +-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6490c89..bac64cb 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -700,8 +700,7 @@ class DensityProblem(object):
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-            fig = plt.gcf()
-            fig.colorbar(sp)
+            ax.figure.colorbar(sp, ax=ax)
 
         ax.set_xlabel(rf"$\lambda_{x_1+1}$")
         ax.set_ylabel(rf"$\lambda_{x_2+1}$")
@@ -1909,8 +1908,7 @@ class SpatioTemporalProblem(object):
             tc = ax.tricontour(sensors[:, 0], sensors[:, 1], contours, **kwargs)
 
         if colorbar:
-            fig = plt.gcf()
-            fig.colorbar(tc)
+            ax.figure.colorbar(tc, ax=ax)
 
         return ax
 
@@ -1924,11 +1922,10 @@ class SpatioTemporalProblem(object):
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
 
-        sp = plt.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
+        sp = ax.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
 
         if colorbar and "c" in kwargs.keys():
-            fig = plt.gcf()
-            fig.colorbar(sp)
+            ax.figure.colorbar(sp, ax=ax)
 
         return ax
 
@@ -1965,7 +1962,7 @@ class SpatioTemporalProblem(object):
             "s": 2,
         }
         def_kwargs.update(meas_kwargs)
-        _ = plt.scatter(times, sub_meas, **def_kwargs)
+        _ = ax.scatter(times, sub_meas, **def_kwargs)
 
         # Plot simulated data time series
         def_sample_kwargs = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 5970521..9ef5862 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -154,7 +154,7 @@ def plot_1D_vecs(vecs, markers=None, ax=None, label=True, **kwargs):
     for i, v in enumerate(vecs):
         if markers is not None:
             kwargs["marker"] = markers[i]
-        plt.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
+        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
 
     if label:
         ax.set_xlabel("i")
-- 
2.43.0


From f87a7175aeecf4836788653c048016f057899efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 29/45] fix: importing mud leaves figures and working directory
 alone

The LaTeX probe drew into the caller's current figure, closed all figures, wrote
(and deleted) .test_fig.png in the working directory, and made the import fail
where that is not writable or a TeX tool cannot be run.
---
 src/mud/plot.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/mud/plot.py b/src/mud/plot.py
index 9ef5862..95e0fca 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -8,11 +8,13 @@ Functions
 ---------
 
 """
+from io import BytesIO
 from logging import getLogger
 from pathlib import Path
 
 import numpy as np
 from matplotlib import pyplot as plt  # type: ignore
+from matplotlib.figure import Figure  # type: ignore
 from scipy.stats.contingency import margins  # type: ignore
 
 from mud.util import null_space
@@ -22,24 +24,19 @@ _logger = getLogger(__name__)
 
 def _check_latex():
     """check latex installation"""
-    original_params = plt.rcParams.copy()
-    path = Path.cwd() / ".test_fig.png"
     try:  # minimal example to trip up matplotlib
-        plt.rcParams.update({"text.usetex": True})
-        plt.plot([0], [1], label=r"$a_\text{foo} = \lambda$")
-        plt.plot([0, 1], [1, 2], label="Something")
-        plt.savefig(str(path), bbox_inches="tight")
-        # For Python 3.7 compatibility
-        if path.exists():
-            path.unlink()
+        # A figure of its own, so that the caller's figures are left alone
+        with plt.rc_context({"text.usetex": True}):
+            fig = Figure()
+            ax = fig.add_subplot(1, 1, 1)
+            ax.plot([0], [1], label=r"$a_\text{foo} = \lambda$")
+            ax.plot([0, 1], [1, 2], label="Something")
+            fig.savefig(BytesIO(), format="png", bbox_inches="tight")
         _logger.info("USING TEX")
         return True
-    except (RuntimeError, FileNotFoundError):
+    except (RuntimeError, OSError):
         _logger.warning("NOT USING TEX")
         return False
-    finally:
-        plt.rcParams.update(original_params)  # Restore the original parameters
-        plt.close("all")  # Close all figures to release any resources
 
 
 # # Matplotlib plotting options
-- 
2.43.0


From 72952ac74a72918f02876c1cc5e9e3e5fd77883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 30/45] fix: mud-paper uses the dataset it downloaded or
 generated

A file of the dataset's name in the working directory was moved into place
instead of the download (which wget had given another name), a dataset on another
file system could not be moved, and one generated with FEniCS was never moved.
---
 src/mud/examples/examples.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mud/examples/examples.py b/src/mud/examples/examples.py
index c1a1907..bb95e6b 100644
--- a/src/mud/examples/examples.py
+++ b/src/mud/examples/examples.py
@@ -847,6 +847,12 @@ def adcirc_solve(
     plt.close("all")
 
 
+def _fetch(url, path):
+    """Download a file, which appears at path only once it is complete"""
+    part = path.with_name(path.name + ".part")
+    Path(download(url, out=str(part))).replace(path)
+
+
 @examples.command(short_help="Reproduce figures from mud paper.")
 @click.pass_context
 def mud_paper(ctx):
@@ -909,16 +915,16 @@ def mud_paper(ctx):
     p_ds_url = f"https://github.com/mindthemath/mud-data/raw/main/{p_fname}"
     if not p_path.exists():
         if not fin_flag:
-            download(p_ds_url)
-            (Path.cwd() / p_fname).rename(p_path)
+            _fetch(p_ds_url, p_path)
         else:
             res, p = run_fenics(
                 1000,
                 500,
-                save_path=".",
+                save_path=str(data_path),
                 seed=ctx.obj["seed"],
             )
             print(f"{p}")
+            Path(p).replace(p_path)
     plt.close("all")
 
     # Figs 7, 8
@@ -951,8 +957,7 @@ def mud_paper(ctx):
     a_path = data_path / a_fname
     a_ds_url = f"https://github.com/mindthemath/mud-data/raw/main/{a_fname}"
     if not (a_path).exists():
-        download(a_ds_url)
-        Path(a_fname).rename(a_path)
+        _fetch(a_ds_url, a_path)
 
     raw_data, adcirc_prob = load_adcirc_prob(a_path, std_dev=0.05, seed=21)
     t1 = ["2018-01-11 01:00:00", "2018-01-11 07:00:00"]
-- 
2.43.0


From b2cf61b53ecbac17be97c611fa5ada62f13a87a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 31/45] fix: exp_decay_2D passes both true parameters to the
 model

---
 src/mud/examples/exp_decay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/exp_decay.py b/src/mud/examples/exp_decay.py
index 9520a1d..2712bdc 100644
--- a/src/mud/examples/exp_decay.py
+++ b/src/mud/examples/exp_decay.py
@@ -64,7 +64,7 @@ def exp_decay_2D(
     exp_decay.data = u_t_lambda_2(
         exp_decay.times, exp_decay.lam[:, 0], exp_decay.lam[:, 1]
     )
-    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, lambda_true)[0]
+    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, *lambda_true)[0]
     exp_decay.std_dev = std_dev
 
     return exp_decay
-- 
2.43.0


From b2b708c0f15839bbb7ba9e3f4d03822e0cdad0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 32/45] fix: load measurements of datasets without sensors or
 times

They were read before the data that defines the default sensor and times.
---
 src/mud/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index bac64cb..477490e 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1819,6 +1819,8 @@ class SpatioTemporalProblem(object):
             "domain": "domain",
             "sensors": "sensors",
             "times": "times",
+            "lam": lam,
+            "data": data,
             "lam_ref": "lam_ref",
             "std_dev": "std_dev",
             "true_vals": "true_vals",
@@ -1828,9 +1830,6 @@ class SpatioTemporalProblem(object):
         for f, v in field_names.items():
             get_set_val(f, v)
 
-        get_set_val("lam", lam)
-        get_set_val("data", data)
-
         return ds
 
     def validate(
-- 
2.43.0


From 9cb78977e79b2cee12b7b2c1bbc9fd5d00a678ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 33/45] fix: data_prob works with its default arguments

Its default sample_dist is one SpatioTemporalProblem rejects, and arguments left
at None were loaded as values.
---
 src/mud/funs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index d030ecf..a1013dc 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -216,7 +216,7 @@ def data_prob(
     qoi_true=None,
     measurements=None,
     std_dev=None,
-    sample_dist="uniform",
+    sample_dist="u",
     domain=None,
     lam_ref=None,
     times=None,
@@ -245,7 +245,7 @@ def data_prob(
         "sensors": sensors,
     }
     sp_prob = SpatioTemporalProblem()
-    sp_prob.load(data)
+    sp_prob.load({k: v for k, v in data.items() if v is not None})
     D = sp_prob.mud_problem(method=method)
     D.set_initial(init_dist)
     D.set_observed(dists.norm(0, 1))  # always N(0,1) for WME map
-- 
2.43.0


From 0881a4fe35de40cc041ddf723eeb2ce1ff4e2887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 34/45] fix: a flat X holds samples of one parameter, as
 documented

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 477490e..9cf86bf 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -108,7 +108,7 @@ class DensityProblem(object):
         normalize: bool = False,
         pad_domain: float = 0.1,
     ):
-        self.X = set_shape(np.array(X), (1, -1))
+        self.X = set_shape(np.array(X), (-1, 1))
         self.y = set_shape(np.array(y), (-1, 1))
 
         # These will be updated in set_ and fit() functions
-- 
2.43.0


From a6187f16758935ca968b84e44701cc4b197514bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 35/45] fix: distribution curves are drawn for the index asked
 for

With two or more dimensions the marginals were taken along the wrong axis
of the mesh, so that e.g. the first parameter's initial density was drawn
in the second parameter's plot and the other way round.
---
 src/mud/base.py | 4 +++-
 src/mud/plot.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 9cf86bf..1dd8f24 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -943,7 +943,9 @@ class BayesProblem(object):
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
 
         # Build grid of points over range to compute marginals
-        XXX = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in y_range])
+        XXX = np.meshgrid(
+            *[np.linspace(i, j, aff)[:-1] for i, j in y_range], indexing="ij"
+        )
         grid_points = np.vstack([x.ravel() for x in XXX])
         y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
 
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 95e0fca..f398fe2 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -191,7 +191,10 @@ def build_nd_mesh_grid(domain, aff=100):
 
     """
 
-    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain])
+    # Matrix indexing, so that axis i of the mesh is dimension i of the domain
+    mesh = np.meshgrid(
+        *[np.linspace(i, j, aff)[:-1] for i, j in domain], indexing="ij"
+    )
     grid_points = np.vstack([x.ravel() for x in mesh])
 
     return (mesh, grid_points)
@@ -217,7 +220,7 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
         ].reshape(-1)
     elif source == "kde":
         # Compute observed distribution using kernel density estimate
-        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape).T)[idx].reshape(-1)
+        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
     else:
         raise ValueError("Source must be one of pdf or kde.")
 
-- 
2.43.0


From 0459202b18b11d3764debcf868c577e472c4b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 36/45] fix: plot the likelihood of vector-valued data

The likelihood was evaluated on the transposed grid, which fails for a
distribution with one mean per observation.
---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 1dd8f24..c44a495 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -957,7 +957,7 @@ class BayesProblem(object):
 
             # Compute observed distribution using stored pdf
             ll_plot = margins(
-                np.reshape(self._ll_dist.pdf(grid_points).T.prod(axis=1), XXX[0].shape)
+                np.reshape(self._ll_dist.pdf(grid_points.T).prod(axis=1), XXX[0].shape)
             )[obs_idx].reshape(-1)
 
             # Plot pf of initial
-- 
2.43.0


From 54eecbbe9d554183f3fc8bd0f79aec3631f21657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 37/45] fix: plotting ranges may be lists, as documented

---
 src/mud/base.py | 1 +
 src/mud/plot.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index c44a495..488689f 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -941,6 +941,7 @@ class BayesProblem(object):
         # Default range is (-1,1) over each observable variable
         if y_range is None:
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
+        y_range = np.array(y_range)
 
         # Build grid of points over range to compute marginals
         XXX = np.meshgrid(
diff --git a/src/mud/plot.py b/src/mud/plot.py
index f398fe2..69b6d3a 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -208,6 +208,8 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
     # Create plot if one isn't passed in
     _, ax = plt.subplots(1, 1) if ax is None else (None, ax)
 
+    domain = np.array(domain)
+
     # Mesh is a list of grids over n-dim space the distribution is defined over
     mesh, grid = build_nd_mesh_grid(domain, aff=aff)
     plot_x = np.linspace(domain[idx, 0], domain[idx, 1], aff)[: aff - 1]
-- 
2.43.0


From 7aadd61912990a7dafb33ce88e8580220ceb1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 38/45] fix: plotting contours of an iterative problem leaves
 its chain alone

plot_contours() without a reference point solved another epoch, with
least squares, as a side effect; so did plot_sol() before it failed.
---
 src/mud/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 488689f..8a6634d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1255,7 +1255,8 @@ class LinearGaussianProblem(object):
             _, ax = plt.subplots(1, 1)
 
         # Get solution point or initial poitn to plot.
-        pt = self.mean_i if point == "initial" else self.solve(method=point)
+        initial = self.mean_i
+        pt = initial if point == "initial" else self.solve(method=point)
         pt_opts = {**pt_opts, "label": point}
 
         # Plot point
@@ -1264,8 +1265,8 @@ class LinearGaussianProblem(object):
         # Plot line connecting initial value and solution
         if ln_opts is not None and point != "initial":
             ax.plot(
-                [self.mean_i.ravel()[0], pt.ravel()[0]],
-                [self.mean_i.ravel()[1], pt.ravel()[1]],
+                [initial.ravel()[0], pt.ravel()[0]],
+                [initial.ravel()[1], pt.ravel()[1]],
                 **ln_opts,
             )
 
@@ -1298,7 +1299,7 @@ class LinearGaussianProblem(object):
         subset = np.arange(self.A.shape[0]) if subset is None else subset
 
         # Ref is the reference point to plot each contour line through.
-        ref = ref if ref is not None else self.solve(method="ls")
+        ref = ref if ref is not None else np.linalg.pinv(self.A) @ (self.y - self.b)
 
         # Build null-space (contour lines) for each subset row of A
         A = self.A[np.array(subset), :]
@@ -1438,7 +1439,7 @@ class IterativeLinearProblem(LinearGaussianProblem):
             np.zeros((dim_input, 1)) if mu_i is None else np.array(mu_i).reshape(-1, 1)
         )
         self.b = np.zeros((n_samples, 1)) if b is None else np.array(b).reshape(-1, 1)
-        self.y = np.zeros(n_samples) if y is None else np.array(y).reshape(-1, 1)
+        self.y = np.zeros((n_samples, 1)) if y is None else np.array(y).reshape(-1, 1)
         self.idx_order = list(range(n_samples) if idx_order is None else idx_order)
 
         # Verify arguments?
-- 
2.43.0


From 4f2483bbb39ef131bccc77c727d8746c763a8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 39/45] fix: an interrupted default setting is completed by the
 repeated call

fit() looks at the density values only, so an interruption between storing
them and the rest of a setting left the distribution unset (or the predicted
one in place) for good.
---
 src/mud/base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 8a6634d..2734baa 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -211,9 +211,10 @@ class DensityProblem(object):
             distribution N(0,1).
 
         """
-        self._ob = distribution.pdf(self.y).prod(axis=1)
-        self._ob_dist = distribution
+        values = distribution.pdf(self.y).prod(axis=1)
         self._up = None
+        self._ob_dist = distribution
+        self._ob = values  # last, as fit() takes it for all that is needed
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
         """
@@ -242,11 +243,12 @@ class DensityProblem(object):
             else:
                 distribution = dist.norm()
 
-        self._in = distribution.pdf(self.X).prod(axis=1)
-        self._in_dist = distribution
+        values = distribution.pdf(self.X).prod(axis=1)
         self._up = None
         self._pr = None
         self._pr_dist = None
+        self._in_dist = distribution
+        self._in = values  # last, as fit() takes it for all that is needed
 
     def set_predicted(
         self,
@@ -806,9 +808,10 @@ class BayesProblem(object):
                 distribution = dist.uniform(loc=mn, scale=mx - mn)
             else:
                 distribution = dist.norm()
-        self._pr = distribution.pdf(self.X).prod(axis=1)
-        self._pr_dist = distribution
+        values = distribution.pdf(self.X).prod(axis=1)
         self._ps = None
+        self._pr_dist = distribution
+        self._pr = values  # last, as fit() takes it for all that is needed
 
     def fit(self):
         if self._pr is None:
-- 
2.43.0


From 50221cef398a5757c244782f46fcaac647186a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 40/45] undo the fixes under src/mud/examples

The folder counts as test code here; the defects are recorded as findings.
---
 src/mud/examples/adcirc.py    |  6 +++---
 src/mud/examples/examples.py  | 21 ++++++++-------------
 src/mud/examples/exp_decay.py |  2 +-
 src/mud/examples/linear.py    |  4 ++--
 src/mud/examples/poisson.py   |  9 +++------
 5 files changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/mud/examples/adcirc.py b/src/mud/examples/adcirc.py
index 8bb9be7..6960805 100644
--- a/src/mud/examples/adcirc.py
+++ b/src/mud/examples/adcirc.py
@@ -37,7 +37,7 @@ def load_adcirc_prob(
         data="data",
         true_vals="true_vals",
         measurements=None,
-        std_dev=std_dev,
+        std_dev=0.05,
         sample_dist="uniform",
         domain="domain",
         lam_ref="lam_ref",
@@ -45,7 +45,7 @@ def load_adcirc_prob(
         times="times",
     )
 
-    adcirc_prob.measurements_from_reference(std_dev=std_dev, seed=seed)
+    adcirc_prob.measurements_from_reference(std_dev=0.05, seed=seed)
 
     return data, adcirc_prob
 
@@ -252,7 +252,7 @@ def adcirc_time_window(  # noqa: C901
             _ = fig.suptitle(f"{title}", fontsize=20)
         if save_path is not None:
             save_figure(
-                f"qoi_{num_components}_{ndata}",
+                "qoi_{num_components}_{ndata}",
                 save_path,
                 close_fig=close_fig,
                 dpi=dpi,
diff --git a/src/mud/examples/examples.py b/src/mud/examples/examples.py
index bb95e6b..0a99ced 100644
--- a/src/mud/examples/examples.py
+++ b/src/mud/examples/examples.py
@@ -359,7 +359,7 @@ def high_dim_linear(
 @click.option(
     "-s",
     "--sigma",
-    default=0.05,
+    default=1e-1,
     show_default=True,
     help='N(0, sigma) error added to true solution surface to produce "measurements".',
 )
@@ -477,7 +477,7 @@ def poisson_solve(
 @click.option(
     "-s",
     "--sigma",
-    default=0.05,
+    default=1e-1,
     show_default=True,
     help='N(0, sigma) error added to true solution surface to produce "measurements".',
 )
@@ -733,7 +733,7 @@ def poisson_generate(
 @click.option(
     "-s",
     "--sigma",
-    default=0.05,
+    default=1e-1,
     show_default=True,
     help='N(0, sigma) error added to true time series to produce "measurements".',
 )
@@ -847,12 +847,6 @@ def adcirc_solve(
     plt.close("all")
 
 
-def _fetch(url, path):
-    """Download a file, which appears at path only once it is complete"""
-    part = path.with_name(path.name + ".part")
-    Path(download(url, out=str(part))).replace(path)
-
-
 @examples.command(short_help="Reproduce figures from mud paper.")
 @click.pass_context
 def mud_paper(ctx):
@@ -915,16 +909,16 @@ def mud_paper(ctx):
     p_ds_url = f"https://github.com/mindthemath/mud-data/raw/main/{p_fname}"
     if not p_path.exists():
         if not fin_flag:
-            _fetch(p_ds_url, p_path)
+            download(p_ds_url)
+            (Path.cwd() / p_fname).rename(p_path)
         else:
             res, p = run_fenics(
                 1000,
                 500,
-                save_path=str(data_path),
+                save_path=".",
                 seed=ctx.obj["seed"],
             )
             print(f"{p}")
-            Path(p).replace(p_path)
     plt.close("all")
 
     # Figs 7, 8
@@ -957,7 +951,8 @@ def mud_paper(ctx):
     a_path = data_path / a_fname
     a_ds_url = f"https://github.com/mindthemath/mud-data/raw/main/{a_fname}"
     if not (a_path).exists():
-        _fetch(a_ds_url, a_path)
+        download(a_ds_url)
+        Path(a_fname).rename(a_path)
 
     raw_data, adcirc_prob = load_adcirc_prob(a_path, std_dev=0.05, seed=21)
     t1 = ["2018-01-11 01:00:00", "2018-01-11 07:00:00"]
diff --git a/src/mud/examples/exp_decay.py b/src/mud/examples/exp_decay.py
index 2712bdc..9520a1d 100644
--- a/src/mud/examples/exp_decay.py
+++ b/src/mud/examples/exp_decay.py
@@ -64,7 +64,7 @@ def exp_decay_2D(
     exp_decay.data = u_t_lambda_2(
         exp_decay.times, exp_decay.lam[:, 0], exp_decay.lam[:, 1]
     )
-    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, *lambda_true)[0]
+    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, lambda_true)[0]
     exp_decay.std_dev = std_dev
 
     return exp_decay
diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index 1025ea0..0f59573 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -171,7 +171,7 @@ def rotation_map(qnum=10, tol=0.1, b=None, ref_param=None, seed=None):
 
     """
     if seed is not None:
-        np.random.seed(seed)
+        np.random.seed(24)
 
     vec = np.linspace(0, np.pi, qnum)
     A = np.array([[np.sin(theta), np.cos(theta)] for theta in vec])
@@ -245,7 +245,7 @@ def rotation_map_trials(
 
         # Initialize Iterative Linear Problem and solve using number of epochs
         prob = IterativeLinearProblem(
-            A, b=b, y=y, mu_i=initial_mean, cov=initial_cov, idx_order=choice
+            A, b=b, y=y, initial_mean=initial_mean, cov=initial_cov, idx_order=choice
         )
         _ = prob.solve(num_epochs=epochs)
 
diff --git a/src/mud/examples/poisson.py b/src/mud/examples/poisson.py
index dca1d0c..19a0b4b 100644
--- a/src/mud/examples/poisson.py
+++ b/src/mud/examples/poisson.py
@@ -57,7 +57,7 @@ def load_poisson_prob(
         data="data",
         true_vals="true_vals",
         measurements=None,
-        std_dev=std_dev,
+        std_dev=0.05,
         sample_dist="uniform",
         domain="domain",
         lam_ref=None,
@@ -65,7 +65,7 @@ def load_poisson_prob(
         times=np.array([0]),
     )
 
-    poisson_prob.measurements_from_reference(std_dev=std_dev, seed=seed)
+    poisson_prob.measurements_from_reference(std_dev=0.05, seed=seed)
 
     return data, poisson_prob
 
@@ -260,9 +260,6 @@ def run_2d_poisson_sol(
         inverse problem, along with the list of axes objects where desired
         plots were plotted on.
     """
-    if seed is not None:
-        random.seed(seed)
-
     res = minimize(spline_objective_function_2d, x0=[-3, -1])
     closest = res["x"]
 
@@ -283,7 +280,7 @@ def run_2d_poisson_sol(
     )
     _ = mud_prob.estimate()
 
-    plot_fig = [plot_fig] if isinstance(plot_fig, str) else plot_fig
+    plot_fig = [plot_fig] if not isinstance(plot_fig, list) else plot_fig
 
     axes = []
     if "response" in plot_fig or "all" in plot_fig:
-- 
2.43.0


From 71665c3fd4a61863f5457078eac56089b24b1f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 41/45] fix: contour lines of a linear map go through the
 reference point

---
 src/mud/base.py | 4 ++--
 src/mud/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 2734baa..1d73a89 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1311,8 +1311,8 @@ class LinearGaussianProblem(object):
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
-            xloc = [ref[0] - w * AA[i, 0], ref[1] + w * AA[i, 0]]
-            yloc = [ref[0] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
+            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
+            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
             ax.plot(xloc, yloc, **plot_opts)
 
             # If annotate is set, then label line with given annotations
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 69b6d3a..88a2d47 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -119,8 +119,8 @@ def plot_contours(
     numQoI = A.shape[0]
     AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
     for i, contour in enumerate(subset):
-        xloc = [ref_param[0] - w * AA[i, 0], ref_param[1] + w * AA[i, 0]]
-        yloc = [ref_param[0] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
+        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
+        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
         plt.plot(xloc, yloc, c=color, ls=ls, lw=lw, **kwds)
         plt.annotate("%d" % (contour + 1), (xloc[0], yloc[0]), fontsize=fs)
 
-- 
2.43.0


From e2c6c79efd83dde5d2e9f3b898520953b87f5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 42/45] fix: a failed measurements_from_reference leaves the
 problem as it was

---
 src/mud/base.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 1d73a89..2137d0a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1770,14 +1770,15 @@ class SpatioTemporalProblem(object):
             raise AttributeError(
                 "Must set reference solution and std_dev first or pass as arguments."
             )
-        if ref is not None:
-            self.true_vals = ref
-        if std_dev is not None:
-            self.std_dev = std_dev
-        self.measurements = np.reshape(
-            add_noise(self.true_vals.ravel(), self.std_dev, seed=seed),
-            self.true_vals.shape,
-        )
+        shape = (self.n_sensors * self.n_ts, 1)
+        true_vals = np.reshape(self.true_vals if ref is None else ref, shape)
+        std_dev = self.std_dev if std_dev is None else std_dev
+        measurements = add_noise(true_vals.ravel(), std_dev, seed=seed)
+
+        # Nothing is set unless all of it could be computed
+        self.measurements = measurements
+        self.true_vals = true_vals
+        self.std_dev = std_dev
 
     def load(
         self,
-- 
2.43.0


From a6358f17267a99b758b1d2cc569c437e2b9c59df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 43/45] fix: a rejected dataset leaves the problem as it was

---
 src/mud/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 2137d0a..8564596 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1835,8 +1835,15 @@ class SpatioTemporalProblem(object):
             "measurements": "measurements",
         }
         field_names.update(kwargs)
-        for f, v in field_names.items():
-            get_set_val(f, v)
+        before = dict(self.__dict__)
+        try:
+            for f, v in field_names.items():
+                get_set_val(f, v)
+        except Exception:
+            # An inconsistent dataset leaves the problem as it was
+            self.__dict__.clear()
+            self.__dict__.update(before)
+            raise
 
         return ds
 
-- 
2.43.0


From b24cf3cf542a947fcdc70be0b69dfc6867213bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 44/45] fix: noise added to a 2-D signal is one draw per
 measurement

---
 src/mud/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index 9254d65..fa64b94 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -223,7 +223,8 @@ def add_noise(signal: ArrayLike, sd: float = 0.05, seed: Optional[int] = None):
     # Populate qoi_true with noise
     noise = np.random.randn(signal.size) * sd
 
-    return signal + noise
+    # One draw per measurement, whatever the shape of the signal
+    return signal + (noise.reshape(signal.shape) if signal.ndim > 1 else noise)
 
 
 def rank_decomposition(A: np.typing.ArrayLike) -> List[np.ndarray]:
-- 
2.43.0


From cdb3ff7009d6dce24eda3a21ea79f69352dde26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:56 +0000
Subject: [PATCH 45/45] fix: a LaTeX writing damaged output no longer breaks
 the import

---
 src/mud/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/plot.py b/src/mud/plot.py
index 88a2d47..4554c70 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -34,7 +34,7 @@ def _check_latex():
             fig.savefig(BytesIO(), format="png", bbox_inches="tight")
         _logger.info("USING TEX")
         return True
-    except (RuntimeError, OSError):
+    except Exception:  # whatever a broken installation leads matplotlib to raise
         _logger.warning("NOT USING TEX")
         return False
 
-- 
2.43.0

