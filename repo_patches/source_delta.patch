From 8ba565e418cffb370cdcffe8b03144bbbe0d1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 01/59] fix: use n - 1 degrees of freedom for the t-scores of
 ConfidenceCriterion

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 1366d47..cbbc0f6 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -283,7 +283,7 @@ class ConfidenceCriterion(ConvergenceCriterion):
 		std_dev = est._cov.covariance() ** (1 / 2)
 		std_error = std_dev / np.sqrt(est.n_samples)
 		rel_error = abs(std_error / est.estimate)
-		score = self.t_scores[est.n_samples] if est.n_samples < 30 else self.z
+		score = self.t_scores[est.n_samples - 2] if est.n_samples < 30 else self.z  # t_scores[i] has i + 1 degrees of freedom
 		margin_of_error = score * std_error
 		return (margin_of_error, rel_error)
 
-- 
2.43.0


From 6059602b3c0fb91943da4e306ef9c7e082c2f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 02/59] fix: KneeCriterion averages the samples cumulatively

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index cbbc0f6..b23d514 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -310,7 +310,7 @@ class KneeCriterion(ConvergenceCriterion):
 
 		## Extract the differences between the sample means
 		mv = np.array(est.values).ravel()
-		cum_sample_mean = mv / np.arange(1, len(mv) + 1)
+		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)
 		mu_cum_diffs = np.cumsum(np.abs(np.diff(cum_sample_mean)))
 
 		## Normalize to [0, 1], calculate difference curve
-- 
2.43.0


From aee870f5a943d81cce6832ebe93b8a8efcf6534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 03/59] fix: ControlVariableEstimator supports single-sample
 updates and keeps delta and values up to date

---
 src/primate/estimators.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index b23d514..fa0f7dd 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -157,7 +157,7 @@ class ControlVariableEstimator(MeanEstimator):
 		self.cov = Covariance(dim=len(ecv) + 1)
 		self._estimate_cor = alpha is None
 		self.n_samples = 0
-		self.delta = np.inf
+		self.delta = np.atleast_1d(np.inf)
 
 	def __len__(self) -> int:
 		return self.n_samples
@@ -165,12 +165,19 @@ class ControlVariableEstimator(MeanEstimator):
 	@typing.no_type_check
 	def update(self, samples: ArrayLike):
 		samples: np.ndarray = np.atleast_1d(samples)
+		old_estimate = self.estimate if self.n_samples > 0 else 0.0
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
 		C = self.cov(ddof=1)
 		if self._estimate_cor:
-			C_01, C_11 = C[1:, 0], C[1:, 1:]
-			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+			if self.n_samples < 2:
+				self.alpha = np.zeros(len(self.ecv))  # no covariance to estimate the coefficients from yet
+			else:
+				C_01, C_11 = C[1:, 0], C[1:, 1:]
+				self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.lstsq(C_11, C_01)[0]
+		self.delta = np.atleast_1d(self.estimate - old_estimate)
+		if self.values is not None:
+			self.values.extend(samples)
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
-- 
2.43.0


From beb94e55fe48c16506bb9b9bd461f58ceeb60410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 04/59] fix: running means return a copy of their state

---
 src/primate/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 2216d0c..237bbed 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -13,12 +13,12 @@ class Mean:
 	def __call__(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def mean(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def update(self, X: Union[float, np.ndarray]) -> None:
 		"""Update sample mean estimates based on new observations.
-- 
2.43.0


From 545fc97b9af7fb12173602ccfa6395099ec8ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 05/59] fix: isotropic fills single precision output arrays
 with the rademacher distribution

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index 7ee99fa..0a80f1a 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -20,7 +20,7 @@ _ISO_DISTRIBUTIONS = {
 
 ## NOTE: It's 2-3x faster to use the four ufuncs below than sign
 def _rademacher_inplace(rng: np.random.Generator, out: np.ndarray) -> None:
-	rng.random(out=out)
+	rng.random(out=out, dtype=out.dtype)
 	# np.subtract(out, 0.5, out=out)
 	# np.sign(out, out=out)
 	np.multiply(out, 2, out=out)  # [0, 2]
-- 
2.43.0


From c55fa07a6eb3ade192e3b63334746dfaaf9cfa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 06/59] fix: symmetric clips prescribed eigenvalues when
 pd=True, as documented

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index 0a80f1a..6845540 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -174,7 +174,7 @@ def symmetric(
 	Q, R = np.linalg.qr(A)
 	if ew is None:
 		ew = rng.uniform(size=n, low=0.0 if pd else -1.0, high=1.0)
-	ew = np.atleast_1d(ew)
+	ew = np.maximum(np.atleast_1d(ew), 0.0) if pd else np.atleast_1d(ew)
 	A = Q @ np.diag(ew) @ Q.T
 	A = (A + A.T) / 2
 	return A
-- 
2.43.0


From 9ef7a0a920d29b0482d6fef23cf7442bc60dde8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 07/59] fix: param_callable accepts the softsign function it
 implements

---
 src/primate/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index bf5c0ff..cab78aa 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union
 import numpy as np
 
 ## Natively support matrix functions
-_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "numrank"]
+_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"]
 
 
 def softsign(x: Optional[np.ndarray] = None, q: int = 1) -> Union[Callable, np.ndarray]:
-- 
2.43.0


From b16c53342adcf7f62d55a031354c897ceb2ce7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 08/59] fix: is_linear_op returns False for objects without a
 two-dimensional shape

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index a9fb30b..b2eac20 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -29,7 +29,7 @@ def is_linear_op(A: Any) -> bool:
 	is_valid_op = True
 	is_valid_op &= any(attr_checks)  # , "Invalid operator; must have an overloaded 'matvec' or 'matmul' method"
 	is_valid_op &= hasattr(A, "shape") and len(A.shape) >= 2  # , "Operator must be at least two dimensional."
-	is_valid_op &= A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
+	is_valid_op = is_valid_op and A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
 	return is_valid_op
 
 
-- 
2.43.0


From 903587278f92f1230df08248159dd13a0ed48b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 09/59] fix: initialize the LinearOperator base class of
 MatrixFunction and Toeplitz

---
 src/primate/operators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index b2eac20..4400191 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -57,8 +57,7 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		self.shape = A.shape
-		self.dtype = np.dtype(dtype)
+		super().__init__(np.dtype(dtype), A.shape)
 
 		## Parmaeterize function
 		fun = fun if fun is not None else lambda x: x
@@ -171,8 +170,7 @@ class Toeplitz(LinearOperator):
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
 		self._dfft = np.real(np.fft.fft(self._d))
 		self._z = np.zeros(len(c) * 2)  # workspace
-		self.shape = (len(c), len(c))
-		self.dtype = dtype
+		super().__init__(np.dtype(dtype), (len(c), len(c)))
 
 	## NOTE: We return a copy because the output cannot be a view
 	def _matvec(self, x: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 35a3772c1dfc59d34f7e078d34876ffde174ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 10/59] fix: Toeplitz supports non-symmetric matrices

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 4400191..a4466b5 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -168,7 +168,7 @@ class Toeplitz(LinearOperator):
 		self.c = np.array(c)
 		self.r = np.array(c if r is None else r)
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
-		self._dfft = np.real(np.fft.fft(self._d))
+		self._dfft = np.fft.fft(self._d)
 		self._z = np.zeros(len(c) * 2)  # workspace
 		super().__init__(np.dtype(dtype), (len(c), len(c)))
 
-- 
2.43.0


From 4d40a2528ee98aa0aa60cdccb8004d0c0f9d1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 11/59] fix: MatrixFunction ignores stale and spurious Krylov
 data when the expansion ends early

---
 src/primate/lanczos.py   |  7 +++++++
 src/primate/operators.py | 14 +++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index d641026..f755f33 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -117,6 +117,13 @@ def lanczos(
 		return (a, b) if not return_basis else ((a, b), Q)
 
 
+def _krylov_dim(b: np.ndarray, n: int, rtol: float) -> int:
+	"""Number of Lanczos steps taken before the off-diagonals `b` indicate an invariant subspace was found."""
+	tol = b.dtype.type(np.sqrt(n) * b.dtype.type(rtol))
+	invariant = np.flatnonzero(b < tol)
+	return len(b) + 1 if len(invariant) == 0 else int(invariant[0]) + 1
+
+
 def rayleigh_ritz(
 	A, deg: Optional[int] = None, return_eigenvectors: bool = False, method: str = "RRR", **kwargs
 ) -> Union[np.ndarray, tuple]:
diff --git a/src/primate/operators.py b/src/primate/operators.py
index a4466b5..287f9f2 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -5,7 +5,7 @@ from scipy.sparse.linalg import LinearOperator, aslinearoperator, eigsh
 from scipy.sparse.linalg._interface import IdentityOperator
 
 from .integrate import quadrature
-from .lanczos import _lanczos
+from .lanczos import _krylov_dim, _lanczos
 from .special import param_callable
 from .tridiag import eigh_tridiag
 
@@ -118,9 +118,10 @@ class MatrixFunction(LinearOperator):
 		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
-		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
+		k = _krylov_dim(self._beta[1 : self._deg], self.shape[0], self._rtol)  # entries past an invariant subspace are not part of T
+		rw, Y = eigh_tridiag(self._alpha[:k], self._beta[1:k])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		return x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
@@ -144,9 +145,12 @@ class MatrixFunction(LinearOperator):
 		for j in range(x.shape[1]):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
+			self._Q.fill(0)  # vectors of previous calls must not take part in the re-orthogonalization
 			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
-			quadrature(self._alpha, self._beta, deg=self._deg, quad="gw", nodes=self._nodes, weights=self._weights)
-			y[j] = np.sum(self._fun(self._nodes) * self._weights, axis=-1) * x_norm_sq
+			k = _krylov_dim(self._beta[1 : self._deg], self.shape[0], self._rtol)
+			nodes, weights = self._nodes[:k], self._weights[:k]
+			quadrature(self._alpha[:k], self._beta[:k], deg=k, quad="gw", nodes=nodes, weights=weights)
+			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq
 		return y
 
 
-- 
2.43.0


From 92e408c3fcc1edd48166d01e8ff45b18981706ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 12/59] fix: lanczos computes in the requested dtype

---
 src/primate/lanczos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index f755f33..007f2e5 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -82,6 +82,7 @@ def lanczos(
 
 	## Get the dtype; infer it if it's not available
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
+	f_dtype = f_dtype if dtype is None else np.dtype(dtype)
 	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floating point numbers are supported."
 
 	## Determine number of projections + lanczos vectors
-- 
2.43.0


From 8db1e0582005ed77047e3bf3dbbc502eadb058d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 13/59] fix: rayleigh_ritz returns no spurious values when the
 expansion ends early

---
 src/primate/lanczos.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 007f2e5..e2ce690 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -163,6 +163,12 @@ def rayleigh_ritz(
 	else:
 		(a, b) = lanczos(A, deg=deg, return_basis=False, **kwargs)
 
+	## Restrict to the invariant subspace if one was found, as the remaining entries of T were not computed
+	k = _krylov_dim(b, n, kwargs.get("rtol", 1e-8))
+	a, b = a[:k], b[: k - 1]
+	if Q_basis:
+		Q = Q[:, :k]
+
 	## Return Rayleigh-Ritz values, Ritz vectors Y (if requested), and Lanczos basis Q (if requested)
 	if return_eigenvectors:
 		rw, Y = eigh_tridiag(a, b)
-- 
2.43.0


From ac44bd6f1541403edf193fad75b02776b189a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 14/59] fix: tqli uses the Wilkinson shift with the correct
 sign

---
 src/primate/tqli.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 7e5c736..9147d3b 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -3,8 +3,7 @@ import numpy as np
 
 # pythran export sign(float, float)
 def sign(a: float, b: float):
-	# return 1 if b > 0 else (-1 if a < 0 else 1)
-	return int(b > 1) - int(a < 0) + 1
+	return abs(a) if b >= 0.0 else -abs(a)
 
 
 ## Based on: https://github.com/rappoccio/PHY410/blob/f6a183eb48807841f6d35be45b4aa845d905a04c/cpt_python/cpt.py#L438
@@ -57,8 +56,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				ii += 1
 				g = (d[it + 1] - d[it]) / (2.0 * e[it])  # shift
 				r = np.hypot(g, 1.0)  # pythag
-				g = d[m] - d[it]
-				g += e[it] / (g + sign(r, g))  # dm - ks
+				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
 				s, c, p = 1.0, 1.0, 0.0
 				for i in range(m - 1, it - 1, -1):
-- 
2.43.0


From e7d07dd70971b5ffaf05232eb73438247471dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 15/59] fix: tqli discards a rotation sweep only after an
 underflow

---
 src/primate/tqli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 9147d3b..4db4d53 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -59,6 +59,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
 				s, c, p = 1.0, 1.0, 0.0
+				underflow = False
 				for i in range(m - 1, it - 1, -1):
 					## Plane rotation followed by Givens to restore tridiagonal
 					f, b = s * e[i], c * e[i]
@@ -67,6 +68,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 						# if abs(r) <= 2.2250738585072014e-128:
 						d[i + 1] -= p
 						e[m] = 0.0
+						underflow = True
 						break
 					s, c = (f / r, g / r)
 					g = d[i + 1] - p
@@ -79,7 +81,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 							f = Z[k][i + 1]
 							Z[k][i + 1] = s * Z[k][i] + c * f
 							Z[k][i] = c * Z[k][i] - s * f
-				if r == 0.0 and i >= it:
+				if underflow:
 					continue
 				d[it] -= p
 				e[it] = g
-- 
2.43.0


From 3736143ac554fa55c24f583df1f7055e46ce7f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 16/59] fix: fttr supports rules of degree one and all-zero
 nodes

---
 src/primate/fttr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 2f133a5..75ca52c 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -4,7 +4,8 @@ import numpy as np
 # pythran export ortho_poly(float, float, float[:], float[:], float[:], int)
 def ortho_poly(x: float, mu_sqrt_rec: float, a: np.ndarray, b: np.ndarray, z: np.ndarray, n: int):
 	z[0] = mu_sqrt_rec
-	z[1] = (x - a[0]) * z[0] / b[1]
+	if n > 1:
+		z[1] = (x - a[0]) * z[0] / b[1]
 	for i in range(2, n):
 		s = (x - a[i - 1]) / b[i]
 		t = -b[i - 1] / b[i]
@@ -21,6 +22,7 @@ def fttr(theta: np.ndarray, alpha: np.ndarray, beta: np.ndarray, k: int, weights
 	"""
 	n = len(alpha)
 	mu_0 = np.sum(np.abs(theta[:k]))
+	mu_0 = mu_0 if mu_0 > 0.0 else 1.0  # any positive scale cancels out
 	mu_sqrt_rec = 1.0 / np.sqrt(mu_0)
 	p = np.zeros(n)
 	for i in range(k):
-- 
2.43.0


From 1d77c519ac5e68a45e66142ebe16c944b0ebd659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 17/59] fix: the fttr quadrature uses the leading block of the
 requested degree

---
 src/primate/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index 3609ac2..d562ba1 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,9 +64,9 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d, e, **kwargs)
+		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d, e, deg, tau)
+		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From eb5ac049bfc14d1ba3e4b6c153b0db4efb11a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 18/59] fix: quadrature fills the nodes or weights array also
 when only one is given

---
 src/primate/integrate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index d562ba1..180f565 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -69,8 +69,8 @@ def quadrature(
 		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
-	if nodes is not None and weights is not None:
-		assert len(nodes) == deg and len(weights) == deg, "`nodes` and `weights` output arrays must be `deg` in length."
-		np.copyto(nodes, theta)
-		np.copyto(weights, tau)
+	for out, values in ((nodes, theta), (weights, tau)):
+		if out is not None:
+			assert len(out) == deg, "`nodes` and `weights` output arrays must be `deg` in length."
+			np.copyto(out, values)
 	return theta, tau
-- 
2.43.0


From 979ef8ea2bcdf16209e5099804d5636eb7e66b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 19/59] fix: xtrace applies the sphere normalisation

---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 373f10e..13511b9 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -285,7 +285,7 @@ def xtrace(
 	## Commence the batch-iterations
 	result = EstimatorResult()
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
+	sampler = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	while not converge(estimator):
 		## Determine number of new sample vectors to generate
 		ns = min(A.shape[1] - W.shape[1], int(batch))
@@ -293,7 +293,7 @@ def xtrace(
 		## Sample a batch of random isotropic vectors
 		## TODO: replace with proper batch updates
 		## TODO: https://stackoverflow.com/questions/6042308/numpy-inverting-an-upper-triangular-matrix
-		N = pdf(size=(n, ns))  # 'new' vectors
+		N = sampler(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
 			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
-- 
2.43.0


From c3c858dce809017931e3ba6de6ad4cffbf424f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 20/59] fix: xtrace tracks the variance the confidence rule
 needs

---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 13511b9..537ff92 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -265,7 +265,7 @@ def xtrace(
 	n = A.shape[0]
 	callback = (lambda result: ...) if not callable(callback) else callback
 	record = kwargs.pop("record", False)
-	estimator = MeanEstimator(record=record)
+	estimator = MeanEstimator(covariance=True, record=record)
 
 	## Parameterize the convergence criteria
 	if converge == "default":
@@ -305,7 +305,7 @@ def xtrace(
 		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
 
 		## Test for convergence
-		estimator = MeanEstimator(record=record)  # degenerate approach since XTrace tracks this
+		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
 		callback(result)
 
-- 
2.43.0


From 0d213cff68eb0b704a60d738dea2295aaab4ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 21/59] fix: xtrace hands its current state to callbacks

---
 src/primate/trace.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 537ff92..c03e076 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -283,7 +283,7 @@ def xtrace(
 	R_inv = np.zeros(shape=(0, 0))
 
 	## Commence the batch-iterations
-	result = EstimatorResult()
+	result = EstimatorResult(estimator, converge)
 	rng = np.random.default_rng(seed)
 	sampler = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	while not converge(estimator):
@@ -307,9 +307,8 @@ def xtrace(
 		## Test for convergence
 		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
+		result.estimator, result.estimate, result.nit = estimator, estimator.estimate, len(estimator)
 		callback(result)
 
-	result.estimator = estimator
-	result.estimate = estimator.estimate
-	result.criterion = converge
+	result.message = converge.message(estimator)
 	return (result.estimate, result) if full else result.estimate
-- 
2.43.0


From 3922e9d660e45332c3d0d6aeda91871aefe0e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 22/59] fix: xtrace tracks the change of its estimate between
 batches

---
 src/primate/trace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index c03e076..30f00ca 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -305,8 +305,10 @@ def xtrace(
 		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
 
 		## Test for convergence
+		old_estimate = estimator.estimate if len(estimator) > 0 else 0.0
 		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
+		estimator.delta = np.atleast_1d(estimator.estimate - old_estimate)
 		result.estimator, result.estimate, result.nit = estimator, estimator.estimate, len(estimator)
 		callback(result)
 
-- 
2.43.0


From dc3f3456692cc1fd4e66a36cd110f6366e283313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 23/59] fix: hutch hands its current estimate and sample count
 to callbacks

---
 src/primate/trace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 30f00ca..a5a21b4 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -107,6 +107,7 @@ def hutch(
 		while not converge(estimator):
 			v = pdf(size=(N, batch)).astype(f_dtype)
 			estimator.update(quad_form(v))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			callback(result)
 		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
-- 
2.43.0


From 2a12d9881a441895316fa9cd78bd78f5235548cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 24/59] fix: diag hands its current estimate and sample count
 to callbacks

---
 src/primate/diagonal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 0c7f167..0bf0012 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -77,9 +77,10 @@ def diag(
 			numer += u * v.ravel()
 			denom += np.square(v.ravel())
 			estimator.update(np.atleast_2d(numer / denom))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			if callback is not None:
 				callback(result)
-		result.estimate = estimator.estimate
+		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
 	else:
 		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)
-- 
2.43.0


From e0a5f5b2826b1646ef39d4491624cb83322ba784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 25/59] fix: diag accepts a sampler, as documented

---
 src/primate/diagonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 0bf0012..eacf756 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -58,7 +58,7 @@ def diag(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	estimator = MeanEstimator(dim=N, covariance=False, record=record)
 	converge = convergence_criterion(converge, **kwargs)
 
-- 
2.43.0


From 7e1edc7e5c339e897fc3772b0d132abe67c56d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 26/59] fix: hutchpp accepts a sampler, as documented

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index a5a21b4..a1e6ee1 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -138,7 +138,7 @@ def hutchpp(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 
 	## Prepare quadratic form evaluator
 	# quad_form = (lambda v: A.quad(v)) if hasattr(A, "quad") else (lambda v: (v.T @ (A @ v)).item())
-- 
2.43.0


From b50e7a1b06c5896d075e39c2c9e96d59781af667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 27/59] fix: hutchpp handles small dimensions and budgets and
 rounds the budget up

---
 src/primate/trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index a1e6ee1..24e9b62 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -150,7 +150,8 @@ def hutchpp(
 
 	## Setup constants
 	nb = (N // 3) if m is None else m  # number of samples to dedicate to deflation
-	nb += nb % 3  # ensure nb divides by 3
+	nb = max(nb, 1)
+	nb = min(nb + (-nb) % 3, N)  # ensure nb divides by 3, unless the dimension is reached
 	# maxiter: int = (N // 3) if maxiter == "auto" else int(maxiter)  # residual samples; default rule uses Hutch++ result
 	# assert nb % 3 == 0, "Number of samples must be divisible by 3"
 
-- 
2.43.0


From d23853825bdae14c7c603d60ee243b4415bc67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 28/59] fix: hutchpp returns detailed results for
 quadratic-form operators

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 24e9b62..8ef2898 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -165,7 +165,7 @@ def hutchpp(
 	## https://stackoverflow.com/questions/18541851/calculate-vt-a-v-for-a-matrix-of-vectors-v
 	# np.einsum("...i,...i->...", V.T, A.dot(V).T)
 	# np.einsum("...i,...i->...", v.T, (A @ v).T) # should one works even for n x 1
-	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T])
+	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.ravel([quad_form(q) for q in Q.T])
 	tr_rng = np.sum(rng_ests)
 
 	## Estimate trace of the residual on the deflated subspaces
-- 
2.43.0


From 4061364297730b69076bceb691449286ed492324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 29/59] fix: figure_error plots the true absolute and relative
 errors

---
 src/primate/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index ce0578a..12e32d8 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -147,7 +147,8 @@ def figure_error(
 
 	if mu is not None:
 		cum_abs_error = np.abs(mu - sample_avgs)
-		cum_rel_error = np.abs(mu - sample_avgs / mu)
+		cum_rel_error = cum_abs_error / np.abs(mu)
+		cum_error = cum_abs_error if absolute else cum_rel_error
 	else:
 		est = MeanEstimator(covariance=True)
 		cc = ConfidenceCriterion(confidence=0.95)
-- 
2.43.0


From 11825e53552eb61d1a338b043f562244857ac0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 30/59] fix: figure_sequence plots the valid samples only

---
 src/primate/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index 12e32d8..1855b80 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -77,7 +77,7 @@ def figure_sequence(estimator: Union[Estimator, Sequence], mu: Optional[float] =
 	fig_kwargs = dict(width=400, height=300, title=fig_title)
 	p = figure(**(fig_kwargs | kwargs))
 	p.toolbar_location = None
-	p.scatter(sample_index, sample_vals, size=4.0, color="gray", legend_label="samples")
+	p.scatter(sample_index, sample_vals[valid_samples], size=4.0, color="gray", legend_label="samples")
 	p.title.align = "center"
 	p.legend.location = "top_left"
 	p.yaxis.axis_label = "Estimates"
-- 
2.43.0


From 4c358c870a8d3b54b1468647fc53520a5dfb3a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 31/59] fix: reject matrix-free products of the wrong length

---
 src/primate/include/pylinop.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index 6f3d39f..02e4723 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -34,7 +34,9 @@ struct PyLinearOperator {
     py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);
     py::object matvec_out = _op.attr("matvec")(input);
     py::array_t< F > output = matvec_out.cast< py::array_t< F > >();
-    // std::copy(output.data(), output.data() + output.size(), out);
+    if (static_cast< size_t >(output.size()) != _shape.first) {
+      throw std::invalid_argument("The product returned by 'matvec' has the wrong length.");
+    }
 		std::copy(output.data(), output.data() + _shape.first, out);
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
   }
-- 
2.43.0


From fd8c011540580db26e164091b4fd39dcce66bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 32/59] fix: matrix-free products need not be contiguous

---
 src/primate/include/pylinop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index 02e4723..b68e39d 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -33,7 +33,7 @@ struct PyLinearOperator {
     auto ts = hr_clock::now(); 
     py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);
     py::object matvec_out = _op.attr("matvec")(input);
-    py::array_t< F > output = matvec_out.cast< py::array_t< F > >();
+    py_array< F > output = matvec_out.cast< py_array< F > >(); // ensures contiguity
     if (static_cast< size_t >(output.size()) != _shape.first) {
       throw std::invalid_argument("The product returned by 'matvec' has the wrong length.");
     }
-- 
2.43.0


From 86b749013ba99f247dcfe4301c3b9ab5d3d3349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 33/59] fix: xtrace supports single-precision operators

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 8ef2898..c7424bc 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -296,7 +296,7 @@ def xtrace(
 		## TODO: replace with proper batch updates
 		## TODO: https://stackoverflow.com/questions/6042308/numpy-inverting-an-upper-triangular-matrix
 		N = sampler(size=(n, ns))  # 'new' vectors
-		Y = A @ N
+		Y = np.asarray(A @ N, dtype=W.dtype)
 		for j in range(ns):
 			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
 			R_inv = update_trinv(R_inv, R[:, -1])
-- 
2.43.0


From 14e6aa0eb6b898694304efd6e16d0d816923d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 34/59] fix: recorded samples do not alias the caller's array

---
 src/primate/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index fa0f7dd..4776087 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -138,7 +138,7 @@ class MeanEstimator(Estimator):
 			self.delta = self._mean.mu - old_mu
 		self.n_samples += x.shape[0]
 		if self.values is not None:
-			self.values.extend(x)
+			self.values.extend(x.copy())
 
 	@property
 	def estimate(self) -> Union[float, np.ndarray]:
@@ -177,7 +177,7 @@ class ControlVariableEstimator(MeanEstimator):
 				self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.lstsq(C_11, C_01)[0]
 		self.delta = np.atleast_1d(self.estimate - old_estimate)
 		if self.values is not None:
-			self.values.extend(samples)
+			self.values.extend(samples.copy())
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
-- 
2.43.0


From d8665ea08c4a937a5021a861971d7dd555df7c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 35/59] fix: ControlVariableEstimator supports a constant
 control variable

---
 src/primate/estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 4776087..894d8f4 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -174,7 +174,8 @@ class ControlVariableEstimator(MeanEstimator):
 				self.alpha = np.zeros(len(self.ecv))  # no covariance to estimate the coefficients from yet
 			else:
 				C_01, C_11 = C[1:, 0], C[1:, 1:]
-				self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.lstsq(C_11, C_01)[0]
+				self.alpha = np.linalg.lstsq(C_11, C_01)[0]  # also defined if control variables are constant or dependent
+				self.alpha = self.alpha.item() if self.cov.dim == 2 else self.alpha
 		self.delta = np.atleast_1d(self.estimate - old_estimate)
 		if self.values is not None:
 			self.values.extend(samples.copy())
-- 
2.43.0


From 3587f44305bb1d5c6921bac01ec1e68ee8c3315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 36/59] fix: isotropic treats NumPy integers as one column

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index 6845540..3f0347f 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -72,7 +72,7 @@ def isotropic(
 		iso = _ISO_FUNCS[pdf]
 
 		def _isotropic(size: Union[int, tuple]):
-			size = (size, 1) if isinstance(size, int) else size
+			size = (size, 1) if isinstance(size, Integral) else size
 			W = np.empty(shape=size, dtype=np.float64, order="F")
 			iso(rng, out=W)
 			return W
-- 
2.43.0


From 2e80c5e855694ffe8ca1df9b9c43651e487d4110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 37/59] fix: xtrace honours the given convergence criterion

---
 src/primate/trace.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index c7424bc..c7bd24f 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -273,8 +273,7 @@ def xtrace(
 	if converge == "default":
 		converge = CountCriterion(count=n)
 	else:
-		converge = CountCriterion(count=n)
-		converge |= convergence_criterion(converge, **kwargs)
+		converge = CountCriterion(count=n) | convergence_criterion(converge, **kwargs)
 	assert isinstance(converge, ConvergenceCriterion)
 
 	## Setup outputs. TODO: these should really be resizable arrays
-- 
2.43.0


From 4b1283b730d5993893135ebd1d6384d6397247a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 38/59] fix: xtrace supports operators of size one

---
 src/primate/trace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index c7bd24f..59fc1f9 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -297,7 +297,10 @@ def xtrace(
 		N = sampler(size=(n, ns))  # 'new' vectors
 		Y = np.asarray(A @ N, dtype=W.dtype)
 		for j in range(ns):
-			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
+			if Q.shape[1] == 0:
+				Q, R = np.linalg.qr(Y[:, [j]], mode="reduced")  # qr_insert cannot extend an empty factorization if n = 1
+			else:
+				Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
 			R_inv = update_trinv(R_inv, R[:, -1])
 		W = np.c_[W, N]
 		Z = np.c_[Z, A @ Q[:, -ns:]]
-- 
2.43.0


From 73b52de0734965deda64f640e55706747e680f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 39/59] fix: the sparse Gram operator multiplies blocks by the
 Gram matrix and has its shape

---
 src/primate/include/eigen_operators.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/primate/include/eigen_operators.h b/src/primate/include/eigen_operators.h
index a037bf7..be15a97 100644
--- a/src/primate/include/eigen_operators.h
+++ b/src/primate/include/eigen_operators.h
@@ -93,13 +93,18 @@ struct SparseEigenLinearOperator {
   void matmat(const F* X, F* Y, const size_t k) const noexcept {
     auto ts = hr_clock::now();
     Eigen::Map< const DenseMatrix< F > > XM(X, A.cols(), k);
-    Eigen::Map< DenseMatrix< F > > YM(Y, A.rows(), k);
-    YM = A * XM;
+    if constexpr(gram){
+      Eigen::Map< DenseMatrix< F > > YM(Y, A.cols(), k);
+      YM = A.adjoint() * (A * XM);
+    } else {
+      Eigen::Map< DenseMatrix< F > > YM(Y, A.rows(), k);
+      YM = A * XM;
+    }
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
   }
 
   auto shape() const noexcept -> std::pair< size_t, size_t > {
-    return std::make_pair((size_t) A.rows(), (size_t) A.cols());
+    return std::make_pair((size_t) (gram ? A.cols() : A.rows()), (size_t) A.cols());
   }
 };
 
-- 
2.43.0


From 8ccd3d5a21eb51fb1886286da7553ee944bcbe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 40/59] fix: matrix functions map the zero vector to zero also
 if the function is singular at zero

---
 src/primate/operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 287f9f2..85f1372 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -115,6 +115,8 @@ class MatrixFunction(LinearOperator):
 		self._Q[:, -self._deg :].fill(0)  # this is necessary to prevent NaN's during re-orthogonalization
 		x = x.astype(self.dtype).reshape(-1)
 		x_norm = np.linalg.norm(x)
+		if x_norm == 0:
+			return np.zeros((self.shape[0], 1), dtype=self.dtype)
 		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
@@ -145,6 +147,8 @@ class MatrixFunction(LinearOperator):
 		for j in range(x.shape[1]):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
+			if x_norm_sq == 0:
+				continue  # the function need not be defined at zero
 			self._Q.fill(0)  # vectors of previous calls must not take part in the re-orthogonalization
 			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 			k = _krylov_dim(self._beta[1 : self._deg], self.shape[0], self._rtol)
-- 
2.43.0


From b4ef72cd5dfee184ab941d6cb7795b90a21ed2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 41/59] fix: products of matrix functions with blocks have the
 shape of a block

---
 src/primate/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 85f1372..0b034bf 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -125,6 +125,9 @@ class MatrixFunction(LinearOperator):
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
 		return x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
 
+	def _matmat(self, X: np.ndarray):
+		return np.column_stack([self._matvec(X[:, j]) for j in range(X.shape[1])])
+
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
 
-- 
2.43.0


From 531eb4e4e24dc570e616b322cf66ad56aa279c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 42/59] fix: matrix functions reject vectors of the wrong
 length instead of reading past them

---
 src/primate/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 0b034bf..7efcda4 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -114,6 +114,7 @@ class MatrixFunction(LinearOperator):
 		# self.Q.fill(0)  # this is necessary to prevent orthogonalization
 		self._Q[:, -self._deg :].fill(0)  # this is necessary to prevent NaN's during re-orthogonalization
 		x = x.astype(self.dtype).reshape(-1)
+		assert len(x) == self.shape[1], "Invalid vector; must match the number of columns of A."
 		x_norm = np.linalg.norm(x)
 		if x_norm == 0:
 			return np.zeros((self.shape[0], 1), dtype=self.dtype)
@@ -145,6 +146,7 @@ class MatrixFunction(LinearOperator):
 		x = x.astype(self.dtype)
 		x = np.atleast_2d(x).T if x.ndim == 1 else x
 		x = np.array(x, order="F", copy=None)
+		assert x.shape[0] == self.shape[1], "Invalid vectors; must match the number of columns of A."
 		x_norm_sq = np.square(np.linalg.norm(x, axis=0))
 		y = np.zeros(x.shape[1])
 		for j in range(x.shape[1]):
-- 
2.43.0


From d03bb2a424d9c49e4ad12e410e7cd26b86c37019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 43/59] fix: normalize_unit supports operators of size one

---
 src/primate/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 7efcda4..a6684d8 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -198,7 +198,10 @@ def normalize_unit(A: LinearOperator, interval: tuple = (-1, 1)) -> LinearOperat
 	"""Normalizes a linear operator to have its spectra contained in the interval [-1,1]."""
 	A = aslinearoperator(A) if not isinstance(A, LinearOperator) else A
 	assert isinstance(A, LinearOperator), "A must be a linear operator"
-	alpha = eigsh(A, k=1, which="LM", return_eigenvectors=False).item()
+	if A.shape[0] == 1:
+		alpha = A.matvec(np.ones(1)).item()  # eigsh requires k < n
+	else:
+		alpha = eigsh(A, k=1, which="LM", return_eigenvectors=False).item()
 	I_op = IdentityOperator(A.shape)
 	# np.diff(interval)
 	return (A + alpha * I_op) / (2 * alpha)
-- 
2.43.0


From a184a8d41658c3b4c591e49d14bb5ac2bc8d460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 44/59] fix: lanczos rejects rectangular operators instead of
 writing past its buffers

---
 src/primate/lanczos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index e2ce690..48dce81 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -76,6 +76,7 @@ def lanczos(
 	"""
 	## Basic parameter validation
 	n: int = A.shape[0]
+	assert A.shape[1] == n, "Operator must be square."
 	deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])
 	dt = dtype if dtype is not None else (A @ np.zeros(A.shape[1])).dtype
 	assert deg > 0, "Number of steps must be positive!"
-- 
2.43.0


From 8990de7804e5941c668b95849c5eaf0e8e24d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 45/59] fix: an empty batch turned running means and
 covariances into NaN

---
 src/primate/stats.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 237bbed..f3abab6 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -30,6 +30,9 @@ class Mean:
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
 
+		if X.shape[0] == 0:
+			return
+
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
 		delta_mean = batch_mean - self.mu
@@ -73,6 +76,9 @@ class Covariance(Mean):
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
 
+		if X.shape[0] == 0:
+			return
+
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
 		delta_mean = batch_mean - self.mu
-- 
2.43.0


From 43aceb43002cbfa5203fbb86b36f425321969d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 46/59] fix: lanczos reorthogonalized against one vector less
 when no basis is requested

---
 src/primate/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 48dce81..f09c209 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -88,7 +88,7 @@ def lanczos(
 
 	## Determine number of projections + lanczos vectors
 	orth: int = deg if orth < 0 or orth > deg else orth
-	ncv: int = np.clip(orth, 2, deg) if not (return_basis) else deg
+	ncv: int = np.clip(orth + 1, 2, deg) if not (return_basis) else deg
 	# _validate_lanczos(n, ncv, deg, orth)
 
 	## Generate the starting vector if none is specified
-- 
2.43.0


From b7031221c4a2df1769fdaa1384fc68bd8703c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 47/59] fix: normalize_unit picks the extreme eigenvalue when
 both ends nearly tie

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index a6684d8..53cf20e 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -201,7 +201,7 @@ def normalize_unit(A: LinearOperator, interval: tuple = (-1, 1)) -> LinearOperat
 	if A.shape[0] == 1:
 		alpha = A.matvec(np.ones(1)).item()  # eigsh requires k < n
 	else:
-		alpha = eigsh(A, k=1, which="LM", return_eigenvectors=False).item()
+		alpha = max(eigsh(A, k=min(2, A.shape[0] - 1), which="LM", return_eigenvectors=False), key=abs).item()
 	I_op = IdentityOperator(A.shape)
 	# np.diff(interval)
 	return (A + alpha * I_op) / (2 * alpha)
-- 
2.43.0


From 3a5c51b146eccd7f4c5e68f528452d38a4cf39ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 48/59] fix: fttr weights vanished or became NaN for nodes of
 extreme scale

---
 src/primate/fttr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 75ca52c..6b4c98e 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -21,8 +21,7 @@ def fttr(theta: np.ndarray, alpha: np.ndarray, beta: np.ndarray, k: int, weights
 	This functions computes the weights of the Gaussian quadrature of nodes `theta` w.r.t a basis of orthogonal polynomials.
 	"""
 	n = len(alpha)
-	mu_0 = np.sum(np.abs(theta[:k]))
-	mu_0 = mu_0 if mu_0 > 0.0 else 1.0  # any positive scale cancels out
+	mu_0 = 1.0  # any positive scale cancels out
 	mu_sqrt_rec = 1.0 / np.sqrt(mu_0)
 	p = np.zeros(n)
 	for i in range(k):
-- 
2.43.0


From 5fca2f5a60173299c2f6fa6797d38add3c5418d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 49/59] fix: redraw zero vectors before normalizing them to the
 sphere

---
 src/primate/random.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primate/random.py b/src/primate/random.py
index 3f0347f..29c670d 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -36,6 +36,10 @@ def _normal_inplace(rng: np.random.Generator, out: np.ndarray) -> None:
 def _sphere_inplace(rng: np.random.Generator, out: np.ndarray) -> None:
 	rng.standard_normal(out=out, dtype=out.dtype)
 	c = np.sqrt(np.sum(out**2, axis=0, keepdims=True))  # or np.sqrt(np.einsum('ij,ij -> j', Y, Y))
+	while out.size > 0 and np.any(c == 0):  # e.g. single precision draws can be exactly zero; redraw those columns
+		zero = np.broadcast_to(c == 0, out.shape)
+		out[zero] = rng.standard_normal(np.count_nonzero(zero), dtype=out.dtype)
+		c = np.sqrt(np.sum(out**2, axis=0, keepdims=True))
 	n = np.sqrt(out.shape[0])
 	np.divide(out, c, out=out)
 	np.multiply(out, n, out=out)
-- 
2.43.0


From fa1d9416378c6375e6ce45eb1882ccd2a1397244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 50/59] fix: inverse of integer arguments is not rounded to
 zero

---
 src/primate/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index cab78aa..8bee9e5 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -89,7 +89,7 @@ def param_callable(fun: Union[str, None], **kwargs) -> Callable:
 	elif fun == "log":
 		return lambda x: np.log(np.maximum(x, np.finfo(np.float64).eps))
 	elif fun == "inv":
-		return np.reciprocal
+		return lambda x: np.true_divide(1.0, x)  # np.reciprocal rounds integers to zero
 	elif fun == "exp":
 		t = kwargs.pop("t", 1.0)  # type: ignore
 		return exp(t=t)
-- 
2.43.0


From 5989a54b368611eae975aa68ce47f795ee63fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 51/59] fix: inverse update keeps the precision of its inputs
 and does not round integers

---
 src/primate/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primate/linalg.py b/src/primate/linalg.py
index 513ccf0..fef13b2 100644
--- a/src/primate/linalg.py
+++ b/src/primate/linalg.py
@@ -17,8 +17,9 @@ def update_trinv(B_inv: np.ndarray, b: np.ndarray):
 	b = np.atleast_2d(b).reshape((n + 1, 1))
 	assert B_inv.dtype == b.dtype, "dtypes of `B_inv` and `b` did not match."
 
-	B_ast = np.zeros(shape=(n + 1, n + 1))
+	recip = np.true_divide(1.0, b[-1])  # np.reciprocal rounds integers to zero
+	B_ast = np.zeros(shape=(n + 1, n + 1), dtype=recip.dtype)  # the next update needs the dtype of its column
 	B_ast[:n, :n] = B_inv
-	B_ast[n, n] = np.reciprocal(b[-1]).item()
+	B_ast[n, n] = recip.item()
 	B_ast[:n, [-1]] = B_ast[n, n] * ((-B_inv) @ b[:-1])
 	return B_ast
-- 
2.43.0


From 6b6129ad194ddbb14ed1abfa54b190e5f6334b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 52/59] fix: tridiagonal solvers by tqli accept single
 precision and integer arrays

---
 src/primate/tridiag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/tridiag.py b/src/primate/tridiag.py
index 0430f9c..936b847 100644
--- a/src/primate/tridiag.py
+++ b/src/primate/tridiag.py
@@ -10,6 +10,7 @@ def _eigh_tridiag(d: np.ndarray, e: np.ndarray, Z: np.ndarray, method: str = "au
 		eigh_solver = eigvalsh_tridiagonal if np.prod(Z.shape) == 0 else eigh_tridiagonal
 		return eigh_solver(d, e[1:])
 	elif method == "tqli":
+		d, e, Z = d.astype(np.float64), e.astype(np.float64), Z.astype(np.float64)  # tqli is compiled for double precision only
 		tqli(d, e, Z, maxiter)
 		return d if np.prod(Z.shape) == 0 else (d, Z)
 	else:
-- 
2.43.0


From 4cf5e1fdd63ed18d6e88c617d687f654dd5d4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 53/59] fix: fttr quadrature accepts single precision, integer
 and strided arrays

---
 src/primate/integrate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index 180f565..fdbdaa6 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,9 +64,10 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
+		a, b = (np.ascontiguousarray(x[:deg], dtype=np.float64) for x in (d, e))  # fttr is compiled for these only
+		theta = eigvalsh_tridiag(a, b, **kwargs)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d[:deg], e[:deg], deg, tau)
+		fttr(theta, a, b, deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	for out, values in ((nodes, theta), (weights, tau)):
-- 
2.43.0


From 5c67a57abd21c0db50ff4e6cce82d0490b21021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:46 +0000
Subject: [PATCH 54/59] fix: Lanczos and matrix functions accept vectors and
 operators whose squared norm is out of range

---
 src/primate/include/lanczos.h | 4 ++--
 src/primate/operators.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/primate/include/lanczos.h b/src/primate/include/lanczos.h
index 13c2d3a..17eb282 100644
--- a/src/primate/include/lanczos.h
+++ b/src/primate/include/lanczos.h
@@ -117,7 +117,7 @@ void lanczos_recurrence(
   // Setup for first iteration
   std::array< int, 3 > pos = { int(ncv) - 1, 0, 1 };          // Indices for the recurrence
   Q.col(pos[0]) = static_cast< VectorF >(VectorF::Zero(n));   // Ensure previous is 0
-  Q.col(0) = v.normalized();                                  // Load unit-norm v as q0
+  Q.col(0) = v.stableNormalized();                            // Load unit-norm v as q0
   beta[0] = 0.0;                                              // Ensure beta_0 is 0
 
   for (int j = 0; j < deg; ++j) {
@@ -136,7 +136,7 @@ void lanczos_recurrence(
     }
 
     // Early-stop criterion is when K_j(A, v) is near invariant subspace.
-    beta[j+1] = v.norm();
+    beta[j+1] = v.stableNorm();
     if (beta[j+1] < residual_tol || (j+1) == deg) { // additional break prevents overriding qn
       break;
     }
diff --git a/src/primate/operators.py b/src/primate/operators.py
index 53cf20e..574e8e3 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -1,6 +1,7 @@
 from typing import Any, Callable, Optional, Union
 
 import numpy as np
+from scipy.linalg import norm
 from scipy.sparse.linalg import LinearOperator, aslinearoperator, eigsh
 from scipy.sparse.linalg._interface import IdentityOperator
 
@@ -115,7 +116,7 @@ class MatrixFunction(LinearOperator):
 		self._Q[:, -self._deg :].fill(0)  # this is necessary to prevent NaN's during re-orthogonalization
 		x = x.astype(self.dtype).reshape(-1)
 		assert len(x) == self.shape[1], "Invalid vector; must match the number of columns of A."
-		x_norm = np.linalg.norm(x)
+		x_norm = norm(x)  # does not overflow or underflow
 		if x_norm == 0:
 			return np.zeros((self.shape[0], 1), dtype=self.dtype)
 		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
@@ -147,11 +148,10 @@ class MatrixFunction(LinearOperator):
 		x = np.atleast_2d(x).T if x.ndim == 1 else x
 		x = np.array(x, order="F", copy=None)
 		assert x.shape[0] == self.shape[1], "Invalid vectors; must match the number of columns of A."
-		x_norm_sq = np.square(np.linalg.norm(x, axis=0))
 		y = np.zeros(x.shape[1])
 		for j in range(x.shape[1]):
 			xc = x[:, j]
-			x_norm_sq = np.linalg.norm(xc) ** 2
+			x_norm_sq = np.square(np.float64(norm(xc)))  # the form may be out of the range of single precision
 			if x_norm_sq == 0:
 				continue  # the function need not be defined at zero
 			self._Q.fill(0)  # vectors of previous calls must not take part in the re-orthogonalization
-- 
2.43.0


From 884feb11fa1f80efa658f4ebefe716d015b59aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 55/59] fix: Lanczos workspaces that cannot be written in place
 are rejected instead of yielding zeros

---
 src/primate/lanczos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index f09c209..37c30fe 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -103,9 +103,10 @@ def lanczos(
 	alpha = kwargs.get("alpha", np.zeros(deg + 1, dtype=f_dtype))
 	beta = kwargs.get("beta", np.zeros(deg + 1, dtype=f_dtype))
 	Q = kwargs.get("Q", np.zeros((n, ncv), dtype=f_dtype, order="F"))
-	assert isinstance(alpha, np.ndarray) and len(alpha) == deg + 1 and alpha.dtype == f_dtype and alpha.flags["WRITEABLE"]
-	assert isinstance(beta, np.ndarray) and len(beta) == deg + 1 and beta.dtype == f_dtype and beta.flags["WRITEABLE"]
+	assert isinstance(alpha, np.ndarray) and alpha.shape == (deg + 1,) and alpha.dtype == f_dtype and alpha.flags["WRITEABLE"]
+	assert isinstance(beta, np.ndarray) and beta.shape == (deg + 1,) and beta.dtype == f_dtype and beta.flags["WRITEABLE"]
 	assert Q.ndim == 2 and Q.shape == (n, ncv) and Q.flags["F_CONTIGUOUS"] and Q.flags["WRITEABLE"] and Q.flags["OWNDATA"]
+	assert alpha.flags["C_CONTIGUOUS"] and beta.flags["C_CONTIGUOUS"] and Q.dtype == f_dtype  # else only copies are written to
 
 	## Call the procedure
 	_lanczos.lanczos(A, v0, deg, rtol, orth, alpha, beta, Q)
-- 
2.43.0


From d2ba3440e02d00dcd67ce92c3821fda5ff7b4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:10 +0000
Subject: [PATCH 56/59] fix: Lanczos workspaces given by the caller are cleared
 before use

---
 src/primate/lanczos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 37c30fe..ce6d73c 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -107,6 +107,8 @@ def lanczos(
 	assert isinstance(beta, np.ndarray) and beta.shape == (deg + 1,) and beta.dtype == f_dtype and beta.flags["WRITEABLE"]
 	assert Q.ndim == 2 and Q.shape == (n, ncv) and Q.flags["F_CONTIGUOUS"] and Q.flags["WRITEABLE"] and Q.flags["OWNDATA"]
 	assert alpha.flags["C_CONTIGUOUS"] and beta.flags["C_CONTIGUOUS"] and Q.dtype == f_dtype  # else only copies are written to
+	for x in (alpha, beta, Q):
+		x.fill(0)  # contents of previous calls must not take part in the re-orthogonalization, nor be returned
 
 	## Call the procedure
 	_lanczos.lanczos(A, v0, deg, rtol, orth, alpha, beta, Q)
-- 
2.43.0


From 8c076656ca25d2d22db10826baf0a9c0e4904cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 57/59] fix: normalize_unit finds the largest eigenvalue of
 operators of tiny norm

---
 src/primate/operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 574e8e3..4f0d7ce 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -201,7 +201,11 @@ def normalize_unit(A: LinearOperator, interval: tuple = (-1, 1)) -> LinearOperat
 	if A.shape[0] == 1:
 		alpha = A.matvec(np.ones(1)).item()  # eigsh requires k < n
 	else:
-		alpha = max(eigsh(A, k=min(2, A.shape[0] - 1), which="LM", return_eigenvectors=False), key=abs).item()
+		f = np.finfo(np.result_type(A.dtype, np.float32))
+		v = np.random.default_rng(0).standard_normal(A.shape[0]).astype(f.dtype)
+		s = np.clip(norm(A.matvec(v)), f.tiny, f.max / 4).astype(f.dtype)  # eigsh stops early for operators of tiny norm
+		ew = eigsh(A * (1 / s), k=min(2, A.shape[0] - 1), which="LM", return_eigenvectors=False)
+		alpha = s.item() * max(ew, key=abs).item()
 	I_op = IdentityOperator(A.shape)
 	# np.diff(interval)
 	return (A + alpha * I_op) / (2 * alpha)
-- 
2.43.0


From 80297423e323a6696af29d2a1fccee15263267d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:35 +0000
Subject: [PATCH 58/59] fix: the confidence message states levels such as 99.9%
 without rounding them to 100%

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 894d8f4..ec52e7e 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -303,7 +303,7 @@ class ConfidenceCriterion(ConvergenceCriterion):
 	def message(self, est: Estimator) -> str:
 		msg = f"Est: {arr_summary(est.estimate)}"
 		moe, rerr = self._error(est)
-		msg += f" +/- {moe:.3f} ({self.confidence*100:.0f}% CI, #S:{ len(est) })"  # | {(cv*100):.0f}% CV
+		msg += f" +/- {moe:.3f} ({self.confidence*100:g}% CI, #S:{ len(est) })"  # | {(cv*100):.0f}% CV
 		return msg
 
 
-- 
2.43.0


From a85aa93ad4cb6ccc7cd4f19de31b8812195ab4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 59/59] fix: re-orthogonalisation is not skipped for operators
 of small norm

---
 src/primate/include/lanczos.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primate/include/lanczos.h b/src/primate/include/lanczos.h
index 17eb282..41952d5 100644
--- a/src/primate/include/lanczos.h
+++ b/src/primate/include/lanczos.h
@@ -38,7 +38,7 @@ constexpr inline auto mod(int a, int b) noexcept -> int {
 // Orthogonalizes v with respect to columns in U via modified gram schmidt
 // Cyclically projects v onto the columns U[:,i:(i+p)] = u_i, u_{i+1}, ..., u_{i+p}, removing from v the components 
 // of the vector projections. If any index i, ..., i+p exceeds the number of columns of U, the indices are cycled. 
-// Both near-zero projections and columns of U with near-zero norm are ignored to avoid collapsing v to the trivial vector.
+// Columns of U with near-zero norm are ignored; projections are not, as those of a small v are small without v being orthogonal.
 // Eigen::Ref use based on: https://stackoverflow.com/questions/21132538/correct-usage-of-the-eigenref-class
 template< std::floating_point F >
 void orth_vector(
@@ -53,13 +53,13 @@ void orth_vector(
   const auto tol = 2 * std::numeric_limits< F >::epsilon() * std::sqrt(n); // numerical tolerance for orthogonality
 
   // Successively subtracting the projection of v onto the first p columns starting at start_idx
-  // If projection or the target vector is near-zero, ignore and continue, as numerical orthogonality is already met
+  // If projection or the target vector is zero, ignore and continue, as orthogonality is already met
   const int diff = reverse ? -1 : 1; 
   for (int i = mod(start_idx, m), c = 0; c < p; ++c, i = mod(i + diff, m)){
     const auto u_norm = U.col(i).squaredNorm();      // norm of u_i
     const auto s_proj = v.dot(U.col(i)); // < v, u_i > 
     // should protect against nan and 0 vectors, even is isnan(u_norm) is true
-    if (u_norm > tol && std::abs(s_proj) > tol){ 
+    if (u_norm > tol && std::abs(s_proj) > 0){ 
       v -= (s_proj / u_norm) * U.col(i);
     }
   }
-- 
2.43.0

