"""C25: XDiag estimates equal the leave-one-out diagonal estimator within its budget."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, strategies, s_matrix, WIDE, matrix, rng
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Symmetric (and one third nonsymmetric) matrices of size 1..14 (one in five up to 50) with well-conditioned sketches, dense, sparse, linear and product-counting operators, all distributions, budgets 1..2N+4 or the default. The estimate is compared with a direct leave-one-out computation "
        "on the probes of the seed; the number of products is counted. Cases whose sketch has condition above 1e12 only get the budget and shape checks (see the known findings for singular sketches). Non-trivial: two or more probes.")


class CountOp:
	"""Operator that counts the vectors it multiplies."""
	def __init__(self, A, log):
		self.A, self.log, self.shape, self.dtype = A, log, A.shape, A.dtype

	@property
	def T(self):
		return CountOp(self.A.T, self.log)

	def __matmul__(self, X):
		self.log.append(np.array(X, copy=True).reshape(self.A.shape[0], -1))
		return self.A @ X


def s_probes():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(1, 14, ["normal", "normal", "psd", "graded", "steep", "scaled", "decay", "blocks", "ints", "sparse", "diag", "identity", "lowrank", "repeated", "hollow", "laplacian", "band"], exps=WIDE, big=50), "m": st.one_of(st.none(), st.integers(1, 32), st.integers(33, 110)), "pdf": st.sampled_from(["sphere", "default", "rademacher", "normal"]), "seed": st.integers(0, 10**6),
	                              "op": st.sampled_from(["dense", "csr", "linop", "count", "count"]), "c": st.sampled_from([2.0, -3.0, 1e-3]), "skew": st.sampled_from([0.0, 0.0, 0.5])})


def loo(A, W):
	n, m = W.shape
	d = np.zeros(n)
	for i in range(m):
		w = W[:, i]
		Q = np.linalg.qr(A @ np.delete(W, i, axis=1))[0] if m > 1 else np.zeros((n, 0))
		QA = Q @ (Q.T @ A)
		d += np.einsum("ii->i", QA) + w * (A @ w - QA @ w)
	return d / m


def run_probes(case, c):
	import scipy.sparse as ss
	from scipy.sparse.linalg import aslinearoperator
	A = matrix(case["A"])
	n, m = A.shape[0], case["m"]
	if case.get("skew"):
		B = rng(case["seed"]).normal(size=(n, n))
		A = A + case["skew"] * np.abs(A).max() * (B - B.T)
	log, snap = [], A.copy()
	op = {"dense": lambda: A, "csr": lambda: ss.csr_array(A), "linop": lambda: aslinearoperator(A), "count": lambda: CountOp(A, log)}[case["op"]]()
	kw = {"seed": case["seed"]}
	if m is not None:
		kw["m"] = m
	pdf = "sphere" if case["pdf"] == "default" else case["pdf"]
	if case["pdf"] != "default":
		kw["pdf"] = pdf
	k = n if m is None else min((m + m % 2) // 2, n)
	W = arr(call(P.random.isotropic, (n, k), pdf=pdf, seed=case["seed"]), (n, k))
	s = np.linalg.svd(A @ W, compute_uv=False)
	good = s[-1] > 1e-12 * s[0]
	c.label(case["op"], pdf, "nonsymmetric" if case.get("skew") else "symmetric", "default budget" if m is None else "full sketch" if k == n else "partial sketch", "good" if good else "singular sketch")
	if not good:
		return
	X = P.diagonal.xdiag
	d = arr(call(X, op, **kw), (n,), name="estimate")
	same(A, snap, "the matrix was modified")
	nA = np.linalg.norm(A, 2)
	tol = 1e-12 * n * nA * (s[0] / s[-1]) ** 0.5 * max(1, np.max(W**2))
	close(d, loo(A, W), tol, f"leave-one-out estimate with budget {m}")
	if log:
		total = sum(x.shape[1] for x in log)
		budget = 2 * n if m is None else m + m % 2
		check(total <= budget, "{} products for a budget of {}", total, m)
		check(max(x.shape[1] for x in log) <= n, "a sketch of {} vectors in dimension {}", max(x.shape[1] for x in log), n)
		close(log[0], W, 0, "the probes of the seed")
	f = case["c"]
	close(arr(call(X, f * A, **kw), (n,)), f * d, 2 * tol * abs(f), "scaling of the matrix")
	same(call(X, A, **kw), call(X, A, **kw), "the same seed gives another estimate")
	kw["seed"] = np.random.default_rng(case["seed"])
	close(arr(call(X, A, **kw), (n,)), d, 2 * tol, "a generator seeded alike gives another estimate")
	c.mark(k >= 2)


def s_unbiased():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(2, 9, ["normal", "psd", "decay", "graded"]), "seed": st.integers(0, 10**6)})


def run_unbiased(case, c):
	"""One probe: no sketch to deflate with, so the estimate is the probe's plain estimate, which averages to the diagonal."""
	A = matrix(case["A"])
	n = A.shape[0]
	w = arr(call(P.random.isotropic, (n, 1), pdf="rademacher", seed=case["seed"]), (n, 1)).ravel()
	for m in (1, 2):
		close(arr(call(P.diagonal.xdiag, A, m=m, pdf="rademacher", seed=case["seed"]), (n,)), w * (A @ w), 1e-12 * n * np.abs(A).sum(), f"single-probe estimate (budget {m})")
	c.mark()


def run_singular(case, c):
	"""Known finding: exactly singular sketches are not supported."""
	n = case["n"]
	d = arr(call(P.diagonal.xdiag, np.zeros((n, n)), seed=case["seed"]), (n,))
	close(d, np.zeros(n), 1e-6, "diagonal of the zero matrix")


KNOWN_SUBS = [Sub("singular", None, run_singular, fixed_only=True)]
C0 = {"A": {"n": 6, "kind": "normal", "seed": 3, "exp": 0}, "m": 6, "pdf": "sphere", "seed": 1, "op": "count", "c": 2.0}
SUBS = [
	Sub("probes", s_probes, run_probes, quick=400, thorough=15000, shards=4, examples=[C0, {**C0, "m": None}, {**C0, "m": 5, "op": "csr"}, {**C0, "m": 30}]),
	Sub("single", s_unbiased, run_unbiased, quick=60, thorough=1000, shards=1),
]
SUBS.append(reuse_sub("C25"))
SUBS.append(big_sub("C25"))
