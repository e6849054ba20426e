"""C22: Hutch++ estimates equal the projection trace plus the residual average."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, MATRIX_KINDS, strategies, s_matrix, WIDE, matrix, operator, RecOp, RecSampler, probe_source, rng, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Symmetric matrices of size 1..14 (one in five up to 60) (twelve kinds), dense, sparse, linear, recording and quadratic-form operators, both precisions, budgets 0..N+3 or the default, both modes, named and recording samplers. The estimate is recomputed "
        "from the recorded probes with an independent orthonormal basis of the sketch; low-rank matrices whose sketch spans their range must be exact. Cases whose sketch is numerically rank deficient (other than low-rank ones) only "
        "get the invariants. Non-trivial: size three or more and a well-conditioned sketch.")
EPS = {"f8": 2.3e-16, "f4": 1.2e-7}


class QuadOp(RecOp):
	def quad(self, x):
		x = np.atleast_2d(np.asarray(x).T).T
		return np.einsum("ij,ij->j", x, self._M @ x)


def quad_operator(A, kind, dt, cls=QuadOp):
	"""Operators that also offer quadratic forms: a bare object, or a linear operator of the libraries (as a matrix function is)."""
	if kind == "quad":
		return cls(A, dt)
	from scipy.sparse.linalg import LinearOperator

	class QuadLin(LinearOperator):
		def __init__(self):
			super().__init__(np.dtype(dt), A.shape)
			self.op = cls(A, dt)

		def _matvec(self, x):
			return self.op @ x

		def _matmat(self, x):
			return self.op @ x

		def _adjoint(self):
			return self

		def quad(self, x):
			return self.op.quad(x)

		def columns(self):
			return self.op.columns()
	return QuadLin()


def s_probes():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(1, 14, list(MATRIX_KINDS) + ["steep", "scaled"], exps=WIDE, big=60), "op": st.sampled_from(["dense", "fortran", "csr", "linop", "rec", "rec_undeclared", "quad", "quadlin"]), "dt": st.sampled_from(["f8", "f8", "f8", "f4"]), "pdf": st.sampled_from(["rademacher", "normal", "sphere"]),
	                              "m": st.one_of(st.none(), sizes(0, 17, 64)), "mode": st.sampled_from(["reduced", "full"]), "seed": st.integers(0, 10**6)})


def run_probes(case, c):
	A = matrix(case["A"])
	n, dt, m, eps = A.shape[0], case["dt"], case["m"], EPS[case["dt"]]
	A = A.astype(dt).astype(float)
	nA = max(np.linalg.norm(A, 2), 1e-300)
	samp = RecSampler(probe_source(case["pdf"], case["seed"]))
	op = quad_operator(A, case["op"], dt) if case["op"].startswith("quad") else operator(A, case["op"], dt)
	H = P.trace.hutchpp
	kw = {"mode": case["mode"]}
	if m is not None:
		kw["m"] = m
	est = num(call(H, op, pdf=samp, **kw), "estimate")
	check(len(samp.drawn) >= 2, "{} blocks of probes were drawn", len(samp.drawn))
	W, G = samp.drawn[0].reshape(n, -1), np.column_stack([x.reshape(n, -1) for x in samp.drawn[1:]])
	W, G = W.astype(dt).astype(float), G.astype(dt).astype(float)
	want = max((n // 3) if m is None else m, 1)
	check(W.shape[1] <= n, "sketch of {} vectors in dimension {}", W.shape[1], n)
	check(min(want, n) <= W.shape[1] <= want + 2, "sketch of {} vectors for a budget of {} in dimension {}", W.shape[1], want, n)
	check(G.shape[1] >= 1, "no residual probes")
	Y = A @ W
	U, s, _ = np.linalg.svd(Y, full_matrices=False)
	rA = int(np.sum(np.linalg.svd(A, compute_uv=False) > 1e-9 * nA)) if dt == "f8" else None
	if rA and np.any((sA := np.linalg.svd(A, compute_uv=False))[rA:] > 1e-14 * nA):
		rA = None  # no clear rank
	good = len(s) and s[-1] > (1e-12 if dt == "f8" else 3e-2) * s[0] and s[0] > 0
	vmax = max(np.max(np.abs(G)) ** 2, np.max(np.abs(W)) ** 2, 1.0)
	if good:
		Q = U
		R = G - Q @ (Q.T @ G)
		ref = np.trace(Q.T @ A @ Q) + np.einsum("ij,ij->", R, A @ R) / G.shape[1]
		cond = (s[0] / s[-1]) ** (0.5 if dt == "f8" else 1)
		close(est, ref, 200 * n * n * eps * nA * vmax * cond, f"estimate (mode {case['mode']}, sketch {W.shape[1]})")
	if rA is not None and rA <= W.shape[1] and rA > 0:
		sr = s[rA - 1]
		if sr > 1e-6 * s[0]:
			close(est, np.trace(A), 1e-13 * n * n * nA * vmax * s[0] / sr * 20, "matrix of rank within the sketch")
			c.label("exact by rank")
	if dt == "f8" and W.shape[1] == n and len(s) and s[-1] > 1e-13 * s[0]:
		# an orthonormal sketch of the whole space leaves no residual, whatever its conditioning
		close(est, np.trace(A), 60 * n * n * eps * nA, "sketch of the whole dimension")
		c.label("whole dimension")
	if rA == 0:
		close(est, 0.0, 0, "zero matrix")
	# the detailed result, the other mode and the named distribution
	for mode in ("reduced", "full"):
		s2 = RecSampler(probe_source(case["pdf"], case["seed"]))
		r = call(H, quad_operator(A, case["op"], dt) if case["op"].startswith("quad") else operator(A, case["op"], dt), pdf=s2, **{**kw, "mode": mode}, full=True)
		check(isinstance(r, tuple) and len(r) == 2, "the detailed result is {}", type(r))
		if good:
			close(num(r[0]), est, 400 * n * n * eps * nA * vmax * cond, f"detailed result in mode {mode}")
		close(num(r[1].estimate), num(r[0]), 0, "the result's estimate differs from the returned one")
		check(int(r[1].nit) == sum(x.size // n for x in s2.drawn), "the result counts {} vectors, {} were drawn", r[1].nit, sum(x.size // n for x in s2.drawn))
	kn = dict(kw, pdf=case["pdf"], seed=case["seed"])
	a = num(call(H, operator(A, "dense", dt), **kn))
	same(num(call(H, operator(A, "dense", dt), **kn)), a, "the same seed gives another estimate")
	r = call(H, operator(A, "dense", dt), full=True, **kn)
	same(num(r[0]), a, "the detailed result with the same seed differs")
	c.mark(n >= 3 and good)
	c.label(case["op"], case["mode"], dt, "default budget" if m is None else "budget beyond n" if m > n else "budget", "well conditioned" if good else "deficient")


def s_exact():
	st = strategies()
	return st.fixed_dictionaries({"n": sizes(1, 25, 80), "r": sizes(0, 10, 40), "extra": st.integers(0, 4), "seed": st.integers(0, 10**6), "pdf": st.sampled_from(["rademacher", "normal", "sphere", "signs", "gaussian"]), "mode": st.sampled_from(["reduced", "full"])})


def run_exact(case, c):
	n, g = case["n"], rng(case["seed"])
	r = min(case["r"], n)
	m = min(max(r + case["extra"], 1), n + 2)
	ew = np.where(np.arange(n) < r, g.uniform(0.5, 2, size=n) * g.choice([-1, 1], size=n), 0.0)
	Q = np.linalg.qr(g.normal(size=(n, n)))[0]
	A = (Q * ew) @ Q.T
	A = (A + A.T) / 2
	op = RecOp(A)
	est = num(call(P.trace.hutchpp, op, m=m, pdf=case["pdf"], seed=case["seed"], mode=case["mode"]))
	V = op.columns()
	check(np.all(np.isfinite(V)), "operator applied to non-finite vectors")
	W = op.seen[0].reshape(n, -1)  # the sketch needs the images of its probes first
	s = np.linalg.svd(A @ W, compute_uv=False)
	if r == 0:
		close(est, 0.0, 1e-12, "zero matrix")
	elif len(s) >= r and s[r - 1] > 1e-6 * s[0]:
		close(est, ew.sum(), 1e-11 * n * s[0] / s[r - 1], f"rank {r} with budget {m} in dimension {n}")
		c.mark(n >= 3)
	c.label("full budget" if m >= n else "partial", case["pdf"])


def s_empty():
	st = strategies()
	return st.fixed_dictionaries({"full": st.booleans()})


def run_empty(case, c):
	r = call(P.trace.hutchpp, np.zeros((0, 0)), full=case["full"])
	close(num(r[0] if case["full"] else r), 0.0, 0, "trace of the empty matrix")
	c.mark()


A0 = {"n": 10, "kind": "normal", "seed": 3, "exp": 0}
C0 = {"A": A0, "op": "dense", "dt": "f8", "pdf": "rademacher", "m": 7, "mode": "reduced", "seed": 2}
SUBS = [
	Sub("probes", s_probes, run_probes, quick=400, thorough=15000, shards=4, examples=[C0, {**C0, "op": "quad"}, {**C0, "A": {**A0, "n": 1}, "m": None}, {**C0, "A": {**A0, "n": 2}, "m": 5}, {**C0, "m": 10, "mode": "full"}]),
	Sub("exact", s_exact, run_exact, quick=250, thorough=8000, shards=2),
	Sub("empty", s_empty, run_empty, quick=2, thorough=2, shards=1),
]
SUBS.append(reuse_sub("C22"))
SUBS.append(big_sub("C22"))
