"""C15: Ritz values respect the spectrum and become exact at full degree."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, strategies, s_matrix, matrix, any_operator, ALL_OPS, lanczos_ref, start_vector, orth, sym_from, rng, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = ["_lanczos", "tqli", "fttr"]
RULE = ("bounds: symmetric matrices of size 2..24 (one in five up to 60) (twelve kinds, including repeated, low-rank, diagonal and block ones), any start vector, all degrees with full reorthogonalisation: Cauchy bounds, interlacing of consecutive degrees, residual bound. "
        "exact: matrices of size 2..24 (one in five up to 60) with 1..8 separated eigenvalues of any multiplicity, start vectors exciting any subset of them, degrees at least the number excited, no/partial/full reorthogonalisation where the reference stays orthogonal: "
        "the Ritz values must be exactly the excited eigenvalues. tolerance: operators of norm one with a nearly invariant Krylov space and tolerances of 1e-6.5..1e-0.5 at least a factor ten from every coupling: the expansion must end at the first coupling below. Non-trivial: size three or more.")


def s_bounds():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(2, 24, big=60), "op": st.sampled_from(ALL_OPS), "v": st.sampled_from(["normal", "e", "ones", "ints", "few", "seed"]), "vseed": st.integers(0, 10**6), "deg": st.one_of(st.none(), sizes(2, 24, 60)), "lead": st.booleans()})


def lanczos_clear(A, v, d):
	"""The couplings of the reference stay clearly above any tolerance for d steps."""
	if v is None:
		return False
	b = lanczos_ref(A, np.asarray(v, dtype=float), d)[1].astype(float)[:d - 1]
	return len(b) == d - 1 and np.all(b > 1e-4 * np.linalg.norm(A, 2)) and np.all(b > 1e-4)


def run_bounds(case, c):
	A = matrix(case["A"])
	n = A.shape[0]
	ew = np.linalg.eigvalsh(A)
	nA = np.abs(ew).max()
	if nA == 0:
		return
	RR = P.lanczos.rayleigh_ritz
	kw = {"orth": -1}
	if case["v"] == "seed":
		kw["seed"] = case["vseed"]
	else:
		kw["v0"] = start_vector(case, A, n)
	op = any_operator(A, case["op"])
	deg = n if case["deg"] is None else min(case["deg"], n)
	# an expansion that ends by a coupling near the tolerance may or may not go on: the spectrum bounds hold either way up to that coupling
	tol = 1e-11 * n * nA + 1e-7 * np.sqrt(n)
	prev = None
	for d in ([deg - 1, deg] if deg > 2 else [deg]):
		a = dict(kw) if case["deg"] is None and d == n else dict(kw, deg=d)
		w = np.sort(arr(call(RR, op, **a), name="Ritz values"))
		k = len(w)
		check(1 <= k <= d, "{} Ritz values for degree {}", k, d)
		if lanczos_clear(A, kw.get("v0"), d):
			check(k == d, "{} Ritz values for degree {} although the expansion does not end early", k, d)
			c.label("complete")
		check(w[0] >= ew[0] - tol and w[-1] <= ew[-1] + tol, "Ritz values in [{}, {}], spectrum in [{}, {}]", w[0], w[-1], ew[0], ew[-1])
		check(np.all(w >= ew[:k] - tol), "the i-th smallest Ritz value lies below the i-th smallest eigenvalue: {} vs {}", w.tolist(), ew.tolist())
		check(np.all(w <= ew[n - k:] + tol), "the i-th largest Ritz value lies above the i-th largest eigenvalue: {} vs {}", w.tolist(), ew.tolist())
		if prev is not None and k == len(prev) + 1:
			check(np.all(w[:-1] <= prev + tol) and np.all(prev <= w[1:] + tol), "values of consecutive degrees do not interlace: {} and {}", prev.tolist(), w.tolist())
			c.label("interlacing")
		if prev is not None and k == len(prev):
			close(w, prev, tol * 10, "an exhausted expansion changed with the degree")
		prev = w
	# vectors, basis
	a = dict(kw, deg=deg)
	r = call(RR, op, return_eigenvectors=True, return_basis=True, **a)
	check(isinstance(r, tuple) and len(r) == 3, "vectors and basis: {} values returned", len(r) if isinstance(r, tuple) else type(r))
	th, Y, Q = arr(r[0]), arr(r[1]), arr(r[2])
	k = len(th)
	check(Y.shape == (k, k) and Q.shape == (n, k), "{} values, vectors {}, basis {}", k, Y.shape, Q.shape)
	close(np.sort(th), prev, 1e-12 * n * nA + 1e-10 * nA, "values with vectors differ from values alone")
	close(Y.T @ Y, np.eye(k), 1e-12 * n, "Ritz vectors are not orthonormal")
	G = Q.T @ Q
	loss = np.max(np.abs(G - np.eye(k)))
	if loss < 1e-6:
		V = Q @ Y
		u = A @ Q[:, -1]
		last = np.linalg.norm(u - Q @ (Q.T @ u))
		res = np.linalg.norm(A @ V - V * th, axis=0)
		lim = 1e-11 * n * nA + 10 * n * loss * nA
		check(np.all(res <= last + lim), "residuals {} exceed the last coupling {}", res.max(), last)
		close(res, last * np.abs(Y[-1]), lim, "residuals of the Ritz pairs")
		c.label("residuals")
	r2 = call(RR, op, return_eigenvectors=True, **a)
	close(arr(r2[0], (k,)), th, 1e-10 * nA, "values with vectors alone")
	r3 = call(RR, op, return_basis=True, **a)
	close(arr(r3[0], (k,)), np.sort(th), 1e-10 * nA, "values with the basis")
	check(np.asarray(r3[1]).shape == (n, k), "basis of shape {} for {} values", np.asarray(r3[1]).shape, k)
	c.mark(n >= 3)
	c.label(case["op"], case["v"], "ended early" if k < deg else "full degree")


def s_exact():
	st = strategies()

	@st.composite
	def s(draw):
		n = draw(st.integers(2, 24))
		r = draw(st.integers(1, min(n, 8)))
		gaps = draw(st.lists(st.integers(2, 12), min_size=r, max_size=r))
		return {"n": n, "gaps": gaps, "start": draw(st.integers(-30, 10)), "ex": draw(st.lists(st.booleans(), min_size=r, max_size=r)), "seed": draw(st.integers(0, 10**6)), "U": draw(st.sampled_from(["dense", "eye", "blocks"])), "op": draw(st.sampled_from(ALL_OPS)),
		        "deg": draw(st.one_of(st.none(), st.integers(2, 26))), "orth": draw(st.sampled_from([-1, -1, 30, 0, 2, 3])), "dt": draw(st.sampled_from(["f8", "f8", "f8", "f4"]))}
	return s()


def spectrum(case):
	"""Matrix with separated eigenvalues, and a start vector exciting a chosen subset of them."""
	n, g = case["n"], rng(case["seed"])
	vals = (case["start"] + np.cumsum(case["gaps"])) / 10.0
	r = len(vals)
	idx = np.append(np.arange(r), g.integers(0, r, size=n - r))
	U = orth(n, case["seed"] + 1, case["U"])
	p = g.permutation(n)
	ew = vals[idx][p]
	ex = np.array(case["ex"])
	if not ex.any():
		ex[0] = True
	x = np.where(ex[idx][p], g.uniform(0.6, 1.4, size=n) * g.choice([-1, 1], size=n), 0.0)
	return sym_from(ew, U), U @ x, np.sort(vals[ex]), vals, idx, x


def run_exact(case, c):
	A, v, want, vals, _, _ = spectrum(case)
	n, K = len(v), len(want)
	nA = np.abs(vals).max()
	ra, rb, _ = lanczos_ref(A, v, min(K, n))
	b = rb[:K - 1].astype(float)
	if case["dt"] == "f4":
		# rounding of the operator to single precision splits its eigenvalues, so the expansion never ends
		if K < n or min(case["deg"] or n, n) != n:
			return
	if len(b) and b.min() < 2e-3:
		return
	deg = n if case["deg"] is None else max(min(case["deg"], n), 2)
	if deg < K:
		return
	orthn = case["orth"]
	if orthn in (0, 2, 3) and (K > 6 or (len(b) and b.min() < 0.02)):
		orthn = -1
	if nA == 0:
		return
	RR = P.lanczos.rayleigh_ritz
	op = any_operator(A, case["op"], case["dt"])
	v = v.astype(case["dt"]).astype(float)
	kw = {} if case["deg"] is None else {"deg": deg}
	# the residual coupling at exhaustion must be far below the tolerance of the expansion, in any reasonable arithmetic
	w = np.sort(arr(call(RR, op, v0=v, orth=orthn, **kw), name="Ritz values"))
	if case["dt"] == "f4":
		close(w, np.linalg.eigvalsh(A.astype("f4").astype(float)), 1e-4 * nA, "eigenvalues in single precision")
		c.label("single precision")
		return
	check(len(w) == K, "{} Ritz values {} for the {} excited eigenvalues {} (orth {}, degree {})", len(w), w.tolist(), K, want.tolist(), orthn, deg)
	amp = 1.0 / (b.min() if len(b) else 1.0)
	close(w, want, 1e-12 * n * nA * max(1.0, amp) ** 2 + 1e-14, f"excited eigenvalues (orth {orthn}, degree {deg})")
	w2, Y = call(RR, op, v0=v, orth=orthn, return_eigenvectors=True, **kw)
	check(arr(w2).shape == (K,) and arr(Y).shape == (K, K), "vectors of shape {} for {} values", np.shape(Y), len(w2))
	c.mark(n >= 3)
	c.label(f"orth {orthn}", "ended early" if K < deg else "full degree", "repeated" if len(vals) < n else "simple")


def s_tolerance():
	st = strategies()
	return st.fixed_dictionaries({"n": sizes(2, 16, 40), "kind": st.sampled_from(["normal", "few", "few", "graded", "blocks"]), "r": st.integers(1, 6), "eps": st.integers(-7, 0), "cut": st.floats(-6.5, -0.5), "seed": st.integers(0, 10**6), "op": st.sampled_from(ALL_OPS), "deg": st.one_of(st.none(), sizes(2, 16, 40)), "vec": st.booleans()})


def run_tolerance(case, c):
	"""A tolerance given ends the expansion at the first coupling below it (relative to sqrt(n); the norm of the operator is one)."""
	n, g = case["n"], rng(case["seed"])
	U = np.linalg.qr(g.normal(size=(n, n)))[0]
	w = g.uniform(-1, 1, size=n)
	if case["kind"] == "graded":
		w = w * 10.0 ** -np.linspace(0, 6, n)
	w = w / np.abs(w).max()
	x = g.normal(size=n)
	if case["kind"] == "few":
		x[case["r"]:] *= 10.0 ** case["eps"]
	A = sym_from(w, U)
	if case["kind"] == "blocks":
		h = max(n // 2, 1)
		A[:h, h:] *= 10.0 ** case["eps"]
		A[h:, :h] *= 10.0 ** case["eps"]
		A /= np.linalg.norm(A, 2)
		v = np.where(np.arange(n) < h, x, 0.0)
	else:
		v = U @ x
	deg = n if case["deg"] is None else max(min(case["deg"], n), 2)
	tol = 10.0 ** case["cut"]
	a, b, _ = lanczos_ref(A, v, deg)
	a, b = a.astype(float), b.astype(float)[:deg - 1]
	k = next((i + 1 for i in range(len(b)) if b[i] < tol), deg)
	seen = b[:k]
	if np.any((seen > tol / 10) & (seen < 10 * tol)) or len(a) < k:
		c.label("skipped: coupling near the tolerance")
		return
	clean = seen if k == deg else seen[:k - 1]
	if len(clean) and clean.min() < 1e-5:  # rounding errors grow with the inverse couplings
		return
	kw = {} if case["deg"] is None else {"deg": deg}
	r = call(P.lanczos.rayleigh_ritz, any_operator(A, case["op"]), v0=v, orth=-1, rtol=tol / np.sqrt(n), return_eigenvectors=case["vec"], **kw)
	w = np.sort(arr(r[0] if case["vec"] else r, name="Ritz values"))
	check(len(w) == k, "{} Ritz values with a tolerance of {}: the first coupling below it is number {} of {}", len(w), tol, k, b[:k].tolist())
	T = np.diag(a[:k]) + np.diag(b[:k - 1], 1) + np.diag(b[:k - 1], -1)
	close(w, np.linalg.eigvalsh(T), 1e-12 * n / (clean.min() if len(clean) else 1.0) ** 2 + 1e-12 * n, "Ritz values of the expansion up to the tolerance")
	if k < deg:
		ew = np.linalg.eigvalsh(A)
		check(all(np.abs(ew - t).min() <= b[k - 1] + 1e-9 for t in w), "a Ritz value lies further from the spectrum than the coupling the expansion ended with")
	c.mark(n >= 3)
	c.label("ended early" if k < deg else "full degree")


A0 = {"n": 8, "kind": "normal", "seed": 3, "exp": 0}
C0 = {"A": A0, "op": "dense", "v": "normal", "vseed": 1, "deg": 5, "lead": False}
X0 = {"n": 7, "gaps": [3, 5, 7], "start": 0, "ex": [True, True, True], "seed": 2, "U": "dense", "op": "dense", "deg": 6, "orth": -1, "dt": "f8"}
SUBS = [
	Sub("bounds", s_bounds, run_bounds, quick=250, thorough=12000, shards=3, examples=[C0, {**C0, "deg": None, "A": {**A0, "n": 20, "kind": "psd"}}, {**C0, "v": "e", "A": {**A0, "kind": "diag"}}, {**C0, "A": {**A0, "kind": "lowrank"}}, {**C0, "A": {**A0, "kind": "identity"}, "deg": None}]),
	Sub("exact", s_exact, run_exact, quick=350, thorough=15000, shards=4, examples=[X0, {**X0, "orth": 0}, {**X0, "ex": [False, True, False]}, {**X0, "deg": None}, {**X0, "U": "eye"}]),
]
SUBS.append(Sub("tolerance", s_tolerance, run_tolerance, quick=250, thorough=10000, shards=2))
SUBS.append(reuse_sub("C15"))
SUBS.append(big_sub("C15"))
