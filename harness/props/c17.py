"""C17: quadratic forms of matrix functions equal v'f(A)v where Gauss quadrature is exact."""
import numpy as np
from core import Sub, check, close, same, arr, call, rejects
from lib import P, strategies, s_large, Large, s_matrix, matrix, any_operator, ALL_OPS, dense_of, start_vector, s_fun, s_spectral, rng, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub
from extreme import sub as extreme_sub
from props.c16 import setup, history, clean_dimension, C0, S0, F0

NEEDS = ["_lanczos", "tqli", "fttr"]
RULE = ("spectral: matrices of size 1..20 (one in five up to 40) with 1..7 separated eigenvalues of any multiplicity, single vectors, columns, C-, Fortran-ordered and strided blocks with up to four columns (some zero) exciting subsets of them, all built-in functions with parameters and six user callables, "
        "degrees from the number excited to beyond n, every operator kind, both precisions of the operator and of the computation, full and partial reorthogonalisation, after histories of up to six products and quadratic forms. polynomial: arbitrary symmetric matrices and polynomials of degree below twice the expansion's. "
        "long: up to 30 separated eigenvalues with outliers, weakly excited ones, vectors scaled by 1e+-30, functions by 1e+-12: Chebyshev polynomials up to degree 2k-1 and functions with arbitrary values at the eigenvalues. bounds: any degree, width and vector - sign and magnitude of the forms, permuted columns, scaling. Oracle: eigen-decomposition. Non-trivial: size and number of excited eigenvalues two or more.")
LAYOUTS = ["c", "f", "strided", "reversed"]


def layout(X, kind):
	if kind == "f":
		return np.asfortranarray(X)
	if kind == "strided":
		Y = np.full((2 * X.shape[0], 3 * X.shape[1]), np.nan, dtype=X.dtype)
		Y[::2, ::3] = X
		return Y[::2, ::3]
	if kind == "reversed":
		return np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1]
	return np.ascontiguousarray(X)


def s_case():
	st = strategies()
	return st.fixed_dictionaries({"S": s_spectral(big=48), "fun": s_fun(), "op": st.sampled_from(ALL_OPS), "dt": st.sampled_from(["f8", "f8", "f8", "f4"]), "deg": st.one_of(st.none(), st.integers(2, 24)), "orth": st.sampled_from([-1, -1, 30, None, 2, 5, 0]), "opdt": st.sampled_from(["f8", "f8", "f8", "f4"]), "vseed": st.integers(0, 10**6),
	                              "hist": st.lists(st.tuples(st.sampled_from(["mv", "quad", "zero", "full", "block", "fun"]), st.integers(0, 99)), max_size=6), "c": st.sampled_from([2.0, -1.0, 1e3, -0.01]), "k": st.integers(1, 4), "zero": st.lists(st.integers(0, 3), max_size=2), "lay": st.sampled_from(LAYOUTS)})


def run(case, c):
	st = setup(case)
	if st is None:
		return
	S, arg, kw, ref, v, K, b, mk, tol, deg = st
	n, dt, s, k = S.n, case["dt"], case["c"], case["k"]
	op = any_operator(S.A, case["op"], case["opdt"])
	MF = P.operators.MatrixFunction
	M = call(MF, op, arg, **mk, **kw)
	past = call(history, M, case["hist"], S, c)
	vn2 = float(v @ v)
	x = v.astype(dt)
	x0 = x.copy()
	want = float(v @ S.f(ref, v))
	tag = f"f={case['fun']['f']}, degree {deg}, {K} excited eigenvalues"
	q = arr(call(M.quad, x), (1,), name="quadratic form")
	close(q, [want], tol * vn2, f"v'f(A)v ({tag}, after {[h[0] for h in case['hist']]})")
	keep = q.copy()
	close(arr(call(M.quad, x[:, None]), (1,)), q, tol * vn2, "quadratic form of a column")
	close(arr(call(M.quad, x * np.dtype(dt).type(s)), (1,)), s * s * q, 2 * tol * vn2 * s * s, "not quadratic in the vector")
	same(x, x0, "the vector was modified")
	same(arr(call(M.quad, np.zeros(n)), (1,)), [0.0], "quadratic form of the zero vector")
	V = np.column_stack([S.vector(case["vseed"] + i) for i in range(k)])
	for j in case["zero"]:
		V[:, j % k] = 0.0
	good = [j for j in range(k) if not V[:, j].any() or S.smallest_coupling(V[:, j]) > 0.7 * b]
	X = layout(V.astype(dt), case["lay"])
	X0 = X.copy()
	wantX = np.einsum("ij,ij->j", V, S.f(ref, V))
	nrm2 = np.einsum("ij,ij->j", V, V)
	qX = arr(call(M.quad, X), (k,), name="quadratic forms of a block")
	close(qX[good], wantX[good], 3 * tol * nrm2[good], f"forms of the columns of a block ({tag})")
	same(X, X0, "the block was modified")
	for r, snap in past:
		same(r, snap, "the result of an earlier call was altered")
	same(q, keep, "a returned form was altered by later calls")
	same(np.asarray(dense_of(op), dtype=float), S.A.astype(case["opdt"]).astype(float), "the operator was modified")
	M2 = call(MF, any_operator(S.A, case["op"], case["opdt"]), arg, **mk, **kw)
	close(arr(call(M2.quad, x), (1,)), q, tol * vn2, "the form depends on earlier calls")
	y = arr(call(lambda: M2 @ x), (n,))
	close(float(v @ y), float(q[0]), 3 * tol * vn2, "the form differs from the product's")
	M.fun = lambda t: np.cos(t)
	close(arr(call(M.quad, x), (1,)), [v @ S.f(np.cos, v)], (tol + 100 * (3e-7 if "f4" in (dt, case["opdt"]) else 2.3e-16) * n * (1 + np.abs(S.vals).max()) * (1 + 1 / b) ** 2) * vn2, "after replacing the function")
	c.mark(n >= 2 and K >= 2)
	c.label(case["fun"]["f"], case["op"], dt + " over " + case["opdt"], f"orth {mk.get('orth', 'default')}", "history" if case["hist"] else "fresh", "exhausted early" if K < min(deg, n) else "exact degree", case["lay"])


def s_poly():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(2, 14, big=40), "op": st.sampled_from(ALL_OPS), "deg": st.integers(2, 12), "coef": st.lists(st.sampled_from([-2.0, -1.0, 0.5, 1.0, 3.0]), min_size=1, max_size=24), "v": st.sampled_from(["normal", "e", "ones", "ints", "few"]), "vseed": st.integers(0, 10**6), "pre": st.integers(0, 2)})


def run_poly(case, c):
	A = matrix(case["A"])
	n, deg = A.shape[0], case["deg"]
	nA = np.linalg.norm(A, 2)
	if nA == 0:
		return
	v = start_vector(case, A, n)
	k = clean_dimension(A, v, deg)
	if k is None:
		c.label("skipped: ambiguous coupling")
		return
	coef = case["coef"][:2 * min(deg, n)]
	p = lambda x: np.polyval(coef, np.asarray(x) / nA)
	w, U = np.linalg.eigh(A)
	want = float(np.sum(p(w) * (U.T @ v) ** 2))
	M = call(P.operators.MatrixFunction, any_operator(A, case["op"]), p, deg=deg, orth=-1)
	for i in range(case["pre"]):
		call(M.quad, rng(i).normal(size=n))
	q = arr(call(M.quad, v), (1,))
	close(q, [want], 1e-9 * n * np.sum(np.abs(coef)) * len(coef) * (v @ v), f"polynomial of degree {len(coef) - 1} in a quadrature of degree {deg}")
	c.mark(len(coef) > min(deg, n))
	c.label(case["op"], "beyond the expansion's degree" if len(coef) > deg else "low degree", "exhausted early" if k < min(deg, n) else "full")


def run_long(case, c):
	"""Long quadratures: polynomials up to degree 2k-1 (Chebyshev), or any values at up to 30 eigenvalues."""
	L = Large(case)
	n, vs = L.n, 10.0 ** case["vexp"]
	f, deg, fe = L.plan(True)
	v = L.vector(case["seed"] + 5)
	if not L.good(v, deg):
		c.label("skipped: ambiguous coupling")
		return
	M = call(P.operators.MatrixFunction, any_operator(L.A, case["op"]), f, deg=deg, orth=L.orth(deg))
	want, scale = np.sum(fe * (L.U.T @ v) ** 2), 1e-10 * np.abs(fe).max() * (v @ v)
	tag = f"({case['what']}, degree {deg}, orth {case['orth']}, {L.r} eigenvalues, n={n}, vector scaled by {vs:.0e})"
	close(arr(call(M.quad, v * vs), (1,)) / vs**2, [want], scale, "v'f(A)v " + tag)
	q = arr(call(M.quad, np.column_stack([v, np.zeros(n), -v * vs])), (3,))
	close(q / [1, 1, vs**2], [want, 0.0, want], scale, "forms of a block " + tag)
	c.mark(deg >= 8)
	c.label(case["what"], case["spec"], "exhausted" if deg > L.r or n > L.r and deg == L.r else "open", f"orth {case['orth']}", "beyond the expansion's degree" if case["what"] == "chebyshev" and case["j"] >= deg else "")


def s_bounds():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(2, 14), "op": st.sampled_from(ALL_OPS), "deg": st.integers(2, 16), "orth": st.integers(-1, 16), "k": sizes(1, 6, 40), "seed": st.integers(0, 10**6), "c": st.sampled_from([0.0, 0.5, -2.0, 1e3])})


def run_bounds(case, c):
	"""Holds for any degree and any reorthogonalisation: the form is a positive quadrature rule of total weight |v|^2 with nodes in the numerical range."""
	A = matrix(case["A"])
	n, k, nA = A.shape[0], case["k"], np.linalg.norm(A, 2)
	if nA == 0:
		return
	V = rng(case["seed"]).normal(size=(n, k))
	nrm2 = np.einsum("ij,ij->j", V, V)
	lo, hi = np.linalg.eigvalsh(A)[[0, -1]]
	op = any_operator(A, case["op"])
	M = call(P.operators.MatrixFunction, op, None, deg=case["deg"], orth=case["orth"])
	MFk = lambda f: call(P.operators.MatrixFunction, op, f, deg=case["deg"], orth=case["orth"])
	one = arr(call(MFk(np.ones_like).quad, V), (k,))
	close(one, nrm2, 1e-10 * n * nrm2, "form of the constant function one")
	sq = arr(call(MFk(np.square).quad, V), (k,))
	check(np.all(sq >= 0), "negative form of a nonnegative function: {}", sq.min())
	# no reorthogonalisation can move nodes outside the spectrum by more than rounding
	q = arr(call(M.quad, V), (k,))
	slack = 1e-4 * nA
	check(np.all(q <= (hi + slack) * nrm2) and np.all(q >= (lo - slack) * nrm2), "form of the identity function outside the numerical range: {} not in [{}, {}]", q / nrm2, lo, hi)
	close(q, np.einsum("ij,ij->j", V, A @ V), 1e-9 * n * nA * nrm2, "v'Av")
	perm = rng(case["seed"] + 1).permutation(k)
	close(arr(call(M.quad, V[:, perm]), (k,)), q[perm], 1e-9 * n * nA * nrm2[perm], "forms depend on the order of the columns")
	for j in range(k):
		close(arr(call(M.quad, V[:, j]), (1,)), q[[j]], 1e-9 * n * nA * nrm2[j], "a form depends on the other columns")
	s = case["c"]
	close(arr(call(M.quad, s * V), (k,)), s * s * q, 1e-9 * n * nA * nrm2 * s * s, "not quadratic")
	rejects(M.quad, np.ones(n + 1 + case["seed"] % 3), what="vector of the wrong length")
	c.mark(k > 1)
	c.label(case["op"], case["A"]["kind"])


Q0 = {**C0, "zero": [], "lay": "c", "k": 3}
SUBS = [
	Sub("spectral", s_case, run, quick=300, thorough=15000, shards=5, examples=[Q0, {**Q0, "S": {**S0, "ex": [True, False, False]}, "zero": [1]}, {**Q0, "fun": {**F0, "f": "inv"}, "lay": "f"}, {**Q0, "dt": "f4", "opdt": "f4", "lay": "strided"}, {**Q0, "opdt": "f4"}, {**Q0, "dt": "f4"}, {**Q0, "fun": {**F0, "f": "numrank"}, "deg": None, "orth": None}, {**Q0, "S": {**S0, "n": 1, "gaps": [3], "ex": [True]}}, {**Q0, "fun": {**F0, "f": "log"}, "hist": [["zero", 1]], "zero": [0]}]),
	Sub("polynomial", s_poly, run_poly, quick=200, thorough=8000, shards=2),
	Sub("long", s_large, run_long, quick=200, thorough=8000, shards=3),
	Sub("bounds", s_bounds, run_bounds, quick=150, thorough=6000, shards=2),
]
SUBS.append(reuse_sub("C17"))
SUBS.append(big_sub("C17"))
SUBS.append(extreme_sub("C17"))
