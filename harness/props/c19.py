"""C19: spectrum normalisation maps the spectrum affinely into [-1, 1]."""
import numpy as np
from core import Sub, check, close, same, arr, call
from lib import P, strategies, s_matrix, matrix, any_operator, ALL_OPS, dense_of, sym_from, orth, rng
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("symmetric matrices of size 1..24 (one in five up to 80) (dense, diagonal, low rank, identity, graded, repeated, clustered, nearly tied extremes, negative definite, scaled by 1e-150..1e150) as every operator kind and in both precisions. "
        "Oracle: eigen-decomposition of the original - affine image, common eigenvectors, relative spacing, largest-magnitude eigenvalue at one; the same for a nonzero multiple of the original. Non-trivial: two or more distinct eigenvalues.")
MORE = ["spread", "negative", "tied", "mixed"]


def s_case():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(1, 24, big=80), "more": st.sampled_from([None, None] + MORE), "sgn": st.sampled_from([1.0, 1.0, -1.0]), "scale": st.sampled_from([1.0, 1.0, 1.0, 1e-12, 1e12, 1e-60, 1e60, 1e-150, 1e150]), "op": st.sampled_from([o for o in ALL_OPS if o != "py_column"]), "dt": st.sampled_from(["f8", "f8", "f8", "f4"]), "c": st.sampled_from([2.0, -1.0, -0.37, 1e-6, 1e6, 7.0]), "seed": st.integers(0, 10**6), "again": st.booleans()})


def run(case, c):
	n = case["A"]["n"]
	g = rng(case["seed"])
	if case["more"] is None:
		A = matrix(case["A"])
	else:
		U = orth(n, case["seed"] + 1)
		w = {"spread": np.linspace(-0.3, 1, n), "negative": -g.uniform(0.1, 3, size=n), "tied": np.append(-0.999 if n > 1 else [], np.linspace(0.1, 1, max(n - 1, 1))), "mixed": g.normal(size=n)}[case["more"]]
		A = sym_from(w, U)
	dt = case["dt"]
	scale = case["scale"] if dt == "f8" else min(max(case["scale"], 1e-20), 1e20)
	A = (A * scale * case["sgn"]).astype(dt).astype(float)
	w, U = np.linalg.eigh(A)
	top = np.abs(w).max()
	if top == 0:
		return
	op = any_operator(A, case["op"], dt)
	N = call(P.operators.normalize_unit, op)
	check(tuple(N.shape) == (n, n), "shape {}", N.shape)
	B = arr(call(lambda: N @ np.eye(n)), (n, n))
	tol = (1e-10 if dt == "f8" else 2e-5) * n
	nw = np.linalg.eigvalsh((B + B.T) / 2)
	close(B, B.T, tol, "the normalised operator is not symmetric")
	check(nw.min() >= -1 - tol and nw.max() <= 1 + tol, "spectrum [{}, {}] outside [-1, 1]", nw.min(), nw.max())
	# affine image of the original: same eigenvectors, images of the eigenvalues
	img = np.einsum("ij,ij->j", U, B @ U)
	close(B @ U, U * img, 20 * tol, "eigenvectors changed")
	ties = [x for x in (w[0], w[-1]) if abs(x) >= top * (1 - (1e-9 if dt == "f8" else 1e-4))]
	i = 0 if abs(w[0]) == top else n - 1
	if len({np.sign(x) for x in ties}) > 1:
		c.label("tied extremes")
		j = n - 1 if img[n - 1] > img[0] else 0
		close(img[j], 1.0, 20 * tol, "neither extreme eigenvalue maps to 1")
	else:
		j = i
		close(img[j], 1.0, 20 * tol, f"the eigenvalue of largest magnitude ({w[i]:.4g}) maps to {img[i]:.6g}")
	k = int(np.argmax(np.abs(w - w[j])))
	gap = w[k] - w[j]
	if abs(gap) > 1e-3 * top:
		want = img[j] + (img[k] - img[j]) * (w - w[j]) / gap
		close(img, want, 40 * tol * top / abs(gap), "relative spacing of the eigenvalues changed")
		check(abs(img[k] - img[j]) > 1e-2 * abs(gap) / top, "the spectrum collapsed")
	same(np.asarray(dense_of(op), dtype=float), A, "the operator was modified")
	x = g.normal(size=n)
	x0 = x.copy()
	y = arr(call(lambda: N @ x), (n,))
	close(y, B @ x, 20 * tol * np.linalg.norm(x), "product with a vector")
	close(arr(call(N.matvec, x), (n,)), y, 20 * tol * np.linalg.norm(x), "matvec")
	same(x, x0, "the vector was modified")
	if len({np.sign(t) for t in ties}) == 1:
		N2 = call(P.operators.normalize_unit, any_operator(case["c"] * A, case["op"], dt))
		close(arr(call(lambda: N2 @ np.eye(n)), (n, n)), B, 40 * tol, f"changes when the operator is multiplied by {case['c']}")
		same(arr(call(lambda: N @ x), (n,)), y, "an earlier operator changed")
		if case["again"]:
			N3 = call(P.operators.normalize_unit, N)
			B3 = arr(call(lambda: N3 @ np.eye(n)), (n, n))
			n3 = np.linalg.eigvalsh((B3 + B3.T) / 2)
			check(n3.min() >= -1 - 4 * tol and n3.max() <= 1 + 4 * tol, "normalising twice leaves [-1, 1]: [{}, {}]", n3.min(), n3.max())
	c.mark(n >= 2 and w[-1] - w[0] > 1e-6 * top)
	c.label(case["more"] or case["A"]["kind"], case["op"], dt, "negative extreme" if w[i] < 0 else "positive extreme")


N0 = {"A": {"n": 6, "kind": "normal", "seed": 1, "exp": 0}, "more": None, "sgn": 1.0, "scale": 1.0, "op": "dense", "dt": "f8", "c": -1.0, "seed": 3, "again": True}
SUBS = [Sub("normalise", s_case, run, quick=400, thorough=20000, shards=5, examples=[N0, {**N0, "more": "negative"}, {**N0, "more": "spread", "sgn": -1.0}, {**N0, "A": {**N0["A"], "n": 1}}, {**N0, "dt": "f4"}, {**N0, "op": "csr", "scale": 1e12}, {**N0, "A": {"n": 80, "kind": "normal", "seed": 1, "exp": 0}, "scale": 1e-60}])]
SUBS.append(reuse_sub("C19"))
SUBS.append(big_sub("C19"))
