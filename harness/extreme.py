"""Sub-check 'extreme' of the expansion-based properties: vectors and operators at the ends of the range of their precision.

A vector whose entries are in range may have a squared norm that is not, and so may a residual of the expansion; relations under scaling must hold there too.
Operators are only scaled up (small ones run into the listed finding about the absolute tolerance)."""
import numpy as np
from core import Sub, close, arr, call
from lib import P, strategies, ALL_OPS, any_operator, rng, orth as orthogonal, sym_from

RANGE = {"f8": 285, "f4": 30}
EPS = {"f8": 2.3e-16, "f4": 1.2e-7}


def s_case():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(1, 12), "seed": st.integers(0, 10**6), "dt": st.sampled_from(["f8", "f4"]), "ve": st.floats(-1, 1), "ae": st.floats(0, 1), "which": st.sampled_from(["v", "v", "A", "both"]), "op": st.integers(0, len(ALL_OPS) - 1), "fun": st.sampled_from(["identity", "abs", "user"]), "part": st.booleans()})


def setup(case):
	n, dt, g = case["n"], case["dt"], rng(case["seed"])
	# eigenvalues separated and not small, every one excited: the expansion takes exactly n clean steps
	ew = (1.0 + np.arange(n) + g.uniform(0, 0.3, size=n)) * g.choice([-1, 1])
	ew = ew * np.where(g.uniform(size=n) < 0.3, -1, 1)
	U = orthogonal(n, case["seed"] + 1)
	v = U @ (g.uniform(0.5, 1.5, size=n) * g.choice([-1, 1], size=n))
	R = RANGE[dt]
	# powers of two: the scaled data are exactly the data times the scale
	s = 2.0 ** int(round((case["ae"] * R if case["which"] != "v" else 0) * np.log2(10)))
	t = 2.0 ** int(round((case["ve"] * R if case["which"] != "A" else 0) * np.log2(10)))
	A = sym_from(ew, U).astype(dt).astype(float)
	v = v.astype(dt).astype(float)
	kind = ALL_OPS[case["op"]]
	return n, dt, A, v, s, t, (lambda s: any_operator(A * s, kind, dt)), EPS[dt], (n if case["part"] else -1)


def coefficients(case, c):
	n, dt, A, v, s, t, op, eps, orth = setup(case)
	kw = {"deg": n, "orth": orth, "dtype": np.dtype(dt)}
	def run(s, t, basis):
		r = call(P.lanczos.lanczos, op(s), v0=(v * t).astype(dt), return_basis=basis, **kw)
		(a, b), Q = r if basis else (r, np.zeros((n, n)))
		return arr(a, (n,)).astype(float) / s, arr(b, (n - 1,)).astype(float) / s, arr(Q, (n, n)).astype(float)
	a0, b0, Q0 = run(1.0, 1.0, True)
	close(Q0.T @ A @ Q0, np.diag(a0) + np.diag(b0, 1) + np.diag(b0, -1), 100 * n**2 * eps, "projection of the operator")
	for basis in (True, False):
		a, b, Q = run(s, t, basis)
		what = f"with the operator scaled by {s:.3g} and the vector by {t:.3g}"
		tol = 500 * n**2 * eps
		close(a, a0, tol, "diagonal " + what)
		close(b, b0, tol, "subdiagonal " + what)
		if basis:
			close(Q, Q0, tol, "basis " + what)
	if n > 1:
		w0 = np.sort(arr(call(P.lanczos.rayleigh_ritz, op(1.0), v0=v.astype(dt), **kw), (n,)).astype(float))
		w = np.sort(arr(call(P.lanczos.rayleigh_ritz, op(s), v0=(v * t).astype(dt), **kw), (n,)).astype(float) / s)
		close(w, w0, 500 * n**2 * eps, "Ritz values " + what)
	c.mark(n > 1 and max(abs(np.log10(s)), abs(np.log10(t))) > 0.5 * RANGE[dt])
	c.label(dt, case["which"])


def make(case):
	n, dt, A, v, s, t, op, eps, orth = setup(case)
	fun = {"identity": None, "abs": np.abs, "user": lambda x: 2 * np.abs(x) - x}[case["fun"]]  # homogeneous
	lam, U = np.linalg.eigh(A)
	f = {"identity": lam, "abs": np.abs(lam), "user": 2 * np.abs(lam) - lam}[case["fun"]]
	M = call(P.operators.MatrixFunction, op(s), fun, deg=max(n, 2), orth=orth, dtype=np.dtype(dt))
	return n, dt, v, s, t, M, (U * f) @ U.T, eps


def product(case, c):
	n, dt, v, s, t, M, F, eps = make(case)
	R = RANGE[dt]
	if abs(np.log10(s) + np.log10(t)) > R:
		t = 1.0
	y = arr(np.ravel(call(M.matvec, (v * t).astype(dt))), (n,)).astype(float)
	close(y / s / t, F @ v, 500 * n**2 * eps, f"product with the operator scaled by {s:.3g} and the vector by {t:.3g}")
	c.mark(n > 1 and max(abs(np.log10(s)), abs(np.log10(t))) > 0.5 * R)
	c.label(dt, case["which"])


def form(case, c):
	n, dt, v, s, t, M, F, eps = make(case)
	# forms are double precision whatever the precision of the operator: only those out of that range are left out
	if max(abs(np.log10(s) + 2 * np.log10(t)), abs(2 * np.log10(t))) > 285:
		t = 2.0 ** int(np.log2(t) / 2 if s == 1 else 0)
	X = np.column_stack([v, -2 * v, v[::-1]]) * t
	y = arr(call(M.quad, X.astype(dt)), (3,)).astype(float)
	w = v[::-1]
	ref = np.array([v @ F @ v, 4 * v @ F @ v, w @ F @ w])
	close((y / s / t / t)[:2], ref[:2], 500 * n**2 * eps, f"quadratic form with the operator scaled by {s:.3g} and the vector by {t:.3g}")
	c.mark(n > 1 and max(abs(np.log10(s)), abs(np.log10(t))) > 0.4 * RANGE[dt])
	c.label(dt, case["which"])


E0 = {"n": 6, "seed": 1, "dt": "f4", "ve": -0.8, "ae": 0.0, "which": "v", "op": 0, "fun": "abs", "part": False}
RUNS = {"C14": coefficients, "C16": product, "C17": form}


def sub(prop):
	return Sub("extreme", s_case, RUNS[prop], quick=120, thorough=4000, shards=1, examples=[E0, {**E0, "ve": 0.8}, {**E0, "dt": "f8", "ve": -0.9}, {**E0, "dt": "f8", "ve": 0.9}, {**E0, "which": "A", "ae": 0.8}, {**E0, "which": "A", "ae": 0.9, "dt": "f8"}])
