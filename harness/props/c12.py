"""C12: tridiagonal eigensolvers return the true eigen-decomposition."""
import importlib.util, os
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects, vio
from lib import P, strategies, rng, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub

from scipy.linalg import eigh_tridiagonal as REAL_EIGH, eigvalsh_tridiagonal as REAL_EIGVALSH

NEEDS = ["tqli", "fttr"]
RULE = ("Symmetric tridiagonal matrices of size 1..24 (one in five up to 120): explicit small values, normal, zero, split (zero couplings), repeated diagonal, graded over up to 16 decades, Wilkinson, glued, tiny couplings, scaled by 1e-200..1e200. "
        "Every solver method, with and without vectors, and with either form of the subdiagonal, is compared with a dense eigensolver; vectors by residual and orthonormality. The QL routine is run both "
        "as compiled and as Python source; the automatic method is also run with a LAPACK that reports no convergence. Non-trivial: size two or more with a nonzero coupling.")


def strategy():
	st = strategies()

	@st.composite
	def s(draw):
		n = draw(sizes(1, 24, 120))
		kind = draw(st.sampled_from(["explicit", "explicit", "normal", "zero_e", "split", "repeat", "graded", "graded_rev", "wilkinson", "glued", "tiny", "toeplitz", "zero_d", "ints", "diag_ints"]))
		c = {"n": n, "kind": kind, "seed": draw(st.integers(0, 10**6)), "exp": draw(st.sampled_from([0, 0, 0, 100, -100, 8, -8, 200, -200])), "neg": draw(st.booleans()), "f32": draw(st.booleans())}
		if kind == "explicit":
			c["n"] = n = min(n, 8)
			v = st.one_of(st.integers(-2, 2).map(float), st.sampled_from([1e-8, 1e8, -1e-3, 1e-16]), st.floats(-10, 10, allow_nan=False))
			c["d"], c["e"] = draw(st.lists(v, min_size=n, max_size=n)), draw(st.lists(v, min_size=n - 1, max_size=n - 1))
		return c
	return s()


def matrix(case):
	n, g, k = case["n"], rng(case["seed"]), case["kind"]
	d, e = g.normal(size=n), g.normal(size=max(n - 1, 0))
	if k == "explicit":
		d, e = np.array(case["d"], dtype=float), np.array(case["e"], dtype=float)
	elif k == "zero_e":
		e[:] = 0
	elif k == "split":
		e[g.random(len(e)) < 0.4] = 0
	elif k == "repeat":
		d = g.integers(0, 2, size=n).astype(float)
		e = g.integers(0, 2, size=n - 1).astype(float)
	elif k in ("graded", "graded_rev"):
		s = 10.0 ** np.linspace(0, -16 * g.random(), n)
		s = s[::-1] if k == "graded_rev" else s
		d, e = d * s, e * s[1:]
	elif k == "wilkinson":
		d, e = np.abs(np.arange(n) - (n - 1) / 2.0), np.ones(n - 1)
	elif k == "glued":
		h = max(n // 3, 1)
		d = np.abs(np.arange(n) % h - (h - 1) / 2.0)
		e = np.where((np.arange(1, n) % h) == 0, 1e-9, 1.0)
	elif k == "tiny":
		e *= 10.0 ** g.integers(-20, -3, size=n - 1)
	elif k == "toeplitz":
		d[:], e[:] = 2.0, -1.0
	elif k == "zero_d":
		d[:] = 0
	elif k == "diag_ints":
		d, e = g.integers(-3, 4, size=n).astype(float), np.zeros(max(n - 1, 0))
	elif k == "ints":
		d, e = g.integers(-3, 4, size=n).astype(float), g.integers(-3, 4, size=n - 1).astype(float)
	f = 10.0 ** case["exp"] * (-1 if case["neg"] else 1)
	return d * f, e * f


def dense(d, e):
	return np.diag(d) + np.diag(e, 1) + np.diag(e, -1)


def py_tqli():
	from boot import SRC
	sp = importlib.util.spec_from_file_location("tqli_source", os.path.join(SRC, "primate", "tqli.py") if os.path.exists(os.path.join(SRC, "primate", "tqli.py")) else os.path.join(SRC, "tqli.py"))
	m = importlib.util.module_from_spec(sp)
	sp.loader.exec_module(m)
	return m.tqli


def verify(T, nT, w, Z, msg, n, eps=np.finfo(float).eps):
	w = arr(w, (n,), name=msg + " eigenvalues")
	ref = np.linalg.eigvalsh(T / nT) * nT
	tol = 50 * eps * n * nT + 1e-300
	close(np.sort(w), ref, tol, msg + ": eigenvalues")
	if Z is not None:
		Z = arr(Z, (n, n), name=msg + " eigenvectors")
		close(Z.T @ Z, np.eye(n), 2000 * eps * n, msg + ": eigenvectors are not orthonormal")
		close((T / nT) @ Z, Z * (w / nT), 200 * eps * n, msg + ": vectors do not match the values")


def run(case, c):
	d, e = matrix(case)
	n = len(d)
	T = dense(d, e)
	nT = max(np.abs(T).sum(axis=1).max(), 1e-290)
	e0 = np.append([0.0], e)
	M = P.tridiag
	for method in ("mrrr", "tqli", "auto", None):
		kw = {} if method is None else {"method": method}
		for form, sub in (("n-1", e), ("n", e0)):
			a, b = d.copy(), sub.copy()
			r = call(M.eigh_tridiag, a, b, **kw)
			check(isinstance(r, tuple) and len(r) == 2, "eigh_tridiag returned {}", type(r))
			verify(T, nT, r[0], r[1], f"eigh_tridiag method={method} subdiagonal of length {form}", n)
			w = call(M.eigvalsh_tridiag, a, b, **kw)
			verify(T, nT, w, None, f"eigvalsh_tridiag method={method} subdiagonal of length {form}", n)
			same(a, d, "the diagonal was modified")
			same(b, sub, "the subdiagonal was modified")
			check(not np.shares_memory(np.asarray(w), a), "the result shares memory with the input")
	if case["f32"] and case["exp"] == 0:
		d4, e4 = d.astype(np.float32), e.astype(np.float32)
		T4 = dense(d4.astype(float), e4.astype(float))
		n4 = max(np.abs(T4).sum(axis=1).max(), 1e-30)
		for method in ("mrrr", "auto", "tqli"):
			w, Z = call(M.eigh_tridiag, d4, e4, method=method)
			if n4 > 1e-6:
				verify(T4, n4, np.asarray(w, dtype=float), Z, f"single precision method={method}", n, eps=float(np.finfo(np.float32).eps))
			if n4 > 1e-6:
				verify(T4, n4, np.asarray(call(M.eigvalsh_tridiag, d4, e4, method=method), dtype=float), None, f"single precision values method={method}", n, eps=float(np.finfo(np.float32).eps))
	for method in ("mrrr", "auto", "tqli"):
		# other memory layouts, and integer arrays where the values are integers
		views = [("strided", np.repeat(d, 2)[::2], np.repeat(e, 3)[::3]), ("reversed", d[::-1].copy()[::-1], e[::-1].copy()[::-1])]
		if np.all(np.abs(T) < 1e6) and np.all(T == np.round(T)):
			views.append(("integer", d.astype(int), e.astype(int)))
		for form, a, b in views:
			w, Z = call(M.eigh_tridiag, a, b, method=method)
			verify(T, nT, w, Z, f"{form} arrays method={method}", n)
			verify(T, nT, call(M.eigvalsh_tridiag, a, b, method=method), None, f"{form} arrays, values, method={method}", n)
			same(a, d.astype(a.dtype), "the diagonal was modified")
			same(b, e.astype(b.dtype), "the subdiagonal was modified")
	for name, fn in (("compiled", P.tqli.tqli), ("source", py_tqli())):
		with np.errstate(all="ignore"):
			for vec in (False, True):
				a, b = d.copy(), e0.copy()
				Z = np.eye(n) if vec else np.empty((0, 0))
				call(fn, a, b, Z, 30)
				verify(T, nT, a, Z if vec else None, f"tqli ({name}, vectors {vec})", n)
				close(b, np.zeros(n), 4 * np.finfo(float).eps * nT, f"tqli ({name}) leaves a nonzero subdiagonal")
			a, b, Z = d.copy(), e0.copy(), np.eye(n)
			call(fn, a, b, Z, 0)  # no sweeps allowed: must return
	c.mark(n >= 2 and np.any(e != 0))
	c.label(case["kind"], f"scale1e{case['exp']}")


def run_fallback(case, c):
	"""LAPACK's solver may fail to converge; the automatic method still returns the decomposition."""
	import scipy.linalg as sl
	d, e = matrix(case)
	n = len(d)
	T = dense(d, e)
	nT = max(np.abs(T).sum(axis=1).max(), 1e-290)
	M, calls = P.tridiag, [0]
	M.eigh_tridiag

	def fail(*a, **k):
		calls[0] += 1
		raise np.linalg.LinAlgError("injected: no convergence")
	undo = []
	for mod in (sl, M):
		for k, v in list(vars(mod).items()):
			if v in (REAL_EIGH, REAL_EIGVALSH) if callable(v) else False:
				undo.append((mod, k, v))
				setattr(mod, k, fail)
	try:
		for sub in (e, np.append([0.0], e)):
			a, b = d.copy(), sub.copy()
			w, Z = call(M.eigh_tridiag, a, b)
			verify(T, nT, w, Z, "eigh_tridiag after a failure of LAPACK", n)
			verify(T, nT, call(M.eigvalsh_tridiag, a, b), None, "eigvalsh_tridiag after a failure of LAPACK", n)
			same(a, d, "the diagonal was modified")
			same(b, sub, "the subdiagonal was modified")
	finally:
		for mod, k, v in undo:
			setattr(mod, k, v)
	c.mark(calls[0] > 0 and n >= 2 and np.any(e != 0))


def s_bad():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(1, 6), "k": st.integers(0, 9), "method": st.sampled_from(["qr", "", "RRR", "lapack"])})


def run_bad(case, c):
	n, k = case["n"], case["k"]
	M = P.tridiag
	d, e = np.arange(1.0, n + 1), np.zeros(n)
	for f in (M.eigh_tridiag, M.eigvalsh_tridiag):
		rejects(f, d, e, method=case["method"], what=f"unknown method {case['method']!r}")
		if k not in (n, n - 1):
			rejects(f, d, np.zeros(k), what=f"diagonal of length {n} with subdiagonal of length {k}")
	c.mark()


E0 = {"seed": 1, "exp": 0, "neg": False, "f32": False}
SUBS = [
	Sub("decomposition", strategy, run, quick=300, thorough=12000, shards=4, examples=[
		{**E0, "n": 3, "kind": "explicit", "d": [0.0, 0.0, 0.0], "e": [6.3e-05, -2.4e6]}, {**E0, "n": 2, "kind": "explicit", "d": [0.0, 0.0], "e": [1.0]}, {**E0, "n": 1, "kind": "normal"},
		{**E0, "n": 3, "kind": "explicit", "d": [1.0, 1.0, 1.0], "e": [-1.0, -1.0]}, {**E0, "n": 9, "kind": "wilkinson"}, {**E0, "n": 10, "kind": "graded"}, {**E0, "n": 4, "kind": "zero_e"}]),
	Sub("fallback", strategy, run_fallback, quick=60, thorough=2000, shards=1),
	Sub("reject", s_bad, run_bad, quick=60, thorough=500, shards=1),
]
SUBS.append(reuse_sub("C12"))
SUBS.append(big_sub("C12"))
