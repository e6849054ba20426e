"""C18: the matrix-free Toeplitz operator equals the dense Toeplitz matrix."""
import numpy as np
from core import Sub, check, close, same, arr, call, rejects
from lib import P, strategies, rng
from reuse import sub as reuse_sub
from props.c17 import layout, LAYOUTS

NEEDS = []
RULE = ("first columns and optional first rows of length 1..40 (some up to 1000) with normal, integer, banded, constant, alternating, widely graded and zero entries, also integer and single-precision arrays and lists, column and row of the same or of different types, in both precisions; up to eight products of every form (vector, column, block, integer, strided, wrong length) on the same operator. "
        "Oracle: dense matrix built entry by entry; earlier results compared with their copies after every later product. Non-trivial: size two or more and a non-symmetric matrix or several products.")
ENTRIES = ["normal", "normal", "ints", "banded", "const", "alternating", "graded", "zero", "decay"]


def entries(kind, n, seed):
	g = rng(seed)
	if kind == "ints":
		return g.integers(-5, 6, size=n).astype(float)
	if kind == "banded":
		return np.where(np.arange(n) < 2, g.normal(size=n), 0.0)
	if kind == "const":
		return np.full(n, 1.5)
	if kind == "alternating":
		return (-1.0) ** np.arange(n)
	if kind == "graded":
		return 10.0 ** g.uniform(-8, 8, size=n) * g.choice([-1, 1], size=n)
	if kind == "zero":
		return np.zeros(n)
	if kind == "decay":
		return 0.5 ** np.arange(n)
	return g.normal(size=n)


def dense(c, r):
	n = len(c)
	T = np.empty((n, n))
	for i in range(n):
		for j in range(n):
			T[i, j] = c[i - j] if i >= j else r[j - i]
	return T


def s_case():
	st = strategies()
	op = st.fixed_dictionaries({"what": st.sampled_from(["vec", "vec", "col", "block", "int", "strided", "e", "zero", "bad", "matvec", "badcol", "float32", "empty"]), "seed": st.integers(0, 10**6), "k": st.integers(1, 4), "lay": st.sampled_from(LAYOUTS), "exp": st.sampled_from([0, 0, 6, -6])})
	return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 40), st.integers(1, 40), st.sampled_from([64, 97, 128, 150])), "c": st.sampled_from(ENTRIES), "r": st.sampled_from([None, None, "near"] + ENTRIES), "scale": st.sampled_from([0, 0, 0, -9, -30, 30, -120]), "seed": st.integers(0, 10**6), "dt": st.sampled_from(["f8", "f8", "f4", None]),
	                              "cdt": st.sampled_from(["f8", "f8", "f4", "i8", "list", "i8f8", "f8i8", "f4f8", "f8f4", "listf8", "f8list"]), "corner": st.booleans(), "ops": st.lists(op, min_size=1, max_size=8)})


def run(case, c):
	n, dt = case["n"], np.dtype(case["dt"] or "f8")
	col = entries(case["c"], n, case["seed"])
	if case["r"] == "near":  # almost symmetric
		row = col * (1 + 1e-6 * rng(case["seed"] + 1).normal(size=n))
	else:
		row = None if case["r"] is None else entries(case["r"], n, case["seed"] + 1)
	if case["cdt"] in ("f8", "list") and (dt == np.float64 or abs(case.get("scale", 0)) < 20):
		col = col * 10.0 ** case.get("scale", 0)
		row = None if row is None else row * 10.0 ** case.get("scale", 0)
	if row is not None and not case["corner"]:
		row[0] = col[0]
	two = {"i8f8": ("i8", "f8"), "f8i8": ("f8", "i8"), "f4f8": ("f4", "f8"), "f8f4": ("f8", "f4")}.get(case["cdt"])  # column and row of different types
	if two:
		col = np.clip(col, -1e6, 1e6).astype(two[0])
		row = None if row is None else np.clip(row, -1e6, 1e6).astype(two[1])
	if case["cdt"] in ("f4", "i8"):
		col = np.clip(col, -1e6, 1e6).astype(case["cdt"])
		row = None if row is None else np.clip(row, -1e6, 1e6).astype(case["cdt"])
	carg, rarg = (col.copy(), None if row is None else row.copy()) if case["cdt"] != "list" else (col.tolist(), None if row is None else row.tolist())
	if case["cdt"] == "listf8":
		carg = col.tolist()
	if case["cdt"] == "f8list" and row is not None:
		rarg = row.tolist()
	kw = {} if case["dt"] is None else {"dtype": dt}
	T = call(P.operators.Toeplitz, carg, rarg, **kw) if rarg is not None else call(P.operators.Toeplitz, carg, **kw)
	D = dense(col.astype(float), (col if row is None else row).astype(float))
	check(tuple(T.shape) == (n, n), "shape {}", T.shape)
	check(np.dtype(T.dtype) == dt, "dtype {}", T.dtype)
	big = np.linalg.norm(D[0]) + np.linalg.norm(D[:, 0])
	eps = 2.3e-16 if dt == np.float64 else 2.4e-7
	tol = lambda x: (50 * 2.3e-16 + 4 * eps) * (1 + np.log2(n)) * np.sqrt(n) * big * np.linalg.norm(x)
	past = []
	for o in case["ops"]:
		w, g, k = o["what"], rng(o["seed"]), o["k"]
		x = g.normal(size=n) * 10.0 ** o["exp"]
		what = f"{w} product (n={n}, {dt}) after {len(past)} products"
		if w == "bad":
			m = n + k if o["seed"] % 2 or n <= k else n - k
			rejects(lambda: T @ np.ones(m), what=f"vector of length {m} for size {n}")
			rejects(T.matvec, np.ones(m), what=f"vector of length {m} for size {n}")
			continue
		if w == "badcol":
			rejects(lambda: T @ np.ones((n + k, 1)), what=f"column of length {n + k} for size {n}")
			rejects(lambda: T @ np.ones((n + k, 2)), what=f"block of length {n + k} for size {n}")
			continue
		if w == "empty":
			continue
		if w == "block":
			x = layout(np.column_stack([x] + [g.normal(size=n) for _ in range(k - 1)]), o["lay"])
		elif w == "col":
			x = layout(x[:, None], o["lay"])
		elif w == "int":
			x = g.integers(-9, 10, size=n)
		elif w == "strided":
			x = np.repeat(x, 3)[::3] if o["seed"] % 2 else x[::-1]
		elif w == "e":
			x = np.zeros(n)
			x[int(g.integers(0, n))] = 10.0 ** o["exp"]
		elif w == "zero":
			x = np.zeros(n)
		elif w == "float32":
			x = x.astype("f4")
		x0 = x.copy()
		y = call(T.matvec, x) if w == "matvec" else call(lambda: T @ x)
		check(getattr(y, "dtype", None) == dt, "dtype {} of the product", getattr(y, "dtype", None))
		ref = D @ x.astype(float)
		close(arr(y, ref.shape), ref, tol(x.astype(float)), what)
		same(x, x0, f"{what} modified its input")
		for z, snap in past:
			same(z, snap, f"{what} altered an earlier result")
		past.append((y, np.array(y, copy=True)))
	if case["cdt"] == "list":
		check(carg == col.tolist() and (row is None or rarg == row.tolist()), "defining lists were modified")
	else:
		same(np.asarray(carg), col, "the first column was modified")
		if row is not None:
			same(np.asarray(rarg), row, "the first row was modified")
	if len(past) > 1:
		y = arr(call(lambda: (2.0 * T) @ np.ones(n)), (n,))
		close(y, 2 * D @ np.ones(n), 2 * tol(np.ones(n)), "multiple")
		close(arr(call(lambda: (T + T) @ np.ones(n)), (n,)), y, 4 * tol(np.ones(n)), "sum")
	c.mark(n >= 2 and (row is not None or len(past) > 1))
	c.label(case["c"], "row " + str(case["r"]), str(dt), *[o["what"] for o in case["ops"]])


def s_big():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(100, 1000), "seed": st.integers(0, 10**6), "row": st.booleans(), "k": st.integers(1, 5)})


def run_big(case, c):
	import scipy.linalg as sl
	n, g = case["n"], rng(case["seed"])
	col, row = g.normal(size=n), g.normal(size=n)
	T = call(P.operators.Toeplitz, col, row) if case["row"] else call(P.operators.Toeplitz, col)
	D = sl.toeplitz(col, row if case["row"] else col)
	X = g.normal(size=(n, case["k"]))
	close(arr(call(lambda: T @ X), X.shape), D @ X, 1e-13 * np.sqrt(n) * np.linalg.norm(col) * np.linalg.norm(X) * 10, f"block product (n={n})")
	c.mark()


def O(w, s=3, k=2, lay="c", exp=0):
	return {"what": w, "seed": s, "k": k, "lay": lay, "exp": exp}


T0 = {"n": 5, "c": "normal", "r": "normal", "seed": 1, "dt": "f8", "cdt": "f8", "corner": False, "ops": [O("vec"), O("block"), O("vec", 5)]}
SUBS = [
	Sub("products", s_case, run, quick=400, thorough=20000, shards=4, examples=[T0, {**T0, "n": 1}, {**T0, "r": None, "dt": None}, {**T0, "dt": "f4"}, {**T0, "n": 2, "corner": True, "ops": [O("bad"), O("vec"), O("col")]}, {**T0, "cdt": "i8", "c": "ints", "r": "ints"}]),
	Sub("large", s_big, run_big, quick=30, thorough=1500, shards=2),
]
SUBS.append(reuse_sub("C18"))
