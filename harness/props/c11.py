"""C11: appending a column to a triangular inverse gives the inverse."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, strategies, rng, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Upper-triangular matrices built column by column (2..14 columns; small integers, normal entries, graded diagonals down to 1e-8, zero off-diagonals, the whole scaled by up to 1e+-60, rows and columns by powers of two up to 2^+-60; one in four in single precision) starting from the empty inverse; "
        "after every update the product with the extended matrix is compared with the identity relative to the condition (component-wise |B||B^-1| bound). Malformed calls must raise. Non-trivial: two updates or more.")


def strategy():
	st = strategies()
	return st.fixed_dictionaries({"n": sizes(1, 14, 70), "seed": st.integers(0, 10**6), "kind": st.sampled_from(["normal", "ints", "graded", "diag", "unit", "neg"]), "form": st.sampled_from(["1d", "col", "row", "view", "fortran"]), "exp": st.sampled_from([0, 0, 0, 3, -5, -12, 12, -20, 20, -60, 60]), "dt": st.sampled_from(["f8", "f8", "f8", "f4"]), "scaled": st.sampled_from([0, 0, 8, 25, 60])})


def upper(case):
	g, n = rng(case["seed"]), case["n"]
	k = case["kind"]
	B = np.triu(g.integers(-3, 4, size=(n, n)).astype(float) if k == "ints" else g.normal(size=(n, n)))
	d = {"normal": g.uniform(0.2, 3, size=n) * g.choice([-1, 1], size=n), "ints": g.choice([-2.0, -1.0, 1.0, 3.0], size=n), "graded": 10.0 ** g.uniform(-8, 4, size=n), "diag": g.uniform(0.1, 5, size=n), "unit": np.ones(n), "neg": -g.uniform(0.1, 5, size=n)}[k]
	B[np.arange(n), np.arange(n)] = d
	if k == "diag":
		B = np.diag(d)
	B = B * 10.0 ** case["exp"]
	if case.get("scaled"):
		# rows and columns scaled by powers of two: the problem, its solution and the bound all scale without rounding
		s = min(case["scaled"], 12) if case.get("dt") == "f4" else case["scaled"]
		B = np.ldexp(np.ldexp(B, g.integers(-s, s + 1, size=n)[None, :]), g.integers(-s, s + 1, size=n)[:, None])
	return B


def run(case, c):
	dt = case.get("dt", "f8")
	if dt == "f4":
		case = {**case, "exp": max(-5, min(5, case["exp"])), "n": min(case["n"], 12), "kind": "neg" if case["kind"] == "graded" else case["kind"]}  # keeps the inverse within the range of the type
	B = upper(case).astype(dt)
	n = len(B)
	f = P.linalg.update_trinv
	inv = np.zeros((0, 0), dtype=dt)
	eps = np.finfo(dt).eps
	for k in range(1, n + 1):
		col = B[:k, k - 1]
		arg = {"1d": lambda: col.copy(), "col": lambda: col.copy()[:, None], "row": lambda: col.copy(), "view": lambda: col, "fortran": lambda: np.asfortranarray(B)[:k, k - 1]}[case["form"]]()
		src = np.asfortranarray(inv) if case["form"] == "fortran" else inv
		i0, a0 = src.copy(), np.array(arg, copy=True)
		new = call(f, src, arg)
		same(src, i0, "the inverse passed in was modified")
		same(arg, a0, "the column passed in was modified")
		inv = new
		new = arr(new, (k, k), name="updated inverse").astype(float)
		M = B[:k, :k].astype(float)
		bound = 8 * eps * k * (np.abs(M) @ np.abs(new) @ np.abs(M) @ np.abs(new) + np.abs(M) @ np.abs(new))
		close(M @ new, np.eye(k), bound + 4 * eps * (np.eye(k) if case.get("scaled") else 1), f"extended matrix times updated inverse (step {k})")
		close(np.tril(new, -1), np.zeros((k, k)), 8 * eps * k * np.abs(new) @ np.abs(M) @ np.abs(new), "updated inverse is not upper triangular")
	c.mark(n >= 2)
	c.label(case["kind"], case["form"], dt)


def s_bad():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(0, 5), "m": st.integers(0, 5), "k": st.integers(1, 8), "dt": st.sampled_from(["f8", "f4"]), "dt2": st.sampled_from(["f8", "f4", "i8"])})


def run_bad(case, c):
	n, m, k = case["n"], case["m"], case["k"]
	f = P.linalg.update_trinv
	B = np.triu(np.ones((n, m), dtype=case["dt"]))
	b = np.ones(k, dtype=case["dt2"])
	if n == 0 and m == 0 and k == 1 and case["dt2"] == "i8" and case.get("ints"):
		B = B.astype(int)
		close(arr(call(f, B, 2 * b), (1, 1)), np.full((1, 1), 0.5), 0.0, "inverse of the integer 2")
	elif n == m and k == n + 1 and case["dt"] == case["dt2"]:
		arr(call(f, B, b), (n + 1, n + 1))
	else:
		rejects(f, B, b, what=f"inverse {B.shape} {B.dtype} with column {b.shape} {b.dtype}")
		c.mark()


SUBS = [Sub("update", strategy, run, quick=400, thorough=15000, examples=[{"n": 4, "seed": 1, "kind": "normal", "form": "1d", "exp": 0, "dt": "f4"}]),
	Sub("reject", s_bad, run_bad, quick=150, thorough=3000, shards=1, examples=[{"n": 0, "m": 0, "k": 1, "dt": "f8", "dt2": "i8", "ints": True}])]
SUBS.append(reuse_sub("C11"))
SUBS.append(big_sub("C11"))
