"""C01: running mean and covariance equal the batch statistics under any batching."""
import numpy as np
from core import Sub, check, close, arr, num, call
from lib import P, strategies, rng, sizes
from big import sub as big_sub
from many import sub as many_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Data sets are drawn as rows*dim real matrices (explicit small values, or normal data of a drawn seed times a spread plus an offset), "
        "split into batches (some empty) at drawn positions and fed as scalars, 1-d or 2-d arrays; after every batch count, mean and covariance (ddof 0, 0.5, 1, 1.5, 2 and one less than the count) are "
        "compared with two-pass statistics in extended precision; integer, Boolean and single-precision data of the full range of their type, also mixed; everything read is compared with itself again at the end. Non-trivial: at least two batches of which one has two or more rows.")


def make(case):
	if "rows" in case:
		X = np.array(case["rows"], dtype=float).reshape(-1, case["dim"])
	else:
		X = rng(case["seed"]).normal(size=(case["n"], case["dim"]))
		X = X * np.array([case["spread"] * (1 + j) for j in range(case["dim"])]) + case["offset"]
	return X


def strategy():
	st = strategies()

	@st.composite
	def s(draw):
		dim = draw(st.integers(1, 5))
		n = draw(st.integers(1, 30))
		c = {"dim": dim, "n": n}
		large = draw(sizes(0, 3, 4)) == 4
		if large:
			c["dim"], c["n"] = dim, n = draw(st.integers(1, 24)), draw(sizes(31, 1500, 12000))
		if not large and draw(st.booleans()):
			v = st.one_of(st.integers(-4, 4).map(float), st.floats(-1e6, 1e6, allow_nan=False, width=32))
			c["rows"] = draw(st.lists(v, min_size=n * dim, max_size=n * dim))
		else:
			c["seed"] = draw(st.integers(0, 10**6))
			c["spread"] = draw(st.sampled_from([1e-8, 1e-3, 1.0, 1e5]))
			c["offset"] = c["spread"] * draw(st.sampled_from([0.0, 1.0, -30.0, 1e4, -1e6, 1e8]))
		c["cuts"] = sorted(draw(st.sets(st.integers(1, n), max_size=8)))
		c["empty"] = draw(st.sampled_from([[], [], [0], [1], [0, 1, 2]]))
		c["form"] = draw(st.sampled_from(["2d", "natural", "list"]))
		c["perm"] = draw(st.booleans())
		return c
	return s()


def feed(tr, B, form, dim):
	if form == "natural" and dim == 1:
		B = float(B[0, 0]) if len(B) == 1 else B[:, 0]
	elif form == "list":
		B = B.tolist() if dim > 1 else B[:, 0].tolist()
	before = np.array(B, copy=True)
	call(tr.update, B)
	check(np.array_equal(before, np.asarray(B)), "update modified its input")


def compare(X, m, mean, cov, c, msg, eps=np.finfo(float).eps):
	"""m: number of rows so far. Reference: two-pass, extended precision."""
	L = X[:m].astype(np.longdouble)
	mu = L.mean(axis=0)
	D = L - mu
	scale = np.abs(X[:m]).max(axis=0) + 1e-300
	spread = np.sqrt((D**2).mean(axis=0)).astype(float)
	tol_mu = 16 * eps * m * scale
	close(mean, mu.astype(float), tol_mu, msg + "mean")
	S = (D.T @ D).astype(float)
	# error of a stable one-pass update: rounding of the data (eps*scale) against the spread, plus its square
	e = 16 * eps * m * scale
	t1 = spread + e
	tolS = 8 * m * (np.outer(t1, e) + np.outer(e, t1)) + 64 * eps * m * np.outer(spread, spread) * m
	for ddof, got in cov.items():
		if m - ddof <= 0:
			g = arr(got, name=msg + f"covariance(ddof={ddof})")
			check(np.all(np.isinf(g)) and np.all(g > 0), "{}covariance must be infinite with {} rows and ddof={}: {}", msg, m, ddof, got)
		else:
			d = X.shape[1]
			g = arr(got, () if d == 1 else (d, d), name=msg + f"covariance(ddof={ddof})").reshape(d, d)
			close(g, S / (m - ddof), tolS / (m - ddof), msg + f"covariance(ddof={ddof}) after {m} rows")


def run_stream(case, c):
	X = make(case)
	n, dim = X.shape
	cuts = [k for k in case["cuts"] if k < n] + [n]
	M, C = (P.stats.Mean(), P.stats.Covariance()) if dim == 1 and len(X) % 2 else (P.stats.Mean(dim), P.stats.Covariance(dim))
	for tr in (M, C):
		for f in (tr.mean,):
			check(np.all(np.isnan(arr(f()))), "mean before any data is not NaN")
	check(np.all(np.isnan(arr(M()))), "mean before any data is not NaN")
	check(np.all(np.isinf(arr(C.covariance()))), "covariance before any data is not infinite")
	a, kept = 0, []
	for i, k in enumerate(cuts):
		B = X[a:k]
		if i in case.get("empty", ()):
			for tr in (M, C):
				call(tr.update, np.zeros((0, dim)) if dim > 1 or i else [])
				check(tr.n == a, "count is {} after {} rows and an empty batch", tr.n, a)
		for tr in (M, C):
			feed(tr, B, case["form"], dim)
			check(tr.n == k, "count is {} after {} rows", tr.n, k)
		shape = () if dim == 1 else (dim,)
		got = [arr(f(), shape).reshape(dim) for f in (M, M.mean, C.mean)]
		cov = {0: C.covariance(ddof=0), 1: C.covariance(), 2: C(ddof=2), 0.5: C(ddof=0.5), 1.5: C.covariance(1.5), k - 1: C(ddof=k - 1)}
		kept += [(r, np.array(r, copy=True)) for r in [M(), M.mean(), C.mean(), *cov.values()]]
		for g in got:
			compare(X, k, g, cov, c, "")
		a = k
	for r, snap in kept:
		check(np.array_equal(np.asarray(r), snap, equal_nan=True), "a statistic read earlier was changed by later updates: {} was {}", r, snap)
	c.mark(len(cuts) >= 2 and max(np.diff([0] + cuts)) >= 2)
	c.label("offset" if case.get("offset") else "centred", f"dim{dim}", case["form"])


def run_assoc(case, c):
	"""Metamorphic: one batch, single rows and permuted rows give the same statistics."""
	X = make(case)[:1500]
	n, dim = X.shape
	outs = []
	for mode in ("one", "rows", "perm"):
		C = P.stats.Covariance(dim)
		Y = X if mode != "perm" else X[rng(case["n"]).permutation(n)]
		for B in ([Y] if mode == "one" else [Y[i : i + 1] for i in range(n)]):
			call(C.update, B)
		outs.append((arr(C.mean()).reshape(dim), C.covariance(ddof=0)))
	for mu, cov in outs:
		compare(X, n, mu, {0: cov}, c, "")
	c.mark(n >= 3)


TYPES = {"i1": 2**7, "u1": 2**8, "i2": 2**15, "u2": 2**16, "i4": 2**31, "u4": 2**32, "i8": 2**40, "?": 2, "f4": 1}


def s_types():
	st = strategies()
	return st.fixed_dictionaries({"dim": st.integers(1, 4), "n": sizes(2, 20, 300), "seed": st.integers(0, 10**6), "types": st.lists(st.sampled_from(list(TYPES)), min_size=1, max_size=4), "cuts": st.lists(st.integers(1, 19), max_size=4), "low": st.booleans(), "offset": st.sampled_from([0, 0, 10.0, 1e3])})


def run_types(case, c):
	"""Batches of any real data type, also of different ones."""
	dim, n, g = case["dim"], case["n"], rng(case["seed"])
	cuts = sorted({0, n} | {k for k in case["cuts"] if k < n})
	M, C, seen, eps = P.stats.Mean(dim), P.stats.Covariance(dim), np.zeros((0, dim)), np.finfo(float).eps
	for i, (a, b) in enumerate(zip(cuts, cuts[1:])):
		dt = case["types"][i % len(case["types"])]
		if dt == "f4":
			B, eps = (g.normal(size=(b - a, dim)) + case["offset"]).astype("f4"), np.finfo("f4").eps
		else:
			top = TYPES[dt]
			lo = -top if dt[0] == "i" else 0
			B = g.integers(lo, top, size=(b - a, dim)) if not case["low"] else g.choice([lo, top - 1, 0, 1], size=(b - a, dim))
			B = B.astype(dt)
		seen = np.concatenate([seen, B.astype(float)])
		snap = B.copy()
		for t in (M, C):
			call(t.update, B if dim > 1 or i % 2 else B[:, 0])
			check(t.n == len(seen), "count is {} after {} rows", t.n, len(seen))
		check(np.array_equal(B, snap), "update modified its input")
		for m in (M.mean(), C.mean()):
			compare(seen, len(seen), arr(m).reshape(dim), {0: C.covariance(ddof=0), 1: C.covariance()}, c, f"data of type {dt}: ", eps)
	c.mark(len(cuts) > 2)
	c.label(*case["types"])


def reject_cases():
	st = strategies()
	return st.fixed_dictionaries({"dim": st.integers(1, 4), "cols": st.integers(1, 5), "n": st.integers(1, 4), "pre": st.integers(0, 3)})


def run_shape(case, c):
	"""Rows of another dimension are rejected and change nothing."""
	dim, cols = case["dim"], case["cols"]
	if cols == dim:
		cols = dim + 1
	for T in (P.stats.Mean, P.stats.Covariance):
		t = T(dim)
		if case["pre"]:
			t.update(np.arange(float(case["pre"] * dim)).reshape(case["pre"], dim))
		m0 = np.array(t.mean(), copy=True)
		try:
			t.update(np.ones((case["n"], cols)))
			check(False, "rows of dimension {} accepted by a tracker of dimension {}", cols, dim)
		except AssertionError:
			pass
		except ValueError:
			pass
		check(t.n == case["pre"] and np.array_equal(m0, np.asarray(t.mean()), equal_nan=True), "a rejected batch changed the tracker")
	c.mark()


SUBS = [
	Sub("stream", strategy, run_stream, quick=700, thorough=30000, shards=3, examples=[
		{"dim": 1, "n": 6, "seed": 3, "spread": 1.0, "offset": 1e8, "cuts": [1, 3], "form": "2d", "perm": False},
		{"dim": 3, "n": 9, "seed": 3, "spread": 1e-3, "offset": 1e5, "cuts": [2, 3, 7], "form": "2d", "perm": False}]),
	Sub("regroup", strategy, run_assoc, quick=300, thorough=10000),
	Sub("types", s_types, run_types, quick=150, thorough=5000, shards=1, examples=[{"dim": 1, "n": 8, "seed": 1, "types": [t], "cuts": [3], "low": True, "offset": 0} for t in TYPES]),
	Sub("shape", reject_cases, run_shape, quick=60, thorough=500),
]
SUBS.append(reuse_sub("C01"))
SUBS.append(big_sub("C01"))
SUBS.append(many_sub("C01"))
