"""C09: random symmetric and Haar matrices have the prescribed spectrum."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, strategies, rng, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Sizes 1..25 (one in five up to 90), both entry distributions and the Haar generator, positive-definite or not, prescribed eigenvalues (distinct, repeated, zero, negative, graded, all equal) or none, "
        "integer and generator seeds; up to 90 seeds at regular distances up to 2^32 must give different matrices. Symmetry and eigenvalues (dense solver) are compared with the prescription; seeds by bitwise comparison. Non-trivial: size two or more.")


def strategy():
	st = strategies()

	@st.composite
	def s(draw):
		n = draw(sizes(1, 25, 90))
		ew = draw(st.sampled_from(["none", "none", "draw", "draw", "normal", "graded", "equal", "zero", "repeated", "ints", "near", "nearequal", "small"]))
		c = {"n": n, "fun": draw(st.sampled_from(["normal", "uniform", "default", "haar"])), "pd": draw(st.booleans()), "ew": ew, "seed": draw(st.integers(0, 2**40)), "form": draw(st.sampled_from(["array", "list", "ints", "scalar"]))}
		if ew == "draw":
			c["n"] = n = min(n, 25)
			c["vals"] = draw(st.lists(st.one_of(st.integers(-3, 3).map(float), st.floats(-1e4, 1e4, allow_nan=False)), min_size=n, max_size=n))
		return c
	return s()


def prescribed(case):
	n, g = case["n"], rng(case["seed"])
	k = case["ew"]
	return {"none": lambda: None, "draw": lambda: np.array(case["vals"]), "normal": lambda: g.normal(size=n), "graded": lambda: 10.0 ** g.uniform(-9, 3, size=n) * g.choice([-1, 1], size=n), "equal": lambda: np.full(n, 2.5), "near": lambda: 1 + 10.0 ** g.choice([-7.0, -9, -11]) * np.arange(n), "nearequal": lambda: np.where(np.arange(n) == n // 2, -3 * (1 + 1e-8), -3.0), "small": lambda: 10.0 ** g.choice([-9.0, -30, -150]) * g.normal(size=n),
	        "zero": lambda: np.zeros(n), "repeated": lambda: g.choice([-1.0, 0.0, 2.0], size=n), "ints": lambda: g.integers(-4, 5, size=n).astype(float)}[k]()


def run(case, c):
	n, fun, pd = case["n"], case["fun"], case["pd"] and case["fun"] != "haar"
	ew = prescribed(case)
	arg = None if ew is None else float(ew[0]) if case["form"] == "scalar" and len(ew) == 1 else (ew.tolist() if case["form"] == "list" else ew.copy())
	R = P.random

	def gen(seed):
		kw = {} if arg is None else {"ew": arg}
		if fun == "haar":
			return call(R.haar, n, seed=seed, **kw)
		if fun != "default":
			kw["dist"] = fun
		if pd:
			kw["pd"] = True
		return call(R.symmetric, n, seed=seed, **kw)
	A = arr(gen(case["seed"]), (n, n), name="matrix")
	if ew is not None:
		same(np.atleast_1d(arg), ew, "the prescribed eigenvalues were modified")
	eps = np.finfo(float).eps
	w = np.sort(np.linalg.eigvalsh((A + A.T) / 2))
	if ew is None:
		scale = 1.0
		lo = 0.0 if pd else -1.0
		check(np.all(w >= lo - 100 * eps * n) and np.all(w <= 1 + 100 * eps * n), "eigenvalues in [{}, {}] without prescription (pd={})", w[0], w[-1], pd)
	else:
		scale = max(np.abs(ew).max(), 1e-300)
		want = np.sort(np.maximum(ew, 0.0) if pd else ew)
		close(w, want, 100 * eps * n * scale, f"eigenvalues ({fun}, pd={pd})")
	if fun == "haar":
		close(A, A.T, 100 * eps * n * scale, "Haar matrix is not symmetric")
	else:
		same(A, A.T, "matrix is not symmetric")
	if pd:
		check(w[0] >= -100 * eps * n * scale, "positive-definite matrix has eigenvalue {}", w[0])
	same(gen(case["seed"]), A, "the same seed gives another matrix")
	same(gen(np.random.default_rng(case["seed"])), A, "a generator seeded alike gives another matrix")
	if n >= 2 and (ew is None or np.ptp(np.maximum(ew, 0) if pd else ew) > 1e-12 * scale):
		check(not np.array_equal(gen(case["seed"] + 1), A), "another seed gives the same matrix")
		g = np.random.default_rng(case["seed"])
		check(not np.array_equal(gen(g), gen(g)), "successive matrices of one generator are equal")
		if n >= 3 and ew is not None:
			U = np.linalg.eigh((A + A.T) / 2)[1]
			check(np.max(np.abs(A - np.diag(np.diag(A)))) > 1e-9 * np.ptp(w) or np.ptp(w) < 1e-6 * scale, "matrix with different eigenvalues is diagonal")
	c.mark(n >= 2)
	c.label(fun, case["ew"], "pd" if pd else "indefinite")


def s_bad():
	st = strategies()
	return st.fixed_dictionaries({"dist": st.sampled_from(["gauss", "", "Normal", "rademacher"]), "n": st.integers(2, 5), "k": st.integers(1, 7)})


def run_bad(case, c):
	rejects(P.random.symmetric, case["n"], dist=case["dist"], what="unknown distribution")
	if case["k"] != case["n"]:
		rejects(P.random.haar, case["n"], ew=np.ones(case["k"]), what="wrong number of eigenvalues")
		if case["k"] != 1:
			rejects(P.random.symmetric, case["n"], ew=np.ones(case["k"]), what="wrong number of eigenvalues")
	c.mark()


def s_seeds():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(2, 5), "fun": st.sampled_from(["normal", "uniform", "haar", "haar"]), "ew": st.booleans(), "base": st.one_of(st.integers(0, 1000), st.integers(0, 2**70)), "step": st.sampled_from([1, 1, 2, 10, 256, 1000, 2**16, 2**32]), "k": st.integers(2, 90)})


def run_seeds(case, c):
	n, k = case["n"], case["k"]
	kw = {"ew": np.arange(1.0, n + 1)} if case["ew"] else {}
	seen = {}
	for s in [case["base"] + i * case["step"] for i in range(k)]:
		A = call(P.random.haar, n, seed=s, **kw) if case["fun"] == "haar" else call(P.random.symmetric, n, dist=case["fun"], seed=s, **kw)
		b = arr(A, (n, n)).tobytes()
		check(b not in seen, "seeds {} and {} give the same matrix", seen.get(b), s)
		seen[b] = s
	c.mark(k > 2)
	c.label(case["fun"])


SUBS = [Sub("spectrum", strategy, run, quick=400, thorough=15000, shards=3, examples=[
	{"n": 4, "fun": "default", "pd": True, "ew": "ints", "seed": 3, "form": "array"}, {"n": 1, "fun": "haar", "pd": False, "ew": "none", "seed": 3, "form": "array"}] + [{"n": 1, "fun": f, "pd": p, "ew": "normal", "seed": 3, "form": "scalar"} for f, p in (("normal", False), ("normal", True), ("haar", False))]),
	Sub("reject", s_bad, run_bad, quick=20, thorough=100, shards=1)]
SUBS.append(Sub("seeds", s_seeds, run_seeds, quick=60, thorough=2000, shards=1, examples=[{"n": 3, "fun": f, "ew": True, "base": 0, "step": 1, "k": 90} for f in ("normal", "haar")]))
SUBS.append(reuse_sub("C09"))
SUBS.append(big_sub("C09"))
