"""C07: isotropic vectors have the promised support, scale, shape and moments."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, strategies, rng
from big import sub as big_sub

NEEDS = []
RULE = ("Drawn sizes (integers, NumPy integers, shapes of one to three dimensions, empty ones), distributions and aliases, integer and generator seeds. Support, norms and shapes are checked for every "
        "entry; the ways of asking (direct, sampler, alias, output array, column by column, split requests) are compared bitwise; a generator stand-in returns the extreme values of the uniform stream. Moments: at least 20000 columns per case, all first and second "
        "moments of the entries (within a column and between neighbouring columns) within 7 standard errors. Non-trivial: at least two columns and two rows.")

NAMES = {"rademacher": "rademacher", "signs": "rademacher", "normal": "normal", "gaussian": "normal", "sphere": "sphere"}
ALIAS = {"rademacher": ["rademacher", "signs"], "normal": ["normal", "gaussian"], "sphere": ["sphere"]}


def support(W, kind, msg):
	W2 = W.reshape(W.shape[0], -1) if W.ndim > 1 else W[:, None]
	eps = np.finfo(W.dtype).eps
	check(np.all(np.isfinite(W2)), msg + "entries are not finite")
	if kind == "rademacher":
		check(np.all((W2 == 1.0) | (W2 == -1.0)), msg + "rademacher entries other than -1, +1: {}", W2[(W2 != 1) & (W2 != -1)][:3])
	elif kind == "sphere" and W2.size:
		nr = np.sqrt((W2.astype(float) ** 2).sum(axis=0))
		close(nr, np.full(W2.shape[1], np.sqrt(W2.shape[0])), 32 * eps * W2.shape[0] ** 0.5 * np.sqrt(W2.shape[0]), msg + "norm of sphere columns")


def s_support():
	st = strategies()
	shape = st.one_of(st.tuples(st.integers(1, 40), st.integers(0, 40)).map(list), st.tuples(st.sampled_from([1, 2, 3, 5, 100, 1000]), st.sampled_from([1, 2, 33, 64])).map(list))
	return st.fixed_dictionaries({"size": shape, "mode": st.sampled_from(["tuple", "tuple", "int", "np_int", "one_d", "list", "three", "three_one"]), "pdf": st.sampled_from(sorted(NAMES)), "seed": st.integers(0, 2**40), "gen": st.booleans()})


def run_support(case, c):
	iso = P.random.isotropic
	n, m = case["size"]
	mode, pdf, kind = case["mode"], case["pdf"], NAMES[case["pdf"]]
	size, shape = {"tuple": ((n, m), (n, m)), "int": (n, (n, 1)), "np_int": (np.int64(n), (n, 1)), "one_d": ((n,), (n,)), "list": ((n, m), (n, m)), "three": ((n, min(m, 5), 3),) * 2, "three_one": ((n, min(m, 5), 1),) * 2}[mode]
	mk = (lambda: np.random.default_rng(case["seed"])) if case["gen"] else (lambda: case["seed"])
	W = call(iso, size, pdf=pdf, seed=mk())
	W = arr(W, shape, dtype=W.dtype, name="vectors")
	check(W.dtype == np.float64, "dtype {}", W.dtype)
	support(W, kind, f"isotropic({size}, {pdf!r}): ")
	for al in ALIAS[kind]:
		same(call(iso, size, pdf=al, seed=mk()), W, f"alias {al!r} of {pdf!r} gives other values for the same seed")
		same(call(call(iso, None, pdf=al, seed=mk()), size), W, "the returned sampler gives other values for the same seed")
		same(call(call(iso, pdf=al, seed=mk()), size=size), W, "the returned sampler called with size= gives other values")
	if kind == "rademacher":
		same(call(iso, size, seed=mk()), W, "the default distribution is not rademacher")
	m = shape[1] if len(shape) == 2 else 0
	order = "F" if len(shape) >= 2 else "C"
	out = np.full(shape, np.nan, order=order)
	r = call(iso, pdf=pdf, seed=mk(), out=out)
	check(r is None or r is out, "filling an output array returned {}", type(r))
	same(out, W, "the output array receives other values for the same seed")
	if len(shape) == 2 and m > 0:
		outc = np.full(shape, np.nan, order="C")
		call(iso, pdf=pdf, seed=mk(), out=outc)
		support(outc, kind, "row-major output array: ")
		view = np.full((n, m + 2), 7.0, order="F")
		call(iso, pdf=pdf, seed=mk(), out=view[:, 1 : m + 1])
		same(view[:, 1 : m + 1], W, "columns of a larger output array receive other values")
		check(np.all(view[:, 0] == 7.0) and np.all(view[:, -1] == 7.0), "entries outside the output array were written")
	out32 = np.zeros(shape, dtype=np.float32, order=order)
	call(iso, pdf=pdf, seed=mk(), out=out32)
	support(out32, kind, "single precision output: ")
	if W.size >= 64 and n >= 2:
		check(not np.array_equal(W, call(iso, size, pdf=pdf, seed=case["seed"] + 1)), "another seed gives the same values")
		s = iso(None, pdf=pdf, seed=mk())
		check(not np.array_equal(s(size), s(size)), "successive draws of a sampler are equal")
	if not case["gen"]:
		same(call(iso, size, pdf=pdf, seed=np.random.default_rng(case["seed"])), W, "a generator seeded alike gives other values")
	c.mark(n >= 2 and len(shape) == 2 and shape[1] >= 2)
	c.label(kind, mode)


def s_stream():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(1, 30), "parts": st.lists(st.integers(1, 9), min_size=1, max_size=8), "pdf": st.sampled_from(["rademacher", "normal", "sphere"]), "seed": st.integers(0, 2**40), "ints": st.booleans()})


def run_stream(case, c):
	iso = P.random.isotropic
	n, parts, pdf = case["n"], case["parts"], case["pdf"]
	m = sum(parts)
	W = call(iso, (n, m), pdf=pdf, seed=case["seed"])
	s = call(iso, pdf=pdf, seed=case["seed"])
	cols = [call(s, n if (case["ints"] and p == 1) else (n, p)) for p in parts]
	same(np.concatenate(cols, axis=1), W, f"columns drawn in parts {parts} differ from columns drawn together")
	s = call(iso, pdf=pdf, seed=case["seed"])
	same(np.concatenate([call(s, n) for _ in range(m)], axis=1), W, "columns drawn one at a time differ from columns drawn together")
	g = np.random.default_rng(case["seed"])
	same(np.concatenate([call(iso, (n, p), pdf=pdf, seed=g) for p in parts], axis=1), W, "a shared generator gives other columns")
	c.mark(n >= 2 and len(parts) >= 2)
	c.label(pdf)


def s_moments():
	st = strategies()
	return st.fixed_dictionaries({"n": st.sampled_from([1, 2, 3, 4, 5, 7, 8, 16]), "pdf": st.sampled_from(["rademacher", "normal", "sphere"]), "seed": st.integers(0, 2**40), "how": st.sampled_from(["block", "single", "out", "out32"])})


def run_moments(case, c):
	n, N = case["n"], 20000
	iso, pdf, how = P.random.isotropic, case["pdf"], case["how"]
	if how == "block":
		W = iso((n, N), pdf=pdf, seed=case["seed"])
	elif how == "single":
		s = iso(pdf=pdf, seed=case["seed"])
		W = np.concatenate([s(n) for _ in range(2000)] + [s((n, N - 2000))], axis=1)
	else:
		W = np.zeros((n, N), order="F", dtype=np.float64 if how == "out" else np.float32)
		iso(pdf=pdf, seed=case["seed"], out=W)
	W = W.astype(float)
	fourth = {"rademacher": 1.0, "normal": 3.0, "sphere": 3.0 * n / (n + 2.0)}[pdf]
	z = 7.0
	m1 = W.mean(axis=1)
	check(np.all(np.abs(m1) <= z / np.sqrt(N)), "entries have mean {} over {} columns", m1[np.argmax(np.abs(m1))], N)
	m2 = (W**2).mean(axis=1)
	sd = np.sqrt(max(fourth - 1.0, 0.0) / N)
	check(np.all(np.abs(m2 - 1) <= z * sd + 1e-5), "entries have second moment {} over {} columns", m2[np.argmax(np.abs(m2 - 1))], N)
	for lag in (0, 1, 2):
		C = (W[:, : N - lag] @ W[:, lag:].T) / (N - lag)
		if lag == 0:
			C = C - np.diag(np.diag(C))
		check(np.all(np.abs(C) <= z * 1.05 / np.sqrt(N - lag)), "entries of columns {} apart have correlation {}", lag, C.ravel()[np.argmax(np.abs(C))])
	m3 = (W**3).mean(axis=1)
	check(np.all(np.abs(m3) <= z * np.sqrt(15.0 / N)), "the distribution of the entries is not symmetric: third moment {}", m3[np.argmax(np.abs(m3))])
	m4 = (W**4).mean(axis=1)
	check(np.all(np.abs(m4 - fourth) <= z * np.sqrt(105.0 / N) * (pdf != "rademacher") + 1e-5), "fourth moment {} instead of {}", m4[np.argmax(np.abs(m4 - fourth))], fourth)
	c.mark(n >= 2)
	c.label(pdf, how)


class EdgeGenerator(np.random.Generator):
	"""A generator whose uniform stream contains the extreme values that random() may return."""
	def random(self, size=None, dtype=np.float64, out=None):
		r = super().random(size=size, dtype=dtype, out=out)
		if isinstance(r, np.ndarray) and r.size:
			edge = [0.0, 0.5, float(np.nextafter(np.array(1.0, r.dtype), np.array(0.0, r.dtype))), float(np.nextafter(np.array(0.5, r.dtype), np.array(0.0, r.dtype)))]
			for i, ix in enumerate(np.ndindex(r.shape)):
				if i % 5 < 4:
					r[ix] = edge[i % 5]
		return r

	def standard_normal(self, size=None, dtype=np.float64, out=None):
		r = super().standard_normal(size=size, dtype=dtype, out=out)
		if isinstance(r, np.ndarray) and r.ndim == 2 and self.zeros:
			self.zeros -= 1
			r[:, :: 3] = 0.0
		return r


def s_edge():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(1, 20), "m": st.integers(1, 9), "pdf": st.sampled_from(["rademacher", "signs", "rademacher", "normal", "sphere"]), "seed": st.integers(0, 2**40), "out": st.sampled_from([None, "f8", "f4"]), "order": st.sampled_from("CF"), "zeros": st.integers(0, 2)})


def run_edge(case, c):
	"""Every value a generator may produce (0, 1/2, the largest below 1; normal variates that are all zero) leads to an entry of the promised support."""
	iso, n, m = P.random.isotropic, case["n"], case["m"]
	g = EdgeGenerator(np.random.PCG64(case["seed"]))
	g.zeros = case.get("zeros", 0)
	if case["out"] is None:
		W = call(iso, (n, m), pdf=case["pdf"], seed=g)
		W = arr(W, (n, m))
	else:
		W = np.full((n, m), np.nan, dtype=case["out"], order=case["order"])
		call(iso, pdf=case["pdf"], seed=g, out=W)
	support(W, NAMES[case["pdf"]], "extreme uniform variates: ")
	c.mark(n * m >= 12)
	c.label(case["pdf"])


def s_bad():
	st = strategies()
	return st.fixed_dictionaries({"pdf": st.one_of(st.sampled_from(["", "uniform", "Rademacher", "sign", "gauss", "spherical"]), st.text(max_size=8))})


def run_bad(case, c):
	if case["pdf"] in NAMES:
		return
	iso = P.random.isotropic
	rejects(iso, (3, 2), pdf=case["pdf"], what=f"unknown distribution {case['pdf']!r}")
	rejects(iso, pdf=case["pdf"], what=f"unknown distribution {case['pdf']!r}")
	rejects(iso, pdf=case["pdf"], out=np.zeros((2, 2)), what=f"unknown distribution {case['pdf']!r}")
	c.mark()


SUBS = [
	Sub("support", s_support, run_support, quick=400, thorough=15000, examples=[
		{"size": [7, 3], "mode": "tuple", "pdf": "rademacher", "seed": 0, "gen": False}, {"size": [7, 3], "mode": "np_int", "pdf": "sphere", "seed": 0, "gen": False}]),
	Sub("stream", s_stream, run_stream, quick=250, thorough=8000),
	Sub("moments", s_moments, run_moments, quick=60, thorough=1500, examples=[{"n": 4, "pdf": p, "seed": 5, "how": h} for p in ("rademacher", "normal", "sphere") for h in ("block", "out32")]),
	Sub("edges", s_edge, run_edge, quick=80, thorough=2000, shards=1, examples=[{"n": 6, "m": 5, "pdf": "rademacher", "seed": 1, "out": o, "order": "F"} for o in (None, "f8", "f4")]),
	Sub("unknown", s_bad, run_bad, quick=40, thorough=500, shards=1),
]
SUBS.append(big_sub("C07"))
