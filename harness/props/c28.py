"""C28: figures plot the running statistics of the given samples."""
import sys, types
import numpy as np
from core import Sub, check, close, same, call, vio
from lib import P, strategies, rng, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = ["_lanczos", "tqli", "fttr"]
RULE = ("sequences of 1..60 (one in five up to 400) samples (normal, constant, integer, alternating, large offset, tiny, with missing values) given as lists, tuples, arrays of several types and shapes, recorded estimators fed in batches, and results of seeded trace estimations; with and without true value, threshold and relative errors. "
        "The plotting library, which is not installed, is replaced by a stand-in that records every glyph and annotation. Oracle: running means, errors and confidence bounds by their definitions. Non-trivial: three or more samples.")
ASSUMPTIONS = ["bokeh is not installed here; glyph calls are recorded by a stand-in, so rendering itself is not observed"]


class Rec:
	"""Accepts any attribute."""
	def __init__(self, name="", args=(), kw=None):
		self.__dict__.update(_name=name, _args=args, _kw=kw or {}, _calls=[], _sub={})

	def __getattr__(self, a):
		if a.startswith("__"):
			raise AttributeError(a)
		return self._sub.setdefault(a, Rec(a))

	def __setattr__(self, a, v):
		self._sub[a] = v

	def __call__(self, *a, **k):
		self._calls.append((a, k))
		return Rec("result")


def install():
	def maker(name):
		def make(*a, **k):
			return Rec(name, a, k)
		return make
	class Mod(types.ModuleType):
		def __getattr__(self, a):
			if a.startswith("__"):
				raise AttributeError(a)
			return maker(a)
	pal = Mod("bokeh.palettes")
	pal.Category10 = {k: tuple(f"#{i:06x}" for i in range(k)) for k in range(3, 11)}
	mods = {"bokeh": Mod("bokeh"), "bokeh.plotting": Mod("bokeh.plotting"), "bokeh.models": Mod("bokeh.models"), "bokeh.palettes": pal, "bokeh.layouts": Mod("bokeh.layouts"), "bokeh.io": Mod("bokeh.io")}
	for k, m in mods.items():
		m.__path__ = []
		sys.modules[k] = m
		if "." in k:
			setattr(mods["bokeh"], k.split(".")[1], m)


def glyphs(p):
	"""(kind, x, y) of everything drawn with coordinates, and the annotations."""
	out, notes = [], []
	for name, r in p._sub.items():
		if not isinstance(r, Rec):
			continue
		for a, k in r._calls:
			if name == "add_layout":
				notes.extend(x for x in a if isinstance(x, Rec))
				continue
			d = dict(zip(("x", "y"), a))
			d.update(k)
			src = d.get("source")
			if isinstance(src, Rec):
				data = src._kw.get("data", src._args[0] if src._args else {})
			elif isinstance(src, dict):
				data = src
			else:
				data = {}
			get = lambda key: data[d[key]] if isinstance(d.get(key), str) and d[key] in data else d.get(key)
			out.append((name, {key: get(key) for key in d}))
	return out, notes


def find(gs, kinds, x, y, tol, what):
	got = []
	for name, d in gs:
		if name not in kinds or d.get("x") is None or d.get("y") is None:
			continue
		gx, gy = (np.asarray(d[k], dtype=float) for k in "xy")
		gx, gy = (np.broadcast_arrays(gx, gy) if gx.ndim == 0 or gy.ndim == 0 else (gx, gy))
		got.append((name, gx.tolist()[:8], gy.tolist()[:8]))
		if gx.shape == np.shape(x) and gy.shape == np.shape(y):
			with np.errstate(all="ignore"):
				if np.all((np.abs(gx - x) <= 1e-9) | (gx == x)) and np.all((np.abs(gy - y) <= tol) | (gy == y) | (np.isnan(gy) & np.isnan(y))):
					return
	vio(f"{what} is not drawn: expected x={np.asarray(x).tolist()[:8]}, y={np.asarray(y).tolist()[:8]} among {got}"[:900])


POINTS = ("scatter", "circle", "x", "dot", "cross", "square", "marker")
LINES = ("line", "step", "multi_line")
KINDS = ["normal", "normal", "const", "ints", "alternating", "offset", "tiny", "zeros"]


def s_samples():
	st = strategies()
	return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 12), sizes(1, 60, 400)), "kind": st.sampled_from(KINDS), "seed": st.integers(0, 10**6), "nan": st.lists(st.integers(0, 59), max_size=3), "form": st.sampled_from(["array", "list", "tuple", "column", "row", "f4", "estimator", "estimator", "estimator_mean", "hutch"]), "batch": sizes(1, 7, 80),
	                              "mu": st.sampled_from([None, None, 1.0, -2.5, "mean"]), "thr": st.sampled_from([None, None, 0.1, 2.0, 0.0, 0]), "abs": st.booleans(), "kw": st.sampled_from([{}, {"width": 222}, {"title": "T", "height": 99}])})


def samples(case):
	n, k, g = case["n"], case["kind"], rng(case["seed"])
	x = g.normal(size=n)
	x = {"normal": x, "const": np.full(n, 1.25), "ints": np.round(3 * x), "alternating": (-1.0) ** np.arange(n), "offset": 1e6 + x, "tiny": 1e-9 * x, "zeros": np.zeros(n)}[k]
	return x


def given(case):
	"""(object to plot, its valid samples)"""
	x, f, E = samples(case), case["form"], P.estimators
	if f == "hutch":
		A = np.diag(np.linspace(1, 2, 5)) + 0.1
		est, r = P.trace.hutch(A, converge="count", count=case["n"], batch=case["batch"], seed=case["seed"], full=True, record=True)
		return r.estimator, np.ravel(r.estimator.values).astype(float)
	if f.startswith("estimator"):
		e = E.MeanEstimator(covariance=f == "estimator", record=True)
		for i in range(0, len(x), case["batch"]):
			e.update(x[i:i + case["batch"]])
		return e, x
	nan = [i % len(x) for i in case["nan"]]
	if len(set(nan)) < len(x):
		x[nan] = np.nan
	if f == "f4":
		x = x.astype("f4")
	obj = {"array": lambda: x.copy(), "f4": lambda: x.copy(), "list": lambda: x.tolist(), "tuple": lambda: tuple(x.tolist()), "column": lambda: x[:, None].copy(), "row": lambda: x[None, :].copy()}[f]()
	return obj, x[~np.isnan(x)].astype(float)


def fingerprint(o):
	v = o.values if hasattr(o, "values") else o
	return np.array([np.asarray(t, dtype=float).ravel() for t in v]).ravel() if not isinstance(v, np.ndarray) else v.astype(float).ravel().copy()


def run(case, c):
	install()
	obj, x = given(case)
	F, n = P.plotting, len(x)
	L = np.longdouble
	idx = np.arange(1, n + 1)
	avg = (np.cumsum(x.astype(L)) / idx)
	S = np.abs(x).max()
	eps = 2e-7 if case["form"] == "f4" else 3e-16
	tol = 20 * eps * n * S + 1e-300
	mu = float(np.mean(x)) if case["mu"] == "mean" else case["mu"]
	before = fingerprint(obj)
	what = f"({case['form']}, {n} samples)"
	p = call(F.figure_sequence, obj, mu=mu, **case["kw"]) if mu is not None else call(F.figure_sequence, obj, **case["kw"])
	check(isinstance(p, Rec), "no figure was returned")
	for k, v in case["kw"].items():
		check(p._kw.get(k) == v, "figure option {} not passed on: {}", k, p._kw)
	gs, notes = glyphs(p)
	find(gs, POINTS, idx, x, 0, f"scatter of the samples {what}")
	find(gs, LINES, idx, avg.astype(float), tol, f"line of running means {what}")
	spans = [a for a in notes if a._name == "Span"]
	if mu is None:
		check(not spans, "a line is drawn without a true value")
	else:
		check(len(spans) == 1 and spans[0]._kw.get("location") == mu and spans[0]._kw.get("dimension") == "width", "line at the true value {}: {}", mu, [s._kw for s in spans])
	# error figure
	kw = dict(case["kw"])
	if mu is not None:
		kw["mu"] = mu
	if case["thr"] is not None:
		kw["threshold"] = case["thr"]
	if not case["abs"]:
		kw["absolute"] = False
	q = call(F.figure_error, obj, **kw)
	for k, v in case["kw"].items():
		check(q._kw.get(k) == v, "figure option {} not passed on: {}", k, q._kw)
	gs, _ = glyphs(q)
	with np.errstate(all="ignore"):
		if mu is not None:
			e = np.abs(mu - avg)
			e, t = (e, tol + 4 * eps * abs(mu)) if case["abs"] else (e / abs(mu), (tol + 4 * eps * abs(mu)) / abs(mu))
		else:
			import scipy.stats as sst
			import scipy.special as ssp
			e, t = np.full(n, np.inf), np.zeros(n)
			for i in range(3, n + 1):
				xi = x[:i].astype(L)
				m = np.mean(xi)
				sd = np.sqrt(np.sum((xi - m) ** 2) / (i - 1))
				se = sd / np.sqrt(L(i))
				score = sst.t.ppf(0.975, i - 1) if i < 30 else np.sqrt(2) * ssp.erfinv(0.95)
				# error of the streamed standard deviation: absolute error of the variance over twice the deviation
				d = 40 * 3e-16 * i * (S * S) / max(float(sd), 1e-8 * S + 1e-300) * 0 + 1e-6 * float(sd) + 3e-8 * S * np.sqrt(i)
				dse = d / np.sqrt(i)
				if case["abs"]:
					e[i - 1], t[i - 1] = score * se, score * dse
				else:
					e[i - 1] = se / abs(m)
					t[i - 1] = dse / abs(float(m)) + float(e[i - 1]) * 1e-6 if abs(float(m)) > 1e-6 * S else np.inf
	if not case["abs"] and mu is None and (S == 0 or np.any(np.isinf(t))):
		c.label("skipped: relative error to a vanishing mean")
	else:
		find(gs, LINES, idx, e.astype(float), t, f"{'absolute' if case['abs'] else 'relative'} error to {mu} {what}")
	lines = [d for name, d in gs if name in LINES and np.size(d.get("y", d.get("ys"))) == 2 and np.all(np.asarray(d["y"], dtype=float) == case["thr"])] if case["thr"] is not None else []
	spans = [a for a in glyphs(q)[1] if a._name == "Span" and a._kw.get("location") == case["thr"]]
	if case["thr"] is not None:
		check(lines or spans, "no line at the threshold {}: {}", case["thr"], [(k, list(d)) for k, d in gs])
	else:
		check(len([1 for name, _ in gs if name in LINES]) == 1, "{} lines without a threshold", len(gs))
	same(fingerprint(obj), before, "the samples were modified")
	# the same values as a plain list give the same figures (the running mean of single-precision values may be rounded to single precision)
	for f, k in ((F.figure_sequence, {"mu": mu}), (F.figure_error, {k: v for k, v in kw.items()})) if case["form"] != "f4" else ():
		g1, g2 = glyphs(call(f, obj, **k))[0], glyphs(call(f, [float(v) for v in before], **k))[0]
		check(len(g1) == len(g2), "figures of the samples and of a plain list differ")
		for (n1, d1), (n2, d2) in zip(g1, g2):
			check(n1 == n2, "figures of the samples and of a plain list differ")
			for key in ("x", "y"):
				if d1.get(key) is not None:
					close(np.asarray(d1[key], dtype=float), np.asarray(d2[key], dtype=float), 1e-12 * S * (1 / abs(mu) if mu and not case["abs"] else 1), f"{f.__name__}: {key} of {n1} differs between the {case['form']} and a plain list")
	c.mark(n >= 3)
	c.label(case["form"], case["kind"], "true value" if mu is not None else "bound", "absolute" if case["abs"] else "relative", "missing values" if len(before) > n else "")


def s_csm():
	st = strategies()
	return st.fixed_dictionaries({"n": sizes(1, 20, 300), "seed": st.integers(0, 10**6), "ties": st.booleans(), "at": st.sampled_from([None, None, [1.0, -12], [1.0, -200], [1.0, 9], [0.25, -12], [1e6, -7]]), "deg": st.integers(3, 10), "ab": st.sampled_from([[0, 0], [0.5, 0.5], [-0.5, 1.0], [0, 0.5], [0.0, -0.5], [1, 0], [2.0, 0.0], [0.25, 3]])})


def run_csm(case, c):
	install()
	import scipy.special as ssp
	n, g = case["n"], rng(case["seed"])
	v = np.sort(g.uniform(-1, 1, size=n))
	if case["ties"]:
		v = np.sort(g.choice([-0.5, 0.0, 0.25, 0.75], size=n))
	if case.get("at"):
		o, e = case["at"]  # tiny, huge, or nearly equal eigenvalues
		v = np.sort(v * 10.0 ** e + (o if o != 1.0 else 0.0))
	keep = v.copy()
	gs, _ = glyphs(call(P.plotting.figure_csm, v))
	same(v, keep, "the eigenvalues were modified")
	find(gs, POINTS, v, np.zeros(n), 0, "the eigenvalues")
	frac = np.array([np.sum(v < x) / n for x in v])
	ok = False
	for name, d in gs:
		ys = d.get("y2", d.get("y"))
		if ys is None or np.ndim(ys) == 0 or len(ys) < n or name in POINTS:
			continue
		X, Y = np.asarray(d["x"], dtype=float), np.asarray(ys, dtype=float)
		ok = ok or (np.array_equal(X[:n], v) and np.allclose(Y[:n], frac, rtol=0, atol=1e-12) and np.allclose(Y[n:], 1.0))
	check(ok, "cumulative spectral density of {} is not drawn: {}", v.tolist(), [(k, {a: np.asarray(b).tolist() for a, b in d.items() if a in ("x", "y1", "y2")}) for k, d in gs])
	a, b = case["ab"]
	gs, _ = glyphs(call(P.plotting.figure_jacobi, case["deg"], a, b))
	ls = [d for k, d in gs if k in LINES]
	check(len(ls) == case["deg"], "{} polynomials drawn instead of {}", len(ls), case["deg"])
	for d, l in enumerate(ls):
		X = np.asarray(l["x"], dtype=float)
		check(X.min() == -1 and X.max() == 1, "domain [{}, {}]", X.min(), X.max())
		close(np.asarray(l["y"], dtype=float), ssp.eval_jacobi(d, a, b, X), 1e-9 * (1 + np.abs(ssp.eval_jacobi(d, a, b, X))), f"Jacobi polynomial of degree {d}")
	c.mark(n >= 3)


S0 = {"n": 9, "kind": "normal", "seed": 1, "nan": [], "form": "estimator", "batch": 2, "mu": None, "thr": None, "abs": True, "kw": {}}
SUBS = [
	Sub("samples", s_samples, run, quick=500, thorough=15000, shards=4, examples=[S0, {**S0, "form": "array", "nan": [2, 5], "mu": 1.0, "thr": 0.1}, {**S0, "form": "hutch", "n": 40}, {**S0, "n": 1}, {**S0, "n": 45, "abs": False}, {**S0, "n": 35, "abs": False, "mu": 1.0, "form": "list"}]),
	Sub("spectral", s_csm, run_csm, quick=60, thorough=1000, shards=1),
]
SUBS.append(reuse_sub("C28"))
SUBS.append(big_sub("C28"))
