"""C10: spectral scalar functions equal their definitions and names map to them."""
from fractions import Fraction
import math
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, strategies, rng, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Arguments are drawn arrays (special points 0, +-1, +-c, a, b, subnormals, values outside the clipping range, random reals) and parameters; soft-sign is compared with exact rational "
        "arithmetic, the others with their defining formulas; evaluation on an array, through the returned callable and through the name are compared, and functions of different parameters made side by side keep their own. Non-trivial: at least three distinct arguments.")

SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.0, 1e-6, -1e-6, 1e-12, 5e-324, 1e300, -1e300, 0.9999999, 1.0000001, 0.25]


def xs(st):
	return st.lists(st.one_of(st.sampled_from(SPECIAL), st.floats(-1.5, 1.5, allow_nan=False), st.floats(-50, 50, allow_nan=False)), min_size=1, max_size=12)


def s_soft():
	st = strategies()
	return st.fixed_dictionaries({"x": xs(st), "tile": sizes(1, 1, 120, 4), "q": st.one_of(st.integers(0, 12), st.integers(13, 40))})


def soft_ref(x, q):
	x = Fraction(min(max(x, -1.0), 1.0))
	t, s, w = Fraction(1), Fraction(0), 1 - x * x
	for i in range(q + 1):
		if i > 0:
			t *= w * Fraction(2 * i - 1, 2 * i)
		s += t
	return float(x * s)


def run_soft(case, c):
	S = P.special
	tile, q = case.get("tile", 1), case["q"]
	x = np.tile(np.array(case["x"]), tile)
	x0 = x.copy()
	want = np.tile(np.array([soft_ref(v, q) for v in case["x"]]), tile)
	tol = 4e-16 * (q + 4) * np.maximum(np.abs(want), np.minimum(np.abs(x), 1)) * (q + 1) ** 0.5 + 1e-300
	outs = {"direct": call(S.softsign, x, q=q), "callable": call(call(S.softsign, q=q), x), "name": call(call(S.param_callable, "softsign", q=q), x)}
	for k, v in outs.items():
		close(arr(v, x.shape), want, tol, f"softsign q={q} ({k})")
	same(x, x0, "input modified")
	if q == 1:
		close(arr(call(S.softsign, x)).ravel(), want, tol, "default q of softsign is not 1")
	f = S.softsign(q=q)
	close(arr(f(-x)), -arr(f(x)), 1e-300, "softsign is not odd")
	fs = [call(S.softsign, q=k) for k in (q, q + 1, 0)] + [call(S.param_callable, "softsign", q=k) for k in (q, q + 2)]
	for k, h in zip((q, q + 1, 0, q, q + 2), fs):
		w = np.array([soft_ref(v, k) for v in x[:2].tolist()])
		close(arr(call(h, x[:2])).ravel(), w, 4e-16 * (k + 4) * np.maximum(np.abs(w), np.minimum(np.abs(x[:2]), 1)) * (k + 1) ** 0.5 + 1e-300, f"softsign of q={k} created next to others")
	y = np.sort(np.clip(x, -2, 2))
	fy = arr(f(y))
	check(np.all(np.diff(fy) >= -1e-14 * (q + 1)), "softsign is not nondecreasing on {}", y.tolist())
	check(np.all(np.abs(fy) <= 1 + 1e-14 * (q + 1)), "softsign exceeds 1")
	out = np.abs(x) >= 1
	same(arr(f(x))[out], np.sign(x[out]), "softsign is not clipped outside [-1, 1]")
	for v in case["x"][:3]:
		close(num(call(f, v)), soft_ref(v, q), tol.max(), "softsign of a scalar")
	if q == 10:
		close(arr(call(call(S.param_callable, "softsign"), x)), want, tol, "default q by name is not 10")
	c.mark(len(set(case["x"])) >= 3)
	c.label(f"q{min(q, 13)}")


def s_other():
	st = strategies()
	p = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0, 1e-6, -0.25]), st.floats(-10, 10, allow_nan=False))
	return st.fixed_dictionaries({"x": xs(st), "tile": sizes(1, 1, 120, 4), "fun": st.sampled_from(["smoothstep", "exp", "step", "numrank", "abs", "sqrt", "log", "inv", "identity", "none"]), "a": p, "b": p, "gap": st.sampled_from([None, None, None, 1e-3, -1e-5, 1e-7]), "t": p, "c": p, "nn": st.booleans(), "dflt": st.booleans(), "form": st.sampled_from(["array", "scalar", "2d"]), "xdt": st.sampled_from(["f8", "f8", "f8", "f4", "i8"])})


def run_other(case, c):
	S, fun, dflt = P.special, case["fun"], case["dflt"]
	x = np.tile(np.array(case["x"]), case.get("tile", 1))
	a, b, t, th = case["a"], case["b"], case["t"], case["c"]
	eps = np.finfo(float).eps
	outs, tol = {}, 0.0
	xdt = case.get("xdt", "f8")
	if xdt != "f8" and fun not in ("step", "numrank"):
		x = (np.clip(x, -300, 300) if xdt == "f4" else np.rint(np.clip(x, -300, 300))).astype(xdt).astype(float)
	else:
		xdt = "f8"
	if case["form"] == "2d":
		x = np.stack([x, x[::-1]])
	if case["form"] == "scalar":
		x = float(x[0])
	if fun == "smoothstep":
		if dflt:
			a, b = 0.0, 1.0
		b = b if case.get("gap") is None or dflt else a + case["gap"]  # narrow intervals
		if a == b or not np.isfinite(b - a) or abs(b - a) < 1e-8:
			return
		kw = {} if dflt else {"a": a, "b": b}
		y = np.clip((np.asarray(x) - a) / (b - a), 0, 1)
		want = 3 * y**2 - 2 * y**3
		outs = {"direct": call(S.smoothstep, x, **kw), "callable": call(call(S.smoothstep, **kw), x), "name": call(call(S.param_callable, "smoothstep", **kw), x)}
		tol = 64 * eps * (1 + max(abs(a), abs(b)) / abs(b - a))
		f = S.smoothstep(**kw)
		close([num(f(a)), num(f(b)), num(f((a + b) / 2))], [0, 1, 0.5], tol, "smoothstep at a, b, midpoint")
		ys = np.sort(np.ravel(x))
		d = np.diff(arr(f(ys)))
		check(np.all(d * np.sign(b - a) >= -tol), "smoothstep is not monotone")
		for bad in (2, 4):
			rejects(S.smoothstep, 0.5, deg=bad, what=f"even degree {bad}")
	elif fun == "exp":
		t = 1.0 if dflt else t
		kw = {} if dflt else {"t": t}
		lim = 80.0 if xdt == "f4" else 700.0
		x = np.clip(x, -lim, lim) if np.ndim(x) else min(max(x, -lim), lim)
		x = x * (lim / max(lim, np.abs(t * x).max())) * (1 - 1e-12)
		x = np.trunc(x) if xdt == "i8" else np.asarray(x, dtype=xdt).astype(float)[()]
		want = np.vectorize(lambda v: math.exp(t * v))(x)
		outs = {"direct": call(S.exp, x, **kw), "callable": call(call(S.exp, **kw), x), "name": call(call(S.param_callable, "exp", **kw), x)}
		tol = 8 * eps * np.abs(want)
	elif fun == "step":
		kw = {} if dflt else {"c": th, "nonnegative": case["nn"]}
		cc, nn = (0.0, False) if dflt else (th, case["nn"])
		if np.ndim(x):
			x = np.concatenate([np.atleast_2d(x), np.full((np.atleast_2d(x).shape[0], 1), cc)], axis=1) if case["form"] == "2d" else np.append(x, [cc, -cc, np.nextafter(cc, np.inf), np.nextafter(cc, -np.inf)])
		v = np.abs(x) if nn else np.asarray(x)
		want = (v >= cc).astype(float)
		outs = {"direct": call(S.step, x, **kw), "callable": call(call(S.step, **kw), x)}
	elif fun == "numrank":
		kw = {} if dflt else {"threshold": th}
		cc = 0.000001 if dflt else th
		if np.ndim(x) == 1:
			x = np.append(x, [cc, -cc, np.nextafter(cc, np.inf), -np.nextafter(cc, -np.inf)])
		want = (np.abs(x) >= cc).astype(float)
		outs = {"name": call(call(S.param_callable, "numrank", **kw), x)}
	else:
		kw = {}
		with np.errstate(all="ignore"):
			if fun in ("sqrt", "log"):
				x = np.abs(x)
			if fun == "inv":
				x = np.where(np.abs(x) < (1e-37 if xdt == "f4" else 1e-307), 1.0, x)  # else the inverse overflows
			x = np.float64(x) if np.ndim(x) == 0 else x
			want = {"abs": lambda: np.abs(x), "sqrt": lambda: np.vectorize(math.sqrt)(x), "log": lambda: np.vectorize(math.log)(np.where(x < eps, eps, x)), "inv": lambda: 1.0 / x, "identity": lambda: x, "none": lambda: x}[fun]()
			outs = {"name": call(call(S.param_callable, None if fun == "none" else fun, **kw), x)}
		tol = 8 * eps * (np.abs(want) + (fun == "log"))
	for k, v in outs.items():
		close(arr(v, np.shape(want)), want, tol, f"{fun} {kw} ({k})")
	if xdt != "f8" and np.ndim(x):
		c.label("argument of type " + xdt)
		fs = [call(S.param_callable, None if fun == "none" else fun, **kw)] + ([call(getattr(S, fun), **kw)] if fun in ("smoothstep", "exp") else [])
		tf = tol if xdt == "i8" else np.maximum(tol, 2e-7 * (np.abs(want) * (1 + (abs(t) * np.abs(x) if fun == "exp" else 0)) + (fun == "log") + (64 * (1 + max(abs(a), abs(b)) / abs(b - a)) if fun == "smoothstep" else 0)))
		for f in fs:
			close(arr(call(f, x.astype(xdt)), np.shape(want)), want, tf, f"{fun} {kw} of arguments of type {xdt}")
	# functions of several parameters made side by side keep their own
	F = {"smoothstep": (S.smoothstep, [{"a": -3.0, "b": -2.0}, {}]), "exp": (S.exp, [{"t": -0.125}, {}]), "step": (S.step, [{"c": 0.3}, {"c": 1.0, "nonnegative": True}, {}])}
	if fun in F or fun == "numrank":
		mk = [lambda **k: S.param_callable(fun, **k)] if fun in ("smoothstep", "exp", "numrank") else []
		mk += [F[fun][0]] if fun in F else []
		for make in mk:
			f1 = call(make, **kw)
			others = [call(make, **k) for k in (F[fun][1] if fun in F else [{"threshold": 0.77}, {}])]
			close(arr(call(f1, x), np.shape(want)), want, tol, f"{fun} {kw} created before others")
			for o in others:
				call(o, x)
			close(arr(call(f1, x), np.shape(want)), want, tol, f"{fun} {kw} evaluated after others")
	c.mark(len(set(case["x"])) >= 3 or case["form"] == "scalar")
	c.label(fun, case["form"])


def s_names():
	st = strategies()
	return st.fixed_dictionaries({"name": st.one_of(st.sampled_from(["", "Exp", "square", "sign", "step", "tan", "sqrt "]), st.text(max_size=6))})


def run_names(case, c):
	S = P.special
	known = {"identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"}
	if case["name"] not in known:
		rejects(S.param_callable, case["name"], what=f"unknown function name {case['name']!r}")
	f = lambda x: x + 1
	check(call(S.param_callable, f) is f and call(S.param_callable, np.exp, t=3.0) is np.exp, "a callable is not returned unchanged")
	for k in known:
		check(callable(call(S.param_callable, k)), "name {} does not map to a function", k)
	c.mark()


SUBS = [Sub("softsign", s_soft, run_soft, quick=160, thorough=5000, examples=[{"x": SPECIAL, "q": 10}, {"x": SPECIAL, "q": 1}, {"x": SPECIAL, "q": 0}]), Sub("others", s_other, run_other, quick=600, thorough=20000), Sub("names", s_names, run_names, quick=40, thorough=400, shards=1)]
SUBS.append(reuse_sub("C10"))
SUBS.append(big_sub("C10"))
