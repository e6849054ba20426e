"""C13: quadrature rules are the Gauss rules of the leading block of the Jacobi matrix."""
import importlib.util, os
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, strategies, rng, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = ["tqli", "fttr"]
RULE = ("Jacobi matrices of size 1..20 (one in five up to 80): normal, explicit small values, classical families (Legendre, Chebyshev, Hermite, Laguerre), zero, tiny or graded couplings (Golub-Welsch only), all-zero, scaled by up to 1e+-40, one in three with couplings of either sign; degrees 1..n+3 or none; both methods, both names, "
        "either subdiagonal form, output arrays (none, nodes, weights, both), eigensolver options. Nodes and weights are compared with a dense eigensolver (weights by cluster of equal nodes, and roots of the weights of separated ones), moments up to degree 2k-1 with the "
        "first entry of powers of the whole matrix. FTTR, compiled and as Python source, is compared where the recurrence is well conditioned. forms: the same for single precision, integer, strided, reversed, read-only and mixed arrays. Non-trivial: rule of degree two or more with nonzero couplings.")


def strategy():
	st = strategies()

	@st.composite
	def s(draw):
		kind = draw(st.sampled_from(["normal", "normal", "explicit", "legendre", "chebyshev", "hermite", "laguerre", "zero_d", "split", "tiny", "graded", "zero", "constant"]))
		n = draw(sizes(1, 20, 80) if kind not in ("explicit",) else st.integers(1, 7))
		c = {"n": n, "kind": kind, "seed": draw(st.integers(0, 10**6)), "deg": draw(st.one_of(st.none(), st.integers(1, n + 3))), "exp": draw(st.sampled_from([0, 0, 0, 6, -6, 12, -12, 40, -40])), "out": draw(st.sampled_from(["none", "both", "nodes", "weights"])),
		     "method": draw(st.sampled_from(["default", "default", "mrrr", "tqli", "auto"])), "lead": draw(st.booleans()), "gwname": draw(st.sampled_from(["gw", "golub_welsch", "default"])), "signs": draw(st.sampled_from([False, False, True]))}
		if kind == "explicit":
			v = st.one_of(st.integers(-3, 3).map(float), st.floats(-5, 5, allow_nan=False))
			c["d"], c["e"] = draw(st.lists(v, min_size=n, max_size=n)), draw(st.lists(v.map(abs), min_size=n - 1, max_size=n - 1))
		return c
	return s()


def matrix(case):
	n, g, k = case["n"], rng(case["seed"]), case["kind"]
	d, e = g.normal(size=n), np.abs(g.normal(size=max(n - 1, 0))) + 0.3
	j = np.arange(1.0, n)
	if k == "explicit":
		d, e = np.array(case["d"], dtype=float), np.array(case["e"], dtype=float)
	elif k == "legendre":
		d, e = np.zeros(n), j / np.sqrt(4 * j**2 - 1)
	elif k == "chebyshev":
		d, e = np.zeros(n), np.full(n - 1, 0.5)
	elif k == "hermite":
		d, e = np.zeros(n), np.sqrt(j)
	elif k == "laguerre":
		d, e = 2.0 * np.arange(n) + 1, j
	elif k == "zero_d":
		d = np.zeros(n)
	elif k == "split":
		e[g.random(len(e)) < 0.4] = 0
	elif k == "tiny":
		e *= 10.0 ** g.integers(-14, -4, size=n - 1)
	elif k == "graded":
		d, e = 10.0 ** g.uniform(-1, 4, size=n) * g.choice([-1, 1], size=n), 10.0 ** g.uniform(-5, 1, size=n - 1)
	elif k == "zero":
		d, e = np.zeros(n), np.zeros(n - 1)
	elif k == "constant":
		d = np.full(n, 2.0)
	if case.get("signs"):  # the rule does not depend on the signs of the couplings
		e = e * g.choice([-1.0, 1.0], size=len(e))
	return d * 10.0 ** case["exp"], e * 10.0 ** case["exp"]


def clusters(x, gap):
	"""Index groups of sorted values closer than the gap."""
	groups, cur = [], [0]
	for i in range(1, len(x)):
		if x[i] - x[i - 1] <= gap:
			cur.append(i)
		else:
			groups.append(cur)
			cur = [i]
	return groups + [cur]


def fttr_source():
	from boot import SRC
	sp = importlib.util.spec_from_file_location("fttr_source", os.path.join(SRC, "fttr.py"))
	m = importlib.util.module_from_spec(sp)
	sp.loader.exec_module(m)
	return m.fttr


def forward_error(d, e, k, ref_x, ref_w, nT):
	"""Error of the forward recurrence at the given nodes, and its change under a perturbation of the nodes by rounding."""
	w0 = []
	for dx in (0.0, 1e-13 * nT):
		w = np.zeros(k)
		for i in range(k):
			x = ref_x[i] + dx * (1 if i % 2 else -1)
			p = [1.0]
			for j in range(1, k):
				p.append(((x - d[j - 1]) * p[j - 1] - (e[j - 2] * p[j - 2] if j > 1 else 0.0)) / e[j - 1])
			w[i] = 1 / np.sum(np.square(p))
		w0.append(w)
	return np.max(np.abs(w0[0] - ref_w)), np.max(np.abs(w0[1] - w0[0]))


def run(case, c):
	d, e = matrix(case)
	n = len(d)
	k = n if case["deg"] is None else min(case["deg"], n)
	T = np.diag(d) + np.diag(e, 1) + np.diag(e, -1)
	nT = max(np.abs(T).sum(axis=1).max(), 1e-300)
	Tk = T[:k, :k]
	ref_x, U = np.linalg.eigh(Tk)
	ref_w = U[0] ** 2
	eps = np.finfo(float).eps
	sub = np.append([0.0], e) if case["lead"] else e
	regular = k == 1 or np.min(np.abs(e[:k - 1])) > 1e-3 * nT
	methods = [{"gw": "gw", "golub_welsch": "golub_welsch", "default": None}[case["gwname"]]]
	gaps = np.diff(ref_x) if k > 1 else np.array([nT])
	# the forward recurrence is well conditioned when a perturbation of the nodes by rounding barely moves the polynomials
	fttr_ok = False
	if regular and np.all(np.isfinite(ref_x)):
		a, b = forward_error(d, e, k, ref_x, ref_w, nT)
		fttr_ok = a < 1e-10 and b < 1e-8
		if fttr_ok:
			methods.append("fttr")
	Q = P.integrate.quadrature
	for quad in methods:
		kw = {} if quad is None else {"quad": quad}
		if case["deg"] is not None:
			kw["deg"] = case["deg"]
		if case["method"] != "default":
			kw["method"] = case["method"]
		nodes, weights = np.full(k, 7.0), np.full(k, 7.0)
		if case["out"] in ("both", "nodes"):
			kw["nodes"] = nodes
		if case["out"] in ("both", "weights"):
			kw["weights"] = weights
		a, b = d.copy(), sub.copy()
		r = call(Q, a, b, **kw)
		check(isinstance(r, tuple) and len(r) == 2, "quadrature returned {}", type(r))
		same(a, d, "the diagonal was modified")
		same(b, sub, "the subdiagonal was modified")
		x, w = arr(r[0], (k,), name="nodes"), arr(r[1], (k,), name="weights")
		tag = f"{quad or 'default'} rule of degree {k} of {n}"
		o = np.argsort(x)
		xs, ws = x[o], w[o]
		close(xs, ref_x, 50 * eps * n * nT + 1e-300, tag + ": nodes")
		check(np.all(w >= -1e-15), "{}: negative weight {}", tag, w.min())
		wt = 1e-11 if quad != "fttr" else 1e-7
		close(w.sum(), 1.0, wt, tag + ": sum of the weights")
		for g in clusters(ref_x, 1e-6 * nT):
			spread = min([nT] + [abs(ref_x[j] - ref_x[i]) for i in g for j in range(k) if j not in g])
			close(ws[g].sum(), ref_w[g].sum(), wt + 300 * eps * n * nT / max(spread, 1e-300) if k > 1 else wt, tag + ": weights")
			if len(g) == 1 and quad != "fttr" and k > 1:
				# a weight is the square of an eigenvector component, which is as accurate as the eigenvector
				close(np.sqrt(max(ws[g[0]], 0)), abs(U[0, g[0]]), 1e-13 * n + 300 * eps * n * nT / max(spread, 1e-300), tag + ": root of a weight")
		# exactness for polynomials up to degree 2k-1 (on the matrix scaled to norm one)
		Ts, v = T / nT, np.zeros(n)
		v[0] = 1.0
		p = v.copy()
		for j in range(2 * k):
			close(np.sum((x / nT) ** j * w), p[0], 1e-11 * n if quad != "fttr" else 1e-6, tag + f": moment {j}")
			p = Ts @ p
		if "nodes" in kw:
			same(nodes, x, tag + ": output array of nodes")
		else:
			same(nodes, np.full(k, 7.0), "an array not passed was written")
		if "weights" in kw:
			same(weights, w, tag + ": output array of weights")
		c.label(quad or "default")
	if fttr_ok:
		th = ref_x.copy()
		for name, fn in (("compiled", P.fttr.fttr), ("source", fttr_source())):
			w = np.full(k, 7.0)
			al, be = d[:k].copy(), np.append([0.0], e)[:k].copy()
			call(fn, th, al, be, k, w)
			close(w, ref_w, 1e-7, f"fttr ({name}) weights")
			same(th, ref_x, f"fttr ({name}) modified the nodes")
	c.mark(k >= 2 and regular)
	c.label(case["kind"], "degree beyond size" if (case["deg"] or 0) > n else "leading block" if k < n else "whole")


FORMS = ["f4", "ints", "strided", "reversed", "readonly", "mixed", "mixed2", "fortran"]


def s_forms():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(1, 10), "deg": st.one_of(st.none(), st.integers(1, 11)), "seed": st.integers(0, 10**6), "kind": st.sampled_from(["normal", "legendre", "hermite", "laguerre", "wide"]), "form": st.sampled_from(FORMS),
	                              "lead": st.booleans(), "out": st.booleans(), "method": st.sampled_from(["default", "mrrr", "tqli", "auto"]), "exp": st.just(0), "signs": st.booleans()})


def run_forms(case, c):
	"""Arrays of other types and layouts give the rule of their values."""
	n, g = case["n"], rng(case["seed"])
	if case["kind"] == "wide":
		d, e = g.integers(-6, 7, size=n) * 1.0, g.integers(1, 6, size=n - 1) * 1.0
	else:
		d, e = matrix({**case, "kind": case["kind"]})
	if case["kind"] == "wide" and case.get("signs"):
		e = e * g.choice([-1.0, 1.0], size=len(e))
	e = np.append([0.0], e) if case["lead"] else e
	f = case["form"]
	if f == "ints":
		d, e = np.round(3 * d), np.sign(e) * np.ceil(np.abs(3 * e))
	layout = {"f4": lambda x, i: x.astype("f4"), "ints": lambda x, i: x.astype(int), "strided": lambda x, i: np.repeat(x, 3)[::3], "reversed": lambda x, i: x[::-1].copy()[::-1], "readonly": lambda x, i: x.copy(),
	          "mixed": lambda x, i: x.astype("f4") if i else x.copy(), "mixed2": lambda x, i: x.copy() if i else x.astype("f4"), "fortran": lambda x, i: np.asfortranarray(np.c_[x, x])[:, 1]}[f]
	a, b = layout(d, 0), layout(e, 1)
	if f == "readonly":
		a.flags.writeable = b.flags.writeable = False
	d, e = a.astype(float), b.astype(float)
	e1 = e[1:] if case["lead"] else e
	k = n if case["deg"] is None else min(case["deg"], n)
	T = np.diag(d) + np.diag(e1, 1) + np.diag(e1, -1)
	nT = max(np.abs(T).sum(axis=1).max(), 1e-300)
	ref_x, U = np.linalg.eigh(T[:k, :k])
	single = f in ("f4", "mixed", "mixed2")
	eps = 1.2e-7 if single else 2.3e-16
	quads = ["gw", "golub_welsch"]
	err = forward_error(d, e1, k, ref_x, U[0] ** 2, nT)
	if err[0] < 1e-10 and err[1] < 1e-10:
		quads.append("fttr")
	for quad in quads:
		kw = {} if case["deg"] is None else {"deg": case["deg"]}
		if case["method"] != "default":
			kw["method"] = case["method"]
		nodes, weights = np.full(k, 7.0), np.full(k, 7.0)
		if case["out"]:
			kw.update(nodes=nodes, weights=weights)
		a0, b0 = a.copy(), b.copy()
		x, w = call(P.integrate.quadrature, a, b, quad=quad, **kw)
		same(a, a0, "the diagonal was modified")
		same(b, b0, "the subdiagonal was modified")
		x, w = arr(x, (k,), name="nodes").astype(float), arr(w, (k,), name="weights").astype(float)
		tag = f"{quad} rule of degree {k} from {f} arrays"
		close(np.sort(x), ref_x, 100 * eps * n * nT, tag + ": nodes")
		v = np.zeros(n)
		v[0] = 1.0
		for j in range(2 * k):
			close(np.sum((x / nT) ** j * w), v[0], (1e-6 if quad == "fttr" else 1e-12) * n + 500 * eps * n, tag + f": moment {j}")
			v = T @ v / nT
		if case["out"]:
			close(nodes, x, 4 * eps * nT, tag + ": output array of nodes")
			close(weights, w, 4 * eps, tag + ": output array of weights")
		c.label(quad)
	c.mark(k >= 2)
	c.label(f)


def s_bad():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(1, 6), "k": st.integers(0, 9), "quad": st.sampled_from(["gauss", "", "GW", "FTTR", "golub-welsch"]), "deg": st.integers(1, 8)})


def run_bad(case, c):
	n, k, Q = case["n"], case["k"], P.integrate.quadrature
	d, e = np.arange(1.0, n + 1), np.full(max(n - 1, 0), 0.5)
	rejects(Q, d, e, quad=case["quad"], what=f"unknown method {case['quad']!r}")
	deg = min(case["deg"], n)
	for quad in ("gw", "fttr"):
		if k != deg:
			for out in ("nodes", "weights"):
				rejects(Q, d, e, deg=case["deg"], quad=quad, what=f"{out} array of length {k} for degree {deg}", **{out: np.zeros(k)})
		if k not in (n, n - 1):
			rejects(Q, d, np.zeros(k), quad=quad, what=f"subdiagonal of length {k} for a diagonal of length {n}")
		if n > 1:
			rejects(Q, d, np.full(n, 0.5), quad=quad, what="subdiagonal of full length with nonzero first entry")
	c.mark()


B0 = {"n": 5, "kind": "normal", "seed": 1, "deg": 3, "exp": 0, "out": "both", "method": "default", "lead": False, "gwname": "gw"}
SUBS = [
	Sub("rule", strategy, run, quick=500, thorough=20000, shards=4, examples=[B0, {**B0, "deg": 1}, {**B0, "out": "nodes"}, {**B0, "out": "weights"}, {**B0, "n": 1, "deg": None, "kind": "zero"}, {**B0, "kind": "chebyshev", "n": 8, "deg": 4}, {**B0, "deg": 9}]),
	Sub("forms", s_forms, run_forms, quick=200, thorough=5000, shards=1, examples=[{"n": 6, "deg": 4, "seed": 1, "kind": "legendre", "form": f, "lead": f != "strided", "out": True, "method": m, "exp": 0} for f in FORMS for m in ("default", "tqli")]),
	Sub("reject", s_bad, run_bad, quick=80, thorough=500, shards=1),
]
SUBS.append(reuse_sub("C13"))
SUBS.append(big_sub("C13"))
