"""C05: count, tolerance and knee stopping rules decide by their stated criterion."""
import numpy as np
from core import Sub, check, close, same, arr, num, call
from lib import P, strategies, rng, sizes, sizes3
from big import sub as big_sub
from many import sub as many_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Estimators receive drawn sample sequences in drawn batches; after every update the decision of a rule with drawn parameters (placed just below and above the "
        "quantities compared) is compared with the reference formula evaluated on the estimator's inputs; near-ties within rounding are skipped. The knee rule is also "
        "compared under exact powers of two and sign changes of the samples. Non-trivial: a decision that was compared with at least two updates behind it (knee: three samples).")


def s_count():
	st = strategies()
	return st.fixed_dictionaries({"count": sizes(0, 12, 300), "batches": st.lists(sizes(1, 4, 150), min_size=0, max_size=8), "kind": st.sampled_from(["mean", "cov", "cv"]), "frac": st.sampled_from([0.0, 0.0, 0.5, -0.5, 1e-9, -1e-9, "inf", "numpy"])})


def run_count(case, c):
	E, fr = P.estimators, case.get("frac", 0.0)
	case = dict(case, count=np.inf if fr == "inf" else np.int64(case["count"]) if fr == "numpy" else case["count"] + fr if fr else case["count"])  # a fraction of a sample is not yet reached by the whole ones below it
	e = {"mean": lambda: E.MeanEstimator(), "cov": lambda: E.MeanEstimator(covariance=True), "cv": lambda: E.ControlVariableEstimator(0.0)}[case["kind"]]()
	g, crit, n = rng(1), E.CountCriterion(case["count"]), 0
	check(bool(call(crit, e)) == (0 >= case["count"]), "decision before any sample")
	for b in case["batches"]:
		e.update(g.normal(size=(b, 2)) if case["kind"] == "cv" else g.normal(size=b))
		n += b
		check(bool(call(crit, e)) == (n >= case["count"]), "count {} with {} samples: {}", case["count"], n, crit(e))
		check(isinstance(crit.message(e), str), "message is not text")
	c.mark(len(case["batches"]) >= 2)
	c.label("reached" if n >= case["count"] else "not reached")


def norm(v, o):
	a = np.abs(np.asarray(v, dtype=float))
	if o is None or o == 2.0:
		m = a.max()
		return float(m * np.sqrt(((a / m) ** 2).sum())) if m > 0 and np.isfinite(m) else float(m)
	if o == np.inf:
		return float(a.max())
	if o == -np.inf:
		return float(a.min())
	if o == 0:
		return float((a != 0).sum())
	if o == 1:
		return float(a.sum())
	return float((a**o).sum() ** (1 / o))


ORDS = [2.0, 1, "inf", None, 3, 2]


def s_tol():
	st = strategies()
	return st.fixed_dictionaries({"dim": st.one_of(st.integers(1, 4), st.integers(5, 40)), "seed": st.integers(0, 10**6), "n": st.integers(1, 14), "ord": st.sampled_from(ORDS),
	                              "kind": st.sampled_from(["mean", "cov", "const", "zero", "cv"]), "mag": st.sampled_from([1.0, 1e-6, 1e4]),
	                              "pairs": st.lists(st.tuples(st.sampled_from([0.0, 0.5, 0.999, 1.001, 2.0]), st.sampled_from([0.0, 0.5, 0.999, 1.001, 2.0])), min_size=1, max_size=3),
	                              "two": st.booleans()})


def run_tol(case, c):
	E = P.estimators
	dim, g = case["dim"], rng(case["seed"])
	o = np.inf if case["ord"] == "inf" else case["ord"]
	cv = case["kind"] == "cv"
	dim = 1 if cv else dim
	e = E.ControlVariableEstimator(0.5, record=False) if cv else E.MeanEstimator(dim=dim, covariance=case["kind"] == "cov")
	X = g.normal(size=(case["n"], dim + cv)) * case["mag"]
	if case["kind"] == "const":
		X[:] = 3.0 * case["mag"]
	if case["kind"] == "zero":
		X[:] = 0.0
	kw = {} if case["ord"] == 2.0 else {"ord": o}
	for q in range(1, case["n"] + 1):
		e.update(X[q - 1 : q])
		if q % 2 and case["two"] and q < case["n"]:
			continue
		est, d = np.atleast_1d(arr(e.estimate)).ravel(), np.atleast_1d(arr(e.delta)).ravel()
		err, ref = norm(d, o), norm(est, o)
		for fa, fr in case["pairs"]:
			at, rt = fa * err, (fr * err / ref if ref > 0 else fr)
			if err == 0:
				at, rt = fa, fr
			want = err < at or err < rt * ref
			if any(abs(err - t) <= 1e-9 * err for t in (at, rt * ref) if t != 0 or err != 0):
				continue
			got = call(E.ToleranceCriterion(rtol=rt, atol=at, **kw), e)
			check(bool(got) == want, "norm of change {} (ord {}), norm of estimate {}, atol {}, rtol {}: decided {}", err, o, ref, at, rt, got)
			c.mark(q >= 2)
			c.label("met" if want else "unmet", f"ord{case['ord']}")
		if abs(err - 1.49e-8) > 1e-12 and abs(err - 0.01 * ref) > 1e-9 * ref:
			check(bool(call(E.ToleranceCriterion(**kw), e)) == (err < 1.49e-8 or err < 0.01 * ref), "default tolerances are not atol=1.49e-8, rtol=0.01")
		check(isinstance(E.ToleranceCriterion(rtol=0.1, **kw).message(e), str), "message is not text")


def knee(values, S):
	"""Kneedle test on the cumulative absolute differences of the running means. Returns (decision, margin)."""
	x = np.asarray(values, dtype=float).ravel()
	if len(x) < 3:
		return False, np.inf
	means = [x[: i + 1].sum() / (i + 1) for i in range(len(x))]
	y, t = [], 0.0
	for a, b in zip(means[1:], means[:-1]):
		t += abs(a - b)
		y.append(t)
	y = np.array(y)
	rngy = y[-1] - y[0]
	noise = 1e-13 * len(x) * np.abs(x).max()
	if rngy <= 0:
		return False, np.inf
	d = (y - y[0]) / rngy - np.arange(len(y)) / (len(y) - 1)
	top = d.max()
	thr = top - S / (len(y) - 1)
	margin = min(abs(top - thr), abs(d[-1] - thr)) if S != 0 else 0.0
	return bool(top > thr and d[-1] < thr), margin - 4 * noise / rngy


def s_knee():
	st = strategies()
	return st.fixed_dictionaries({"n": sizes3(0, 40, 300, 3000), "seed": st.integers(0, 10**6), "S": st.sampled_from([1.0, 0.5, 2.0, 5.0, 10.0, 0.1, 20.0]), "kind": st.sampled_from(["normal", "decay", "flat", "step", "ints", "grow"]),
	                              "mean": st.sampled_from([0.0, 5.0, -3.0]), "batch": sizes(1, 5, 120), "pow": st.integers(-20, 20), "neg": st.booleans(), "cov": st.booleans(), "rel": st.sampled_from([None, None, 0.97, 1.03])})


def knee_data(case):
	g, n = rng(case["seed"]), case["n"]
	i = np.arange(n)
	return {"normal": lambda: g.normal(size=n) + case["mean"], "decay": lambda: case["mean"] + np.exp(-i * g.uniform(0.1, 2)) * g.normal(size=n), "flat": lambda: np.full(n, case["mean"]),
	        "step": lambda: case["mean"] + (i < 3) * 1.0, "ints": lambda: g.integers(-2, 3, size=n).astype(float), "grow": lambda: i * 1.0 + case["mean"]}[case["kind"]]()


def run_knee(case, c):
	E = P.estimators
	x = knee_data(case)
	f = 2.0 ** case["pow"] * (-1.0 if case["neg"] else 1.0)
	e, e2 = E.MeanEstimator(record=True, covariance=case["cov"]), E.MeanEstimator(record=True)
	norec = E.MeanEstimator(record=False)
	S = case["S"]
	if case.get("rel") and len(x) >= 3:  # near the largest sensitivity that all samples meet
		y = np.cumsum(np.abs(np.diff(np.cumsum(x) / np.arange(1, len(x) + 1))))
		if y[-1] > y[0]:
			S = case["rel"] * float(np.max((y - y[0]) / (y[-1] - y[0]) - np.linspace(0, 1, len(y)))) * (len(y) - 1)
	crit = E.KneeCriterion(S) if S != 1.0 else E.KneeCriterion()
	check(not bool(call(crit, e)), "satisfied without samples")
	batch = max(case["batch"], len(x) // 60)
	for a in range(0, len(x), batch):
		B = x[a : a + batch]
		e.update(B)
		e2.update(B * f)
		norec.update(B)
		q = len(e)
		want, margin = knee(x[:q], S)
		g1, g2 = call(crit, e), call(crit, e2)
		check(bool(g1) == bool(g2), "decision {} changes to {} when the samples are multiplied by {}", g1, g2, f)
		check(not bool(call(crit, norec)), "satisfied without recorded values")
		if q < 3:
			check(not bool(g1), "satisfied with {} samples", q)
		if np.all(x[:q] == x[0]) and case["mean"] in (0.0, 5.0, -3.0) and case["kind"] == "flat":
			check(not bool(g1), "satisfied with a flat sequence")
			c.label("flat")
			continue
		if margin > 1e-9:
			check(bool(g1) == want, "{} samples, S={}: decided {}, reference {}", q, S, g1, want)
			if q >= 3:
				c.mark()
				c.label("met" if want else "unmet")
	if len(x):
		check(isinstance(crit.message(e), str), "message is not text")


SUBS = [
	Sub("count", s_count, run_count, quick=150, thorough=3000, shards=1),
	Sub("tolerance", s_tol, run_tol, quick=500, thorough=20000),
	Sub("knee", s_knee, run_knee, quick=500, thorough=20000, examples=[
		{"n": 12, "seed": 1, "S": 1.0, "kind": "normal", "mean": 5.0, "batch": 1, "pow": 3, "neg": True, "cov": False},
		{"n": 30, "seed": 2, "S": 1.0, "kind": "decay", "mean": 5.0, "batch": 1, "pow": -3, "neg": False, "cov": False}]),
]
SUBS.append(reuse_sub("C05"))
SUBS.append(big_sub("C05"))
SUBS.append(many_sub("C05"))
