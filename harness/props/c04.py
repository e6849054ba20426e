"""C04: confidence intervals and the confidence stopping rule are calibrated."""
import re
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from many import sub as many_sub
from lib import P, strategies, rng, sizes, sizes3
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Samples of 1..60 (one in five up to 400) values (normal, discrete, constant or shifted, of a drawn seed) with drawn confidence level and tolerances placed just below, at a factor of, "
        "or just above the quantities they are compared with; sizes concentrate on 2, 3, 29, 30 and 31. Intervals and decisions are compared with quantiles from the inverse "
        "incomplete beta / error functions. Non-trivial: at least three samples with positive spread.")


def tq(conf, df):
	"""Two-sided Student-t quantile from the inverse regularised incomplete beta function."""
	from scipy.special import betaincinv
	x = betaincinv(df / 2.0, 0.5, 1.0 - conf)  # P(|T| > t) = I_x(df/2, 1/2), x = df/(df+t^2)
	return float(np.sqrt(df * (1.0 - x) / x)) if x > 0 else np.inf


def tq_big(conf, df):
	from scipy.special import betaincinv
	y = betaincinv(0.5, df / 2.0, conf)  # P(|T| <= t) = I_y(1/2, df/2), y = t^2/(df+t^2)
	return float(np.sqrt(df * y / (1.0 - y)))


def zq(conf):
	from scipy.special import gammaincinv
	return float(np.sqrt(2.0 * gammaincinv(0.5, conf)))  # P(|Z| <= z) = P(1/2, z^2/2)


CONF = [0.5, 0.8, 0.9, 0.95, 0.99, 0.999, 0.01]


def sample(case):
	g = rng(case["seed"])
	n, kind = case["n"], case["kind"]
	x = {"normal": lambda: g.normal(size=n), "signs": lambda: g.choice([-1.0, 1.0], size=n), "const": lambda: np.full(n, 0.5), "exp": lambda: g.exponential(size=n)}[kind]()
	return x * case["spread"] + case["mean"]


def base():
	st = strategies()
	return {"n": st.one_of(st.sampled_from([2, 3, 4, 28, 29, 30, 31, 32]), sizes3(1, 60, 400, 6000)), "seed": st.integers(0, 10**6),
	        "kind": st.sampled_from(["normal", "normal", "signs", "exp", "const"]), "spread": st.sampled_from([1.0, 1e-4, 30.0]),
	        "mean": st.sampled_from([0.0, 1.0, -7.0, 100.0]), "conf": st.one_of(st.sampled_from(CONF), st.floats(0.01, 0.999, allow_nan=False))}


def s_interval():
	st = strategies()
	return st.fixed_dictionaries({**base(), "form": st.sampled_from(["array", "list"])})


def run_interval(case, c):
	x = sample(case)
	if len(x) < 2:
		x = np.append(x, x[0] + 1.0)
	n, conf = len(x), case["conf"]
	a = x.tolist() if case["form"] == "list" else x
	m, se = x.mean(), x.std(ddof=1) / np.sqrt(n)
	ci = P.stats.confidence_interval
	for sd, q in (("t", tq_big(conf, n - 1)), ("normal", zq(conf)), (None, tq_big(conf, n - 1))):
		r = call(ci, a, confidence=conf) if sd is None else call(ci, a, confidence=conf, sdist=sd)
		check(len(r) == 2, "interval has {} ends", len(r))
		tol = 1e-9 * q * se + 1e-13 * (abs(m) + np.abs(x).max()) * (1 + q)
		if se <= 1e-13 * np.abs(x).max():
			if sd == "normal" and not np.all(np.isfinite(arr(r[0]))):
				continue  # the normal interval is undefined at zero scale
		close([num(r[0]), num(r[1])], [m - q * se, m + q * se], tol, f"{sd or 'default'} interval, n={n}, confidence={conf}")
	if conf < 0.9:
		w0, w1 = call(ci, a, confidence=conf), call(ci, a, confidence=conf + 0.09)
		check(w1[1] - w1[0] >= w0[1] - w0[0] - 1e-12 * (1 + abs(m)), "a higher confidence gives a narrower interval")
	for bad in (-0.1, 1.1):
		rejects(ci, x, confidence=bad, what=f"confidence {bad}")
	rejects(ci, x, sdist="cauchy", what="unknown sampling distribution")
	d = np.array([num(v) for v in call(ci, x)])
	close(d, [m - tq_big(0.95, n - 1) * se, m + tq_big(0.95, n - 1) * se], 1e-9 * tq_big(0.95, n - 1) * se + 1e-12 * (abs(m) + 1) * (1 + tq_big(0.95, n - 1)), "default interval is not the 95% one")
	c.mark(n >= 3 and se > 0)
	c.label(case["kind"], "n<30" if n < 30 else "n>=30")


def s_rule():
	st = strategies()
	return st.fixed_dictionaries({**base(), "where": st.sampled_from(["a_lo", "a_hi", "r_lo", "r_hi", "both_lo", "zero", "none"]),
	                              "eps": st.sampled_from([1e-6, 0.01, 0.3]), "cuts": st.lists(sizes3(1, 59, 399, 5999), max_size=4)})


def run_rule(case, c):
	x = sample(case)
	n, conf = len(x), case["conf"]
	e = P.estimators.MeanEstimator(covariance=True)
	a = 0
	E = P.estimators
	for q in sorted({k for k in case["cuts"] if k < n} | {n}):
		e.update(x[a:q])
		a = q
		D = x[:q]
		m = D.mean()
		if q < 3:
			for crit in (E.ConfidenceCriterion(conf, atol=1e300, rtol=1e300), E.ConfidenceCriterion(conf)):
				check(not bool(call(crit, e)), "satisfied with {} samples", q)
			continue
		se = D.std(ddof=1) / np.sqrt(q)
		z = tq_big(conf, q - 1) if q < 30 else zq(conf)
		moe, rel = z * se, (se / abs(m) if m != 0 else np.inf)
		fuzz = 1e-9 + 1e-13 * np.abs(D).max() / max(se, 1e-300)
		eps = max(case["eps"], 4 * fuzz)
		ill = se <= 1e-7 * np.abs(D).max()  # the spread is rounding noise
		lo, hi = 1 - min(eps, 0.9), 1 + eps
		w = case["where"]
		if ill and w not in ("none",):
			w = "none"
		at, rt, want = {"a_lo": (moe * lo, 0.0, False), "a_hi": (moe * hi, 0.0, True), "r_lo": (0.0, rel * lo, False), "r_hi": (0.0, rel * hi, True),
		                "both_lo": (moe * lo, rel * lo, False), "zero": (0.0, 0.0, se == 0), "none": (1e300, 0.0, True)}[w]
		if w.startswith("r") or w == "both_lo":
			if not np.isfinite(rel) or abs(m) < 1e-9 * np.abs(D).max():
				continue
		if q % 2:  # None stands for no tolerance of that kind
			at, rt = at or None, rt or None
		crit = E.ConfidenceCriterion(confidence=conf, atol=at, rtol=rt)
		got = call(crit, e)
		check(bool(got) == want, "n={} confidence={} half-width={} relative error={} atol={} rtol={}: decided {}, expected {}", q, conf, moe, rel, at, rt, got, want)
		if want and w == "none":
			check(bool(call(E.ConfidenceCriterion(conf, atol=None, rtol=1e300), e)) or not np.isfinite(rel) or abs(m) <= 1e-9 * np.abs(D).max(), "rtol alone not applied")
		if not ill and w in ("a_lo", "a_hi"):
			# default tolerances: atol 0, rtol 1%
			if abs(rel / 0.01 - 1) > 1e-6 and np.isfinite(rel) and abs(m) > 1e-9:
				check(bool(call(E.ConfidenceCriterion(conf), e)) == (rel <= 0.01), "default tolerances are not atol=0, rtol=0.01")
			msg = crit.message(e)
			check(isinstance(msg, str) and f"{moe:.3f}" in msg or abs(moe * 1000 - np.floor(moe * 1000) - 0.5) < 1e-3, "message {!r} does not name the half-width {:.3f}", msg, moe)
			named = re.search(r"([-+.0-9e]+) ?%", msg)
			check(named and abs(float(named[1]) - conf * 100) <= 1e-5 * conf * 100, "message {!r} does not name the confidence {}%", msg, conf * 100)
		c.mark(q >= 3 and se > 0)
		c.label(w, "n<30" if q < 30 else "n>=30", f"n={q}" if q in (3, 29, 30, 31) else "other")


def s_reject():
	st = strategies()
	return st.fixed_dictionaries({"conf": st.sampled_from([0.0, 1.0, -0.5, 1.5, 2.0])})


def run_reject(case, c):
	rejects(P.estimators.ConfidenceCriterion, case["conf"], what=f"confidence level {case['conf']}")
	c.mark()


ex = {"n": 30, "seed": 1, "kind": "normal", "spread": 1.0, "mean": 1.0, "conf": 0.95, "where": "a_lo", "eps": 0.01, "cuts": [3, 4, 10, 28, 29]}
SUBS = [
	Sub("interval", s_interval, run_interval, quick=400, thorough=10000),
	Sub("rule", s_rule, run_rule, quick=800, thorough=30000, shards=3, examples=[ex, {**ex, "where": "a_hi"}, {**ex, "where": "r_lo"}, {**ex, "where": "r_hi", "n": 31}]),
	Sub("reject", s_reject, run_reject, quick=5, thorough=5, shards=1),
]
SUBS.append(reuse_sub("C04"))
SUBS.append(many_sub("C04"))
