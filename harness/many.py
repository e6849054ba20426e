"""Streams of many samples: counts drawn log-uniformly between a thousand and several hundred thousand, in few batches.
Counters, records and quantiles that are limited to some range of counts show here."""
import numpy as np
from core import Sub, check, close, same, arr, num, call
from lib import P, strategies, rng

RULE = " many: streams of 1e3..3e5 samples (log-uniform) in few batches, against direct computations."


def s_many():
	st = strategies()
	f = st.one_of(st.floats(0.0, 1.0), st.sampled_from([0.3, 0.6, 0.85, 1.0]))
	return st.fixed_dictionaries({"size": f, "cut": st.one_of(st.just([0.5]), st.lists(st.floats(0.0, 1.0), max_size=3)), "seed": st.integers(0, 10**6), "opt": st.integers(0, 11)})


def count(case, lo=1000, hi=300000):
	return int(round(lo * (hi / lo) ** case["size"]))


def cuts(case, n):
	return sorted({int(f * n) for f in case["cut"]} - {0} | {n})


def sub(prop, quick=10, thorough=300):
	def run(case, c):
		MANY[prop](case, rng(case["seed"]))
		c.mark()
		c.label(f"1e{len(str(count(case))) - 1}")
	return Sub("many", s_many, run, quick=quick, thorough=thorough, shards=1, examples=[{"size": s, "cut": [0.5], "seed": 1, "opt": k} for s, k in ((1.0, 0), (0.7, 1))])


def c01(case, g):
	dim, n = 1 + case["opt"] % 3, count(case)
	X = g.normal(size=(n, dim)) + np.linspace(0, 2, n)[:, None]
	M, C = P.stats.Mean(dim), P.stats.Covariance(dim)
	a = 0
	for q in cuts(case, n):
		for t in (M, C):
			call(t.update, X[a:q] if dim > 1 or case["opt"] % 2 else X[a:q, 0])
			close(np.ravel(arr(t.mean())), X[:q].mean(axis=0), 1e-11, f"mean of {q} samples")
			check(t.n == q, "count {} of {} samples", t.n, q)
		a = q
		for ddof in (0, 1):
			if q > ddof:
				close(np.ravel(arr(C.covariance(ddof))), np.ravel(np.cov(X[:q].T, ddof=ddof)), 1e-9, f"covariance of {q} samples (ddof {ddof})")


def c02(case, g):
	dim, n = 1 + case["opt"] % 3, count(case)
	X = g.normal(size=(n, dim)) + np.linspace(0, 2, n)[:, None]
	e = P.estimators.MeanEstimator(dim=dim, covariance=case["opt"] % 2 == 1, record=True)
	a, prev = 0, np.zeros(dim)
	for q in cuts(case, n):
		call(e.update, X[a:q])
		mu = X[:q].mean(axis=0)
		close(np.ravel(arr(e.estimate)), mu, 1e-11, f"estimate of {q} samples")
		close(np.ravel(arr(e.delta)), mu - prev, 1e-11, f"last change after {q} samples")
		check(len(e) == q and len(e.values) == q, "length {} and {} recorded of {} samples", len(e), len(e.values), q)
		a, prev = q, mu
	same(np.array(e.values).reshape(n, dim), X, "record")


def c03(case, g):
	k, n = 1 + case["opt"] % 2, count(case)
	X = g.normal(size=(n, k)) + np.linspace(0, 1, n)[:, None]
	beta, ecv = g.normal(size=k), g.normal(size=k)
	S = np.c_[X @ beta + 2 + 0.1 * g.normal(size=n), X]
	given = case["opt"] % 3 == 0
	e = P.estimators.ControlVariableEstimator(ecv=ecv.copy(), alpha=beta.copy() if given else None, record=True)
	a = 0
	for q in cuts(case, n):
		call(e.update, S[a:q])
		a = q
		if q > 10:
			mu = S[:q].mean(axis=0)
			al = beta if given else np.linalg.lstsq(S[:q, 1:] - mu[1:], S[:q, 0] - mu[0], rcond=None)[0]
			close(num(e.estimate), mu[0] - al @ (mu[1:] - ecv), 1e-7, f"estimate of {q} samples")
	check(len(e) == n and len(e.values) == n, "length {}, {} recorded of {}", len(e), len(e.values), n)
	same(np.array(e.values).reshape(n, k + 1), S, "record")


def c04(case, g):
	import scipy.stats as ss
	E, n = P.estimators, count(case)
	x = g.normal(size=n) + 3
	conf = [0.5, 0.9, 0.95, 0.99, 0.999][case["opt"] % 5]
	m, se = x.mean(), x.std(ddof=1) / np.sqrt(n)
	for dist, q in (("t", ss.t.ppf((1 + conf) / 2, n - 1)), ("normal", ss.norm.ppf((1 + conf) / 2))):
		close([num(v) for v in call(P.stats.confidence_interval, x, conf, dist)], [m - q * se, m + q * se], 1e-9 * q * se + 1e-13, f"{dist} interval of {n} samples at level {conf}")
	e, a = E.MeanEstimator(covariance=True), 0
	for q in cuts(case, n):
		e.update(x[a:q])
		a = q
	h = ss.norm.ppf((1 + conf) / 2) * se
	for f in (0.999, 1.001):
		check(bool(call(E.ConfidenceCriterion(conf, atol=h * f, rtol=0.0), e)) == (f > 1), "absolute tolerance {} times the half-width of {} samples at level {}", f, n, conf)
		check(bool(call(E.ConfidenceCriterion(conf, atol=0.0, rtol=se / abs(m) * f), e)) == (f > 1), "relative tolerance {} times the relative error of {} samples", f, n)


def c05(case, g):
	E, n = P.estimators, count(case)
	x = g.normal(size=n) * np.where(np.arange(n) < n * [1.0, 0.5, 0.1, 0.01][case["opt"] % 4], 30.0, 0.1)
	e, a, prev = E.MeanEstimator(record=True), 0, 0.0
	for q in cuts(case, n):
		e.update(x[a:q])
		a = q
		for k, want in ((q, True), (q + 1, False)):
			check(bool(call(E.CountCriterion(k), e)) == want, "count rule for {} with {} samples", k, q)
		mu = x[:q].mean()
		d = abs(mu - prev)
		prev = mu
		for f in (0.99, 1.01):
			if d > 1e-9:
				check(bool(call(E.ToleranceCriterion(rtol=0.0, atol=d * f), e)) == (f > 1), "tolerance {} times the change after {} samples", f, q)
		if q >= 3:
			y = np.cumsum(np.abs(np.diff(np.cumsum(x[:q]) / np.arange(1, q + 1))))
			top = np.max((y - y[0]) / (y[-1] - y[0]) - np.linspace(0, 1, q - 1)) * (q - 2)  # the largest sensitivity that meets the test
			for f in (0.1, 0.99, 1.01):
				if top > 1e-6 * q:
					check(bool(call(E.KneeCriterion(top * f), e)) == (f < 1), "knee rule with {} times the critical sensitivity {} on {} samples", f, top, q)


MANY = {f"C0{i}": globals()[f"c0{i}"] for i in range(1, 6)}
