"""C03: control-variable estimates equal the regression-adjusted mean."""
import numpy as np
from core import Sub, check, close, same, arr, num, call
from lib import P, strategies, rng, sizes
from big import sub as big_sub
from many import sub as many_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Joint samples of a response and 1..4 control variables (normal data of a drawn seed, scaled and shifted, response = linear part plus drawn noise) are fed in "
        "drawn batches, with given or estimated coefficients; after every batch estimate, coefficients, change, length and record are compared with the regression "
        "formula on all samples so far. Estimated coefficients are compared while the control covariance is well conditioned (cond <= 3e4). Non-trivial: two batches or more, "
        "at least three samples.")


def strategy():
	st = strategies()
	return st.fixed_dictionaries({
		"k": sizes(1, 4, 9), "n": sizes(1, 25, 1300), "seed": st.integers(0, 10**6), "cuts": st.lists(sizes(1, 24, 1299), max_size=6),
		"noise": st.sampled_from([0.0, 0.1, 1.0]), "scale": st.sampled_from([1.0, 1e-3, 50.0]), "shift": st.sampled_from([0.0, 1.0, -20.0]),
		"alpha": st.sampled_from([None, None, "normal", "normal", "zero", "ones", "mixed"]), "discrete": st.booleans(), "record": st.booleans(), "coef": st.sampled_from([0.0, 1.0, -3.0]), "scalar": st.booleans(), "shape": st.sampled_from(["flat", "flat", "column", "row", "list"]), "spread": st.sampled_from([None, None, None, 1e-4, 1e3]), "every": st.sampled_from([False] * 7 + [True]), "fr": st.lists(st.integers(1, 15), max_size=3),
		"py": st.sampled_from([0, 0, 0, 20, -45, 80]), "px": st.sampled_from([0, 0, 0, -40, 50, -90])})


def run(case, c):
	k, n = case["k"], case["n"]
	g = rng(case["seed"])
	X = g.integers(-1, 2, size=(n, k)).astype(float) if case["discrete"] else g.normal(size=(n, k))
	if case.get("spread"):
		X = X * case["spread"] ** (np.arange(k) % 2)  # control variables of very different size
	X = X * case["scale"] * (1 + np.arange(k)) + case["shift"]
	beta = case["coef"] * (1 + np.arange(k))
	b0 = float(g.integers(-5, 6))
	ecv = g.normal(size=k) * case["scale"] + case["shift"]
	y = b0 + X @ beta + case["noise"] * g.normal(size=n)
	S = np.c_[y, X]
	fy, fx = 2.0 ** case.get("py", 0), 2.0 ** case.get("px", 0)  # exact changes of unit of the response and of the controls: results are compared in the first units
	unit = np.append(fy, np.full(k, fx))
	alpha = None if case["alpha"] is None else {"normal": g.normal(size=k), "zero": np.zeros(k), "ones": np.ones(k), "mixed": np.arange(k) % 2 * -2.0}[case["alpha"]]
	one = k == 1 and case["scalar"]
	shape = {"flat": lambda x: x.copy(), "column": lambda x: x[:, None].copy(), "row": lambda x: x.copy(), "list": lambda x: x.tolist()}[case.get("shape", "flat")]
	uecv, ualpha = ecv * fx, None if alpha is None else alpha * (fy / fx)
	e = P.estimators.ControlVariableEstimator(ecv=float(uecv[0]) if one else uecv.copy() if case.get("shape") == "row" else shape(uecv), alpha=None if alpha is None else (float(ualpha[0]) if one else shape(ualpha)), record=case["record"])
	check(len(e) == 0 and np.all(np.isnan(arr(e.estimate))), "estimate before any sample is {}", e.estimate)
	cuts = list(range(1, n + 1)) if case.get("every") and n <= 120 else sorted({q for q in case["cuts"] + [f * n // 16 for f in case.get("fr", [])] if 0 < q < n} | {n})
	last, a, comparable, last_ok = 0.0, 0, 0, True
	for q in cuts:
		B = S[a:q] * unit
		B0 = B.copy()
		call(e.update, B)
		same(B, B0, "update modified its input")
		a = q
		D = S[:q]
		check(len(e) == q, "length {} after {} samples", len(e), q)
		mu = D.mean(axis=0)
		Xc, yc = D[:, 1:] - mu[1:], D[:, 0] - mu[0]
		got = num(e.estimate, "estimate") / fy
		scale = np.abs(D).max() + np.abs(ecv).max() + 1e-300
		cond, const = 1.0, False
		if alpha is not None:
			al = alpha
			ok = True
		elif q < 2:
			al = np.zeros(k)
			ok = True
		else:
			al = np.linalg.lstsq(Xc, yc, rcond=None)[0]
			sv = np.linalg.svd(Xc, compute_uv=False)
			cond = sv[0] / sv[-1] if len(sv) == k and sv[-1] > 0 and q > k else np.inf
			# rounding of the data relative to their spread limits what any algorithm can resolve
			cond *= (np.abs(D).max() / max(np.abs(Xc).max(), 1e-300))
			ok = cond <= 3e4
			if not ok and k == 1 and q >= 2 and np.all(D[:, 1] == D[0, 1]) and float(D[0, 1]).is_integer():
				al, ok, cond, const = np.zeros(1), True, 1.0, True  # a constant control variable explains nothing
		ref = mu[0] - al @ (mu[1:] - ecv)
		tol = 1e-13 * cond**2 * q * scale * (1 + np.abs(al).sum())
		if alpha is None and q >= 2:
			C = np.cov(D.T)
			ga = np.atleast_1d(arr(e.alpha)).ravel() * (fx / fy)
			norm = np.abs(C[1:, 1:]).max() * (1 + np.abs(ga).max()) + np.abs(C[1:, 0]).max() + (np.abs(D).max() * 1e-16) ** 2
			close(C[1:, 1:] @ ga, C[1:, 0], 1e-9 * q * k * norm + 1e-12 * np.abs(D).max() * np.abs(Xc).max() * (1 + np.abs(ga).max()), "normal equations of the coefficients")
		if ok:
			close(got, ref, tol, f"estimate after {q} samples (alpha {'given' if alpha is not None else 'estimated'})")
			if alpha is not None or q >= 2:
				close(np.atleast_1d(arr(e.alpha)).ravel() * (fx / fy), al, 1e-12 * cond**2 * q * (1 + np.abs(al)), "coefficients")
			comparable += 1
			if case["noise"] == 0.0 and alpha is None and not const and q > k + 1 and cond < 1e3:
				close(got, b0 + beta @ ecv, 10 * tol + 1e-10 * scale * (1 + np.abs(beta).sum()), "estimate of an exactly linear response is not its expectation")
		if np.isfinite(got) and last_ok:
			d = num(e.delta, "delta") / fy
			close(d, got - last, 1e-9 * (abs(got) + abs(last)) + 1e-300, "last change")
		last, last_ok = got, bool(np.isfinite(got))
		if case["record"]:
			check(e.values is not None and len(e.values) == q, "{} recorded values for {} samples", None if e.values is None else len(e.values), q)
			same(np.array(e.values).reshape(q, k + 1), D * unit, "record")
		cc = P.estimators
		check(cc.CountCriterion(q)(e) and not cc.CountCriterion(q + 1)(e), "count rule disagrees with the number of samples")
		if np.isfinite(got):
			dd = abs(num(e.delta))
			for at in (dd * 0.5, dd * 2 + 1e-9 * fy):
				check(bool(cc.ToleranceCriterion(rtol=0.0, atol=at)(e)) == (dd < at), "tolerance rule disagrees with the last change")
	c.mark(len(cuts) >= 2 and n >= 3 and comparable >= 2)
	c.label("given" if alpha is not None else "estimated", f"k{k}", "discrete" if case["discrete"] else "normal")


SUBS = [Sub("history", strategy, run, quick=600, thorough=20000, shards=3, examples=[
	{"k": 1, "n": 1, "seed": 1, "cuts": [], "noise": 1.0, "scale": 1.0, "shift": 0.0, "alpha": None, "discrete": False, "record": True, "coef": 1.0, "scalar": True},
	{"k": 1, "n": 4, "seed": 1, "cuts": [1, 2, 3], "noise": 1.0, "scale": 1.0, "shift": 0.0, "alpha": None, "discrete": False, "record": True, "coef": 1.0, "scalar": True},
	{"k": 1, "n": 3, "seed": 5, "cuts": [1, 2], "noise": 1.0, "scale": 1.0, "shift": 0.0, "alpha": None, "discrete": True, "record": True, "coef": 1.0, "scalar": False},
	{"k": 3, "n": 12, "seed": 1, "cuts": [6, 7], "noise": 1.0, "scale": 1.0, "shift": 1.0, "alpha": "normal", "discrete": False, "record": True, "coef": 1.0, "scalar": False},
	{"k": 3, "n": 12, "seed": 1, "cuts": [6, 7], "noise": 0.0, "scale": 1.0, "shift": 1.0, "alpha": None, "discrete": False, "record": False, "coef": 1.0, "scalar": False},
	{"k": 1, "n": 5, "seed": 2, "cuts": [2, 3], "noise": 1.0, "scale": 1.0, "shift": 1.0, "alpha": "zero", "discrete": False, "record": False, "coef": 1.0, "scalar": True},
	{"k": 2, "n": 9, "seed": 2, "cuts": [4, 5], "noise": 1.0, "scale": 1.0, "shift": 1.0, "alpha": "zero", "discrete": False, "record": False, "coef": 1.0, "scalar": False}])]
SUBS.append(reuse_sub("C03"))
SUBS.append(big_sub("C03"))
SUBS.append(many_sub("C03"))
