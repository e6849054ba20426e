"""C24: stochastic diagonal estimates follow their probes and are exact on diagonals."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from props.c22 import quad_operator
from lib import P, strategies, s_matrix, WIDE, matrix, operator, RecOp, RecSampler, probe_source, sign_vectors, ListSource, rng, sizes, sizes3
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Symmetric matrices of size 1..12 (one in five up to 60), several operator kinds and precisions, three distributions by name or through a recording sampler (whose probes may be scaled by 1e-75..1e60), plain/detailed/callback modes, count, tolerance and user-written rules. The estimate is recomputed from the "
        "recorded probes (mean over the steps of the ratio of accumulated products to accumulated squares); all 2^n sign vectors are enumerated for n <= 6; diagonal matrices must be exact. Non-trivial: size and steps two or more.")
EPS = {"f8": 2.3e-16, "f4": 1.2e-7}


def s_probes():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(1, 12, exps=WIDE, big=60), "op": st.sampled_from(["dense", "fortran", "csr", "linop", "rec", "rec_undeclared", "quad", "quadlin"]), "dt": st.sampled_from(["f8", "f8", "f4"]), "pdf": st.sampled_from(["rademacher", "normal", "sphere"]), "named": st.booleans(),
	                              "mode": st.sampled_from(["plain", "full", "callback", "full+callback"]), "rule": st.sampled_from(["count", "tolerance", "toldefault", "user", "countobj"]), "count": sizes3(1, 30, 150, 1200), "tol": st.sampled_from([0.5, 0.1, 0.03]), "seed": st.integers(0, 10**6), "record": st.booleans(), "pscale": st.sampled_from([0, 0, 0, -75, -9, 5, 60])})


def reference(A, V):
	N = np.cumsum(V * (A @ V), axis=1)
	D = np.cumsum(V * V, axis=1)
	R = N / D
	return R, np.cumsum(R, axis=1) / np.arange(1, V.shape[1] + 1)


def run_probes(case, c):
	A = matrix(case["A"])
	n, dt = A.shape[0], case["dt"]
	A = A.astype(dt).astype(float)
	E = P.estimators
	scale = max(np.linalg.norm(A), 1e-300)
	kw = {}
	if case["rule"] == "count":
		conv, kw, dec = "count", {"count": case["count"]}, lambda k, est, prev: k >= case["count"]
	elif case["rule"] == "countobj":
		conv, dec = E.CountCriterion(case["count"]), lambda k, est, prev: k >= case["count"]
	elif case["rule"] == "user":
		class Rule(E.ConvergenceCriterion):
			def __init__(self):
				pass

			def __call__(self, est):
				return 2 * len(est) >= case["count"]

			def message(self, est):
				return "user rule"
		conv, dec = Rule(), lambda k, est, prev: 2 * k >= case["count"]
	else:
		rt, at = (0.01, 1.49e-08) if case["rule"] == "toldefault" else (0.0, case["tol"] * scale)
		conv = "tolerance"
		if case["rule"] == "tolerance":
			kw = {"atol": at, "rtol": rt}

		def dec(k, est, prev):
			if k == 0:
				return False
			d, lim = np.linalg.norm(est - prev), max(at, rt * np.linalg.norm(est))
			return None if abs(d - lim) <= (1e-7 if dt == "f8" else 2e-2) * lim + (1e-9 if dt == "f8" else 1e-4) * scale else d < lim
	src = probe_source(case["pdf"], case["seed"], case["seed"] % 4 == 3)
	ps = 10.0 ** (max(-9, min(5, case.get("pscale", 0))) if dt == "f4" else case.get("pscale", 0))
	samp = RecSampler((lambda size: ps * src(size)) if ps != 1 else src)  # the ratios do not depend on the scale of the probes
	op = quad_operator(A, case["op"], dt) if case["op"].startswith("quad") else operator(A, "rec" if case["named"] else case["op"], dt)  # an operator may offer quadratic forms too
	states = []
	full, cb = "full" in case["mode"], "callback" in case["mode"]
	args = dict(converge=conv, pdf=case["pdf"] if case["named"] else samp, seed=case["seed"], **kw)
	if case["record"]:
		args["record"] = True
	if full:
		args["full"] = True
	if cb:
		args["callback"] = lambda r: states.append((np.array(r.estimate, dtype=float, copy=True).ravel(), int(r.nit), len(r.estimator))) or [None, True, 1.0, "stop", False, r][case["seed"] % 6]  # whatever a callback returns is ignored
	out = call(P.diagonal.diag, op, **args)
	est, res = out if isinstance(out, tuple) else (out, None)
	check(not full or res is not None, "no detailed result")
	est = arr(np.ravel(est), (n,), name="estimate")
	V = op.columns() if case["named"] else samp.columns(n).astype(dt).astype(float)
	k = V.shape[1]
	check(k >= 1, "no probe was drawn")
	if case["named"] and case["pdf"] == "rademacher":
		check(np.all(np.abs(V) == 1), "sign probes have other entries")
	if case["named"] and case["pdf"] == "sphere":
		close(np.linalg.norm(V, axis=0), np.full(k, np.sqrt(n)), 1e-5 * np.sqrt(n), "sphere probes have another norm")
	R, M = reference(A, V)
	D = np.cumsum(V * V, axis=1)
	amp = np.cumsum(np.abs(V * (np.abs(A) @ np.abs(V))) / D[:, :1], axis=1)  # the first ratios may divide by small squares
	tol = 40 * n * EPS[dt] * (amp[:, -1] + np.abs(A).sum())
	close(est, M[:, -1], tol, "the estimate is not the mean of the running ratios")
	sure = True
	for j in range(0, k + 1):
		d = dec(j, M[:, j - 1] if j else None, M[:, j - 2] if j > 1 else np.zeros(n))
		if d is None:
			sure = False
			continue
		if j == k:
			check(d or not sure or np.any(tol > 1e-5 * scale), "sampling stopped at {} steps before the rule was satisfied", k)
		elif d and np.all(tol <= 1e-5 * scale):
			check(False, "sampling went on after the rule was satisfied at {} of {} steps", j, k)
	if res is not None:
		close(np.ravel(res.estimate), est, 0, "the result's estimate differs from the returned one")
		check(int(res.nit) == k and len(res.estimator) == k, "the result counts {} samples, its estimator {}, drawn {}", res.nit, len(res.estimator), k)
		check(isinstance(res.message, str) and res.message, "no message")
		check(callable(res.criterion), "no criterion in the result")
		if case["record"]:
			close(arr(res.estimator.values, (k, n)), R.T, tol[None, :], "recorded values")
	if cb:
		check([s[1] for s in states] == list(range(1, k + 1)) and all(s[1] == s[2] for s in states), "callback sample counts {} for {} steps", [s[1] for s in states], k)
		for j, s in enumerate(states):
			close(s[0], M[:, j], tol, f"estimate at the callback after {j + 1} steps")
	# the modes agree, and the seed determines the estimate
	kw2 = dict(converge="count", count=k, pdf=case["pdf"], seed=case["seed"])
	B = operator(A, "dense", dt)
	a = np.ravel(call(P.diagonal.diag, B, **kw2))
	same(np.ravel(call(P.diagonal.diag, B, **kw2)), a, "the same seed gives another estimate")
	f = call(P.diagonal.diag, B, full=True, **kw2)
	close(np.ravel(f[0]), a, 0 if dt == "f8" else 1e-6 * scale, "the detailed mode gives another estimate")
	g = call(P.diagonal.diag, B, callback=lambda r: None, **kw2)
	close(np.ravel(g[0] if isinstance(g, tuple) else g), a, 0 if dt == "f8" else 1e-6 * scale, "the callback mode gives another estimate")
	if case["named"]:
		close(a, np.ravel(M[:, -1]), tol, "dense and matrix-free operators give other estimates")
	c.mark(n >= 2 and k >= 2)
	c.label(case["op"], case["rule"], case["mode"], case["pdf"], dt)


def s_exact():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(1, 6), "seed": st.integers(0, 10**6), "count": st.integers(1, 12), "pdf": st.sampled_from(["rademacher", "normal", "sphere"]), "c": st.sampled_from([2.0, -0.5, 1e-3]), "full": st.booleans(), "dt": st.sampled_from(["f8", "f4"]), "order": st.integers(0, 99)})


def run_exact(case, c):
	A = matrix(case["A"])
	n = A.shape[0]
	nA = max(np.abs(A).sum(), 1e-300)
	Dg = P.diagonal.diag
	take = lambda r: np.ravel(r[0] if isinstance(r, tuple) else r)
	# single sign probes average to the exact diagonal
	V = sign_vectors(n, case["order"])
	E = [take(call(Dg, A, pdf=ListSource(V[:, [j]]), converge="count", count=1, full=case["full"])) for j in range(V.shape[1])]
	close(np.mean(E, axis=0), np.diag(A), 1e-13 * n * nA, "average of single-probe estimates over all sign vectors")
	# a run over all sign vectors ends with the exact ratio
	rec = call(Dg, A, pdf=ListSource(V), converge="count", count=V.shape[1], full=True, record=True)
	close(np.ravel(rec[1].estimator.values[-1]), np.diag(A), 1e-13 * n * nA, "ratio after all sign vectors")
	# diagonal matrices are exact
	D = np.diag(np.diag(A)).astype(case["dt"])
	d = np.diag(D).astype(float)
	kw = dict(pdf=case["pdf"], seed=case["seed"], full=case["full"], converge="count", count=case["count"])
	close(take(call(Dg, D, **kw)), d, (1e-13 if case["dt"] == "f8" else 1e-5) * np.abs(d), f"diagonal matrix with {case['pdf']} probes")
	f = case["c"]
	B = matrix({**case["A"], "seed": case["A"]["seed"] + 1, "exp": 0})
	v = take(call(Dg, f * A + B, **kw))
	a, b = take(call(Dg, A, **kw)), take(call(Dg, B, **kw))
	g = P.random.isotropic(pdf=case["pdf"], seed=case["seed"])
	smallest = min(np.min(np.square(g(size=n))) for _ in range(1)) if case["pdf"] != "rademacher" else 1.0
	close(v, f * a + b, 1e-12 * n * n * (abs(f) * nA + np.abs(B).sum()) / max(smallest, 1e-12), "linearity in the matrix for fixed probes")
	c.mark(n >= 2)
	c.label(case["A"]["kind"], case["pdf"])


A0 = {"n": 5, "kind": "normal", "seed": 3, "exp": 0}
C0 = {"A": A0, "op": "dense", "dt": "f8", "pdf": "rademacher", "named": False, "mode": "full+callback", "rule": "count", "count": 6, "tol": 0.1, "seed": 1, "record": True}
def s_empty():
	st = strategies()
	return st.fixed_dictionaries({"full": st.booleans(), "dt": st.sampled_from(["f8", "f4"]), "pdf": st.sampled_from(["rademacher", "sphere"])})


def run_empty(case, c):
	r = call(P.diagonal.diag, np.zeros((0, 0), dtype=case["dt"]), full=case["full"], pdf=case["pdf"])
	check(isinstance(r, tuple) == case["full"], "detailed={} returned {}", case["full"], type(r))
	close(float(np.sum(r[0] if case["full"] else r)), 0.0, 0, "diagonal of the empty matrix")
	c.mark()


SUBS = [
	Sub("probes", s_probes, run_probes, quick=350, thorough=12000, shards=4, examples=[C0, {**C0, "rule": "tolerance"}, {**C0, "mode": "plain", "pdf": "normal", "named": True}, {**C0, "rule": "user", "mode": "callback"}]),
	Sub("exact", s_exact, run_exact, quick=120, thorough=4000, shards=2),
]
SUBS.append(Sub("empty", s_empty, run_empty, quick=4, thorough=8, shards=1))
SUBS.append(reuse_sub("C24"))
SUBS.append(big_sub("C24"))
