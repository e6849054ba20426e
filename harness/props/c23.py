"""C23: XTrace estimates equal the exchangeable leave-one-out estimator."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects, vio
from lib import P, strategies, s_matrix, WIDE, matrix, operator, RecOp, RecSampler, probe_source, rng, sizes, sym_from
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Symmetric matrices of size 1..12 (one in five up to 30) with well-conditioned sketches, several operator kinds and precisions, sphere/normal/sign probes, batch 1..15, stopping by dimension, count, confidence, tolerance, knee or a user-written rule. "
        "After every batch the estimate and the recorded samples are compared with a direct leave-one-out computation (one least-squares basis per omitted probe) on the probes drawn so far; the stopping point is recomputed. "
        "Cases whose sketch has condition above 1e6 or a residual below 1e-6 are skipped (see the known findings for singular sketches). schedule: sample counts at every batch also for steep spectra, nearly constant ones and inaccurate sketches. Non-trivial: at least three probes.")
KINDS = ["normal", "normal", "psd", "graded", "steep", "scaled", "decay", "blocks", "ints", "sparse", "diag", "hollow", "band"]


def loo(A, W, sphere):
	"""Leave-one-out estimates, their conditioning."""
	n, m = W.shape
	out, worst = np.zeros(m), 1.0
	for i in range(m):
		w = W[:, i]
		Y = A @ np.delete(W, i, axis=1)
		Q, R = np.linalg.qr(Y) if m > 1 else (np.zeros((n, 0)), None)
		x = w - Q @ (Q.T @ w)
		s = 1.0
		if sphere:
			den = x @ x + (n - w @ w)
			s = (n - m + 1) / den
			worst = max(worst, s, n / den)
		out[i] = np.trace(Q.T @ A @ Q) + s * (x @ (A @ x))
	return out, worst


def s_probes():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(1, 12, KINDS, exps=WIDE, big=30), "op": st.sampled_from(["dense", "dense", "csr", "linop", "rec"]), "dt": st.sampled_from(["f8", "f8", "f8", "f4"]), "pdf": st.sampled_from(["sphere", "sphere", "default", "normal", "rademacher", "custom"]),
	                              "batch": st.integers(1, 15), "rule": st.sampled_from(["default", "default", "count", "countobj", "confidence", "tolerance", "user", "knee"]), "count": st.integers(1, 14), "tol": st.sampled_from([1.0, 0.3, 0.05]), "seed": st.integers(0, 10**6), "record": st.booleans(), "mode": st.sampled_from(["full", "plain", "callback"])})


def run_probes(case, c):
	A = matrix(case["A"])
	n, dt = A.shape[0], case["dt"]
	A = A.astype(dt).astype(float)
	nA = max(np.linalg.norm(A, 2), 1e-300)
	E = P.estimators
	pdf = case["pdf"]
	sphere = pdf in ("sphere", "default")
	# the probes this call will draw: from the package's own sampler with the same seed, or from ours
	if pdf == "custom":
		W = probe_source("normal", case["seed"])((n, n))
		src = W
	else:
		W = arr(call(P.random.isotropic, (n, n), pdf="sphere" if sphere else pdf, seed=case["seed"]), (n, n))
	sv = np.linalg.svd(A @ W, compute_uv=False)
	# every prefix and every leave-one-out sketch must be well conditioned
	conds = []
	for m in range(1, n + 1):
		s = np.linalg.svd(A @ W[:, :m], compute_uv=False)
		if s[-1] <= (1e-12 if dt == "f8" else 1e-6) * s[0]:
			c.label("skipped: singular sketch")
			return
		conds.append(s[0] / s[-1])
	if dt == "f4" and max(conds) > 1e2:
		c.label("skipped: ill conditioned in single precision")
		return
	refs = [loo(A, W[:, :m], sphere) for m in range(1, n + 1)]
	if max(r[1] for r in refs) > 1e6:
		c.label("skipped: vanishing residual")
		return
	states, trace = [], []
	batch, rule, record = case["batch"], case["rule"], case["record"] or case["rule"] == "knee"
	sizes = [min(k, n) for k in range(batch, n + batch, batch)]
	scale = np.linalg.norm(A)
	kw, dec = {}, None

	class Rule(E.ConvergenceCriterion):
		def __init__(self):
			pass

		def __call__(self, est):
			trace.append((len(est), float(np.ravel(est.estimate)[0]) if len(est) else None, float(np.ravel(est.delta)[0])))
			return 2 * len(est) >= case["count"]

		def message(self, est):
			return "user rule"
	if rule == "default":
		conv, dec = "default", lambda m, prev: False
	elif rule == "count":
		conv, kw, dec = "count", {"count": case["count"]}, lambda m, prev: m >= case["count"]
	elif rule == "countobj":
		conv, dec = E.CountCriterion(case["count"]), lambda m, prev: m >= case["count"]
	elif rule == "user":
		conv, dec = Rule(), lambda m, prev: 2 * m >= case["count"]
	elif rule == "confidence":
		atol = case["tol"] * scale
		conv, kw = "confidence", {"atol": atol, "rtol": 0.0, "confidence": 0.9}
		import scipy.stats as ss

		def dec(m, prev):
			if m < 3:
				return False
			x = refs[m - 1][0]
			h = ss.t.ppf(0.95, m - 1) * np.std(x, ddof=1) / np.sqrt(m)
			return None if abs(h - atol) < 1e-5 * scale + 1e-4 * atol * (dt == "f4") else h <= atol
	elif rule == "tolerance":
		atol = case["tol"] * scale
		conv, kw = "tolerance", {"atol": atol, "rtol": 0.0}

		def dec(m, prev):
			d = abs(refs[m - 1][0].mean() - (refs[prev - 1][0].mean() if prev else 0.0))
			return None if abs(d - atol) < 1e-5 * scale + 1e-4 * atol * (dt == "f4") else d < atol
	else:
		conv, dec = "knee", lambda m, prev: None
	samp = RecSampler(lambda size: src[:, samp_pos(size)].copy()) if pdf == "custom" else None
	pos = [0]

	def samp_pos(size):
		k = 1 if np.ndim(size) == 0 else int(size[1])
		i = pos[0]
		pos[0] += k
		check(pos[0] <= n, "more probes drawn than the dimension {}", n)
		return slice(i, i + k)

	def callback(r):
		states.append((num(r.estimate), int(r.nit), len(r.estimator), num(r.estimator.estimate)))
		return [None, True, 1.0, "stop", False, r][case["seed"] % 6]  # whatever a callback returns is ignored
	args = dict(batch=batch, seed=case["seed"], converge=conv, **kw)
	if pdf != "default":
		args["pdf"] = samp if samp else pdf
	if record:
		args["record"] = True
	if case["mode"] == "full":
		args["full"] = True
	if case["mode"] != "plain":
		args["callback"] = callback
	op = operator(A, case["op"], dt)
	out = call(P.trace.xtrace, op, **args)
	if case["mode"] == "full":
		check(isinstance(out, tuple) and len(out) == 2, "the detailed result is {}", type(out))
		est, res = out
	else:
		est, res = (out[0] if isinstance(out, tuple) else out), None
	est = num(est, "estimate")
	eps = 2.3e-16 if dt == "f8" else 1.2e-7

	def tol(m):
		return 500 * eps * n * n * nA * max(conds[:m]) ** (0.5 if dt == "f8" else 2) * max(1.0, refs[m - 1][1]) * max(np.max(np.abs(W)), 1) ** 2
	# where sampling must stop
	stops, prev, sure = None, 0, True
	for m in sizes:
		d = True if m >= n else dec(m, prev)
		if d is None:
			sure = False
			break
		if d:
			stops = m
			break
		prev = m
	if case["mode"] != "plain":
		seq = [s[1] for s in states]
		check(seq == sizes[:len(seq)] and len(seq) >= 1, "callback sample counts {} for batches of {} in dimension {}", seq, batch, n)
		got = seq[-1]
		for e, nit, ln, ee in states:
			check(ln == nit, "the callback reports {} samples, its estimator {}", nit, ln)
			close(e, refs[nit - 1][0].mean(), tol(nit), f"estimate after {nit} probes (batch {batch}, {pdf})")
			close(ee, e, 0, "the callback's estimator has another estimate")
		close(est, states[-1][0], 0, "the returned estimate is not the last one")
		if sure:
			check(got == stops, "sampling stopped at {} probes, the rule is satisfied at {}", got, stops)
	elif sure:
		got = stops
		close(est, refs[got - 1][0].mean(), tol(got), f"estimate after {got} probes (batch {batch}, {pdf}, rule {rule})")
	else:
		got = None
	if res is not None:
		close(num(res.estimate), est, 0, "the result's estimate differs from the returned one")
		check(int(res.nit) == got and len(res.estimator) == got, "the result counts {} samples, its estimator {}, drawn {}", res.nit, len(res.estimator), got)
		check(isinstance(res.message, str) and res.message, "no message")
		if record:
			close(np.sort(arr(np.ravel(res.estimator.values), (got,))), np.sort(refs[got - 1][0]), tol(got), "leave-one-out samples")
	if rule == "user":
		for (k, e, d), before in zip(trace[1:], [None] + trace[1:]):
			if k:
				close(e, refs[k - 1][0].mean(), tol(k), "estimate seen by the rule")
				close(d, e - (before[1] if before else 0.0), 1e-9 * scale + 1e-300 if dt == "f8" else 1e-3 * scale, "change seen by the rule")
	if samp:
		check(pos[0] == got or got is None, "{} probes drawn, {} used", pos[0], got)
	if sphere and got == n and dt == "f8":
		close(est, np.trace(A), tol(n), "as many sphere probes as the dimension")
		c.label("full sphere")
	c.mark((got or 0) >= 3)
	c.label(pdf, rule, case["mode"], case["op"], dt)


def s_batches():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(2, 25, KINDS, exps=WIDE, big=60), "pdf": st.sampled_from(["sphere", "normal"]), "batches": st.lists(st.integers(1, 70), min_size=2, max_size=3), "seed": st.integers(0, 10**6), "m": st.integers(1, 25)})


def run_batches(case, c):
	A = matrix(case["A"])
	n = A.shape[0]
	m = min(case["m"], n)
	W = arr(call(P.random.isotropic, (n, n), pdf=case["pdf"], seed=case["seed"]), (n, n))
	s = np.linalg.svd(A @ W, compute_uv=False)
	if s[-1] < 1e-12 * s[0]:
		c.label("skipped: singular sketch")
		return
	refs = loo(A, W, case["pdf"] == "sphere")
	if refs[1] > 1e5:
		return
	nA = np.linalg.norm(A, 2)
	tol = 1e-12 * n * n * nA * (s[0] / s[-1]) ** 0.5 * max(refs[1], 1)
	snap = A.copy()
	est = []
	for b in case["batches"] + [n]:
		counts = []
		est.append(num(call(P.trace.xtrace, A, batch=b, pdf=case["pdf"], seed=case["seed"], full=True, callback=lambda r: counts.append(int(r.nit)))[0]))
		check(counts == [min(k, n) for k in range(b, n + b, b)], "sample counts {} for batches of {} in dimension {}", counts, b, n)
	same(A, snap, "the matrix was modified")
	for e in est:
		close(e, refs[0].mean(), tol, "all probes, whatever the batch size")
	if case["pdf"] == "sphere":
		close(est[0], np.trace(A), tol, "as many sphere probes as the dimension")
	c.mark(n >= 3)


A0 = {"n": 6, "kind": "normal", "seed": 3, "exp": 0}
C0 = {"A": A0, "op": "dense", "dt": "f8", "pdf": "sphere", "batch": 2, "rule": "default", "count": 5, "tol": 0.3, "seed": 1, "record": True, "mode": "full"}


def run_singular(case, c):
	"""Known finding: sketches of deficient rank (rank-deficient A) are not supported by the incremental factorisation."""
	A = np.ones((case["n"], case["n"])) if case["kind"] == "ones" else np.zeros((case["n"], case["n"]))
	e = num(call(P.trace.xtrace, A, seed=case["seed"]))
	close(e, np.trace(A), 1e-6, "trace of a rank-deficient matrix with as many sphere probes as the dimension")


KNOWN_SUBS = [Sub("singular", None, run_singular, fixed_only=True)]
def s_schedule():
	st = strategies()
	return st.fixed_dictionaries({"n": sizes(1, 14, 60), "kind": st.sampled_from(["steep", "near identity", "one large", "normal", "positive"]), "e": st.sampled_from([3, 6, 9]), "pdf": st.sampled_from(["sphere", "rademacher", "normal"]), "batch": st.integers(1, 9), "rule": st.sampled_from(["default", "count", "user"]), "count": st.integers(1, 70),
	                              "seed": st.integers(0, 10**6), "mode": st.sampled_from(["full", "plain", "callback"]), "rec": st.booleans()})


def run_schedule(case, c):
	"""Batches are drawn until the rule is satisfied or the dimension reached, also where the estimates agree early or are inaccurate."""
	n, g, e = case["n"], rng(case["seed"]), case["e"]
	U = np.linalg.qr(g.normal(size=(n, n)))[0]
	w = {"steep": 10.0 ** -np.linspace(0, e, n), "near identity": 1 + 10.0**-e * g.normal(size=n), "one large": np.where(np.arange(n) == 0, 10.0 ** (e / 2), 1 + g.random(n)), "normal": g.normal(size=n), "positive": g.uniform(0.5, 2, size=n)}[case["kind"]]
	A = sym_from(w, U)
	W = arr(call(P.random.isotropic, (n, n), pdf=case["pdf"], seed=case["seed"]), (n, n))
	s = np.linalg.svd(A @ W, compute_uv=False)
	if np.linalg.svd(W, compute_uv=False)[-1] < 1e-10 or s[-1] < 1e-13 * s[0]:
		c.label("skipped: singular sketch")
		return
	E, states = P.estimators, []

	class Rule(E.ConvergenceCriterion):
		def __init__(self):
			pass

		def __call__(self, est):
			return len(est) >= case["count"]

		def message(self, est):
			return "user rule"
	args = {"default": {}, "count": {"converge": "count", "count": case["count"]}, "user": {"converge": Rule()}}[case["rule"]]
	if case["mode"] == "full":
		args["full"] = True
	if case["mode"] != "plain":
		args["callback"] = lambda r: states.append((int(r.nit), float(r.estimate)))
	op = operator(A, "rec")
	with np.errstate(all="ignore"):
		out = call(P.trace.xtrace, op if case["rec"] else A, batch=case["batch"], pdf=case["pdf"], seed=case["seed"], **args)
	ends = [min(k, n) for k in range(case["batch"], n + case["batch"], case["batch"])]
	stop = n if case["rule"] == "default" else next((k for k in ends if k >= case["count"]), n)
	want = ends[:ends.index(stop) + 1]
	if case["mode"] != "plain":
		check([s[0] for s in states] == want, "sample counts {} at the callbacks for batches of {}, a count of {} and dimension {}: expected {}", [s[0] for s in states], case["batch"], case["count"] if args else "n", n, want)
	if case["mode"] == "full":
		check(int(out[1].nit) == stop and len(out[1].estimator) == stop, "{} samples in the result, expected {}", out[1].nit, stop)
		same(float(out[0]), states[-1][1], "the returned estimate is not the last one")
	if case["rec"]:
		cols = sum(x.reshape(n, -1).shape[1] for x in op.seen)
		check(cols >= stop, "{} products for {} probes", cols, stop)
	c.mark(n >= 3 and stop >= 3)
	c.label(case["kind"], case["rule"], case["mode"])


def s_empty():
	st = strategies()
	return st.fixed_dictionaries({"full": st.booleans(), "dt": st.sampled_from(["f8", "f4"]), "pdf": st.sampled_from(["rademacher", "sphere"])})


def run_empty(case, c):
	r = call(P.trace.xtrace, np.zeros((0, 0), dtype=case["dt"]), full=case["full"], pdf=case["pdf"])
	check(isinstance(r, tuple) == case["full"], "detailed={} returned {}", case["full"], type(r))
	close(float(np.sum(r[0] if case["full"] else r)), 0.0, 0, "trace of the empty matrix")
	c.mark()


SUBS = [
	Sub("probes", s_probes, run_probes, quick=350, thorough=12000, shards=4, examples=[C0, {**C0, "rule": "count", "batch": 1}, {**C0, "rule": "confidence"}, {**C0, "rule": "tolerance", "batch": 1, "tol": 1.0}, {**C0, "rule": "user", "mode": "callback"}, {**C0, "pdf": "custom", "rule": "countobj", "mode": "plain"}, {**C0, "dt": "f4"}, {**C0, "A": {**A0, "kind": "psd"}, "dt": "f4", "op": "rec"}]),
	Sub("batches", s_batches, run_batches, quick=120, thorough=4000, shards=2),
]
SUBS.append(Sub("schedule", s_schedule, run_schedule, quick=150, thorough=4000, shards=1))
SUBS.append(Sub("empty", s_empty, run_empty, quick=4, thorough=8, shards=1))
SUBS.append(reuse_sub("C23"))
SUBS.append(big_sub("C23"))
