"""C21: Hutchinson trace estimates are the mean of quadratic forms over the probes drawn."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from props.c22 import quad_operator
from lib import P, strategies, s_matrix, WIDE, matrix, operator, OP_KINDS, RecOp, RecSampler, probe_source, sign_vectors, ListSource, rng, sizes, sizes3
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Symmetric matrices of size 1..12 (one in five up to 60) of twelve kinds, given as dense, sparse, linear or recording operators in double or single precision; the three distributions by name or through a recording sampler; batch 1..40; "
        "plain, detailed and callback modes; count, tolerance, confidence, knee and user-written rules. The estimate is recomputed from the recorded probes, the stopping point from the rule applied to a fresh estimator fed the same samples. "
        "All 2^n sign vectors are enumerated for n <= 7. Non-trivial: size two or more and at least two samples.")
EPS = {"f8": 2.3e-16, "f4": 1.2e-7}


def s_probes():
	st = strategies()

	@st.composite
	def s(draw):
		return {"A": draw(s_matrix(1, 12, exps=WIDE, big=60)), "op": draw(st.sampled_from(OP_KINDS + ["quad", "quadlin"])), "dt": draw(st.sampled_from(["f8", "f8", "f8", "f4"])), "pdf": draw(st.sampled_from(["rademacher", "normal", "sphere"])),
		        "named": draw(st.booleans()), "batch": draw(st.one_of(st.integers(1, 9), st.integers(10, 40))), "mode": draw(st.sampled_from(["plain", "full", "callback", "full+callback"])), "seed": draw(st.integers(0, 2**31)),
		        "rule": draw(st.sampled_from(["count", "count", "tolerance", "confidence", "knee", "user", "default", "or"])), "count": draw(sizes3(1, 40, 300, 2500)), "tol": draw(st.sampled_from([0.5, 0.1, 0.03])), "record": draw(st.booleans()), "shift": draw(st.sampled_from([0, 0, 0, 60]))}
	return s()


class QuadOp(RecOp):
	def quad(self, x):
		x = np.atleast_2d(np.asarray(x).T).T
		self.seen.append(np.array(x, dtype=float, copy=True))
		return np.einsum("ij,ij->j", x, self._M @ x)


def user_rule(trace, fn):
	class Rule(P.estimators.ConvergenceCriterion):
		def __init__(self):
			pass

		def __call__(self, est):
			trace.append(len(est))
			return fn(est)

		def message(self, est):
			return "user rule"
	return Rule()


def run_probes(case, c):
	A = matrix(case["A"])
	n, dt = A.shape[0], case["dt"]
	A = A + case.get("shift", 0) * np.abs(A).max() * np.eye(n)
	A = A.astype(dt).astype(float)
	nA = max(np.abs(A).sum(), 1e-300)
	E = P.estimators
	src = probe_source(case["pdf"], case["seed"], case["seed"] % 4 == 3)
	states, trace = [], []
	rule, kw, record = case["rule"], {}, case["record"] or case["rule"] == "knee"
	scale = np.linalg.norm(A) or 1.0
	if rule == "count":
		conv, kw = "count", {"count": case["count"]}
		make = lambda: E.CountCriterion(case["count"])
	elif rule == "tolerance":
		kw = {"atol": case["tol"] * scale, "rtol": 0.0}
		conv, make = "tolerance", lambda: E.ToleranceCriterion(**kw)
	elif rule == "confidence":
		kw = {"atol": case["tol"] * 3 * scale, "rtol": case["tol"], "confidence": 0.9}
		conv, make = "confidence", lambda: E.ConfidenceCriterion(**kw)
	elif rule == "knee":
		conv = E.KneeCriterion(S=1.0) | E.CountCriterion(case["count"] + 3)
		make = lambda: conv
	elif rule == "or":
		conv = E.CountCriterion(case["count"]) | E.ConfidenceCriterion(atol=case["tol"] * scale, rtol=0.0)
		make = lambda: conv
	elif rule == "default":
		conv = "default"
		make = lambda: E.CountCriterion(200) | E.ConfidenceCriterion(confidence=0.95, atol=1.0, rtol=0.0)
	else:
		conv = user_rule(trace, lambda est: len(est) * 2 >= case["count"])
		make = lambda: (lambda est: len(est) * 2 >= case["count"])
	op = quad_operator(A, case["op"], dt, QuadOp) if case["op"].startswith("quad") else operator(A, case["op"] if not case["named"] else "rec", dt)
	samp = RecSampler(src)
	full, cb = "full" in case["mode"], "callback" in case["mode"]

	def callback(r):
		check(isinstance(r, E.EstimatorResult), "the callback received {}", type(r))
		states.append((num(r.estimate, "callback estimate"), int(r.nit), len(r.estimator), num(r.estimator.estimate), len(samp.drawn)))
		return [None, True, 1.0, "stop", False, r][case["seed"] % 6]  # whatever a callback returns is ignored
	args = dict(batch=case["batch"], converge=conv, pdf=case["pdf"] if case["named"] else samp, seed=case["seed"], **kw)
	if record:
		args["record"] = True
	if full:
		args["full"] = True
	if cb:
		args["callback"] = callback
	out = call(P.trace.hutch, op, **args)
	detailed = full or cb
	if full or (cb and isinstance(out, tuple)):
		check(isinstance(out, tuple) and len(out) == 2, "the detailed result is {}", type(out))
		est, res = out
	else:
		est, res = out, None
	est = num(est, "estimate")
	if case["op"] in ("rec", "rec_undeclared", "quad", "quadlin") or case["named"]:
		steps = [x.reshape(n, -1) for x in (op.op if case["op"] == "quadlin" and not hasattr(op, "seen") else op).seen]
		if getattr(op, "dtype", None) is None and len(steps) and not np.any(steps[0]):
			steps = steps[1:]  # the product that infers the precision
	else:
		steps = [x.reshape(n, -1) for x in samp.drawn]
	V = np.column_stack(steps) if steps else np.zeros((n, 0))
	if not case["named"]:
		close(V.astype(dt).astype(float), samp.columns(n).astype(dt).astype(float), 0, "the operator was applied to other vectors than the probes drawn")
	elif case["pdf"] == "rademacher":
		check(np.all(np.abs(V) == 1), "sign probes have other entries")
	elif case["pdf"] == "sphere":
		close(np.linalg.norm(V, axis=0), np.full(V.shape[1], np.sqrt(n)), 30 * EPS[dt] * np.sqrt(n), "sphere probes have another norm")
	if detailed:
		check([s.shape[1] for s in steps] == [case["batch"]] * len(steps), "{} probes at a time were asked for, drawn {}", case["batch"], [s.shape[1] for s in steps])
	V = V.astype(dt).astype(float)
	q = np.einsum("ij,ij->j", V, A @ V)
	check(V.shape[1] >= 1, "no probe was drawn")
	vmax = max(np.max(np.abs(V)) ** 2, 1.0)
	tol = 40 * n * EPS[dt] * nA * vmax
	close(est, q.mean(), tol, "the estimate is not the mean of the quadratic forms")
	# the stopping point
	ref, k, rulef = E.MeanEstimator(covariance=True, record=record), 0, make()
	near = False
	for s in steps:
		if bool(rulef(ref)):
			near = True
			break
		ref.update(q[k:k + s.shape[1]])
		k += s.shape[1]
	# rounding of the samples may move a threshold decision: disagreement counts only when noise far above rounding does not change it
	def decides(upto, noise):
		r, g, j = E.MeanEstimator(covariance=True, record=record), rng(noise), 0
		for x in steps:
			if j < upto:
				y = q[j:j + x.shape[1]]
				r.update(y + g.normal(size=len(y)) * (1e-7 if dt == "f8" else 1e-3) * scale)
				j += x.shape[1]
		return bool(rulef(r))
	flat = np.ptp(q) < 1e-5 * scale if len(q) else True
	if near:
		check((flat and rule not in ("count", "user")) or not all(decides(k, i) for i in range(6)), "sampling went on after the rule was satisfied at {} samples", k)
	elif not bool(rulef(ref)):
		check((flat and rule not in ("count", "user")) or any(decides(k, i) for i in range(6)), "sampling stopped at {} samples before the rule was satisfied", k)
	if res is not None:
		check(isinstance(res, E.EstimatorResult), "the detailed result is {}", type(res))
		close(num(res.estimate), est, 0, "the result's estimate differs from the returned one")
		check(int(res.nit) == V.shape[1], "the result counts {} samples, {} were drawn", res.nit, V.shape[1])
		check(len(res.estimator) == V.shape[1], "the result's estimator has {} samples, {} were drawn", len(res.estimator), V.shape[1])
		close(num(res.estimator.estimate), est, 0, "the result's estimator has another estimate")
		check(isinstance(res.message, str) and res.message, "no message")
		check(callable(res.criterion), "no criterion in the result")
		if record:
			close(arr(np.ravel(res.estimator.values), (V.shape[1],)), q, tol, "recorded samples")
		if rule == "default":
			check(bool(call(res.criterion, res.estimator)), "the result's criterion is not met by its estimator ({} samples, delta {})", len(res.estimator), res.estimator.delta)
		if rule in ("user", "knee", "or"):
			check(res.criterion is conv, "the result names another criterion")
	if cb:
		check(len(states) == len(steps), "{} callbacks for {} batches", len(states), len(steps))
		k = 0
		for s, (e, nit, ln, ee, nd) in zip(steps, states):
			k += s.shape[1]
			close(e, q[:k].mean(), tol, f"estimate at the callback after {k} samples")
			close(ee, e, 0, "the callback's estimator has another estimate")
			check(nit == k and ln == k, "the callback after {} samples reports {} samples, its estimator {}", k, nit, ln)
	if rule == "user":
		check(trace == sorted(trace), "the rule saw decreasing sample counts {}", trace)
	# reproducibility
	if case["named"]:
		again = call(P.trace.hutch, operator(A, "dense", dt) if not case["op"].startswith("quad") else quad_operator(A, case["op"], dt, QuadOp), **{k: v for k, v in args.items() if k != "callback"}, **({"callback": lambda r: None} if cb else {}))
		close(num(again[0] if isinstance(again, tuple) else again), est, tol, "the same seed gives another estimate")
	c.mark(n >= 2 and V.shape[1] >= 2)
	c.label(case["op"], rule, case["mode"], case["pdf"], dt)


def s_exact():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(1, 7), "batch": st.integers(0, 7), "full": st.booleans(), "order": st.integers(0, 1000), "c": st.sampled_from([2.0, -0.5, 1e-3, 7.0]), "seed": st.integers(0, 10**6), "op": st.sampled_from(["dense", "csr", "linop", "rec"]), "m": sizes(1, 30, 150),
	                              "pdf": st.sampled_from(["rademacher", "normal", "sphere"])})


def run_exact(case, c):
	A = matrix(case["A"])
	n = A.shape[0]
	nA = max(np.abs(A).sum(), 1e-300)
	tol = 1e-12 * n * nA
	V = sign_vectors(n, case["order"])
	b = 2 ** min(case["batch"], n)
	H = P.trace.hutch
	for full in (False, True):
		r = call(H, operator(A, case["op"]), pdf=ListSource(V), batch=b, converge="count", count=V.shape[1], full=full)
		close(num(r[0] if full else r), np.trace(A), tol, "average over all sign vectors")
	# exactness per probe
	f = float(case["c"])
	kw = dict(batch=b, converge="count", count=case["m"], seed=case["seed"])
	D = np.diag(np.diag(A))
	for pdf in ("rademacher", "signs"):
		close(num(call(H, D, pdf=pdf, **kw)), np.trace(D), tol, f"diagonal matrix with {pdf} probes")
	for pdf in ("rademacher", "sphere"):
		r = call(H, f * np.eye(n), pdf=pdf, full=True, **kw)
		close(num(r[0]), f * n, 1e-13 * n * abs(f), f"scaled identity with {pdf} probes")
	# linearity
	B = matrix({**case["A"], "seed": case["A"]["seed"] + 1, "exp": 0})
	for full in (False, True):
		g = lambda M: num((lambda r: r[0] if full else r)(call(H, M, pdf=case["pdf"], full=full, **kw)))
		close(g(f * A + B), f * g(A) + g(B), 1e-12 * n * n * (abs(f) * nA + np.abs(B).sum()) * 20, "linearity in the matrix for fixed probes")
		same(g(A), g(A), "the same seed gives another estimate")
	c.mark(n >= 2)
	c.label(case["A"]["kind"])


def s_empty():
	st = strategies()
	return st.fixed_dictionaries({"full": st.booleans(), "dt": st.sampled_from(["f8", "f4"])})


def run_empty(case, c):
	r = call(P.trace.hutch, np.zeros((0, 0), dtype=case["dt"]), full=case["full"])
	close(num(r[0] if case["full"] else r), 0.0, 0, "trace of the empty matrix")
	c.mark()


M0 = {"n": 5, "kind": "normal", "seed": 3, "exp": 0}
B0 = {"A": M0, "op": "dense", "dt": "f8", "pdf": "rademacher", "named": False, "batch": 3, "mode": "full+callback", "seed": 1, "rule": "count", "count": 7, "tol": 0.1, "record": True}
SUBS = [
	Sub("probes", s_probes, run_probes, quick=300, thorough=12000, shards=4, examples=[B0, {**B0, "mode": "plain"}, {**B0, "rule": "confidence"}, {**B0, "op": "quad", "named": True}, {**B0, "rule": "knee"}, {**B0, "rule": "user", "dt": "f4"}]),
	Sub("exact", s_exact, run_exact, quick=120, thorough=4000, shards=2),
	Sub("empty", s_empty, run_empty, quick=4, thorough=8, shards=1),
]
SUBS.append(reuse_sub("C21"))
SUBS.append(big_sub("C21"))
