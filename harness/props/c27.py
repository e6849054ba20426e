"""C27: failures in user code propagate and leave the objects involved usable."""
import numpy as np
from core import Sub, check, close, same, arr, call, Injected
from lib import P, strategies, s_matrix, matrix, rng, ListSource, probe_source

NEEDS = ["_lanczos", "tqli", "fttr"]
RULE = ("every estimator and factorisation with user-supplied operator, sampler, function, callback and stopping rule, one of which raises up to five times one of twenty-two kinds of exception (also non-Exception ones) at a drawn call position of all those made by a clean run; operators are Python objects or SciPy operators around a function. "
        "Checked: the same exception object arrives, the raising call is the last user call, completed steps only are counted, and the same objects then give what fresh ones give, repeatedly. histories: estimators fed valid and rejected samples. Non-trivial: the fault fires after at least one earlier user call.")


class Boom(Exception):
	pass


class Halt(BaseException):
	pass


EXC = {"custom": lambda: Boom("x"), "value": lambda: ValueError("x"), "stop": lambda: StopIteration("x"), "interrupt": lambda: KeyboardInterrupt("x"), "type": lambda: TypeError("x"), "runtime": lambda: RuntimeError("x"), "index": lambda: IndexError("x"), "attribute": lambda: AttributeError("x"), "assertion": lambda: AssertionError("x"), "base": lambda: Halt("x"), "linalg": lambda: np.linalg.LinAlgError("x"), "exit": lambda: SystemExit(3),
       "arithmetic": lambda: ArithmeticError("x"), "zero": lambda: ZeroDivisionError("x"), "overflow": lambda: OverflowError("x"), "floating": lambda: FloatingPointError("x"), "key": lambda: KeyError("x"), "os": lambda: OSError("x"), "notimpl": lambda: NotImplementedError("x"), "warning": lambda: RuntimeWarning("x"), "unicode": lambda: UnicodeError("x"), "generator": lambda: GeneratorExit("x")}


class Faults:
	"""Counts the user calls of each source and raises at the chosen one."""
	def __init__(self):
		self.log, self.source, self.at, self.exc, self.seen = [], None, 0, None, {}

	def arm(self, source, at, exc):
		self.log, self.source, self.at, self.exc, self.seen = [], source, at, exc, {}

	def hit(self, source):
		self.log.append(source)
		self.seen[source] = self.seen.get(source, 0) + 1
		if source == self.source and self.seen[source] == self.at:
			raise self.exc


class Op:
	def __init__(self, A, F):
		self._M, self._F, self.shape, self.dtype = A, F, A.shape, A.dtype
		self.T = self

	def matvec(self, x):
		self._F.hit("operator")
		return self._M @ x

	def __matmul__(self, x):
		self._F.hit("operator")
		return self._M @ x


def make_op(A, F, kind):
	if kind == "object":
		return Op(A, F)
	from scipy.sparse.linalg import LinearOperator

	def mv(x):
		F.hit("operator")
		return A @ x
	return LinearOperator(A.shape, matvec=mv, rmatvec=mv, dtype=A.dtype)


class Source:
	"""Sampler whose draws depend on its own generator; `fresh` restarts it."""
	def __init__(self, pdf, seed, F):
		self.pdf, self.seed, self.F = pdf, seed, F
		self.fresh()

	def fresh(self):
		self.f = probe_source(self.pdf, self.seed)

	def __call__(self, size):
		self.F.hit("sampler")
		return self.f(size)


def criterion(F, steps):
	E = P.estimators

	class Rule(E.ConvergenceCriterion):
		"""Stops after a number of steps; keeps what it saw."""
		def __init__(self):
			self.fresh()

		def fresh(self):
			self.calls, self.est, self.snap = 0, None, None

		def __call__(self, est):
			F.hit("criterion")
			self.calls += 1
			self.est, self.snap = est, (len(est), np.array(est.estimate, copy=True) if len(est) else None)
			return self.calls > steps
	return Rule()


def s_case():
	st = strategies()
	return st.fixed_dictionaries({"what": st.sampled_from(["hutch", "hutch_full", "hutch_callback", "diag", "diag_full", "xtrace", "hutchpp", "hutchpp_full", "xdiag", "lanczos", "ritz", "mf_matvec", "mf_quad", "mf_block", "mf_quad_block", "hutch_mf", "hutch_wrapped"]), "A": s_matrix(2, 8, ["normal", "psd", "ints", "diag"]), "op": st.sampled_from(["object", "linop"]), "source": st.sampled_from(["operator", "sampler", "function", "callback", "criterion"]), "k": st.integers(0, 40), "exc": st.lists(st.sampled_from(sorted(EXC)), min_size=1, max_size=5), "seed": st.integers(0, 10**6), "steps": st.integers(1, 5), "batch": st.integers(1, 4)})


def run(case, c):
	A = matrix(case["A"])
	if case["what"] in ("xtrace", "xdiag") and np.linalg.cond(A) > 1e6:
		A = A + np.diag(np.linspace(3, 4, len(A))) * (1 + np.linalg.norm(A, 2))
	n, F, what, steps, batch = len(A), Faults(), case["what"], case["steps"], case["batch"]
	op = make_op(A, F, case["op"])
	if what == "xdiag":
		op = make_op(A, F, "object")
	sampler = Source("normal" if what.startswith("x") else "rademacher", case["seed"], F)
	rule = criterion(F, steps if what != "xtrace" else min(steps, max(1, n // batch)))
	results = []

	def callback(r):
		results.append(r)
		F.hit("callback")

	def fun(x):
		F.hit("function")
		return np.tanh(x)
	V = rng(case["seed"]).normal(size=(n, 3))
	T, D, L, O = P.trace, P.diagonal, P.lanczos, P.operators
	M = call(O.MatrixFunction, op, fun, deg=4, orth=-1) if what.startswith("mf") or what == "hutch_mf" else None
	run1 = {
		"hutch": lambda: T.hutch(op, pdf=sampler, converge=rule),
		"hutch_full": lambda: T.hutch(op, pdf=sampler, converge=rule, full=True, batch=batch, callback=callback)[0],
		"hutch_callback": lambda: T.hutch(op, pdf=sampler, converge=rule, batch=batch, callback=callback),
		"hutch_wrapped": lambda: T.hutch(op, pdf=sampler, converge=~(~rule | ~rule), full=True, batch=batch, callback=callback)[0],
		"hutch_mf": lambda: T.hutch(M, pdf=sampler, converge=rule, full=True, batch=batch, callback=callback)[0],
		"diag": lambda: D.diag(op, pdf=sampler, converge=rule),
		"diag_full": lambda: D.diag(op, pdf=sampler, converge=rule, full=True, callback=callback)[0],
		"xtrace": lambda: T.xtrace(op, pdf=sampler, converge=rule, batch=batch, callback=callback),
		"hutchpp": lambda: T.hutchpp(op, m=2, pdf=sampler),
		"hutchpp_full": lambda: T.hutchpp(op, m=3, pdf=sampler, mode="full", full=True)[0],
		"xdiag": lambda: D.xdiag(op, seed=case["seed"]),
		"lanczos": lambda: np.concatenate(L.lanczos(op, v0=V[:, 0], deg=n, orth=n)),
		"ritz": lambda: L.rayleigh_ritz(op, v0=V[:, 0], deg=n, orth=n),
		"mf_matvec": lambda: M @ V[:, 0],
		"mf_quad": lambda: M.quad(V[:, 0]),
		"mf_block": lambda: M @ V,
		"mf_quad_block": lambda: M.quad(V),
	}[what]

	def go():
		sampler.fresh()
		rule.fresh()
		results.clear()
		return run1()

	def flat(r):
		return np.asarray(r[0] if isinstance(r, tuple) else r, dtype=float)
	F.arm(None, 0, None)
	ref = flat(call(go))
	counts, total = dict(F.seen), len(F.log)
	clean_log = list(F.log)
	if case["source"] not in counts:
		case = {**case, "source": sorted(counts)[case["k"] % len(counts)]}
	for rep, kind in enumerate(case["exc"]):
		at = 1 + (case["k"] + 3 * rep) % counts[case["source"]]
		exc = EXC[kind]()
		F.arm(case["source"], at, exc)
		where = f"{what}: {case['source']} raised {type(exc).__name__} on call {at} of {counts[case['source']]}"
		try:
			r = go()
		except BaseException as e:
			if e is not exc:
				if isinstance(e, (KeyboardInterrupt, MemoryError)) and not isinstance(exc, KeyboardInterrupt):
					raise
				check(False, f"{where}, but {type(e).__name__}: {str(e)[:200]} arrived")
		else:
			check(False, f"{where}, but the call returned {str(r)[:100]}")
		check(F.log[-1] == case["source"] and F.seen[case["source"]] == at, "{}: user code was called again afterwards: {}", where, F.log[-5:])
		check(F.log == clean_log[:len(F.log)], "{}: another sequence of user calls than without the fault", where)
		# completed steps only
		if rule.est is not None and case["source"] in ("operator", "sampler", "function"):
			check(len(rule.est) == rule.snap[0], "{}: the failed step was counted ({} samples after {})", where, len(rule.est), rule.snap[0])
			if rule.snap[1] is not None:
				same(np.asarray(rule.est.estimate), rule.snap[1], f"{where}: the failed step changed the estimate")
		if rule.est is not None and what.startswith(("hutch", "diag")):
			b = batch if what in ("hutch_full", "hutch_callback", "hutch_wrapped", "hutch_mf") else 1
			check(len(rule.est) == b * (F.seen.get("sampler", 0) - (1 if case["source"] in ("operator", "sampler", "function") else 0)), "{}: {} samples counted after {} draws", where, len(rule.est), F.seen.get("sampler", 0))
		for r in results:
			check(r.nit <= len(r.estimator), "{}: result counts {} of {} samples", where, r.nit, len(r.estimator))
		# the same objects work afterwards
		F.arm(None, 0, None)
		again = flat(call(go))
		close(again, ref, 1e-9 * (1 + np.abs(ref)), f"{where}; a later call with the same objects")
		check(F.log == clean_log, "{}; a later call makes other user calls", where)
	if M is not None:
		F.arm("function", 1, EXC[case["exc"][0]]())
		try:
			M.fun = lambda x: F.hit("function")
		except BaseException as e:
			check(e is F.exc, "assigning a function that raises gives {}", type(e).__name__)
		else:
			check(False, "a function that raises was accepted")
		F.arm(None, 0, None)
		close(flat(call(go)), ref, 1e-9 * (1 + np.abs(ref)), "after assigning a function that raises")
	c.mark(len(clean_log) > 1 and at > 1)
	c.label(what, case["source"], *case["exc"], case["op"])


def s_gen():
	st = strategies()
	return st.fixed_dictionaries({"what": st.sampled_from(["hutch", "hutchpp", "xtrace", "diag", "xdiag"]), "A": s_matrix(2, 8, ["psd", "diag"]), "at": st.integers(1, 4), "seed": st.integers(0, 10**6), "pdf": st.sampled_from(["rademacher", "normal", "sphere"])})


def run_gen(case, c):
	"""A generator given as seed remains usable after a failure: it then gives what a generator in its state gives."""
	A = matrix(case["A"])
	if np.linalg.cond(A) > 1e6:
		A = A + np.diag(np.linspace(3, 4, len(A))) * (1 + np.linalg.norm(A, 2))
	F, T, D = Faults(), P.trace, P.diagonal
	if case["what"].startswith("x"):
		case["pdf"] = "normal"  # sign vectors of small length are often dependent, which is a finding of C23
	op = Op(A, F)
	f = {"hutch": lambda g: T.hutch(op, converge="count", count=5, seed=g, pdf=case["pdf"]), "hutchpp": lambda g: T.hutchpp(op, seed=g, pdf=case["pdf"]), "xtrace": lambda g: T.xtrace(op, batch=1, seed=g, pdf=case["pdf"]), "diag": lambda g: D.diag(op, converge="count", count=5, seed=g, pdf=case["pdf"]), "xdiag": lambda g: D.xdiag(op, seed=g, pdf=case["pdf"])}[case["what"]]
	g = np.random.default_rng(case["seed"])
	exc = Boom("x")
	F.arm("operator", case["at"], exc)
	try:
		f(g)
		c.label("completed before the fault")
	except Boom as e:
		check(e is exc, "another exception arrived")
		c.mark()
	F.arm(None, 0, None)
	import copy
	h = copy.deepcopy(g)
	same(np.asarray(call(f, g), dtype=float), np.asarray(call(f, h), dtype=float), f"{case['what']} with a generator that was in use when the operator failed")
	check(g.bit_generator.state == h.bit_generator.state, "generators advanced differently")
	c.label(case["what"], case["pdf"])


def s_hist():
	st = strategies()
	good = st.tuples(st.just("good"), st.integers(1, 4), st.integers(0, 999))
	bad = st.tuples(st.sampled_from(["wide", "string", "cube", "none", "object"]), st.integers(1, 4), st.integers(0, 999))
	return st.fixed_dictionaries({"dim": st.integers(1, 3), "kind": st.sampled_from(["mean", "cov", "cve", "cve_alpha"]), "ops": st.lists(st.one_of(good, good, bad), min_size=1, max_size=8)})


def run_hist(case, c):
	E, dim = P.estimators, case["dim"]

	def make():
		if case["kind"].startswith("cve"):
			return E.ControlVariableEstimator(np.linspace(0, 1, dim), alpha=np.ones(dim) if case["kind"] == "cve_alpha" else None, record=True)
		return E.MeanEstimator(dim=dim, covariance=case["kind"] == "cov", record=True)
	width = dim + 1 if case["kind"].startswith("cve") else dim
	a, b = make(), make()
	nbad = 0
	for what, k, s in case["ops"]:
		X = rng(s).normal(size=(k, width))
		if what == "good":
			call(a.update, X)
			call(b.update, X)
			continue
		bad = {"wide": np.ones((k, width + 1)), "string": np.array([["a"] * width] * k), "cube": np.ones((k, width + 1, 2)), "none": None, "object": np.array([[object()] * width] * k)}[what]
		try:
			a.update(bad)
		except Exception:
			nbad += 1
		else:
			check(False, "a sample of kind {} was accepted by {}", what, case["kind"])
		check(len(a) == len(b), "{}: rejected sample of kind {} was counted: {} instead of {}", case["kind"], what, len(a), len(b))
		same(len(a.values), len(b.values), "a rejected sample was recorded")
		if len(b):
			same(np.asarray(a.estimate, dtype=float), np.asarray(b.estimate, dtype=float), f"{case['kind']}: a rejected sample of kind {what} changed the estimate")
	same(np.asarray(a.estimate, dtype=float), np.asarray(b.estimate, dtype=float), f"{case['kind']}: estimate after rejected samples")
	same(np.asarray(a.delta, dtype=float), np.asarray(b.delta, dtype=float), f"{case['kind']}: last change after rejected samples")
	c.mark(nbad > 0 and len(b) > 0)
	c.label(case["kind"], *[o[0] for o in case["ops"]])


C0 = {"what": "hutch_full", "A": {"n": 5, "kind": "normal", "seed": 1, "exp": 0}, "op": "object", "source": "operator", "k": 1, "exc": ["custom", "value"], "seed": 2, "steps": 3, "batch": 2}
WHATS = ["hutch", "hutch_full", "hutch_callback", "diag", "diag_full", "xtrace", "hutchpp", "hutchpp_full", "xdiag", "lanczos", "ritz", "mf_matvec", "mf_quad", "mf_block", "mf_quad_block", "hutch_mf", "hutch_wrapped"]
SUBS = [
	Sub("faults", s_case, run, quick=600, thorough=20000, shards=5, examples=[{**C0, "what": w, "source": s, "k": k, "exc": sorted(EXC)[7 * k:7 * k + 11]} for w in WHATS for s in ("operator", "sampler", "function", "callback", "criterion") for k in (0, 2)]),
	Sub("generators", s_gen, run_gen, quick=100, thorough=3000, shards=1),
	Sub("histories", s_hist, run_hist, quick=200, thorough=5000, shards=1),
]
