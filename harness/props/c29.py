"""C29: computations are isolated from each other and from global state."""
import os, pickle, random as pyrandom, signal, sys, threading, traceback
import numpy as np
from core import Sub, Violation, check, in_code_under_test
from lib import P, strategies, rng, sym_from, orth

NEEDS = ["_lanczos", "tqli", "fttr"]
RULE = ("Histories of two to five programs - streams of samples into estimators and criteria, samplers (also multi-threaded), random matrices, matrix functions, Toeplitz and normalised operators, Lanczos and Ritz calls, quadrature, trace and diagonal estimators with integer or generator seeds, "
        "built-in functions, triangular inverses - interleaved step by step or run in concurrent threads, in a forked child of a process that never ran the code. Oracle: every program alone in its own fresh child (with another global random state). Observed: all results, NumPy's and Python's global random state and NumPy's settings for errors and printing after every step, "
        "all argument arrays, calls repeated after their owner wrote into everything returned before, all results returned before, states of generators passed as seeds. Non-trivial: an interleaving that leaves a program and comes back to it, or threads.")
TECHNIQUE = "property-based testing (Hypothesis): generated interleavings and thread schedules, differential against a fresh process"


class Failed(Exception):
	pass


def in_fork(fn, timeout=120):
	"""fn() in a forked child: returns its (pickled) value."""
	warm()  # imports only
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		try:
			signal.signal(signal.SIGALRM, signal.SIG_DFL)
			signal.alarm(timeout)
			os.close(r)
			try:
				os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
				out = ("ok", fn())
			except Violation as e:
				out = ("vio", str(e))
			except BaseException as e:
				t = traceback.format_exc()
				out = ("vio", f"unexpected {type(e).__name__}: {str(e)[:200]}") if in_code_under_test(e) else ("err", t)
			with os.fdopen(w, "wb") as f:
				pickle.dump(out, f)
		finally:
			os._exit(0)
	os.close(w)
	with os.fdopen(r, "rb") as f:
		data = f.read()
	st = os.waitpid(pid, 0)[1]
	if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (4, 6, 7, 8, 11):
		raise Violation(f"the interpreter crashed with signal {os.WTERMSIG(st)}")
	if not data:
		raise RuntimeError(f"child ended with status {st}")
	k, v = pickle.loads(data)
	if k == "vio":
		raise Violation(v)
	if k == "err":
		raise RuntimeError(v)
	return v


# ------------------------------------------------------------------------------------------------------------ programs

def sym(g, n):
	return sym_from(g.uniform(0.5, 2, size=n), orth(n, int(g.integers(1e6))))


def flat(x):
	"""Results as a flat list of arrays, numbers and strings."""
	if isinstance(x, (tuple, list)):
		return [y for e in x for y in flat(e)]
	if hasattr(x, "nit") and hasattr(x, "criterion"):
		e = x.estimator
		return flat([x.estimate, x.nit, x.message, len(x.info)] + ([e.estimate, len(e), e.values if e.values is not None else "none", e.delta] if e is not None else []))
	if x is None or isinstance(x, str):
		return [str(x)]
	if hasattr(x, "toarray"):
		return [x.toarray()]
	return [np.asarray(x)]


class Prog:
	"""A deterministic sequence of calls on its own objects. step(i) returns the real results of the i-th call."""
	def __init__(self, spec, gen=None):
		self.s, self.args, self.gen = spec, [], gen
		self.g = rng(spec["seed"])
		self.n, self.o = spec["n"], spec["opt"]

	def arg(self, x):
		x = np.array(x)
		self.args.append((x, x.copy()))
		return x

	def seed(self, i):
		if self.gen is not None:
			return self.gen
		if self.o % 2:
			if not hasattr(self, "own"):
				self.own = np.random.default_rng(self.s["seed"])
			return self.own
		return self.s["seed"] + i

	def step(self, i):
		return getattr(self, "do_" + self.s["kind"])(i)

	pdf = property(lambda self: ["rademacher", "normal", "sphere"][self.o % 3])

	def do_iso(self, i):
		if i == 0:
			self.f = P.random.isotropic(pdf=self.pdf, seed=self.seed(0))
		return self.f((self.n, 1 + i)) if i % 2 else self.f(self.n)

	def do_iso_once(self, i):
		if self.o % 4 == 0:
			return P.random.isotropic((self.n, 3), seed=self.seed(i))  # default distribution
		return P.random.isotropic(size=(self.n, 2), pdf=self.pdf, seed=self.seed(i))

	def do_iso_out(self, i):
		out = np.zeros((self.n, 3), order="F" if self.o % 2 else "C", dtype="f4" if self.o % 5 == 0 else "f8")
		P.random.isotropic(pdf=self.pdf, seed=self.seed(i), out=out)
		return out

	def do_Iso(self, i):
		if i == 0:
			self.f = P.random.Isotropic((self.n, 7), pdf=self.pdf, seed=self.seed(0), threads=1 + self.o % 4)
		self.f.fill()
		return self.f.values.copy()

	def do_symmetric(self, i):
		kw = [{}, {"pd": True}, {"dist": "uniform"}, {"ew": self.arg(self.g.normal(size=self.n))}][self.o % 4]
		return P.random.symmetric(self.n, seed=self.seed(i), **kw)

	def do_haar(self, i):
		n = max(self.n, 2)
		return P.random.haar(n, ew=self.arg(self.g.normal(size=n)) if self.o % 3 == 0 else None, seed=self.seed(i))

	def do_mean(self, i):
		E = P.estimators
		d = 1 + self.o % 3
		if i == 0:
			self.e = E.MeanEstimator(dim=d, covariance=self.o % 2 == 0, record=self.o % 3 == 0)
			self.cc = [E.convergence_criterion("confidence", atol=0.1), E.convergence_criterion("count", count=5), E.convergence_criterion("tolerance"), E.convergence_criterion("knee")]
			if self.o % 2 or d > 1:
				self.cc = self.cc[1:]
			if not self.o % 3 == 0:
				self.cc = [c for c in self.cc if not isinstance(c, E.KneeCriterion)]
		x = self.arg(self.g.normal(size=(4, d)) if d > 1 else self.g.normal(size=4))
		self.e.update(x)
		return self.e.estimate, self.e.delta.copy(), len(self.e), [np.array(c(self.e)) for c in self.cc], [c.message(self.e) for c in self.cc], [np.array(v) for v in self.e.values or []]

	def do_rule(self, i):
		"""Rules selected by name are the caller's own: changed after use, they leave later selections as they were."""
		E = P.estimators
		name = ["count", "tolerance", "confidence", "knee"][self.o % 4]
		kw = [{"count": 6}, {"rtol": 0.3, "atol": 0.0}, {"confidence": 0.9, "rtol": 0.2, "atol": 0.0}, {"S": 1.0}][self.o % 4]
		if i == 0:
			self.e = E.MeanEstimator(covariance=True, record=True)
		self.e.update(self.arg(1 + self.g.normal(size=3)))
		cc = [E.convergence_criterion(name, **kw), E.convergence_criterion(name)] if name != "count" else [E.convergence_criterion(name, **kw)]
		out = [bool(c(self.e)) for c in cc], [c.message(self.e) for c in cc]
		for c in cc:
			for a in ["count", "rtol", "atol", "S"]:
				if hasattr(c, a):
					setattr(c, a, (100 if a == "count" else 1e-12) if i % 2 else (1 if a == "count" else 1e3))
			if hasattr(c, "t_scores"):
				c.t_scores *= 7
				c.z *= 7
		return out

	def do_meandef(self, i):
		if i == 0:
			self.e = P.estimators.MeanEstimator()
		self.e.update(self.arg(self.g.normal(size=2 + i)))
		return self.e.estimate, self.e.delta.copy(), len(self.e), str(self.e.values)

	def do_cov(self, i):
		if i == 0:
			self.c, self.m = P.stats.Covariance(dim=1 + self.o % 3), P.stats.Mean(dim=1 + self.o % 3)
		x = self.arg(self.g.normal(size=(4, 1 + self.o % 3)))
		self.c.update(x), self.m.update(x)
		return self.c(), self.c.covariance(), self.c.mean(), self.m(), self.m.mean()

	def do_cve(self, i):
		k = 1 + self.o % 2
		if i == 0:
			self.e = P.estimators.ControlVariableEstimator(self.arg(self.g.normal(size=k)) if k > 1 else 0.3, record=self.o % 3 == 0)
		self.e.update(self.arg(self.g.normal(size=(5, k + 1))))
		return self.e.estimate, self.e.delta.copy(), len(self.e)

	def do_mf(self, i):
		if i == 0:
			f = [None, "exp", "sqrt", np.square, "smoothstep", "log"][self.o % 6]
			kw = {"t": 0.5} if f == "exp" else {"a": 0.1, "b": 1.5} if f == "smoothstep" else {}
			self.A = self.arg(sym(self.g, self.n))
			self.f = P.operators.MatrixFunction(self.A, f, deg=[20, 4, self.n + 2][self.o % 3], orth=-1, **kw) if self.o % 4 else P.operators.MatrixFunction(self.A, f, orth=-1, **kw)
		x = self.arg(self.g.normal(size=(self.n, 2) if i % 3 == 2 else self.n))
		return self.f @ x, self.f.quad(x)

	def do_toeplitz(self, i):
		if i == 0:
			self.f = P.operators.Toeplitz(self.arg(self.g.normal(size=self.n)), *([self.arg(self.g.normal(size=self.n))] if self.o % 2 else []))
		return self.f @ self.arg(self.g.normal(size=(self.n, 2) if i % 3 == 2 else self.n))

	def do_normalize(self, i):
		if i == 0:
			self.f = P.operators.normalize_unit(self.arg(sym_from(np.arange(1, self.n + 1.0), orth(self.n, self.s["seed"]))))
		return self.f @ self.arg(self.g.normal(size=self.n))

	def do_lanczos(self, i):
		A = self.arg(sym(self.g, self.n))
		kw = {"orth": -1, "return_basis": self.o % 2 == 0, "deg": [None, 3][self.o % 2]}
		if self.o % 3:
			return P.lanczos.lanczos(A, seed=self.seed(i), **kw)
		return P.lanczos.lanczos(A, v0=self.arg(self.g.normal(size=self.n)), **kw)

	def do_ritz(self, i):
		A = self.arg(sym(self.g, self.n))
		return P.lanczos.rayleigh_ritz(A, seed=self.seed(i), orth=-1) if self.o % 2 else P.lanczos.rayleigh_ritz(A, deg=3, orth=-1, v0=self.arg(self.g.normal(size=self.n)), return_eigenvectors=False)

	def do_quadrature(self, i):
		d, e = self.arg(self.g.normal(size=self.n)), self.arg(np.append(0.0, self.g.uniform(0.5, 1, size=self.n - 1)))
		return P.integrate.quadrature(d, e, quad=["gw", "fttr"][self.o % 2]), P.tridiag.eigvalsh_tridiag(d, e[1:], method=["auto", "tqli"][self.o % 2])

	def do_hutch(self, i):
		A, k = self.arg(sym(self.g, self.n)), self.o % 5
		if k == 0:
			return P.trace.hutch(A, seed=self.seed(i))
		if k == 1:
			return P.trace.hutch(A, seed=self.seed(i), full=True, batch=7)
		if k == 2:
			return P.trace.hutch(A, seed=self.seed(i), converge="count", count=11 + i, pdf="normal", full=True, record=True, batch=3)
		if k == 3:
			return P.trace.hutch(A, seed=self.seed(i), converge="confidence", rtol=0.2, pdf="sphere")
		return P.trace.hutch(A, seed=self.seed(i), converge="tolerance", rtol=0.1)

	def do_slq(self, i):
		M = P.operators.MatrixFunction(self.arg(sym(self.g, self.n)), ["exp", "sqrt", "log"][self.o % 3], deg=6, orth=-1)
		return P.trace.hutch(M, seed=self.seed(i), converge="count", count=8, full=self.o % 2 == 0, batch=4)

	def do_hutchpp(self, i):
		return P.trace.hutchpp(self.arg(sym(self.g, self.n)), seed=self.seed(i), full=self.o % 2 == 0, **[{}, {"m": 3}, {"pdf": "normal"}, {"mode": "full"}][self.o % 4])

	def do_xtrace(self, i):
		return P.trace.xtrace(self.arg(sym(self.g, self.n)), seed=self.seed(i), full=self.o % 2 == 0, **[{}, {"batch": 2}, {"pdf": "normal", "batch": 3}, {"converge": "tolerance", "rtol": 0.5, "batch": 2}][self.o % 4])

	def do_diag(self, i):
		return P.diagonal.diag(self.arg(sym(self.g, self.n)), seed=self.seed(i), full=self.o % 2 == 0, **[{}, {"pdf": "normal", "converge": "count", "count": 9}, {"converge": "count", "count": 4, "record": True}][self.o % 3])

	def do_xdiag(self, i):
		return P.diagonal.xdiag(self.arg(sym(self.g, self.n)), seed=self.seed(i), **[{"m": self.n}, {"m": 4, "pdf": "normal"}, {"m": self.n - 1}][self.o % 3])

	def do_special(self, i):
		S = P.special
		kw = [{}, {"t": 0.5 + i}, {"a": 0.1 * i, "b": 1.5}, {"q": 3}, {"threshold": 0.5}, {}][self.o % 6]
		if i == 0:
			self.f = []
		self.f.append(S.param_callable(["exp", "exp", "smoothstep", "softsign", "numrank", "abs"][self.o % 6], **kw))
		x = self.arg(self.g.normal(size=self.n))
		return [f(x) for f in self.f], S.exp(x), S.softsign(x), S.smoothstep(x), S.step(x), S.step(c=0.2)(x)

	def do_trinv(self, i):
		k = i + 1
		if i == 0:
			self.R = np.triu(self.g.normal(size=(15, 15))) + 3 * np.eye(15)
			self.B = np.zeros((0, 0))
		self.args.append((self.B, self.B.copy()))
		self.B = P.linalg.update_trinv(self.B, self.arg(self.R[:k, k - 1]))
		return self.B

	def do_ci(self, i):
		return P.stats.confidence_interval(self.arg(self.g.normal(size=self.n + 3)), **[{}, {"confidence": 0.5}, {"sdist": "normal"}][self.o % 3])


KINDS = [k[3:] for k in dir(Prog) if k.startswith("do_")]
RANDOM = ["iso", "iso_once", "iso_out", "Iso", "symmetric", "haar", "lanczos", "ritz", "hutch", "slq", "hutchpp", "xtrace", "diag", "xdiag"]


def warm():
	for m in ("random", "estimators", "stats", "operators", "lanczos", "integrate", "tridiag", "trace", "diagonal", "special", "linalg"):
		getattr(P, m).__name__
	import scipy.spatial.distance, scipy.stats, scipy.special, scipy.sparse.linalg, scipy.fft, scipy.linalg  # noqa: F401


def gstate():
	s = np.random.get_state()
	return s[0], s[1].tobytes(), s[2:], pyrandom.getstate(), str(np.geterr()), str(np.get_printoptions()), np.geterrcall(), np.getbufsize()


class Tracker:
	"""Runs steps, keeping what was returned."""
	def __init__(self, specs, gens=None):
		self.progs = [Prog(s, None if gens is None else gens[j]) for j, s in enumerate(specs)]
		self.res = [[] for _ in specs]
		self.kept = []
		self.lock = threading.Lock()

	def step(self, j):
		p, i = self.progs[j], len(self.res[j])
		r = p.step(i)
		live = flat(r)
		snap = [np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in live]
		self.res[j].append(snap)
		with self.lock:
			self.kept.append((j, i, r, snap))

	def verify(self):
		for j, p in enumerate(self.progs):
			for k, (x, keep) in enumerate(p.args):
				check(x.dtype == keep.dtype and x.shape == keep.shape and np.array_equal(x, keep, equal_nan=True), "an argument of {} was modified", p.s["kind"])
		for j, i, r, snap in self.kept:
			now = flat(r)
			check(len(now) == len(snap) and all(same_value(a, b, 0) for a, b in zip(now, snap)), "the result of step {} of {} was altered by later calls", i, self.progs[j].s["kind"])


def same_value(a, b, rtol):
	if isinstance(a, str) or isinstance(b, str):
		return isinstance(a, str) == isinstance(b, str) and (a == b or rtol > 0)
	a, b = np.asarray(a), np.asarray(b)
	if a.shape != b.shape or a.dtype != b.dtype:
		return False
	if a.dtype.kind not in "fc":
		return np.array_equal(a, b)
	if rtol == 0:
		return np.array_equal(a, b, equal_nan=True)
	fin = np.isfinite(b)
	if not np.array_equal(fin, np.isfinite(a)) or not np.array_equal(a[~fin], b[~fin], equal_nan=True):
		return False
	s = max(np.abs(b[fin]).max(initial=0.0), 1.0)
	return bool(np.all(np.abs(a[fin] - b[fin]) <= rtol * s))


def alone(spec, steps, gseed):
	def f():
		np.random.seed(gseed)
		pyrandom.seed(gseed)
		t = Tracker([spec])
		for _ in range(steps):
			t.step(0)
		t.verify()
		return t.res[0]
	return in_fork(f)


def s_history():
	st = strategies()
	spec = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "n": st.one_of(st.integers(4, 12), st.integers(4, 12), st.integers(13, 40)), "seed": st.integers(0, 10**5), "opt": st.integers(0, 59)})
	return st.fixed_dictionaries({"progs": st.lists(spec, min_size=2, max_size=5), "clone": st.booleans(), "order": st.lists(st.integers(0, 4), min_size=2, max_size=14), "gseed": st.integers(0, 1000), "threads": st.sampled_from([False, False, False, True])})


def specs_of(case):
	specs = [dict(s) for s in case["progs"]]
	if case["clone"]:
		# the same kind of object with other data, the likeliest to share state
		specs[1] = dict(specs[0], seed=specs[1]["seed"], n=specs[1]["n"])
	order = [j % len(specs) for j in case["order"]]
	return specs, [min(j, len(specs) - 1) for j in order]


def compare(specs, counts, got, how):
	for j, s in enumerate(specs):
		if not counts[j]:
			continue
		want = alone(s, counts[j], 12345)
		for i, (a, b) in enumerate(zip(got[j], want)):
			if len(a) != len(b) or not all(same_value(x, y, 1e-7) for x, y in zip(a, b)):
				k = next((k for k, (x, y) in enumerate(zip(a, b)) if not same_value(x, y, 1e-7)), -1)
				raise Violation(f"step {i} of {s['kind']} {how} returns another result than alone in a fresh process: {str(a[k])[:120]}, alone {str(b[k])[:120]}")


def run_history(case, c):
	specs, order = specs_of(case)
	if case["threads"]:
		order = sorted(order)
	counts = [order.count(j) for j in range(len(specs))]

	def f():
		np.random.seed(case["gseed"])
		pyrandom.seed(case["gseed"])
		before = gstate()
		t = Tracker(specs)
		if case["threads"]:
			sys.setswitchinterval(1e-5)
			errs, bar = [], threading.Barrier(len(specs))

			def work(j):
				try:
					bar.wait(60)
					for _ in range(counts[j]):
						t.step(j)
				except BaseException as e:
					errs.append(e)
			ts = [threading.Thread(target=work, args=(j,)) for j in range(len(specs))]
			for x in ts:
				x.start()
			for x in ts:
				x.join()
			if errs:
				raise errs[0]
			check(gstate() == before, "the global random state was changed")
		else:
			for j in order:
				t.step(j)
				check(gstate() == before, "{} changed the global random state or NumPy's settings", specs[j]["kind"])
		t.verify()
		return t.res
	got = in_fork(f)
	compare(specs, counts, got, "in concurrent threads" if case["threads"] else f"interleaved with {[s['kind'] for s in specs]}")
	back = any(order[a] != order[a + 1] and order[a] in order[a + 2:] for a in range(len(order) - 1))
	c.mark(back or case["threads"] and sum(x > 0 for x in counts) > 1)
	c.label("threads" if case["threads"] else "interleaved", *[s["kind"] for j, s in enumerate(specs) if counts[j]])


def s_gen():
	st = strategies()
	spec = st.fixed_dictionaries({"kind": st.sampled_from(RANDOM), "n": st.one_of(st.integers(4, 12), st.integers(4, 12), st.integers(13, 40)), "seed": st.integers(0, 10**5), "opt": st.integers(0, 59)})
	return st.fixed_dictionaries({"spec": spec, "other": spec, "steps": st.integers(1, 3), "gseed": st.integers(0, 10**6), "burn": st.integers(0, 3)})


def gen_state(g):
	return repr(g.bit_generator.state), getattr(g.bit_generator.seed_seq, "n_children_spawned", 0)


def run_gen(case, c):
	spec, other, k = case["spec"], case["other"], case["steps"]

	def make():
		g = np.random.default_rng(case["gseed"])
		g.random(case["burn"])
		return g

	def f():
		g1, g2 = make(), make()
		start = gen_state(g1)
		t1 = Tracker([spec], [g1])
		for _ in range(k):
			t1.step(0)
		t = Tracker([other])
		t.step(0)
		t2 = Tracker([spec], [g2])
		for _ in range(k):
			t2.step(0)
		for t in (t1, t2):
			t.verify()
		s1, s2 = gen_state(g1), gen_state(g2)
		return t1.res[0], t2.res[0], s1 == s2, s1 == start

	a, b, equal, idle = in_fork(f)
	check(equal, "{} advances equal generators differently", spec["kind"])
	for x, y in zip(a, b):
		check(len(x) == len(y) and all(same_value(p, q, 1e-7) for p, q in zip(x, y)), "{} with equal generators returns different results", spec["kind"])
	draws = not (spec["kind"] == "lanczos" and spec["opt"] % 3 == 0 or spec["kind"] == "ritz" and spec["opt"] % 2 == 0)
	check(idle != draws, "{} {} the generator passed as seed", spec["kind"], "does not advance" if draws else "advances")
	c.mark(draws)
	c.label(spec["kind"])


def s_unseeded():
	st = strategies()
	return st.fixed_dictionaries({"what": st.sampled_from(["iso", "iso_size", "iso_out", "Iso", "symmetric", "haar", "lanczos", "hutch", "hutchpp", "xtrace", "diag", "xdiag"]), "n": st.one_of(st.integers(6, 12), st.integers(13, 40)), "gseed": st.integers(0, 1000), "seed": st.integers(0, 10**5), "seeded": st.booleans()})


def run_unseeded(case, c):
	n, w = case["n"], case["what"]

	def f():
		A = sym_from(np.linspace(0.5, 3, n), orth(n, case["seed"]))

		def once(**sd):
			np.random.seed(case["gseed"])
			pyrandom.seed(case["gseed"])
			before = gstate()
			if w == "iso":
				r = P.random.isotropic(pdf="normal", **sd)(n)
			elif w == "iso_size":
				r = P.random.isotropic((n, 2), pdf="normal", **sd)
			elif w == "iso_out":
				r = np.zeros((n, 2))
				P.random.isotropic(pdf="normal", out=r, **sd)
			elif w == "Iso":
				s = P.random.Isotropic((n, 4), pdf="normal", threads=2, **sd)
				s.fill()
				r = s.values
			elif w == "symmetric":
				r = P.random.symmetric(n, **sd)
			elif w == "haar":
				r = P.random.haar(n, **sd)
			elif w == "lanczos":
				r = np.concatenate(P.lanczos.lanczos(A, deg=3, **sd))
			elif w == "diag":
				r = P.diagonal.diag(A, pdf="normal", converge="count", count=3, **sd)
			elif w == "xdiag":
				r = P.diagonal.xdiag(A, m=4, pdf="normal", **sd)
			elif w == "hutch":
				r = P.trace.hutch(A, pdf="normal", converge="count", count=3, **sd)
			elif w == "hutchpp":
				r = P.trace.hutchpp(A, pdf="normal", m=3, **sd)
			else:
				r = P.trace.xtrace(A, pdf="normal", converge="count", count=2, batch=2, **sd)
			check(gstate() == before, "unseeded {} changed the global random state or NumPy's settings", w)
			return np.array(r)
		if not case.get("seeded"):
			return [once() for _ in range(3)]
		r, seeded = [], []
		for _ in range(3):
			seeded.append(once(seed=case["seed"]))
			r.append(once())
		check(all(np.array_equal(x, seeded[0]) for x in seeded), "seeded calls of {} between unseeded ones return different results", w)
		check(not np.array_equal(seeded[0], r[0]), "an unseeded call of {} repeats the seeded one before it", w)
		return r
	r = in_fork(f)
	check(not np.array_equal(r[0], r[1]) and not np.array_equal(r[0], r[2]) and not np.array_equal(r[1], r[2]), "unseeded calls of {} return the same random result", w)
	c.mark()
	c.label(w)


def scribble(x, seen):
	"""Writes into everything a call returned, as its owner may."""
	if id(x) in seen:
		return
	seen.add(id(x))
	if isinstance(x, (tuple, list)):
		for e in x:
			scribble(e, seen)
	elif isinstance(x, np.ndarray):
		if x.flags["WRITEABLE"]:
			x[...] = x.dtype.type(77)
	elif hasattr(x, "nit") and hasattr(x, "criterion"):
		x.info["note"] = 77
		scribble(x.estimate, seen)
		if x.estimator is not None:
			scribble(x.estimator.delta, seen)
			if x.estimator.values is not None:
				scribble(x.estimator.values, seen)
				x.estimator.values.append(np.array([77.0]))
		x.estimate, x.nit, x.message = 77, 77, "77"
	elif hasattr(x, "toarray") and hasattr(x, "data"):
		scribble(x.data, seen)


def s_scribble():
	st = strategies()
	return st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "n": st.one_of(st.integers(4, 12), st.integers(4, 12), st.integers(13, 40)), "seed": st.integers(0, 10**5), "opt": st.integers(0, 59), "steps": st.integers(1, 4)})


def run_scribble(case, c):
	"""Results belong to the caller: writing into them changes no later call on new objects."""
	k = case["steps"]
	spec = {x: case[x] for x in ("kind", "n", "seed", "opt")}

	def f():
		t = Tracker([spec])
		for _ in range(k):
			t.step(0)
		seen = set()
		for _, _, r, _ in t.kept:
			scribble(r, seen)
		new = Tracker([spec])
		for _ in range(k):
			new.step(0)
		return new.res
	compare([spec], [k], in_fork(f), "after the results of the same calls were written to by their owner")
	c.mark()
	c.label(case["kind"])


def two(kind, opt=0, other="hutch"):
	return {"progs": [{"kind": kind, "n": 6, "seed": 1, "opt": opt}, {"kind": other, "n": 7, "seed": 2, "opt": opt}], "clone": other == kind, "order": [0, 1, 0, 1, 1, 0], "gseed": 3, "threads": False}


SUBS = [
	Sub("history", s_history, run_history, quick=240, thorough=12000, shards=6, examples=[two(k, o, k) for k in KINDS for o in (0, 1)], cost=5),
	Sub("generator", s_gen, run_gen, quick=150, thorough=4000, shards=2, examples=[{"spec": {"kind": k, "n": 6, "seed": 1, "opt": o}, "other": {"kind": "hutch", "n": 6, "seed": 1, "opt": 0}, "steps": 2, "gseed": 5, "burn": 1} for k in RANDOM for o in (0, 1)], cost=2),
	Sub("scribble", s_scribble, run_scribble, quick=80, thorough=3000, shards=2, examples=[{"kind": k, "n": 6, "seed": 1, "opt": o, "steps": 3} for k in KINDS for o in (0, 1, 2)], cost=3),
	Sub("unseeded", s_unseeded, run_unseeded, quick=48, thorough=600, shards=1, examples=[{"what": w, "n": 7, "gseed": 1, "seed": 5, "seeded": True} for w in ["iso", "iso_size", "iso_out", "Iso", "symmetric", "haar", "lanczos", "hutch", "hutchpp", "xtrace", "diag", "xdiag"]]),
]
