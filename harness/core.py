"""Core of the property-based checks: sub-checks, the Hypothesis driver of one worker process, and oracle helpers.

A property module defines NEEDS (extensions to build), RULE (text for the evidence) and SUBS, a list of Sub. A Sub draws
JSON-able cases from a Hypothesis strategy and runs them against the real code; it raises Violation when the property
fails. Any other exception is a violation only when it passes through the code under test, else an error of the check."""
import hashlib, json, math, os, random, signal, sys, time, traceback, warnings


class Violation(Exception):
	"""The property does not hold for this case."""


class Injected(Exception):
	"""Raised by user-supplied stand-ins of a check, on purpose."""


class Sub:
	def __init__(self, name, strategy, run, quick=100, thorough=None, examples=(), shards=2, fixed_only=False, cost=1):
		self.name, self.strategy, self.run = name, strategy, run
		self.quick, self.thorough = quick, (20 * quick if thorough is None else thorough)
		self.examples, self.shards, self.fixed_only, self.cost = list(examples), shards, fixed_only, cost


class Ctx:
	"""What a run reports about its case."""
	def __init__(self):
		self.nontrivial, self.labels = False, []

	def label(self, *names):
		self.labels.extend(str(n) for n in names)

	def mark(self, cond=True):
		self.nontrivial = self.nontrivial or bool(cond)


def vio(msg):
	raise Violation(msg)


def check(cond, msg="property fails", *args):
	if not cond:
		raise Violation(msg.format(*args) if args else msg)


def call(fn, *a, **k):
	"""Calls the code under test on a valid input: any exception is a violation."""
	try:
		return fn(*a, **k)
	except (Violation, Injected):
		raise
	except (MemoryError, KeyboardInterrupt):
		raise
	except Exception as e:
		raise Violation(f"unexpected {type(e).__name__} from {getattr(fn, '__qualname__', fn)}: {str(e)[:300]}") from e


def rejects(fn, *a, what="invalid input", **k):
	"""The code under test must raise some exception."""
	try:
		r = fn(*a, **k)
	except Violation:
		raise
	except Exception as e:
		return e
	raise Violation(f"{what} was accepted (returned {str(r)[:120]})")


def arr(x, shape=None, dtype=float, name="result"):
	"""Result of the code under test as an array of the given shape; a malformed result is a violation."""
	import numpy as np
	try:
		y = np.asarray(x)
		if y.dtype == object or y.dtype.kind not in "fiub":
			raise TypeError(f"dtype {y.dtype}")
		y = y.astype(dtype)
	except Exception as e:
		raise Violation(f"{name} is not a real array: {type(x).__name__} ({str(e)[:100]})")
	if shape is not None and y.shape != tuple(shape):
		raise Violation(f"{name} has shape {y.shape}, expected {tuple(shape)}")
	return y


def num(x, name="result"):
	import numpy as np
	y = arr(x, name=name)
	if y.size != 1:
		raise Violation(f"{name} is not a single number: shape {y.shape}")
	return float(y.reshape(-1)[0])


def close(got, want, tol, msg="values differ"):
	"""|got - want| <= tol elementwise (tol absolute, scalar or array); NaN never passes unless expected."""
	import numpy as np
	g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
	if g.shape != w.shape:
		raise Violation(f"{msg}: shape {g.shape}, expected {w.shape}")
	bad = ~((np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w)))
	if np.any(bad):
		i = np.unravel_index(int(np.argmax(bad)), g.shape) if g.shape else ()
		t = np.broadcast_to(np.asarray(tol, dtype=float), g.shape)[i]
		raise Violation(f"{msg}: got {g[i]!r}, expected {w[i]!r} (tolerance {t:.3g}) at {tuple(int(k) for k in i)} of shape {g.shape}")


def same(got, want, msg="values differ"):
	import numpy as np
	g, w = np.asarray(got), np.asarray(want)
	if g.shape != w.shape or not np.array_equal(g, w, equal_nan=g.dtype.kind == "f" and w.dtype.kind == "f"):
		raise Violation(f"{msg}: got {str(g)[:200]}, expected {str(w)[:200]}")


# ---------------------------------------------------------------------------------------------------------------- run

def case_json(case):
	return json.dumps(case, sort_keys=True)


def in_code_under_test(e):
	from boot import SRC
	tb = e.__traceback__
	while tb is not None:
		if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(SRC + os.sep):
			return True
		tb = tb.tb_next
	return False


def unusable(e):
	"""Whether a property's code stumbled over the form of a result: a missing method or item, wrong length or type (not a missing name of the package)."""
	files = [x.filename for x in traceback.extract_tb(e.__traceback__)]
	while len(files) > 1 and any(os.sep + lib + os.sep in files[-1] for lib in ("numpy", "scipy")):
		files.pop()  # a library refused the result, e.g. since it is not finite
	f = files[-1]
	here = os.path.dirname(os.path.abspath(__file__))
	if not os.path.abspath(f).startswith(here + os.sep) or os.path.basename(f) in ("boot.py", "core.py", "check.py", "lib.py"):
		return False
	return isinstance(e, (TypeError, ValueError, LookupError)) or isinstance(e, AttributeError) and not str(e).startswith("module ")


CPU_LIMIT = [40.0]  # seconds of CPU time of one case, which normally takes milliseconds


def cpu_limit(*_):
	s, CPU_LIMIT[0] = CPU_LIMIT[0], 8.0
	raise Violation(f"no end within {s:.0f} s of CPU time")


def run_case(sub, case):
	"""Runs one case. Returns (ctx, None) or (ctx, message). Raises on errors of the harness."""
	ctx = Ctx()
	signal.signal(signal.SIGPROF, cpu_limit)
	signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT[0])
	try:
		with warnings.catch_warnings():
			warnings.simplefilter("ignore")
			sub.run(json.loads(case_json(case)), ctx)
		return ctx, None
	except Violation as e:
		return ctx, str(e) or "property fails"
	except (KeyboardInterrupt, MemoryError):
		raise
	except Exception as e:
		if type(e).__module__.startswith("hypothesis"):
			raise
		if in_code_under_test(e):
			return ctx, f"unexpected {type(e).__name__}: {str(e)[:300]} (in {traceback.extract_tb(e.__traceback__)[-1].name})"
		if unusable(e):
			return ctx, f"a result cannot be used: {type(e).__name__}: {str(e)[:300]}"
		raise
	finally:
		signal.setitimer(signal.ITIMER_PROF, 0)


def run_case_isolated(sub, case):
	"""As run_case, in a forked child, so that a crash of the interpreter becomes a message."""
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		try:
			os.close(r)
			try:
				import faulthandler
				faulthandler.disable()
				null = os.open(os.devnull, os.O_WRONLY)
				os.dup2(null, 2)
				ctx, msg = run_case(sub, case)
				out = {"nt": ctx.nontrivial, "labels": ctx.labels, "msg": msg, "err": None}
			except BaseException:
				out = {"nt": False, "labels": [], "msg": None, "err": traceback.format_exc()}
			with os.fdopen(w, "w") as f:
				json.dump(out, f)
		finally:
			os._exit(0)
	os.close(w)
	with os.fdopen(r) as f:
		txt = f.read()
	_, st = os.waitpid(pid, 0)
	if os.WIFSIGNALED(st):
		sig = os.WTERMSIG(st)
		if sig in CRASH_SIGNALS:
			return Ctx(), f"the interpreter crashed with signal {sig}"
		raise RuntimeError(f"isolated case ended by signal {sig}")
	out = json.loads(txt)
	if out["err"]:
		raise RuntimeError(out["err"])
	ctx = Ctx()
	ctx.nontrivial, ctx.labels = out["nt"], out["labels"]
	return ctx, out["msg"]


CRASH_SIGNALS = {4, 6, 7, 8, 11}


class Worker:
	"""Runs one sub-check (or one shard of it) in this process."""
	def __init__(self, prop, sub, seed, n, budget, outdir, tag, isolate=False):
		self.prop, self.sub, self.seed, self.n, self.budget = prop, sub, seed, n, budget
		self.outdir, self.tag, self.isolate = outdir, tag, isolate
		self.cur = os.path.join(outdir, tag + ".cur")
		self.evals, self.seen, self.samples, self.labels = 0, set(), [], {}
		self.skipped, self.fail = 0, None
		self.t0 = time.monotonic()

	def one(self, case):
		js = case_json(case)
		if not self.isolate:
			with open(self.cur, "w") as f:
				f.write(js)
		ctx, msg = (run_case_isolated if self.isolate else run_case)(self.sub, case)
		self.evals += 1
		for l in set(ctx.labels):
			self.labels[l] = self.labels.get(l, 0) + 1
		if ctx.nontrivial:
			h = hashlib.sha256(js.encode()).hexdigest()[:16]
			if h not in self.seen:
				self.seen.add(h)
				if len(self.samples) < 3 and len(js) < 4000:
					self.samples.append({"sub": self.sub.name, "case": json.loads(js)})
		return msg

	def run(self):
		for case in self.sub.examples:
			msg = self.one(case)
			if msg is not None:
				self.fail = {"case": case, "message": msg, "origin": "regression example"}
				return
		if self.sub.fixed_only or self.sub.strategy is None or self.n <= 0:
			return
		import hypothesis
		from hypothesis import HealthCheck, Phase, settings, given
		import hypothesis.internal.conjecture.engine as eng
		eng.MAX_SHRINKING_SECONDS = 45
		strat = self.sub.strategy() if callable(self.sub.strategy) else self.sub.strategy

		@hypothesis.seed(self.seed)
		@settings(max_examples=self.n, database=None, deadline=None, derandomize=False, print_blob=False,
		          report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
		          suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example])
		@given(strat)
		def test(case):
			if self.fail is None and time.monotonic() - self.t0 > self.budget:
				self.skipped += 1
				return
			msg = self.one(case)
			if msg is not None:
				self.fail = {"case": json.loads(case_json(case)), "message": msg, "origin": "hypothesis"}
				raise Violation(msg)
		try:
			test()
		except Violation:
			pass
		except BaseException as e:
			# a flaky failure was still observed on the real code with the recorded case
			if self.fail is None:
				raise
			self.fail["note"] = f"{type(e).__name__} while shrinking"

	def result(self, error=None):
		return {"sub": self.sub.name, "tag": self.tag, "evaluations": self.evals, "hashes": sorted(self.seen), "samples": self.samples,
		        "labels": self.labels, "skipped_after_budget": self.skipped, "fail": self.fail, "error": error,
		        "wall_s": round(time.monotonic() - self.t0, 2)}
