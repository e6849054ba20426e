"""C08: multi-threaded isotropic filling does not depend on the thread schedule."""
import concurrent.futures, sys, threading, time
import numpy as np
from core import Sub, check, close, same, arr, num, call
from lib import P, strategies, rng, sizes
from big import sub as big_sub

NEEDS = []
RULE = ("The thread pool used by the generator is replaced by one whose scheduling is drawn: worker tasks run in a drawn order, or interleaved at drawn source lines of primate/random.py "
        "(each task stops before every line until the drawn schedule picks it). Values after each fill are compared bitwise between schedules and with the ordinary pool; fills of every column "
        "are counted. Tasks may also start up to 0.4 s late. Non-trivial: at least two worker tasks were pending together with at least two columns.")

REAL = concurrent.futures.ThreadPoolExecutor


class Task:
	def __init__(self, fut, fn, a, k):
		self.fut, self.fn, self.a, self.k = fut, fn, a, k
		self.go, self.done, self.yielded = threading.Semaphore(0), False, threading.Semaphore(0)


class DrawnPool(concurrent.futures.Executor):
	"""Runs pending tasks one step at a time in the order given by a list of integers."""
	def __init__(self, *a, **k):
		self.pending, self.cv, self.sched, self.pos = [], threading.Condition(), DrawnPool.schedule, 0
		self.lines, self.trace, self.maxpend, self.stop = 0, DrawnPool.interleave, 0, False
		DrawnPool.made.append(self)
		self.th = threading.Thread(target=self.loop, daemon=True)
		self.th.start()

	def submit(self, fn, /, *a, **k):
		fut = concurrent.futures.Future()
		with self.cv:
			self.pending.append(Task(fut, fn, a, k))
			self.cv.notify()
		return fut

	def shutdown(self, wait=True, *, cancel_futures=False):
		with self.cv:
			self.stop = True
			self.cv.notify()

	def pick(self, n):
		x = self.sched[self.pos % len(self.sched)] if self.sched else 0
		self.pos += 1
		return x % n

	def loop(self):
		while True:
			with self.cv:
				while not self.pending and not self.stop:
					self.cv.wait()
				if self.stop and not self.pending:
					return
				# everything submitted together is scheduled together: wait until submissions pause
				k = -1
				while len(self.pending) != k:
					k = len(self.pending)
					self.cv.wait(0.004)
				tasks, self.pending = self.pending, []
			self.maxpend = max(self.maxpend, len(tasks))
			self.execute(tasks)

	def execute(self, tasks):
		if not self.trace:
			while tasks:
				self.body(tasks.pop(self.pick(len(tasks))))
			return
		for t in tasks:
			threading.Thread(target=self.traced, args=(t,), daemon=True).start()
		while tasks:
			t = tasks[self.pick(len(tasks))]
			t.go.release()
			t.yielded.acquire()
			if t.done:
				tasks.remove(t)

	def body(self, t):
		t.fut.set_running_or_notify_cancel()
		try:
			t.fut.set_result(t.fn(*t.a, **t.k))
		except BaseException as e:
			t.fut.set_exception(e)

	def traced(self, t):
		t.go.acquire()

		def tr(frame, event, arg):
			if not frame.f_code.co_filename.endswith("primate/random.py"):
				return None
			if event == "line":
				self.lines += 1
				t.yielded.release()
				t.go.acquire()
			return tr
		sys.settrace(tr)
		try:
			self.body(t)
		finally:
			sys.settrace(None)
			t.done = True
			t.yielded.release()


def with_pool(schedule, interleave, fn):
	mod = P.random
	DrawnPool.schedule, DrawnPool.interleave, DrawnPool.made = schedule, interleave, []
	isotropic = mod.isotropic  # forces the import
	names = [k for k, v in vars(mod).items() if v is REAL]
	concurrent.futures.ThreadPoolExecutor = DrawnPool
	for k in names:
		setattr(mod, k, DrawnPool)
	try:
		return fn(), DrawnPool.made
	finally:
		concurrent.futures.ThreadPoolExecutor = REAL
		for k in names:
			setattr(mod, k, REAL)
		for p in DrawnPool.made:
			p.shutdown()


def s_sched():
	st = strategies()
	return st.fixed_dictionaries({"n": sizes(1, 12, 100), "m": sizes(1, 20, 150), "threads": sizes(1, 8, 40), "pdf": st.sampled_from(["rademacher", "signs", "normal", "gaussian", "sphere"]), "seed": st.integers(0, 2**40),
	                              "schedules": st.lists(st.lists(st.integers(0, 7), min_size=1, max_size=24), min_size=1, max_size=3), "interleave": st.booleans(), "fills": st.sampled_from([1, 2, 2, 3, 3, 5, 9]), "seedform": st.sampled_from(["int", "generator", "sequence"])})


KIND = {"rademacher": "rademacher", "signs": "rademacher", "normal": "normal", "gaussian": "normal", "sphere": "sphere"}


def fills(case):
	n, m = case["n"], case["m"]
	seed = {"int": lambda: case["seed"], "generator": lambda: np.random.default_rng(case["seed"]), "sequence": lambda: np.random.SeedSequence(case["seed"])}[case["seedform"]]()
	I = call(P.random.Isotropic, (n, m), pdf=case["pdf"], seed=seed, threads=case["threads"])
	mod = P.random
	counts, out = np.zeros(m, dtype=int), []
	table = getattr(mod, "_ISO_FUNCS", None)
	seen = [0]
	kind = KIND[case["pdf"]]
	orig = I.iso if callable(getattr(I, "iso", None)) else None
	lock = threading.Lock()
	if orig is not None:
		def rec(rng, out):
			a = I.values.__array_interface__["data"][0]
			b = out.__array_interface__["data"][0]
			if out.size and out.base is not None and np.shares_memory(out, I.values):
				j = (b - a) // I.values.strides[1]
				with lock:
					counts[j : j + (out.shape[1] if out.ndim > 1 else 1)] += 1
					seen[0] += 1
			return orig(rng, out=out)
		I.iso = rec
	for _ in range(case["fills"]):
		I.values[...] = np.nan
		counts[:], seen[0] = 0, 0
		call(I.fill)
		V = np.array(I.values, copy=True)
		check(V.shape == (n, m), "values have shape {}", V.shape)
		check(not np.any(np.isnan(V)), "columns {} were not filled", np.flatnonzero(np.isnan(V).any(axis=0)).tolist())
		if seen[0]:
			check(np.all(counts == 1), "columns were filled {} times", counts.tolist())
		if kind == "rademacher":
			check(np.all(np.abs(V) == 1), "rademacher entries other than -1, +1")
		elif kind == "sphere":
			close(np.sqrt((V**2).sum(axis=0)), np.full(m, np.sqrt(n)), 1e-13 * n, "norm of sphere columns")
		out.append(V)
	return out


def run_sched(case, c):
	ref = fills(case)
	maxpend = 0
	for s in case["schedules"]:
		got, pools = with_pool(s, case["interleave"], lambda: fills(case))
		maxpend = max([maxpend] + [p.maxpend for p in pools])
		for k, (a, b) in enumerate(zip(got, ref)):
			same(a, b, f"fill {k + 1} of size {(case['n'], case['m'])} with {case['threads']} threads depends on the schedule {s}")
	got, pools = with_pool([7, 6, 5, 4, 3, 2, 1, 0], case["interleave"], lambda: fills(case))
	for a, b in zip(got, ref):
		same(a, b, "reverse order of the tasks changes the values")
	if case["threads"] == 1 and case["seedform"] != "sequence":
		s = P.random.isotropic(pdf=case["pdf"], seed=case["seed"])
		for a in ref:
			same(a, s((case["n"], case["m"])), "one thread differs from the plain generator with the same seed")
	if case["n"] * case["m"] >= 64 and (case["n"] > 1 or case["pdf"] != "sphere"):
		for a, b in ((ref[i], ref[j]) for j in range(len(ref)) for i in range(j)):
			check(not np.array_equal(a, b), "successive fills give the same values")
		if case["m"] >= 2 * case["threads"] > 2 and case["n"] >= 8:
			w = -(-case["m"] // case["threads"])
			check(not np.array_equal(ref[0][:, : w // 2 + 1], ref[0][:, w : w + w // 2 + 1]) or ref[0][:, w : w + w // 2 + 1].shape[1] < w // 2 + 1 or case["n"] * (w // 2 + 1) < 40, "two threads generated the same columns")
	c.mark(maxpend >= 2 and case["m"] >= 2)
	c.label(case["pdf"], "interleaved" if case["interleave"] else "ordered", "threads>columns" if case["threads"] > case["m"] else ("even" if case["m"] % case["threads"] == 0 else "uneven"))


class LatePool(REAL):
	"""Ordinary pool whose chosen task starts late."""
	late, delay = (), 0.0

	def submit(self, fn, /, *a, **k):
		i, self.count = getattr(self, "count", 0), getattr(self, "count", 0) + 1
		if i % LatePool.period not in LatePool.late:
			return super().submit(fn, *a, **k)

		def slow(*a, **k):
			time.sleep(LatePool.delay)
			return fn(*a, **k)
		return super().submit(slow, *a, **k)


def s_late():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(1, 6), "m": st.integers(2, 9), "threads": st.integers(1, 4), "pdf": st.sampled_from(["rademacher", "normal", "sphere"]), "seed": st.integers(0, 2**40), "fills": st.integers(1, 2), "seedform": st.sampled_from(["int", "generator"]),
	                              "late": st.lists(st.integers(0, 3), min_size=1, max_size=2), "delay": st.sampled_from([0.02, 0.15, 0.4])})


def run_late(case, c):
	"""A fill has happened when it returns, however late a worker gets to run."""
	ref = fills(case)
	mod = P.random
	names = [k for k, v in vars(mod).items() if v is REAL]
	LatePool.late, LatePool.delay, LatePool.period = [k % case["threads"] for k in case["late"]], case["delay"], case["threads"]
	concurrent.futures.ThreadPoolExecutor = LatePool
	for k in names:
		setattr(mod, k, LatePool)
	try:
		got = fills(case)
	finally:
		concurrent.futures.ThreadPoolExecutor = REAL
		for k in names:
			setattr(mod, k, REAL)
	for k, (a, b) in enumerate(zip(got, ref)):
		same(a, b, f"fill {k + 1} changes when tasks {LatePool.late} start {case['delay']} s late")
	c.mark(case["threads"] > 1)


SUBS = [Sub("late", s_late, run_late, quick=8, thorough=150, shards=1, examples=[{"n": 4, "m": 6, "threads": 3, "pdf": "normal", "seed": 1, "fills": 2, "seedform": "int", "late": [2], "delay": 0.4}]), Sub("schedules", s_sched, run_sched, quick=120, thorough=4000, shards=4, examples=[
	{"n": 5, "m": 7, "threads": 3, "pdf": "sphere", "seed": 1, "schedules": [[2, 1, 0], [1, 0, 2, 2]], "interleave": True, "fills": 2, "seedform": "int"},
	{"n": 5, "m": 3, "threads": 1, "pdf": "normal", "seed": 1, "schedules": [[0]], "interleave": False, "fills": 2, "seedform": "int"},
	{"n": 5, "m": 2, "threads": 5, "pdf": "rademacher", "seed": 1, "schedules": [[4, 3, 2, 1, 0]], "interleave": False, "fills": 1, "seedform": "generator"}])]
SUBS.append(big_sub("C08"))
