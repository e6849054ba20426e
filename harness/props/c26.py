"""C26: the native headers are memory-safe and compute what they state."""
import json, os, subprocess
import numpy as np
from core import Sub, check, close, same, arr, call, rejects, vio
from lib import P, strategies, s_matrix, matrix, rng, lanczos_ref, PyOp, sizes

NEEDS = ["_lanczos", "tqli", "fttr"]
DRIVERS = ["headers"]
TECHNIQUE = "property-based testing (Hypothesis) of a driver over the native headers compiled with address and undefined-behaviour sanitizers and exact-size buffers, against reference implementations"
RULE = ("recurrence: dense, sparse, Gram and affine operators of size 1..10 (one in five up to 40) in both precisions, every valid degree, width and number of stored vectors, and arbitrary integers through the clamps; orthogonalisation of vectors against 1..6 columns (orthonormal, arbitrary, zero) from any start, both directions, up to three cycles; "
        "products of rectangular matrices with vectors and blocks; integers of any magnitude through the clamps and the modulus; and matrix-free operators whose product has any length, type and layout, given to the built extension. Every buffer is an exact-size heap block, so any access outside the arguments is a sanitizer report. "
        "Oracle: sanitizers, the recurrence itself, extended-precision Lanczos, sequential projections, dense products. Non-trivial: dimension two or more.")
ASSUMPTIONS = ["the driver instantiates the header templates itself, with the compiler's sanitizers, so the shipped binary is exercised only by the extension sub-check"]


class Driver:
	"""One sanitised process answering requests; restarted after a report."""
	def __init__(self):
		self.p = None

	def path(self):
		return json.loads(os.environ["VERIF_SOS"]).get("driver:headers", "")

	def ask(self, toks):
		if self.p is None or self.p.poll() is not None or self.pid != os.getpid():
			env = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:detect_leaks=0:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=0")
			self.err = open(os.path.join(os.environ.get("TMPDIR", "/tmp"), f"vp-driver-{os.getpid()}.err"), "w+")
			os.unlink(self.err.name)
			self.p, self.pid = subprocess.Popen([self.path()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, env=env), os.getpid()
		try:
			self.p.stdin.write(" ".join(t if isinstance(t, str) else float(t).hex() if isinstance(t, float) else str(int(t)) for t in toks) + "\n")
			self.p.stdin.flush()
			line = self.p.stdout.readline()
		except BrokenPipeError:
			line = ""
		if not line.startswith("OK"):
			self.p.stdin.close()
			self.p.stdout.close()
			rc = self.p.wait()
			self.err.seek(0)
			txt = self.err.read()
			self.err.close()
			self.p = None
			if rc == 99 or "HARNESS" in txt:
				raise RuntimeError("harness: " + txt[-500:])
			rep = [l.strip() for l in txt.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l or "SUMMARY" in l]
			vio(f"the native code failed (exit {rc}): " + " | ".join(rep)[:600])
		return line.split()[1:]


D = Driver()


def flt(xs):
	return np.array([float.fromhex(x) if "x" in x else float(x) for x in xs])


def F(a):
	return [float(x) for x in np.asarray(a, dtype=float).ravel(order="F")]


def affine_params(case):
	"""The parameters set one after another; none, or the drawn one last."""
	ts = [] if case["t"] is None else [*case.get("ts", []), float(case["t"])]
	return [len(ts), *ts]


def op_tokens(case, A, g):
	"""Tokens of an operator with the matrix A, and the dense matrix it represents."""
	k, r, c = case["kind"], *A.shape
	if k == "gram":
		return ["gram", r, c, *F(A)], A.T @ A
	if k == "affine":
		B = g.normal(size=A.shape).astype(case["dt"]).astype(float) * (g.random(A.shape) < 0.6)
		return ["affine", r, c, *F(A), *affine_params(case), *F(B)], A + (case["t"] or 0.0) * B
	return [k, r, c, *F(A)], A


def s_rec(hi=10, big=40):
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(1, hi, big=big), "kind": st.sampled_from(["dense", "sparse", "gram", "affine"]), "t": st.sampled_from([None, 0.5, -2.0]), "ts": st.lists(st.sampled_from([1.0, -0.5, 0.0, 3.0]), max_size=2), "dt": st.sampled_from(["f8", "f8", "f4"]), "deg": sizes(1, hi, big), "ncv": sizes(1, hi, big), "orth": sizes(0, hi, big), "clamp": st.booleans(),
	                              "raw": st.tuples(*[st.one_of(st.integers(-3, hi + 3), st.sampled_from([-2**31, 2**31 - 1, -1, 0, 1000]))] * 3), "vseed": st.integers(0, 10**6), "v": st.sampled_from(["normal", "normal", "e", "few"]), "rtol": st.sampled_from([1e-8, 1e-8, 0.0, 1e-2])})


def run_rec(case, c):
	if not D.path():
		c.label("driver unavailable")
		return
	from lib import start_vector
	n, dt, g = case["A"]["n"], case["dt"], rng(case["vseed"])
	A = matrix(case["A"]).astype(dt).astype(float)
	if case["kind"] == "affine":
		case = {**case, "sym": True}
		B = g.normal(size=(n, n))
		B = (B + B.T).astype(dt).astype(float)
		t = case["t"]
		toks = ["affine", n, n, *F(A), *affine_params(case), *F(B)]
		M = A if t is None else A + t * B
	else:
		toks, M = op_tokens(case, A, g)
	v = start_vector(case, M, n).astype(dt).astype(float)
	if not np.any(v):
		return
	if case["clamp"]:
		deg, ncv, orth = case["raw"]
	else:
		deg = min(case["deg"], n)
		ncv = min(max(case["ncv"], min(2, deg)), deg)
		orth = min(case["orth"], ncv)
	r = D.ask(["f" if dt == "f4" else "d", "rec", *toks, int(case["clamp"]), deg, orth, ncv, float(case["rtol"]), *F(v)])
	calls, d, m, h = (int(x) for x in r[:4])
	what = f"{case['kind']} {dt} n={n} degree {d} stored {m} width {h}"
	if case["clamp"]:
		check(1 <= d <= n and (m == d if d < 2 else 2 <= m <= d) and 0 <= h < max(m, 1) + (m == 0), "clamped {} to degree {}, stored {}, width {} in dimension {}", case["raw"], d, m, h, n)
	x = flt(r[4:])
	a, b, V = x[:d + 1], x[d + 1:2 * d + 2], x[2 * d + 2:].reshape(m, n).T
	nM = np.linalg.norm(M, 2)
	eps = 2.3e-16 if dt == "f8" else 2.4e-7
	tol = 60 * eps * n * (nM + 1e-300)
	check(1 <= calls <= d, "{} products for {} steps", calls, d)
	check(b[0] == 0, "the first off-diagonal is {}", b[0])
	check(np.all(b >= 0) or np.any(np.isnan(b)), "negative off-diagonal")
	if nM == 0:
		return
	stop = np.sqrt(n) * case["rtol"]
	if calls < d:
		check(b[calls] < stop * (1 + 1e-6) + 1e-300, "{}: ended after {} steps with coupling {}", what, calls, b[calls])
	for j in range(1, calls):
		check(not b[j] < stop * (1 - 1e-6), "{}: went on past a coupling of {}", what, b[j])
	# the driver hands over buffers with earlier contents, a marker
	for past in (a[calls:], b[calls + 1:]):
		check(np.all((past == 7) | (past == 0)), "{}: entries past the last step were written", what)
	q0 = v / np.linalg.norm(v)
	# with rtol 0 nothing stops at a vanishing coupling, and what follows is undefined
	live = calls
	for j in range(1, calls):
		if not b[j] > 1e3 * eps * nM:
			live = j
			break
	if m >= calls:
		close(V[:, 0], q0, 10 * eps, f"{what}: first vector")
		for j in range(live):
			close(np.linalg.norm(V[:, j]), 1.0, 100 * eps * n, f"{what}: norm of vector {j}")
		if h == 0 or calls < 2:
			for j in range(live):
				w = M @ V[:, j] - (b[j] * V[:, j - 1] if j else 0) - a[j] * V[:, j]
				if j + 1 < calls and j + 1 < live:
					close(w, b[j + 1] * V[:, j + 1], tol, f"{what}: recurrence at step {j}")
				else:
					close(np.linalg.norm(w), b[j + 1], 2 * tol * np.sqrt(n), f"{what}: coupling at step {j}")
				close(a[j], V[:, j] @ (M @ V[:, j]) if j == 0 else V[:, j] @ (M @ V[:, j] - b[j] * V[:, j - 1]), tol, f"{what}: diagonal at step {j}")
	ra, rb, _ = lanczos_ref(M, v, d)
	ok = len(ra) >= live and (live < 2 or float(np.min(rb[:live - 1])) > (0.2 if dt == "f8" else 0.5) * nM and live <= 6)
	if ok:
		kappa = float(np.prod([nM / float(x) for x in rb[:live - 1]])) if live > 1 else 1.0
		close(a[:live], ra[:live].astype(float), 30 * tol * kappa ** 2, f"{what}: diagonal")
		close(b[1:live], rb[:live - 1].astype(float), 30 * tol * kappa ** 2, f"{what}: off-diagonal")
	if h >= d - 1 and m == d and live >= 2 and case["rtol"] > 0:
		G = V[:, :live].T @ V[:, :live]
		lo = b[1:live].min()
		close(G, np.eye(live), 400 * eps * n * max(nM / lo, 1) + 30 * eps * np.sqrt(n) * max(1 / lo, 1), f"{what}: orthogonality")
	c.mark(n >= 2)
	c.label(case["kind"], dt, "clamped" if case["clamp"] else f"stored {'all' if m == d else 'some'}", "width 0" if h == 0 else "width > 0", "ended early" if calls < d else "full")


def s_orth():
	st = strategies()
	return st.fixed_dictionaries({"n": sizes(1, 8, 60), "m": sizes(1, 6, 30), "U": st.sampled_from(["orthonormal", "orthonormal", "arbitrary", "scaled", "repeated"]), "zero": st.lists(st.integers(0, 5), max_size=2), "start": sizes(-8, 12, 90), "p": sizes(0, 14, 60), "rev": st.integers(0, 2), "dt": st.sampled_from(["f8", "f8", "f4"]), "seed": st.integers(0, 10**6), "v": st.sampled_from(["normal", "normal", "inside", "column", "zero"])})


def run_orth(case, c):
	if not D.path():
		c.label("driver unavailable")
		return
	n, m, dt, g = case["n"], case["m"], case["dt"], rng(case["seed"])
	if case["U"] == "orthonormal":
		m = min(m, n)
		U = np.linalg.qr(g.normal(size=(n, n)))[0][:, :m]
	elif case["U"] == "repeated":
		U = np.repeat(g.normal(size=(n, 1)), m, axis=1)
	else:
		U = g.normal(size=(n, m)) + 0.1 * np.sign(g.normal(size=(n, m)))
		if case["U"] == "scaled":
			U *= 10.0 ** g.integers(-5 if dt == "f8" else -1, 3, size=m)
	for j in case["zero"]:
		U[:, j % m] = 0.0
	U = U.astype(dt).astype(float)
	v = g.normal(size=n) if case["v"] == "normal" else np.zeros(n) if case["v"] == "zero" else U[:, 0].copy() if case["v"] == "column" else U @ g.normal(size=m)
	v = v.astype(dt).astype(float)
	r = flt(D.ask(["f" if dt == "f4" else "d", "orth", n, m, case["start"], case["p"], case["rev"], *F(v), *F(U)]))
	out, U2 = r[:n], r[n:].reshape(m, n).T
	same(U2, U, "the columns were modified")
	eps = 2.3e-16 if dt == "f8" else 2.4e-7
	diff = -1 if case["rev"] == 1 else 1
	L = np.longdouble
	w, cols = v.astype(L), []
	for i in range(case["p"]):
		j = (case["start"] + diff * i) % m
		u = U[:, j].astype(L)
		cols.append(j)
		if np.any(u):
			w = w - (u @ w) / (u @ u) * u
	vn, un = np.linalg.norm(v), min([np.linalg.norm(U[:, j]) for j in cols if np.any(U[:, j])], default=1.0)
	# projections up to the threshold 2 eps sqrt(n) may be left in place
	tol = (case["p"] + 1) * eps * (30 * n * vn + 4 * np.sqrt(n) / min(un, 1e300))
	close(out, w.astype(float), tol, f"projection off columns {cols} of {m}")
	if case["U"] == "orthonormal":
		for j in cols:
			close(out @ U[:, j], 0.0, tol * np.sqrt(n) + 4 * eps * np.sqrt(n), f"component along column {j}")
	c.mark(n >= 2 and case["p"] > 0)
	c.label(case["U"], "reverse" if case["rev"] == 1 else "forward", "cycles" if case["p"] > m else "within", "zero columns" if case["zero"] else "")


def s_prod():
	st = strategies()
	return st.fixed_dictionaries({"r": sizes(1, 8, 60), "c": sizes(1, 8, 60), "kind": st.sampled_from(["dense", "sparse", "gram", "affine"]), "t": st.sampled_from([None, 0.5, -2.0, 0.0]), "ts": st.lists(st.sampled_from([1.0, -0.5, 0.0, 3.0]), max_size=2), "dt": st.sampled_from(["f8", "f4"]), "what": st.sampled_from(["mv", "mv", "rmv", "mm"]), "k": sizes(1, 4, 70, 3), "dens": st.sampled_from([1.0, 0.5, 0.0]), "seed": st.integers(0, 10**6)})


def run_prod(case, c):
	if not D.path():
		c.label("driver unavailable")
		return
	g, dt, k, what = rng(case["seed"]), case["dt"], case["k"], case["what"]
	A = (g.normal(size=(case["r"], case["c"])) * (g.random((case["r"], case["c"])) < case["dens"])).astype(dt).astype(float)
	toks, M = op_tokens(case, A, g)
	r, cc = M.shape
	X = g.normal(size=(r if what == "rmv" else cc, k if what == "mm" else 1)).astype(dt).astype(float)
	out = D.ask(["f" if dt == "f4" else "d", "prod", *toks, what, k, *F(X)])
	check((int(out[0]), int(out[1])) == (r, cc), "shape ({}, {}), expected {}", out[0], out[1], (r, cc))
	if out[2:] == ["none"]:
		check(case["kind"] == "affine" and what != "mv", "{} lacks {}", case["kind"], what)
		return
	want = M.T @ X if what == "rmv" else M @ X
	v = flt(out[2:])
	eps = 2.3e-16 if dt == "f8" else 2.4e-7
	S = np.linalg.norm(np.abs(A)) * (np.linalg.norm(A) if case["kind"] == "gram" else 1) + (abs(case["t"] or 0) * 20 if case["kind"] == "affine" else 0)
	close(v[:want.size].reshape(want.shape[::-1]).T, want, 30 * eps * max(r, cc, case["r"]) * (S * np.linalg.norm(X) + 1e-30), f"{what} of a {case['kind']} operator with a {case['r']}x{case['c']} matrix")
	same(v[want.size:].reshape(X.shape[::-1]).T, X, "the vector was modified")
	c.mark(max(r, cc) >= 2)
	c.label(case["kind"], what, dt, "tall" if case["r"] > case["c"] else "wide" if case["r"] < case["c"] else "square")


def s_clamp():
	st = strategies()
	i = st.one_of(st.integers(-5, 30), st.integers(-2**31, 2**31 - 1), st.sampled_from([-2**31, 2**31 - 1]))
	return st.fixed_dictionaries({"deg": i, "ncv": i, "orth": i, "n": st.one_of(st.integers(1, 25), st.integers(1, 10**6)), "a": st.integers(-10**6, 10**6), "b": st.integers(1, 1000)})


def run_clamp(case, c):
	if not D.path():
		c.label("driver unavailable")
		return
	deg, ncv, orth, n = case["deg"], case["ncv"], case["orth"], case["n"]
	d, m, h = (int(x) for x in D.ask(["d", "clamp", deg, ncv, orth, n, n]))
	w = f"degree {deg}, stored {ncv}, width {orth} in dimension {n} clamped to {d}, {m}, {h}"
	check(1 <= d <= n, w)
	check((2 <= m <= d) if d >= 2 else m == d, w)
	check(0 <= h < m, w)
	if 1 <= deg <= n:
		check(d == deg, w + ": a valid degree was changed")
	if 2 <= ncv <= d:
		check(m == ncv, w + ": a valid number of vectors was changed")
	if 0 <= orth <= d:
		check(h == min(orth, m - 1), w + ": a valid width was changed")
	else:
		check(h == m - 1, w + ": an out-of-range width does not give the maximal one")
	check([int(x) for x in D.ask(["d", "mod", case["a"], case["b"]])] == [case["a"] % case["b"]], "modulus of {} by {}", case["a"], case["b"])
	check([int(x) for x in D.ask(["d", "clamp", d, m, h, n, n])] == [d, m, h], w + ": not a fixed point")
	c.mark(n >= 2)


class OddOp(PyOp):
	"""Its products come in a given form and length."""
	def __init__(self, A, dtype, form, extra, at):
		super().__init__(A, dtype)
		self.form, self.extra, self.at, self.calls, self.kept = form, extra, at, 0, []

	def matvec(self, x):
		self.calls += 1
		self.kept.append((x, np.array(x, copy=True)))
		y = self._M @ np.asarray(x)
		if self.calls > self.at:
			m = len(y) + self.extra
			y = np.resize(y, m) if m > 0 else np.zeros(0)
		f = self.form
		if f == "list":
			return y.tolist()
		if f == "column":
			return y[:, None]
		if f == "row":
			return y[None, :]
		if f == "strided":
			return np.repeat(y, 2)[::2]
		if f == "other":
			return y.astype("f4" if y.dtype == np.float64 else "f8")
		if f == "readonly":
			y.setflags(write=False)
		if f == "subclass":
			return np.asmatrix(y).T
		if f == "bigendian":
			return y.astype(y.dtype.newbyteorder(">"))
		return y


def s_ext():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(1, 8, ["normal", "psd", "ints", "diag"], big=40), "dt": st.sampled_from(["f8", "f8", "f4"]), "form": st.sampled_from(["plain", "list", "column", "row", "strided", "other", "readonly", "subclass", "bigendian"]), "extra": st.sampled_from([0, 0, 0, 1, -1, -100, 5, 1000, "n"]), "at": st.integers(0, 3), "deg": st.integers(1, 8), "orth": st.integers(0, 8), "seed": st.integers(0, 10**6), "how": st.sampled_from(["lanczos", "lanczos", "matvec", "quad", "ritz"])})


def run_ext(case, c):
	A = matrix(case["A"]).astype(case["dt"])
	n, dt, g = len(A), case["dt"], rng(case["seed"])
	v = g.normal(size=n).astype(dt)
	extra = max(n if case["extra"] == "n" else case["extra"], -n)
	deg = min(case["deg"], n)
	how = case["how"] if n > 1 else "lanczos"
	make = lambda extra: OddOp(A, dt, case["form"], extra, case["at"])
	if how == "lanczos":
		f = lambda op: np.concatenate(P.lanczos.lanczos(op, v0=v, deg=deg, orth=case["orth"]))
	elif how == "ritz":
		f = lambda op: P.lanczos.rayleigh_ritz(op, deg=deg, v0=v)
	else:
		def f(op):
			M = P.operators.MatrixFunction(op, np.tanh, deg=max(deg, 2), dtype=dt)
			return M @ v if how == "matvec" else M.quad(v)
	ref = np.asarray(call(f, PyOp(A, dt)), dtype=float)
	op = make(extra)
	if extra == 0:
		y = np.asarray(call(f, op), dtype=float)
		nA = np.linalg.norm(A, 2)
		if case["form"] == "other" and dt == "f8":
			pass  # products rounded to single precision
		else:
			close(y, ref, 1e-6 * (1 + nA) if dt == "f8" else 5e-2 * (1 + nA), f"{how} with products given as {case['form']}") if case["form"] == "other" else same(y, ref, f"{how} with products given as {case['form']}")
	else:
		count = OddOp(A, dt, case["form"], 0, 0)
		call(f, count)
		if count.calls > case["at"]:
			rejects(f, op, what=f"product of length {n + extra} in dimension {n} ({how}, product {case['at'] + 1} of {count.calls})")
	same(np.asarray(call(f, PyOp(A, dt)), dtype=float), ref, "a later computation gives another result")
	for k, (x, snap) in enumerate(op.kept):
		same(np.asarray(x), snap, f"the vector given to the operator in call {k + 1} of {len(op.kept)} was altered afterwards ({how})")
	c.mark(n >= 2)
	c.label(how, case["form"], "right length" if extra == 0 else "too long" if extra > 0 else "too short", dt)


R0 = {"A": {"n": 5, "kind": "normal", "seed": 1, "exp": 0}, "kind": "dense", "t": None, "dt": "f8", "deg": 5, "ncv": 5, "orth": 4, "clamp": False, "raw": [3, 3, 3], "vseed": 2, "v": "normal", "rtol": 1e-8}
E0 = {"A": {"n": 5, "kind": "normal", "seed": 1, "exp": 0}, "dt": "f8", "form": "plain", "extra": 0, "at": 0, "deg": 4, "orth": 0, "seed": 1, "how": "lanczos"}
SUBS = [
	Sub("recurrence", s_rec, run_rec, quick=500, thorough=25000, shards=3, examples=[R0, {**R0, "ncv": 2, "orth": 1}, {**R0, "A": {**R0["A"], "n": 1}}, {**R0, "kind": "gram", "ncv": 3}, {**R0, "kind": "affine", "t": 0.5}, {**R0, "clamp": True, "raw": [100, 100, -1]}]),
	Sub("orthogonalise", s_orth, run_orth, quick=500, thorough=25000, shards=2),
	Sub("products", s_prod, run_prod, quick=300, thorough=15000, shards=1),
	Sub("clamps", s_clamp, run_clamp, quick=500, thorough=25000, shards=1),
	Sub("extension", s_ext, run_ext, quick=300, thorough=10000, shards=2, examples=[E0, {**E0, "extra": -1}, {**E0, "extra": 1000, "at": 2}, {**E0, "form": "list"}]),
]
