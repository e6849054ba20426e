"""Shared generators and reference implementations. `P.stats` etc. import primate's modules lazily, from /repo."""
import importlib
import numpy as np


class _Lazy:
	def __getattr__(self, n):
		if n.startswith("__"):
			raise AttributeError(n)
		return importlib.import_module("primate." + n)


P = _Lazy()


def strategies():
	from hypothesis import strategies as st
	return st


def rng(seed):
	return np.random.default_rng([int(seed), 77])


def orth(n, seed, kind="dense"):
	"""Orthogonal basis: random, identity, or random within random blocks (so eigenvectors have zero entries)."""
	if kind == "eye":
		return np.eye(n)
	g = rng(seed)
	Q = np.eye(n)
	if kind == "blocks" and n > 2:
		k = int(g.integers(1, n))
		Q[:k, :k] = np.linalg.qr(g.normal(size=(k, k)))[0]
		Q[k:, k:] = np.linalg.qr(g.normal(size=(n - k, n - k)))[0]
		return Q
	return np.linalg.qr(g.normal(size=(n, n)))[0]


def sym_from(ew, U):
	A = (U * np.asarray(ew, dtype=float)) @ U.T
	return (A + A.T) / 2


def snapshot(x):
	return np.array(x, copy=True)


# ---------------------------------------------------------------------------------------------- matrices and operators

MATRIX_KINDS = ["normal", "normal", "psd", "ints", "graded", "diag", "lowrank", "identity", "blocks", "decay", "sparse", "repeated", "hollow", "laplacian", "band"]


WIDE = [0, 0, 0, 0, 3, -3, 9, -9]


def sizes(lo, hi, big, one_in=5):
	"""Mostly lo..hi, one time in `one_in` up to `big`."""
	st = strategies()
	return st.sampled_from([False] * (one_in - 1) + [True]).flatmap(lambda b: st.integers(hi + 1, big) if b else st.integers(lo, hi))


def sizes3(lo, hi, big, huge):
	"""As sizes, and one time in forty up to `huge`."""
	st = strategies()
	return st.sampled_from([0] * 31 + [1] * 8 + [2]).flatmap(lambda b: [st.integers(lo, hi), st.integers(hi + 1, big), st.integers(big + 1, huge)][b])


def s_matrix(lo=1, hi=12, kinds=MATRIX_KINDS, exps=(0, 0, 0, 3, -3), big=None):
	st = strategies()
	return st.fixed_dictionaries({"n": sizes(lo, hi, big) if big else st.integers(lo, hi), "kind": st.sampled_from(kinds), "seed": st.integers(0, 10**6), "exp": st.sampled_from(list(exps))})


def matrix(c):
	"""Symmetric matrix of a case drawn by s_matrix."""
	n, k, g = c["n"], c["kind"], rng(c["seed"])
	B = g.normal(size=(n, n))
	if k == "normal":
		A = (B + B.T) / 2
	elif k == "psd":
		A = B @ B.T / n + 0.1 * np.eye(n)
	elif k == "ints":
		B = g.integers(-3, 4, size=(n, n)).astype(float)
		A = B + B.T
	elif k == "graded":
		A = sym_from(10.0 ** np.linspace(0, -4, n) * g.choice([-1, 1], size=n), orth(n, c["seed"] + 1))
	elif k == "steep":
		A = sym_from(10.0 ** np.linspace(0, -10, n) * g.choice([-1, 1], size=n), orth(n, c["seed"] + 1))
	elif k == "scaled":
		A = (B + B.T) * 10.0 ** g.uniform(-5, 0, size=n)
		A = A * (10.0 ** g.uniform(-5, 0, size=n))[:, None]
	elif k == "decay":
		A = sym_from(0.7 ** np.arange(n), orth(n, c["seed"] + 1))
	elif k == "diag":
		A = np.diag(g.normal(size=n))
	elif k == "identity":
		A = np.eye(n) * (g.normal() + 0.1)
	elif k == "lowrank":
		r = max(1, n // 3)
		A = sym_from(np.where(np.arange(n) < r, g.uniform(0.5, 2, size=n) * g.choice([-1, 1], size=n), 0.0), orth(n, c["seed"] + 1))
	elif k == "blocks":
		A = sym_from(g.normal(size=n), orth(n, c["seed"] + 1, "blocks"))
	elif k == "sparse":
		B = B * (g.random((n, n)) < 0.25)
		A = B + B.T + np.diag(g.normal(size=n))
	elif k == "hollow":
		A = B + B.T
		np.fill_diagonal(A, 0.0 if n > 1 else 1.0)
	elif k == "laplacian":  # of a random connected graph
		W = np.abs(B + B.T) * ((np.abs(B + B.T) > 1.2) | (np.abs(np.subtract.outer(range(n), range(n))) == 1))
		np.fill_diagonal(W, 0.0)
		A = np.diag(W.sum(axis=0)) - W if n > 1 else np.ones((1, 1))
	elif k == "band":
		A = np.diag(np.full(n, 2.0)) - np.diag(np.ones(n - 1), 1) - np.diag(np.ones(n - 1), -1)
	elif k == "repeated":
		A = sym_from(g.choice([-1.0, 0.5, 2.0], size=n), orth(n, c["seed"] + 1))
	else:
		raise ValueError(k)
	return (A + A.T) / 2 * 10.0 ** c["exp"]


class RecOp:
	"""Matrix-free operator that records the arrays it multiplies. `fail_at` raises on that product (1-based)."""
	def __init__(self, A, dtype=np.float64, declare=True, fail_at=None, exc=None):
		self._M = np.asarray(A, dtype=dtype)
		self.shape = self._M.shape
		if declare:
			self.dtype = np.dtype(dtype)
		self.seen, self.calls, self.fail_at, self.exc = [], 0, fail_at, exc

	def __matmul__(self, x):
		self.calls += 1
		if self.fail_at is not None and self.calls == self.fail_at:
			raise self.exc
		self.seen.append(np.array(x, dtype=float, copy=True))
		return self._M @ x

	def columns(self):
		return np.column_stack([x.reshape(self.shape[0], -1) for x in self.seen]) if self.seen else np.zeros((self.shape[0], 0))


OP_KINDS = ["dense", "fortran", "csr", "csc", "linop", "rec", "rec_undeclared"]


def operator(A, kind, dtype=np.float64):
	import scipy.sparse as ss
	from scipy.sparse.linalg import aslinearoperator
	A = np.array(A, dtype=dtype)
	if kind == "fortran":
		return np.asfortranarray(A)
	if kind in ("csr", "csc", "coo"):
		return getattr(ss, kind + "_array")(A)
	if kind == "linop":
		return aslinearoperator(A)
	if kind == "rec":
		return RecOp(A, dtype)
	if kind == "rec_undeclared":
		return RecOp(A, dtype, declare=False)
	return A


class RecSampler:
	"""Sampler of probes that records what it returned. `source`: function of the size."""
	def __init__(self, source):
		self.source, self.drawn, self.sizes = source, [], []

	def __call__(self, size):
		v = self.source(size)
		self.sizes.append(size)
		self.drawn.append(np.array(v, copy=True))
		return v

	def columns(self, n, k=None):
		d = self.drawn if k is None else self.drawn[:k]
		return np.column_stack([x.reshape(n, -1) for x in d]) if d else np.zeros((n, 0))


def probe_source(pdf, seed, twins=False):
	"""Independent generator of probes of the given distribution, optionally with twins."""
	g = rng(seed)
	last = []

	def f(size):
		size = (size, 1) if np.ndim(size) == 0 else tuple(size)
		if pdf == "rademacher":
			X = g.choice([-1.0, 1.0], size=size)
		else:
			X = g.normal(size=size)
			X = X / np.linalg.norm(X, axis=0) * np.sqrt(size[0]) if pdf == "sphere" else X
		if twins:
			for j in range(size[1]):
				if last and g.random() < 0.6:
					X[:, j] = twin(last[0], g)
				last[:] = [X[:, j].copy()]
		return X
	return f


def twin(x, g):
	"""Vector of the same entries, norm, sum and (beyond size three) ends as x, with two entries exchanged or, rarely, one negated."""
	y, n = np.array(x), len(x)
	if n < 2:
		return -y
	if g.random() < 0.2:
		i = int(g.integers(0, n))
		y[i] = -y[i]
		return y
	inner = np.arange(1, n - 1) if n > 3 else np.arange(n)
	for _ in range(20):
		i, j = g.choice(inner, size=2, replace=False)
		if y[i] != y[j]:
			break
	y[[i, j]] = y[[j, i]]
	return y


def sign_vectors(n, order_seed=None):
	V = (2.0 * ((np.arange(2**n)[:, None] >> np.arange(n)) & 1) - 1.0).T
	return V if order_seed is None else V[:, rng(order_seed).permutation(2**n)]


class ListSource:
	"""Serves the given columns in order, in whatever shape is asked for."""
	def __init__(self, V):
		self.V, self.i = V, 0

	def __call__(self, size):
		k = 1 if np.ndim(size) == 0 else int(size[1])
		if self.i + k > self.V.shape[1]:
			raise IndexError("more probes drawn than needed")
		v = self.V[:, self.i:self.i + k].copy()
		self.i += k
		return v


class PyOp:
	"""User-written operator: shape, products, and (optionally) a dtype. The form of its products varies."""
	def __init__(self, A, dtype=np.float64, form="plain", declare=True):
		self._M, self._form = np.array(A, dtype=dtype), form
		self.shape = self._M.shape
		if declare:
			self.dtype = np.dtype(dtype)

	def matvec(self, x):
		y = self._M @ np.asarray(x)
		if self._form == "strided":
			z = np.full((len(y), 2), np.nan, dtype=y.dtype)
			z[:, 0] = y
			return z[:, 0]
		if self._form == "column":
			return y.reshape(-1, 1)
		if self._form == "reversed":
			return y[::-1].copy()[::-1]
		return y

	def __matmul__(self, x):
		return self._M @ x


ALL_OPS = ["dense", "dense", "fortran", "sliced", "csr", "csc", "coo", "linop", "py", "py_strided", "py_column", "py_reversed", "py_undeclared"]


def any_operator(A, kind, dtype=np.float64):
	import scipy.sparse as ss
	if kind == "sliced":
		n = np.shape(A)[0]
		B = np.full((2 * n, 3 * n), np.nan, dtype=dtype)
		B[::2, ::3] = A
		return B[::2, ::3]
	if kind == "coo":
		return ss.coo_array(np.array(A, dtype=dtype))
	if kind.startswith("py"):
		form = kind[3:] or "plain"
		return PyOp(A, dtype, "plain" if form == "undeclared" else form, declare=form != "undeclared")
	return operator(A, kind, dtype)


def dense_of(op):
	for a in ("_M", "A"):
		if hasattr(op, a):
			return getattr(op, a)
	return op.toarray() if hasattr(op, "toarray") else op


def lanczos_ref(A, v, deg, full=True):
	"""Lanczos coefficients in extended precision (with full reorthogonalisation): a[deg], b[deg] (b[j] couples j and j+1), Q."""
	L = np.longdouble
	A, n = A.astype(L), len(v)
	q = v.astype(L)
	q = q / np.sqrt(np.sum(q * q))
	Q, a, b = [q], np.zeros(deg, dtype=L), np.zeros(deg, dtype=L)
	for j in range(deg):
		w = A @ Q[j]
		a[j] = Q[j] @ w
		w = w - a[j] * Q[j] - (b[j - 1] * Q[j - 1] if j else 0)
		for _ in range(2):
			for u in (Q if full else ()):
				w = w - (u @ w) * u
		b[j] = np.sqrt(np.sum(w * w))
		if j + 1 < deg:
			if b[j] == 0:
				return a[:j + 1], b[:j + 1], np.array(Q).T
			Q.append(w / b[j])
	return a, b, np.array(Q).T


def start_vector(c, A, n):
	"""Start vector of a case: kinds normal, e (unit vector), ones, few (combination of a few eigenvectors), ints."""
	g, k = rng(c["vseed"]), c["v"]
	if k == "e":
		v = np.zeros(n)
		v[int(g.integers(0, n))] = 1.0
	elif k == "ones":
		v = np.ones(n)
	elif k == "ints":
		v = g.integers(-3, 4, size=n).astype(float)
		if not np.any(v):
			v[0] = 1.0
	elif k == "few":
		U = np.linalg.eigh(A)[1]
		r = int(g.integers(1, n + 1))
		v = U[:, g.permutation(n)[:r]] @ (g.uniform(0.5, 2, size=r) * g.choice([-1, 1], size=r))
	else:
		v = g.normal(size=n)
	return v


# ------------------------------------------------------------------------------------------------- functions of matrices

FUNS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank", "none", "square", "cube", "tanh", "poly", "shifted_inv", "const"]


def s_fun():
	st = strategies()
	return st.fixed_dictionaries({"f": st.sampled_from(FUNS), "t": st.sampled_from([None, 0.5, -0.3]), "q": st.sampled_from([None, 1, 4]), "ab": st.sampled_from([None, [0.2, 1.5], [-1.0, 1.0]]), "thr": st.sampled_from([None, 0.55, 1.15]),
	                              "poly": st.lists(st.sampled_from([-2.0, -1.0, 0.0, 0.5, 1.0, 3.0]), min_size=1, max_size=6)})


def make_fun(c):
	"""(argument, keywords, reference) of a drawn function."""
	f = c["f"]
	if f == "none":
		return None, {}, lambda x: x
	if f == "identity":
		return f, {}, lambda x: x
	if f == "abs":
		return f, {}, np.abs
	if f == "sqrt":
		return f, {}, np.sqrt
	if f == "log":
		return f, {}, np.log
	if f == "inv":
		return f, {}, lambda x: 1 / x
	if f == "exp":
		t = 1.0 if c["t"] is None else c["t"]
		return f, ({} if c["t"] is None else {"t": t}), lambda x: np.exp(t * x)
	if f == "smoothstep":
		a, b = (0.0, 1.0) if c["ab"] is None else c["ab"]

		def ss(x):
			y = np.clip((x - a) / (b - a), 0, 1)
			return y * y * (3 - 2 * y)
		return f, ({} if c["ab"] is None else {"a": a, "b": b}), ss
	if f == "softsign":
		q = 10 if c["q"] is None else c["q"]

		def soft(x):
			x = np.clip(x, -1, 1)
			s, t = np.zeros_like(x), np.ones_like(x)
			for i in range(q + 1):
				if i:
					t = t * (1 - x * x) * (2 * i - 1) / (2 * i)
				s = s + t
			return x * s
		return f, ({} if c["q"] is None else {"q": q}), soft
	if f == "numrank":
		thr = 1e-6 if c["thr"] is None else c["thr"]
		return f, ({} if c["thr"] is None else {"threshold": thr}), lambda x: np.where(np.abs(x) < thr, 0.0, 1.0)
	g = {"square": np.square, "cube": lambda x: x**3, "tanh": np.tanh, "poly": lambda x: np.polyval(c["poly"], x), "shifted_inv": lambda x: 1 / (x + 50.0), "const": lambda x: np.full(np.shape(x), 2.5)}[f]
	return g, {}, g


def positive_only(f):
	return f in ("sqrt", "log", "inv")


def fun_scale(ref, vals):
	"""Magnitude of f and of its first derivative (times the range) near the given spectrum."""
	vals = np.asarray(vals, dtype=float)
	h = 1e-6 * max(np.abs(vals).max(), 1e-3)
	with np.errstate(all="ignore"):
		F = np.abs(ref(vals)).max()
		D = max(np.abs(ref(vals + h) - ref(vals)).max(), np.abs(ref(vals) - ref(vals - h)).max()) / h
	return F + D * np.abs(vals).max()


def s_spectral(max_n=20, max_r=7, big=None):
	"""Matrix with few separated eigenvalues and vectors exciting chosen subsets of them."""
	st = strategies()

	@st.composite
	def s(draw):
		n = draw(sizes(1, max_n, big) if big else st.integers(1, max_n))
		r = draw(st.integers(1, min(n, max_r)))
		return {"n": n, "gaps": draw(st.lists(st.integers(2, 9), min_size=r, max_size=r)), "start": draw(st.integers(-20, 6)), "ex": draw(st.lists(st.booleans(), min_size=r, max_size=r)), "seed": draw(st.integers(0, 10**6)), "U": draw(st.sampled_from(["dense", "dense", "eye", "blocks"]))}
	return s()


class Spectral:
	def __init__(self, case, positive=False):
		n, g = case["n"], rng(case["seed"])
		start = max(case["start"], 0) if positive else case["start"]
		self.vals = (start + np.cumsum(case["gaps"])) / 10.0
		r = len(self.vals)
		idx = np.append(np.arange(r), g.integers(0, r, size=n - r))[g.permutation(n)]
		self.n, self.U, self.ew = n, orth(n, case["seed"] + 1, case["U"]), self.vals[idx]
		self.A = sym_from(self.ew, self.U)
		self.ex = np.array(case["ex"], dtype=bool)
		if not self.ex.any():
			self.ex[0] = True
		self.idx, self.g = idx, g

	def vector(self, seed, ex=None):
		ex = self.ex if ex is None else ex
		g = rng(seed)
		x = np.where(ex[self.idx], g.uniform(0.6, 1.4, size=self.n) * g.choice([-1, 1], size=self.n), 0.0)
		return self.U @ x

	def f(self, ref, v):
		with np.errstate(all="ignore"):
			return self.U @ ((ref(self.ew)[:, None] if np.ndim(v) == 2 else ref(self.ew)) * (self.U.T @ v))

	def smallest_coupling(self, v):
		K = self.K(v)
		b = lanczos_ref(self.A, v, K)[1][:K - 1].astype(float)
		return b.min() if len(b) else 1.0

	def K(self, v):
		x = np.abs(self.U.T @ v)
		return len(set(self.idx[x > 0.1]))


# ------------------------------------------------------------------------------------------------ longer expansions

def s_large():
	"""Operators with up to 30 well separated eigenvalues (grid with jitter, Chebyshev points, outliers), long expansions."""
	st = strategies()

	@st.composite
	def s(draw):
		r = draw(st.integers(2, 30))
		return {"r": r, "n": r + draw(st.sampled_from([0, 0, 1, 3, 10])), "spec": draw(st.sampled_from(["grid", "cheb", "outliers", "outliers", "both"])), "seed": draw(st.integers(0, 10**6)), "exp": draw(st.sampled_from([0, 0, 1, -1])), "U": draw(st.sampled_from(["dense", "dense", "eye", "blocks"])),
		        "what": draw(st.sampled_from(["lookup", "lookup", "chebyshev"])), "weak": draw(st.integers(0, 2)), "more": draw(st.sampled_from([0, 0, 1, 5])), "k": draw(st.integers(2, 30)), "j": draw(st.integers(0, 60)), "orth": draw(st.sampled_from([-1, -1, "deg", 1000])), "op": draw(st.sampled_from(["dense", "csr", "linop", "py"])),
		        "vexp": draw(st.sampled_from([0, 0, 0, -30, 30, -12])), "fexp": draw(st.sampled_from([0, 0, 12, -12]))}
	return s()


class Large:
	def __init__(self, case):
		r, n, g = case["r"], case["n"], rng(case["seed"])
		m = r
		out = []
		if case["spec"] in ("outliers", "both") and r >= 4:
			out = list((np.array([30.0, -12.0, 100.0, 4.0]) * g.uniform(0.8, 1.2, size=4))[:int(g.integers(1, 4))])
			m = r - len(out)
		if case["spec"] == "cheb":
			x = np.cos(np.pi * (np.arange(m) + 0.5) / m)
		else:
			x = -1 + 2 * (np.arange(m) + g.uniform(0.2, 0.8, size=m)) / m
		self.vals = np.sort(np.append(x, out)) * 10.0 ** case["exp"]
		core = np.flatnonzero(np.abs(self.vals) <= 1.01 * 10.0 ** case["exp"])  # outliers are simple: rounding splits repeated ones, and long expansions tell the parts apart
		self.idx = np.append(np.arange(r), g.choice(core, size=n - r))[g.permutation(n)]
		self.ew, self.U, self.n, self.r = self.vals[self.idx], orth(n, case["seed"] + 1, case["U"]), n, r
		self.A, self.nA = sym_from(self.ew, self.U), float(np.abs(self.vals).max())
		# a function that is constant near every eigenvalue, with unrelated values, large where the vector is weak
		self.weak = g.permutation(r)[:case["weak"] if r > 4 else 0]
		self.F = g.uniform(-1, 1, size=r)
		self.amp = np.ones(r)
		self.amp[self.weak] = 10.0 ** g.uniform(-3.5, -2, size=len(self.weak))
		self.F[self.weak] /= self.amp[self.weak]
		self.case = case

	def vector(self, seed):
		g = rng(seed)
		return self.U @ (g.uniform(0.6, 1.4, size=self.n) * g.choice([-1, 1], size=self.n) * self.amp[self.idx])

	def plan(self, quad):
		"""(function, degree, orth, exact values at the eigenvalues) of the case."""
		c = self.case
		fs = 10.0 ** c["fexp"]
		if c["what"] == "lookup":
			mid = (self.vals[1:] + self.vals[:-1]) / 2
			F = self.F * fs
			return (lambda x: F[np.searchsorted(mid, x)]), max(self.r + c["more"], 2), F[self.idx]
		k = max(min(c["k"], self.r), 2)
		j = min(c["j"], 2 * k - 1 if quad else k - 1)
		p = np.polynomial.chebyshev.Chebyshev.basis(j)
		return (lambda x: fs * p(x / self.nA)), k, fs * p(self.ew / self.nA)

	def good(self, v, deg):
		"""Couplings clearly above the tolerance of the expansion, so that every arithmetic takes the same steps."""
		k, s = min(self.r, deg), 10.0 ** self.case["exp"]
		b = lanczos_ref(self.A, v, k)[1].astype(float)
		return len(b) == k and np.all(b[:-1] > 2e-3 * s) and (k < self.r or b[-1] < 1e-10 * s)

	def orth(self, deg):
		return {"deg": deg}.get(self.case["orth"], self.case["orth"])
