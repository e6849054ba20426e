"""C14: Lanczos returns the Jacobi matrix and an orthonormal Krylov basis of (A, v)."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, strategies, RecOp, sym_from, orth as orthogonal, s_matrix, matrix, any_operator, ALL_OPS, dense_of, lanczos_ref, start_vector, rng, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub
from extreme import sub as extreme_sub

NEEDS = ["_lanczos", "tqli", "fttr"]
RULE = ("Symmetric matrices of size 1..16 (one in five up to 60) (twelve kinds) as dense (both orders, non-contiguous), sparse, linear-operator and user-written operators, both precisions and requested precisions; start vectors normal, unit, integer or spanning few eigenvectors; "
        "all degrees, widths -1..deg+2, basis/sparse output. Recurrence, orthonormality and projection are checked directly; coefficients against an extended-precision Lanczos with a tolerance measured from its own sensitivity. "
        "window: sizes up to 40 with outliers, for which orthogonality is lost without reorthogonalisation: each basis vector against as many predecessors as the width asks for, for lanczos with and without basis, Ritz values, products and quadratic forms (basis observed through the products of a recording operator). Degrees stop before the reference's couplings fall below 1e-5 of the norm (early termination belongs to C15). Non-trivial: degree two or more.")
EPS = {"f8": 2.3e-16, "f4": 1.2e-7}


def s_case():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(1, 16, big=60), "op": st.sampled_from(ALL_OPS), "dt": st.sampled_from(["f8", "f8", "f8", "f4"]), "req": st.sampled_from([None, None, None, "f8", "f4"]), "v": st.sampled_from(["normal", "normal", "e", "ones", "ints", "few"]), "vseed": st.integers(0, 10**6),
	                              "deg": sizes(1, 18, 64), "orth": st.one_of(st.sampled_from([-1, 0, 1, 2]), st.integers(-2, 18), st.integers(19, 64)), "scale": st.sampled_from([2.0, -1.0, 1e-3, 1e4, -7.5]), "shift": st.sampled_from([1.0, -2.5, 0.125, 10.0]), "vform": st.sampled_from(["array", "list", "strided", "f4", "int"])})


def tri(a, b):
	return np.diag(a) + np.diag(b, 1) + np.diag(b, -1)


def run(case, c):
	A = matrix(case["A"])
	n, dt = A.shape[0], case["dt"]
	A = A.astype(dt).astype(float)
	nA = np.linalg.norm(A, 2)
	if nA == 0:
		return
	prec = case["req"] or dt
	if "undeclared" in case["op"] and case["req"] is None:
		prec = "f8"  # an undeclared precision is that of the product with a double-precision vector
	eps = EPS[prec] if EPS[prec] > EPS[dt] or prec == "f4" else EPS["f8"]
	v = start_vector(case, A, n)
	if case["vform"] == "int":
		v = np.round(v * 3)
		if not np.any(v):
			v[0] = 1.0
	v = v.astype(prec).astype(float)
	ra, rb, rQ = lanczos_ref(A, v, n)
	K = 1
	while K < len(ra) and rb[K - 1] > (1e-5 if eps < 1e-10 else 3e-2) * nA and rb[K - 1] > 1e-7:
		K += 1
	deg = min(case["deg"], K)
	orth = case["orth"]
	full = orth < 0 or orth >= deg - 1
	# sensitivity of the reference coefficients
	g = rng(case["vseed"] + 1)
	h, sens = 1e-13 if eps < 1e-10 else 1e-8, 0.0
	for _ in range(3):
		N = g.normal(size=(n, n))
		N = (N + N.T) * nA / np.sqrt(n)
		dv = g.normal(size=n) * np.linalg.norm(v) / np.sqrt(n)
		sa, sb, _ = lanczos_ref(A + h * N, v + h * dv, deg)
		if len(sa) < deg:
			return
		sens = max(sens, np.max(np.abs(np.append(sa[:deg] - ra[:deg], sb[:deg - 1] - rb[:deg - 1]))).astype(float) / h)
	tol = 100 * n * eps * (nA + sens)
	if sens * h > 1e-2 * nA or tol > 1e-2 * nA:
		tol = np.inf  # coefficients not determined by the data at this precision; the structure still is
		c.label("coefficients not compared")
	L = P.lanczos.lanczos
	op = any_operator(A, case["op"], dt)
	form = case["vform"]
	v0 = v.copy()
	if form == "list":
		v0 = v.tolist()
	elif form == "strided":
		z = np.full((n, 2), np.nan)
		z[:, 0] = v
		v0 = z[:, 0]
	elif form == "f4" and prec == "f4":
		v0 = v.astype(np.float32)
	elif form == "int":
		v0 = v.astype(int)
	snapv = np.array(v0, dtype=float, copy=True)
	kw = {"deg": deg, "orth": orth}
	if case["req"]:
		kw["dtype"] = np.dtype(case["req"])
	r = call(L, op, v0=v0, return_basis=True, **kw)
	check(isinstance(r, tuple) and len(r) == 2 and len(r[0]) == 2, "lanczos with basis returned {}", type(r))
	(a, b), Q = r
	check(np.asarray(a).dtype == np.dtype(prec) and np.asarray(Q).dtype == np.dtype(prec), "coefficients in {}, basis in {}, expected {}", np.asarray(a).dtype, np.asarray(Q).dtype, prec)
	a, b, Q = arr(a, (deg,), name="diagonal"), arr(b, (deg - 1,), name="subdiagonal"), arr(Q, (n, deg), name="basis")
	check(np.all(b >= 0), "negative subdiagonal entry {}", b.min() if len(b) else 0)
	close(Q[:, 0], v / np.linalg.norm(v), 20 * eps, "first basis vector")
	T = tri(a, b)
	loss = np.max(np.abs(Q.T @ Q - np.eye(deg)))
	R = A @ Q - Q @ T
	rt = 30 * n * eps * nA + (0 if orth == 0 else 10 * n * loss * nA)
	if deg > 1:
		close(R[:, :-1], np.zeros((n, deg - 1)), rt, f"three-term recurrence (orth {orth}, degree {deg})")
	if full:
		bmin = (b.min() if len(b) else nA) / nA
		ot = 20 * n * eps * (1 + n * eps / max(bmin, 1e-12))  # what the removal of a projection rounds is of the size of the vector removed from
		check(loss <= ot, "basis is not orthonormal: deviation {:.3g} (tolerance {:.3g}, orth {}, degree {})", loss, ot, orth, deg)
		close(Q.T @ A @ Q, T, (rt + 3 * ot * nA), "projection of the operator")
		close(Q[:, -1] @ R[:, -1], 0.0, rt + ot * nA, "last residual")
		close(a, ra[:deg].astype(float), tol, "diagonal")
		close(b, rb[:deg - 1].astype(float), tol, "subdiagonal")
	else:
		close(a[:2], ra[:min(deg, 2)].astype(float), tol, "leading diagonal")
		close(b[:1], rb[:min(deg - 1, 1)].astype(float), tol, "leading subdiagonal")
	# inputs
	same(np.array(v0, dtype=float), snapv, "the start vector was modified")
	same(np.asarray(dense_of(op), dtype=float), A, "the operator was modified")
	# the coefficients do not depend on the form of the request (only compared where rounding cannot be amplified)
	pt = tol if full else (tol if loss < 1e-10 else None) if eps < 1e-10 else None
	ct = tol * (1 if full else 10)
	if pt is not None:
		def coef(o, w=v, **k):
			x, y = call(L, o, v0=w, **{**kw, **k})
			return arr(x, (deg,)), arr(y, (deg - 1,))
		x, y = coef(op)
		close(x, a, ct, "diagonal without basis"); close(y, b, ct, "subdiagonal without basis")
		x, y = coef(any_operator(A, "dense" if case["op"] != "dense" else "csr", dt), **({} if case["req"] else {"dtype": np.dtype(prec)}))
		close(x, a, ct, "diagonal with another operator kind"); close(y, b, ct, "subdiagonal with another operator kind")
		s = case["scale"]
		x, y = coef(op, v * s)
		close(x, a, ct, f"diagonal with the start vector scaled by {s}"); close(y, b, ct, f"subdiagonal with the start vector scaled by {s}")
		if dt == "f8" and np.min(np.append(rb[:deg - 1].astype(float), 1e9)) * min(abs(s), 1) > 1e-6:
			x, y = coef(any_operator(A * s, case["op"], dt))
			close(x, a * s, ct * abs(s), f"diagonal of the operator scaled by {s}"); close(y, b * abs(s), ct * abs(s), f"subdiagonal of the operator scaled by {s}")
			t = case["shift"] * nA
			x, y = coef(any_operator(A + t * np.eye(n), case["op"], dt))
			close(x, a + t, ct * 12, "diagonal of the shifted operator"); close(y, b, ct * 12, "subdiagonal of the shifted operator")
		# sparse output
		S = call(L, op, v0=v, sparse_mat=True, **kw)
		check(hasattr(S, "toarray"), "sparse output is {}", type(S))
		close(arr(S.toarray(), (deg, deg)), tri(*coef(op)), ct, "sparse output")
		S = call(L, op, v0=v, sparse_mat=True, return_basis=True, **kw)
		check(isinstance(S, tuple) and len(S) == 2, "sparse output with basis is {}", type(S))
		close(arr(S[0].toarray(), (deg, deg)), T, ct, "sparse output with basis")
		close(arr(S[1], (n, deg)), Q, 1e-6 if not full else 10 * tol / nA + 1e-12, "basis with sparse output")
	c.mark(deg >= 2)
	c.label(case["op"], prec, "full" if full else "none" if orth == 0 else "partial", case["v"])


class RecVec(RecOp):
	def matvec(self, x):
		return self @ x


def s_window():
	st = strategies()
	return st.fixed_dictionaries({"n": st.one_of(st.integers(12, 40), st.integers(41, 80)), "out": st.sampled_from([10.0, 1e3, 1e3, 1e5]), "nout": st.integers(1, 3), "seed": st.integers(0, 10**6), "w": st.one_of(st.integers(1, 20), st.sampled_from([-1, 999])), "short": st.integers(0, 6), "how": st.sampled_from(["basis", "plain", "plain", "matvec", "quad", "ritz"]), "dt": st.sampled_from(["f8", "f8", "f4"])})


def run_window(case, c):
	"""With any width, every basis vector is orthogonal to as many of its predecessors - also where orthogonality is lost without."""
	n, w, how, dt = case["n"], case["w"], case["how"], case["dt"]
	g = rng(case["seed"])
	out = np.array([1.0, -0.4, 0.1][:case["nout"]]) * (case["out"] if dt == "f8" else min(case["out"], 1e3))
	ew = np.append(out, g.uniform(-1, 1, size=n - len(out)))
	A = sym_from(ew, orthogonal(n, case["seed"] + 1)).astype(dt).astype(float)
	nA, v, deg = np.abs(out).max(), g.normal(size=n), n - case["short"]
	op = RecVec(A, dt)
	if how in ("matvec", "quad"):
		M = call(P.operators.MatrixFunction, op, np.square, deg=deg, orth=w, **({"dtype": np.float32} if dt == "f4" else {}))
		op.seen.clear()
		call(lambda: M.quad(v) if how == "quad" else M @ v)
	elif how == "ritz":
		call(P.lanczos.rayleigh_ritz, op, deg=deg, v0=v, orth=w)
	else:
		r = call(P.lanczos.lanczos, op, v0=v, deg=deg, orth=w, return_basis=how == "basis")
	Q = np.array(r[1], dtype=float) if how == "basis" else op.columns()
	Q = Q[:, np.linalg.norm(Q, axis=0) > 0.5]
	if how != "basis":
		check(Q.shape[1] <= deg, "{} products for degree {}", Q.shape[1], deg)
	eps, k = EPS[dt], Q.shape[1]
	close(np.linalg.norm(Q, axis=0), np.ones(k), 100 * eps * n, f"norms of the basis vectors ({how})")
	R = A @ Q
	wide = deg if w < 0 or w > deg else w
	G = Q.T @ Q
	# the coupling b[j] scales what rounding leaves of the projections
	b = np.array([abs(Q[:, j + 1] @ R[:, j]) for j in range(k - 1)])
	for j in range(k - 1):
		i0 = max(j + 1 - wide, 0)
		dev = np.abs(G[j + 1, i0:j + 1]).max()
		if b[j] > 100 * n * eps * nA:
			# what the removal of a projection rounds is of the coupling's size, not of the operator's
			check(dev <= (4 + min(wide, j + 1)) * n * eps, "{}: basis vector {} has component {:.2g} along one of the {} vectors before it (width {}, coupling {:.2g}, norm {:.2g})", how, j + 1, dev, j + 1 - i0, w, b[j], nA)
	c.mark(k > wide + 1 or w < 0)
	c.label(how, dt, "full" if wide >= deg else "partial")


def s_scales():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(2, 14, ["normal", "psd", "ints", "graded", "diag"], big=40), "op": st.sampled_from(ALL_OPS), "dt": st.sampled_from(["f8", "f8", "f4"]), "k": st.one_of(st.integers(-40, 40), st.integers(-450, 450)), "orth": st.sampled_from([-1, -1, -1, 999, 3, 0]), "deg": st.integers(1, 16), "seed": st.integers(0, 10**6), "basis": st.booleans()})


def run_scales(case, c):
	"""Operators of any scale, with the tolerance scaled alike: the coefficients scale, the basis stays, and is orthonormal."""
	A, dt = matrix(case["A"]), case["dt"]
	n, nA = A.shape[0], np.linalg.norm(A, 2)
	if nA == 0:
		return
	A = (A / 2.0 ** np.round(np.log2(nA))).astype(dt).astype(float)
	dt = "f8" if "undeclared" in case["op"] else dt
	k = case["k"] if dt == "f8" else case["k"] % 81 - 40
	eps, f, v = EPS[dt], 2.0 ** k, rng(case["seed"]).normal(size=n).astype(dt)
	ra, rb, rQ = lanczos_ref(A, v.astype(float), n)
	K = 1
	while K < len(ra) and rb[K - 1] > (1e-4 if dt == "f8" else 5e-2):
		K += 1
	deg = min(case["deg"], K)
	wide = deg if case["orth"] < 0 or case["orth"] > deg else case["orth"]
	kw = dict(v0=v, deg=deg, orth=case["orth"], return_basis=True)
	(a, b), Q = call(P.lanczos.lanczos, any_operator(A, case["op"], dt), rtol=0.0, **kw)
	(x, y), Z = call(P.lanczos.lanczos, any_operator(A * f, case["op"], dt), rtol=0.0, **kw)
	Q, Z = arr(Q, (n, deg)).astype(float), arr(Z, (n, deg)).astype(float)
	G, bm = np.abs(Z.T @ Z - np.eye(deg)), min([1.0] + [float(t) for t in rb[:deg - 1]])
	for j in range(deg):
		dev = G[max(j - wide, 0):j + 1, j].max()
		check(dev <= (20 if wide else 40 / bm) * n * eps * (1 + n * eps / bm), "scale 2^{}: basis vector {} deviates by {:.2g} from being orthogonal to the {} before it (or of norm one)", k, j, dev, wide)
	R = (A @ Z - Z @ tri(arr(x, (deg,)).astype(float) / f, arr(y, (deg - 1,)).astype(float) / f))[:, :-1]
	close(R, np.zeros_like(R), 60 * n * eps + 10 * n * G.max(), f"three-term recurrence at scale 2^{k}")
	if wide >= deg - 1:
		t = 400 * n * eps / bm ** 2
		if t < 1e-2:
			close(arr(x, (deg,)).astype(float) / f, np.asarray(a, dtype=float), t, f"diagonal at scale 2^{k}")
			close(arr(y, (deg - 1,)).astype(float) / f, np.asarray(b, dtype=float), t, f"subdiagonal at scale 2^{k}")
	if not case["basis"]:
		x2, y2 = call(P.lanczos.lanczos, any_operator(A * f, case["op"], dt), rtol=0.0, **{**kw, "return_basis": False})
		if wide >= deg - 1 and 400 * n * eps / bm ** 2 < 1e-2:
			close(np.asarray(x2, dtype=float) / f, np.asarray(a, dtype=float), 400 * n * eps / bm ** 2, f"diagonal without basis at scale 2^{k}")
	c.mark(deg >= 3 and abs(k) > 5)
	c.label("down" if k < -5 else "up" if k > 5 else "unit", dt, "full" if wide >= deg - 1 else "partial")


def s_seed():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(2, 10, ["normal", "psd", "graded", "ints"], big=50), "seed": st.integers(0, 2**40), "op": st.sampled_from(ALL_OPS), "dt": st.sampled_from(["f8", "f4"]), "basis": st.booleans(), "deg": st.one_of(st.none(), st.integers(1, 14))})


def run_seed(case, c):
	A = matrix(case["A"])
	n, dt = A.shape[0], case["dt"]
	L = P.lanczos.lanczos
	op = any_operator(A, case["op"], dt)
	st0 = np.random.get_state()[1].copy()
	kw = {"return_basis": case["basis"], "orth": -1}
	if case["deg"] is not None:
		kw["deg"] = case["deg"]
	deg = n if case["deg"] is None else min(n, case["deg"])

	def flat(r):
		x = [np.asarray(r[0][0]), np.asarray(r[0][1]), np.asarray(r[1]).ravel()] if case["basis"] else [np.asarray(r[0]), np.asarray(r[1])]
		check(x[0].shape == (deg,) and x[1].shape == (deg - 1,), "{} and {} coefficients for degree {}", x[0].shape, x[1].shape, deg)
		return np.concatenate(x)
	r = flat(call(L, op, seed=case["seed"], **kw))
	same(flat(call(L, op, seed=case["seed"], **kw)), r, "the same seed gives other coefficients")
	same(flat(call(L, op, seed=np.random.default_rng(case["seed"]), **kw)), r, "a generator seeded alike gives other coefficients")
	if n >= 3:
		check(not np.array_equal(flat(call(L, op, seed=case["seed"] + 1, **kw)), r), "another seed gives the same coefficients")
		g = np.random.default_rng(case["seed"])
		check(not np.array_equal(flat(call(L, op, seed=g, **kw)), flat(call(L, op, seed=g, **kw))), "successive calls with one generator start from the same vector")
	same(np.random.get_state()[1], st0, "the global random state changed")
	# output arrays
	f = np.dtype("f8" if case["op"] == "py_undeclared" else dt)
	v = rng(case["seed"]).normal(size=n)
	x, y = call(L, op, v0=v, deg=deg, orth=-1)
	x2, y2 = call(L, op, v0=v, deg=deg, orth=-1, alpha=np.zeros(deg + 1, dtype=f), beta=np.zeros(deg + 1, dtype=f))
	same(x2, x, "coefficients with output arrays"); same(y2, y, "coefficients with output arrays")
	c.mark(deg >= 2)
	c.label(case["op"], dt)


def s_work():
	st = strategies()
	return st.fixed_dictionaries({"n": sizes(1, 8, 40), "dt": st.sampled_from(["f8", "f4"]), "op": st.sampled_from(ALL_OPS), "deg": st.integers(1, 10), "orth": st.integers(-1, 10), "basis": st.booleans(), "fill": st.sampled_from(["zeros", "sevens", "nan", "vectors"]), "calls": st.lists(st.integers(0, 99), min_size=1, max_size=4),
	                              "given": st.sampled_from(["all", "ab", "Q", "a"]), "bad": st.sampled_from([None, None, "long", "short", "strided", "column", "block", "precision", "order", "rows", "readonly", "list"]), "which": st.integers(0, 2)})


def run_work(case, c):
	"""Workspaces given by the caller, whatever they hold, do not change results; those that do not fit are rejected or not relied on."""
	n, dt, deg, L = case["n"], np.dtype(case["dt"]), min(case["deg"], case["n"]), P.lanczos.lanczos
	if "undeclared" in case["op"]:
		dt = np.dtype("f8")
	o = deg if case["orth"] < 0 or case["orth"] > deg else case["orth"]
	ncv = deg if case["basis"] else int(np.clip(o + 1, 2, deg))
	g = rng(sum(case["calls"]))
	val = {"zeros": 0.0, "sevens": 7.0, "nan": np.nan, "vectors": 0.5}[case["fill"]]
	Q = np.full((n, ncv), val, dtype=dt, order="F")
	if case["fill"] == "vectors":
		Q[...] = g.normal(size=Q.shape)
	W = {"alpha": np.full(deg + 1, val, dtype=dt), "beta": np.full(deg + 1, val, dtype=dt), "Q": Q}
	W = {k: W[k] for k in {"all": ("alpha", "beta", "Q"), "ab": ("alpha", "beta"), "Q": ("Q",), "a": ("alpha",)}[case["given"]]}
	bad = case["bad"]
	if bad is not None:
		k = list(W)[case["which"] % len(W)]
		w = W[k]
		other = np.float32 if dt == np.float64 else np.float64
		W[k] = {"long": lambda: np.zeros(len(w) + 1, dtype=dt) if k != "Q" else np.zeros((n, ncv + 1), dtype=dt, order="F"), "short": lambda: np.zeros(len(w) - 1, dtype=dt) if k != "Q" else np.zeros((n, ncv - 1), dtype=dt, order="F"),
		        "strided": lambda: np.zeros((2 * w.shape[0],) + w.shape[1:], dtype=dt, order="F")[::2], "column": lambda: w.reshape(w.shape + (1,)), "block": lambda: np.zeros(w.shape[:1] + (2,), dtype=dt), "precision": lambda: w.astype(other, order="F"),
		        "order": lambda: np.ascontiguousarray(w), "rows": lambda: np.zeros((w.shape[0] + 1,) + w.shape[1:], dtype=dt, order="F"), "readonly": lambda: w.copy(order="F"), "list": lambda: w.tolist()}[bad]()
		if bad == "readonly":
			W[k].flags.writeable = False
	for s in case["calls"]:
		B = rng(s).normal(size=(n, n))
		A, v = (B + B.T).astype(dt).astype(float), rng(s + 1).normal(size=n).astype(dt)
		op = any_operator(A, case["op"], dt)
		kw = dict(v0=v, deg=deg, orth=case["orth"], return_basis=case["basis"])
		def flat(r):
			t, q = r if case["basis"] else (r, np.zeros(0))
			return np.concatenate([arr(t[0], (deg,)), arr(t[1], (deg - 1,)), np.ravel(arr(q))])
		ref = flat(call(L, op, **kw))
		if bad is None:
			r = flat(call(L, op, **kw, **W))
		else:
			try:
				r = flat(L(op, **kw, **W))
			except Exception:
				c.label("rejected " + bad)
				continue
			c.label("accepted " + bad)
		same(r, ref, f"results with workspaces given ({case['fill']}, {bad or 'fitting'})")
	c.mark(deg >= 2)
	c.label(case["given"], case["fill"])


def s_bad():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(2, 6), "k": st.integers(0, 9), "what": st.sampled_from(["vector", "degree", "dtype", "zerodeg"]), "op": st.sampled_from(["dense", "csr", "py"])})


def run_bad(case, c):
	n, k, L = case["n"], case["k"], P.lanczos.lanczos
	A = np.diag(np.arange(1.0, n + 1))
	op = any_operator(A, case["op"])
	if case["what"] == "vector" and k != n:
		rejects(L, op, v0=np.ones(k), what=f"start vector of length {k} for size {n}")
	elif case["what"] == "degree":
		rejects(L, op, deg=-k - 1, what="negative degree")
	elif case["what"] == "zerodeg":
		rejects(L, op, deg=0, what="degree zero")
	elif case["what"] == "dtype":
		rejects(L, A.astype(int), what="integer matrix")
		rejects(L, A.astype(complex), what="complex matrix")
	c.mark()


A0 = {"n": 6, "kind": "normal", "seed": 3, "exp": 0}
C0 = {"A": A0, "op": "dense", "dt": "f8", "req": None, "v": "normal", "vseed": 1, "deg": 5, "orth": -1, "scale": 2.0, "shift": 1.0, "vform": "array"}
def run_tiny(case, c):
	"""Known finding: the documented relative tolerance for an invariant subspace is absolute, so expansions of operators of tiny norm end early."""
	n = case["n"]
	A = np.diag(np.arange(1.0, n + 1)) + 0.5
	v = np.ones(n) + np.arange(n)
	a, b = call(P.lanczos.lanczos, A, v0=v, orth=-1)
	a2, b2 = call(P.lanczos.lanczos, case["c"] * A, v0=v, orth=-1)
	close(arr(a2, (n,)) / case["c"], a, 1e-9 * n, "coefficients of a scaled operator")
	close(arr(b2, (n - 1,)) / case["c"], b, 1e-9 * n, "coefficients of a scaled operator")


KNOWN_SUBS = [Sub("tiny", None, run_tiny, fixed_only=True)]
SUBS = [
	Sub("recurrence", s_case, run, quick=500, thorough=20000, shards=5, examples=[C0, {**C0, "orth": 0}, {**C0, "op": "py_strided"}, {**C0, "req": "f4"}, {**C0, "dt": "f4", "req": "f8"}, {**C0, "deg": 1}, {**C0, "A": {**A0, "n": 1}}, {**C0, "orth": 2, "deg": 6}]),
	Sub("window", s_window, run_window, quick=150, thorough=6000, shards=2),
	Sub("scales", s_scales, run_scales, quick=200, thorough=8000, shards=2),
	Sub("seed", s_seed, run_seed, quick=120, thorough=3000, shards=1),
	Sub("workspace", s_work, run_work, quick=150, thorough=4000, shards=1),
	Sub("reject", s_bad, run_bad, quick=60, thorough=300, shards=1),
]
SUBS.append(reuse_sub("C14"))
SUBS.append(big_sub("C14"))
SUBS.append(extreme_sub("C14"))
