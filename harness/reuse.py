"""Calls repeated with the same objects whose contents change in between: buffers overwritten in place, objects
re-initialised, rules applied to several estimators in turn. Every call is compared with an oracle on the contents it was
given, and everything returned earlier must stay as it was. (Results remembered by identity, size or part of the contents
of an argument show here.)

SETUPS[id](case, g) returns (arrays, once): `arrays` lists (array, fresh, symmetric, allowed changes), `once()` calls the code
on the current contents, compares, and returns what must not change later."""
import numpy as np
from core import Sub, check, close, same, arr, num, call
from lib import P, strategies, rng, orth, sym_from, twin

RULE = (" reuse: the same arrays (operators, vectors, buffers) are passed up to five times, refilled, negated, permuted, with two entries exchanged or changed in one row in place between the calls; "
        "every result is compared with the oracle on the current contents, and earlier results must not change.")
HOW = ["fill", "neg", "perm", "one", "swap"]


def s_reuse():
	st = strategies()
	return st.fixed_dictionaries({"n": st.one_of(st.integers(2, 9), st.integers(2, 9), st.integers(10, 24)), "seed": st.integers(0, 10**6), "opt": st.integers(0, 11), "steps": st.lists(st.tuples(st.sampled_from(HOW), st.integers(1, 7)), min_size=1, max_size=4)})


def change(x, fresh, sym, how, g):
	y = np.asarray(fresh(), dtype=x.dtype)
	if how == "fill":
		x[...] = y
	elif how == "neg":
		np.negative(x, out=x)
	elif how == "perm":
		p = g.permutation(x.shape[0])
		x[...] = x[p][:, p] if sym else x[p]
	elif how == "swap":  # same entries, sum, norm and ends
		p = np.arange(x.shape[0])
		if len(p) > 1:
			i, j = g.choice(p[1:-1] if len(p) > 3 else p, size=2, replace=False)
			p[[i, j]] = j, i
		x[...] = x[p][:, p] if sym else x[p]
	else:
		i = int(g.integers(0, x.shape[0]))
		x[i] = y[i]
		if sym:
			x[:, i] = y[i]


def sub(prop, quick=40, thorough=2000):
	def run(case, c):
		g = rng(case["seed"])
		arrays, once = SETUPS[prop](case, g)
		kept = []

		def go(tag):
			for r in once() or ():
				kept.append((r, np.array(r, copy=True), tag))
		go("first call")
		for t, (how, which) in enumerate(case["steps"]):
			for i, (x, fresh, sym, allowed) in enumerate(arrays):
				if which >> (i % 3) & 1 or len(arrays) == 1:
					change(x, fresh, sym, how if how in allowed else "fill", g)
			go(f"call {t + 2}, after {how} in place")
		for r, snap, tag in kept:
			same(np.asarray(r), snap, f"a result ({tag}) was changed by later calls")
		c.mark()
		c.label(*(h for h, _ in case["steps"]))
	return Sub("reuse", s_reuse, run, quick=quick, thorough=thorough, shards=1,
	           examples=[{"n": n, "seed": s, "opt": o, "steps": [["one", 7], ["perm", 7], ["neg", 7], ["fill", 7]]} for n, s, o in ((4, 1, 0), (5, 2, 5), (7, 3, 10))])


# ------------------------------------------------------------------------------------------------------- statistics

def c01(case, g):
	dim, rows = 1 + case["opt"] % 3, case["n"]
	buf, seen = g.normal(size=(rows, dim)) + 3, []
	M, C = P.stats.Mean(dim), P.stats.Covariance(dim)

	def once():
		seen.append(buf.copy())
		X = np.concatenate(seen)
		B = buf[:, 0] if dim == 1 and case["opt"] > 5 else buf
		out = []
		for t in (M, C):
			call(t.update, B)
			check(t.n == len(X), "count is {} after {} rows", t.n, len(X))
			out.append(np.atleast_1d(arr(t.mean())))
			close(out[-1], X.mean(axis=0), 1e-12 * 10, "mean after updates from one buffer")
		out.append(np.atleast_2d(arr(C.covariance())))
		close(out[-1], np.atleast_2d(np.cov(X.T)), 1e-11, "covariance after updates from one buffer")
		return out + [M.mean(), C.mean(), C.covariance()]
	return [(buf, lambda: g.normal(size=(rows, dim)), False, HOW)], once


def c03(case, g):
	k, rows = 1 + case["opt"] % 3, case["n"] + 4
	buf, seen = g.normal(size=(rows, k + 1)), []
	given = case["opt"] > 5
	al, ecv = g.normal(size=k), g.normal(size=k)
	e = P.estimators.ControlVariableEstimator(ecv=ecv.copy(), alpha=al.copy() if given else None, record=True)

	def once():
		seen.append(buf.copy())
		X = np.concatenate(seen)
		call(e.update, buf)
		mu = X.mean(axis=0)
		a = al if given else np.linalg.lstsq(X[:, 1:] - mu[1:], X[:, 0] - mu[0], rcond=None)[0]
		ok = given or np.linalg.cond(X[:, 1:] - mu[1:]) < 1e3
		if ok:
			close(num(e.estimate), mu[0] - a @ (mu[1:] - ecv), 1e-7, "estimate after updates from one buffer")
		same(np.array(e.values), X, "record after updates from one buffer")
	return [(buf, lambda: g.normal(size=(rows, k + 1)), False, HOW)], once


def alike(g, n, dim):
	"""Samples that agree in count and mean (exactly), in spread, or in all changes, and differ otherwise."""
	h = g.integers(-8, 9, size=(n // 2, dim)).astype(float)
	h[:1] = 8.0
	p = np.concatenate([h, -h, np.zeros((n % 2, dim))])
	return [4 + p, 4 + p[g.permutation(n)], 4 + p / 64, 4 - p, 68 + p]


def c04(case, g):
	from props.c04 import tq_big, zq
	n = case["n"] + 1
	x = g.normal(size=n) + 2
	y = g.normal(size=n) - 5
	conf = [0.95, 0.5, 0.99][case["opt"] % 3]
	E = P.estimators
	crit = E.ConfidenceCriterion(conf, atol=0.8, rtol=0.0)
	again = E.MeanEstimator(covariance=True)

	def once():
		m, se = x.mean(), x.std(ddof=1) / np.sqrt(n)
		for sd, q in (("t", tq_big(conf, n - 1)), ("normal", zq(conf))):
			r = call(P.stats.confidence_interval, x, confidence=conf, sdist=sd)
			close([num(v) for v in r], [m - q * se, m + q * se], 1e-9 * (1 + q), f"{sd} interval of a buffer used again")
		# one rule object, estimators in turn, and an estimator set up again
		again.__init__(covariance=True)
		es = []
		for z, e in [(x, again), (y, E.MeanEstimator(covariance=True)), (y[: 2], E.MeanEstimator(covariance=True))] + [(z[:, 0], E.MeanEstimator(covariance=True)) for z in alike(g, n, 1)]:
			e.update(z)
			es.append((e, z))
		for e, z in es + es[::-1]:
			k = len(z)
			if k < 3:
				want = False
			else:
				moe = (tq_big(conf, k - 1) if k < 30 else zq(conf)) * z.std(ddof=1) / np.sqrt(k)
				if abs(moe - 0.8) < 1e-9:
					continue
				want = moe <= 0.8
			check(bool(call(crit, e)) == want, "one rule applied to several estimators in turn decided {} for one with {} samples", not want, k)
	return [(x, lambda: g.normal(size=n) * g.choice([0.1, 1, 5]) + 1, False, HOW), (y, lambda: g.normal(size=n) * g.choice([0.1, 1, 5]), False, HOW)], once


def c05(case, g):
	from props.c05 import knee, norm
	E = P.estimators
	n, dim = case["n"] + 2, 1 + case["opt"] % 3
	X, Y = g.normal(size=(n, dim)), g.normal(size=(n, dim)) + 5
	tol, cnt, kn = E.ToleranceCriterion(atol=0.05, rtol=0.1), E.CountCriterion(n), E.KneeCriterion(1.0)
	again = E.MeanEstimator(dim=dim, record=True)

	def once():
		again.__init__(dim=dim, record=True)
		es = [(again, X, n), (E.MeanEstimator(dim=dim, record=True), Y, n), (E.MeanEstimator(dim=dim, record=True), X, n - 1)] + [(E.MeanEstimator(dim=dim, record=True), Z, n) for Z in alike(g, n, dim)]
		for e, Z, k in es:
			e.update(Z[: k - 1])
			e.update(Z[k - 1 : k])
		for e, Z, k in es + es[::-1]:
			mu, old = Z[:k].mean(axis=0), Z[: k - 1].mean(axis=0)
			err, ref = norm(mu - old, 2.0), norm(mu, 2.0)
			if abs(err - 0.05) > 1e-9 and abs(err - 0.1 * ref) > 1e-9:
				check(bool(call(tol, e)) == (err < 0.05 or err < 0.1 * ref), "one tolerance rule applied to several estimators in turn: change {}, estimate {}", err, ref)
			check(bool(call(cnt, e)) == (k >= n), "one count rule applied to several estimators in turn: {} of {} samples", k, n)
			if dim == 1:
				want, margin = knee(Z[:k].ravel(), 1.0)
				if margin > 1e-9:
					check(bool(call(kn, e)) == want, "one knee rule applied to several estimators in turn, {} samples", k)
	return [(X, lambda: g.normal(size=(n, dim)) * g.choice([0.1, 1]) + g.choice([0, 5]), False, HOW), (Y, lambda: g.normal(size=(n, dim)) * 0.1 + g.choice([0, 5]), False, HOW)], once


def c06(case, g):
	E = P.estimators
	n = case["n"] + 2
	X, Y = g.normal(size=n) + 3, g.normal(size=n)
	cc, tt = E.CountCriterion(n), E.ToleranceCriterion(atol=0.05, rtol=0.0)
	rules = {"or": (cc | tt, lambda a, b: a or b), "and": (cc & tt, lambda a, b: a and b), "not": (~tt, lambda a, b: not b), "mix": (~cc | (tt & ~cc), lambda a, b: (not a) or (b and not a)), "by name": (E.convergence_criterion("tolerance", atol=0.05, rtol=0.0), lambda a, b: b)}
	again = E.MeanEstimator(covariance=True)

	def once():
		again.__init__(covariance=True)
		es = [(again, X, n), (E.MeanEstimator(), Y, n), (E.MeanEstimator(covariance=True), X, n - 1), (E.MeanEstimator(), Y, n - 1)] + [(E.MeanEstimator(covariance=True), Z[:, 0], n) for Z in alike(g, n, 1)]
		for e, Z, k in es:
			e.update(Z[: k - 1])
			e.update(Z[k - 1 : k])
		for e, Z, k in es + es[::-1]:
			d = abs(Z[:k].mean() - Z[: k - 1].mean())
			if abs(d - 0.05) < 1e-9:
				continue
			for name, (r, f) in rules.items():
				want = f(k >= n, d < 0.05)
				check(bool(call(r, e)) == want, "one rule ({}) applied to several estimators in turn decided {} for one with {} samples", name, not want, k)
	return [(X, lambda: g.normal(size=n) * g.choice([0.1, 1]), False, HOW), (Y, lambda: g.normal(size=n) * g.choice([0.1, 1]), False, HOW)], once


# ------------------------------------------------------------------------------------------- matrices and functions

def c09(case, g):
	n = case["n"]
	ew = g.normal(size=n)
	pd = case["opt"] % 3 == 0

	def once():
		w = np.sort(np.maximum(ew, 0) if pd else ew)
		A = call(P.random.symmetric, n, ew=ew, pd=pd, seed=case["seed"])
		B = call(P.random.haar, n, ew=ew, seed=case["seed"])
		close(np.linalg.eigvalsh(arr(A, (n, n))), w, 1e-12 * n, "eigenvalues of symmetric, prescription changed in place")
		close(np.linalg.eigvalsh(arr(B, (n, n))), np.sort(ew), 1e-12 * n, "eigenvalues of haar, prescription changed in place")
		return [A, B]
	return [(ew, lambda: g.normal(size=n), False, HOW)], once


def c10(case, g):
	S, n = P.special, case["n"]
	x = g.normal(size=n)
	a, b = -0.3, 0.9
	q = case["opt"] % 4

	def soft(v):
		v = np.clip(v, -1, 1)
		s, t = np.zeros_like(v), np.ones_like(v)
		for i in range(q + 1):
			t = t * (1 - v * v) * (2 * i - 1) / (2 * i) if i else t
			s = s + t
		return v * s

	def smooth(v):
		y = np.clip((v - a) / (b - a), 0, 1)
		return y * y * (3 - 2 * y)
	table = [(S.softsign(q=q), soft), (S.param_callable("softsign", q=q), soft), (S.smoothstep(a=a, b=b), smooth), (S.param_callable("smoothstep", a=a, b=b), smooth), (S.exp(t=0.5), lambda v: np.exp(0.5 * v)), (S.param_callable("exp", t=-2.0), lambda v: np.exp(-2 * v)),
	         (S.step(c=0.25), lambda v: np.where(v >= 0.25, 1.0, 0.0)), (S.param_callable("numrank", threshold=0.5), lambda v: np.where(np.abs(v) >= 0.5, 1.0, 0.0)), (S.param_callable("abs"), np.abs), (S.param_callable("inv"), lambda v: 1 / v), (S.param_callable("identity"), lambda v: v)]

	def once():
		out = []
		for i, (f, ref) in enumerate(table):
			r = call(f, x)
			close(arr(r, (n,)), ref(x), 1e-13 * (1 + np.abs(ref(x)).max()), f"function {i} on a buffer changed in place")
			if not np.shares_memory(r, x):
				out.append(r)
		return out
	return [(x, lambda: g.normal(size=n), False, HOW)], once


def c11(case, g):
	n = case["n"]
	fresh = lambda: np.triu(g.normal(size=(n, n)), 1) * 0.4 + np.diag(g.uniform(0.5, 2, size=n) * g.choice([-1, 1], size=n))
	B, col = fresh(), fresh()[:, -1].copy()
	inv = np.linalg.inv(fresh()[: n - 1, : n - 1]) if n > 1 else np.zeros((0, 0))

	def once():
		r = call(P.linalg.update_trinv, inv, col)
		M = np.linalg.inv(inv) if n > 1 else inv
		E = np.zeros((n, n))
		E[: n - 1, : n - 1], E[:, n - 1] = M, col
		got = arr(r, (n, n))
		close(E @ got, np.eye(n), 1e-9 * (1 + np.linalg.cond(E)), "updated inverse of arrays changed in place")
		return [r]
	return [(inv, lambda: np.linalg.inv(fresh()[: n - 1, : n - 1]), False, ["fill", "neg"]), (col, lambda: fresh()[:, -1], False, ["fill", "neg"])], once


def _tri(n, g):
	d, e = g.normal(size=n), g.uniform(0.3, 1.5, size=n - 1)
	fe = lambda: g.uniform(0.3, 1.5, size=n - 1)
	return d, e, fe


def c12(case, g):
	n = case["n"]
	d, e, fe = _tri(n, g)
	T, method = P.tridiag, ["auto", "mrrr", "tqli"][case["opt"] % 3]

	def once():
		A = np.diag(d) + np.diag(e, 1) + np.diag(e, -1)
		w = np.linalg.eigvalsh(A)
		r, Y = call(T.eigh_tridiag, d, e, method=method)
		v = call(T.eigvalsh_tridiag, d, e, method=method)
		tol = 1e-12 * n * (1 + np.abs(w).max())
		close(np.sort(arr(r, (n,))), w, tol, f"eigenvalues ({method}) of arrays changed in place")
		close(np.sort(arr(v, (n,))), w, tol, f"eigenvalues alone ({method}) of arrays changed in place")
		close(A @ arr(Y, (n, n)), arr(Y) * arr(r), tol, f"eigenvectors ({method}) of arrays changed in place")
		return [r, Y, v]
	return [(d, lambda: g.normal(size=n), False, HOW), (e, fe, False, HOW)], once


def c13(case, g):
	n = case["n"]
	d, e, fe = _tri(n, g)
	k = max(1, n - case["opt"] % 3)
	nodes, weights = np.zeros(k), np.zeros(k)

	def once():
		w, U = np.linalg.eigh((np.diag(d) + np.diag(e, 1) + np.diag(e, -1))[:k, :k])
		nT, out = 1 + np.abs(w).max(), []
		for how in ("plain", "arrays"):
			x, y = call(P.integrate.quadrature, d, e, deg=k, **({} if how == "plain" else {"nodes": nodes, "weights": weights}))
			close(np.sort(arr(x, (k,))), w, 1e-12 * n * nT, f"nodes from arrays changed in place ({how})")
			for j in range(2 * k):
				close(np.sum((arr(x) / nT) ** j * arr(y)), np.sum((w / nT) ** j * U[0] ** 2), 1e-11 * n, f"moment {j} from arrays changed in place ({how})")
			if how == "plain":
				out += [x, y]
		return out
	return [(d, lambda: g.normal(size=n), False, HOW), (e, fe, False, HOW)], once


# --------------------------------------------------------------------------------------------------- Krylov methods

def _symm(n, g, lo=None):
	"""Matrix with separated eigenvalues, and a generator of others."""
	def fresh():
		w = (np.arange(n) + g.uniform(0.2, 0.8, size=n)) * 2.0 / n - (1 if lo is None else -lo)
		return sym_from(w, orth(n, int(g.integers(0, 2**31))))
	return fresh(), fresh


def _form(A, opt):
	"""Operator that uses the given array itself, as it is at the time of a product."""
	from scipy.sparse.linalg import aslinearoperator
	if opt % 3 == 1:
		return aslinearoperator(A)
	if opt % 3 == 2:
		from lib import PyOp
		op = PyOp(A)
		op._M = A
		return op
	return A


def c14(case, g):
	n = min(case["n"], 16)
	A, fresh = _symm(n, g)
	v = g.normal(size=n)
	op = _form(A, case["opt"])

	def once():
		(a, b), Q = call(P.lanczos.lanczos, op, v0=v, deg=n, orth=-1, return_basis=True)
		q = arr(Q, (n, n))
		close(q.T @ q, np.eye(n), 1e-8, "basis from arrays changed in place is not orthonormal")
		close(q[:, 0], v / np.linalg.norm(v), 1e-12, "first vector of the basis")
		T = q.T @ A @ q
		close(arr(a, (n,)), np.diag(T), 1e-8, "diagonal coefficients from arrays changed in place")
		close(np.ravel(arr(b))[: n - 1] if len(np.ravel(b)) != n else np.ravel(arr(b))[1:], np.diag(T, 1), 1e-8, "off-diagonal coefficients from arrays changed in place")
		return [a, b, Q]
	return [(A, fresh, True, HOW), (v, lambda: g.normal(size=n), False, HOW)], once


def c15(case, g):
	n = min(case["n"], 16)
	A, fresh = _symm(n, g)
	v = g.normal(size=n)
	op = _form(A, case["opt"])

	def once():
		r = call(P.lanczos.rayleigh_ritz, op, deg=n, v0=v, orth=n)
		close(np.sort(arr(r, (n,))), np.linalg.eigvalsh(A), 1e-6, "Ritz values of full degree from arrays changed in place")
		return [r]
	return [(A, fresh, True, HOW), (v, lambda: g.normal(size=n), False, HOW)], once


def _fA(A, f):
	w, U = np.linalg.eigh(A)
	return (U * f(w)) @ U.T


def c16(case, g):
	n = min(case["n"], 16)
	A, fresh = _symm(n, g)
	x = g.normal(size=n)
	X = g.normal(size=(n, 3))
	MF, f = P.operators.MatrixFunction, [np.exp, "exp", lambda t: t**2][case["opt"] % 3]
	ref = np.exp if case["opt"] % 3 < 2 else np.square
	state = {}

	def once():
		if "A" not in state or not np.array_equal(state["A"], A):
			state["A"], state["M"] = A.copy(), call(MF, _form(A, case["opt"] // 3), f, deg=n, orth=-1)
		F = _fA(A, ref)
		X[:, 1] = twin(X[:, 0], g)
		r, R = call(state["M"].__matmul__, x), call(state["M"].__matmul__, X)
		close(np.ravel(arr(r)), F @ x, 1e-6, "product with a vector changed in place")
		close(arr(R, (n, 3)), F @ X, 1e-6, "product with a block changed in place")
		z = call(P.operators.matrix_function, A, fun=ref, v=x, deg=n)
		return [r, R] + ([z] if np.allclose(np.ravel(z), F @ x, atol=1e-3) else [])
	return [(x, lambda: g.normal(size=n), False, HOW), (A, fresh, True, HOW), (X, lambda: g.normal(size=(n, 3)), False, HOW)], once


def c17(case, g):
	n = min(case["n"], 16)
	A, fresh = _symm(n, g)
	x = g.normal(size=n)
	X = g.normal(size=(n, 3))
	f = [np.exp, "exp", np.square][case["opt"] % 3]
	ref = np.exp if case["opt"] % 3 < 2 else np.square
	state = {}

	def once():
		if "A" not in state or not np.array_equal(state["A"], A):
			state["A"], state["M"] = A.copy(), call(P.operators.MatrixFunction, _form(A, case["opt"] // 3), f, deg=n, orth=-1)
		F = _fA(A, ref)
		X[:, 1] = twin(X[:, 0], g)
		r, R = call(state["M"].quad, x), call(state["M"].quad, X)
		close(num(r), x @ F @ x, 1e-6, "quadratic form of a vector changed in place")
		close(np.ravel(arr(R)), np.einsum("ij,ij->j", X, F @ X), 1e-6, "quadratic forms of a block changed in place")
		return [r, R]
	return [(x, lambda: g.normal(size=n), False, HOW), (A, fresh, True, HOW), (X, lambda: g.normal(size=(n, 3)), False, HOW)], once


def c18(case, g):
	import scipy.linalg as sl
	n = case["n"]
	col, row, x = g.normal(size=n), g.normal(size=n), g.normal(size=n)
	row[0] = col[0]
	T = call(P.operators.Toeplitz, col, row)
	D = sl.toeplitz(col, row)

	def once():
		out = [call(T.matvec, x)]
		close(arr(out[0], (n,)), D @ x, 1e-12 * n, "product with a vector changed in place")
		row[0] = col[0]
		T2 = call(P.operators.Toeplitz, col, row)
		out.append(call(T2.matvec, x))
		close(arr(out[1], (n,)), sl.toeplitz(col, row) @ x, 1e-12 * n * 10, "operator made again from the same arrays, changed in place")
		T3 = call(P.operators.Toeplitz, col)
		out.append(call(T3.__matmul__, x))
		close(arr(out[2], (n,)), sl.toeplitz(col) @ x, 1e-12 * n * 10, "symmetric operator made again from the same array, changed in place")
		return out
	return [(x, lambda: g.normal(size=n), False, HOW), (col, lambda: g.normal(size=n), False, HOW), (row, lambda: g.normal(size=n), False, HOW)], once


def c19(case, g):
	n = max(case["n"], 3)
	A, fresh = _symm(n, g, lo=0.5)

	def once():
		if np.ptp(np.sort(np.abs(np.linalg.eigvalsh(A)))[-2:]) < 1e-3:
			return
		N = call(P.operators.normalize_unit, A)
		w, lam = np.linalg.eigvalsh(arr(N @ np.eye(n), (n, n))), np.linalg.eigvalsh(A)
		top = lam[np.argmax(np.abs(lam))]
		close(w, np.sort((lam + top) / (2 * top)), 1e-9, "normalised spectrum of a matrix changed in place")
	return [(A, fresh, True, HOW)], once


def c20(case, g):
	O = P.operators

	class Thing:
		def __matmul__(self, x):
			return np.zeros(self.shape[0], dtype=self.kind)
		matvec = __matmul__
	X = Thing()

	def once():
		n = case["n"]
		for shape, kind, declared in [((n, n), "f8", True), ((n, n), "f4", True), ((n, n + 1), "f8", True), ((n + 1, n + 1), "f4", False), ((n,), "f8", True), ((n, n), "i8", True), ((n, n), "f8", False), ((n, n), "c16", False), ((0, 0), "f8", True)][case["opt"] % 3 :: 1 + case["opt"] % 2]:
			X.shape, X.kind = shape, np.dtype(kind)
			X.__dict__.pop("dtype", None)
			if declared:
				X.dtype = np.dtype(kind)
			square = len(shape) == 2 and shape[0] == shape[1]
			check(bool(call(O.is_linear_op, X)) == square, "is_linear_op on an object whose shape changed to {}", shape)
			if square and kind in ("f4", "f8"):
				check(np.dtype(call(O.is_valid_operator, X)) == np.dtype(kind), "is_valid_operator on an object whose type changed to {}", kind)
			else:
				from core import rejects
				rejects(O.is_valid_operator, X, what=f"object changed to shape {shape}, type {kind}")
	return [(np.zeros(2), lambda: np.zeros(2), False, HOW)], once


# ------------------------------------------------------------------------------------------------------- estimators

def c21(case, g):
	n = case["n"]
	A, fresh = _symm(n, g)
	m, pdf = 1 + case["opt"] % 5, ["rademacher", "normal", "sphere"][case["opt"] % 3]
	op = _form(A, case["opt"])

	def once():
		from lib import RecSampler, probe_source
		out = []
		for full in (False, True):
			s = RecSampler(probe_source(pdf, case["seed"], case["opt"] >= 6))
			r = call(P.trace.hutch, op, batch=m, converge="count", count=4, pdf=s, full=full)
			V = s.columns(n)
			est = r[0] if full else r
			close(num(est), np.einsum("ij,ij->j", V, A @ V).mean(), 1e-11 * n * n, f"estimate for a matrix changed in place (full={full})")
			if full:
				check(len(list(iter(r[1]))) == 6 and r[1].estimate == est, "result object")
			out.append(est)
		W = np.column_stack([call(P.random.isotropic, (n, 1), pdf=pdf, seed=q) for q in [np.random.default_rng(case["seed"])] * 4])
		est = call(P.trace.hutch, op, converge="count", count=4, pdf=pdf, seed=case["seed"])
		close(num(est), np.einsum("ij,ij->j", W, A @ W).mean(), 1e-11 * n * n, "estimate by name and seed for a matrix changed in place")
		return out
	return [(A, fresh, True, HOW)], once


def c22(case, g):
	n = case["n"]
	A, fresh = _symm(n, g)
	m = 3 * (1 + case["opt"] % 2)
	op = _form(A, case["opt"])

	def once():
		from lib import RecSampler, probe_source
		out = []
		for mode in ("reduced", "full"):
			s = RecSampler(probe_source("rademacher", case["seed"]))
			est = call(P.trace.hutchpp, op, m=m, mode=mode, pdf=s)
			W, G = s.drawn[0], s.drawn[1]
			Q = np.linalg.qr(A @ W)[0]
			G = G - Q @ (Q.T @ G)
			close(num(est), np.trace(Q.T @ A @ Q) + np.einsum("ij,ij->j", G, A @ G).mean(), 1e-9 * n * n, f"estimate for a matrix changed in place ({mode})")
			out.append(est)
		return out
	return [(A, fresh, True, HOW)], once


def c23(case, g):
	n = max(3, min(case["n"], 9))
	A, fresh = _symm(n, g, lo=0.5)
	op = _form(A, case["opt"])

	def once():
		from props.c23 import loo
		est = call(P.trace.xtrace, op, batch=1 + case["opt"] % 4, seed=case["seed"], converge="count", count=n)
		W = arr(P.random.isotropic((n, n), pdf="sphere", seed=case["seed"]))
		if min((lambda s: s[-1] / s[0])(np.linalg.svd(A @ W[:, :m], compute_uv=False)) for m in range(1, n + 1)) > 1e-4:
			ref, worst = loo(A, W, True)
			if worst < 1e3:
				close(num(est), ref.mean(), 1e-6 * n, "estimate with a full set of probes for a matrix changed in place")
		return [est]
	return [(A, fresh, True, HOW)], once


def _ratios(V, A):
	return (np.cumsum(V * (A @ V), axis=1) / np.cumsum(V * V, axis=1)).mean(axis=1)


def c24(case, g):
	n = case["n"]
	A, fresh = _symm(n, g)
	op = _form(A, case["opt"])

	def once():
		from lib import RecSampler, probe_source
		out = []
		for full in (False, True):
			s = RecSampler(probe_source("rademacher", case["seed"], case["opt"] >= 6))
			r = call(P.diagonal.diag, op, converge="count", count=3 + case["opt"] % 4, pdf=s, full=full)
			est = r[0] if full else r
			V = s.columns(n)
			close(np.ravel(arr(est)), _ratios(V, A), 1e-11 * n, f"estimate for a matrix changed in place (full={full})")
			out.append(est)
		return out
	return [(A, fresh, True, HOW)], once


def c25(case, g):
	n = max(3, min(case["n"], 9))
	A, fresh = _symm(n, g, lo=0.5)

	def once():
		from props.c25 import loo
		m = 2 * (2 + case["opt"] % (n - 1))
		k = min(m // 2, n)
		W = arr(P.random.isotropic((n, k), pdf="sphere", seed=case["seed"]))
		s = np.linalg.svd(A @ W, compute_uv=False)
		d = call(P.diagonal.xdiag, A, m=m, pdf="sphere", seed=case["seed"])
		if s[-1] > 1e-4 * s[0]:
			close(arr(d, (n,)), loo(A, W), 1e-12 * n * (s[0] / s[-1]) ** 1.5 * 100, "estimate for a matrix changed in place")
		return [d]
	return [(A, fresh, True, HOW)], once


def c28(case, g):
	from props.c28 import install, glyphs, find, POINTS
	install()
	n = case["n"]
	x = g.normal(size=n)
	as_list = case["opt"] % 2
	L = [0.0] * n

	def once():
		L[:] = x.tolist()
		p = call(P.plotting.figure_sequence, L if as_list else x)
		gs, _ = glyphs(p)
		find(gs, POINTS, np.arange(1, n + 1), np.array(x), 1e-9, "samples of a sequence changed in place")
	return [(x, lambda: g.normal(size=n), False, HOW)], once


def c30(case, g):
	n = min(case["n"], 16)
	A, fresh = _symm(n, g)
	f, ref = [(np.exp, np.exp), ("exp", np.exp), ("abs", np.abs)][case["opt"] % 3]

	def once():
		from lib import RecSampler, probe_source
		M = call(P.operators.MatrixFunction, _form(A, case["opt"]), f, deg=n, orth=-1)
		F = _fA(A, ref)
		s = RecSampler(probe_source("rademacher", case["seed"], case["opt"] >= 6))
		est = call(P.trace.hutch, M, batch=2, converge="count", count=4, pdf=s, full=bool(case["opt"] % 2))
		est = est[0] if case["opt"] % 2 else est
		V = s.columns(n)
		close(num(est), np.einsum("ij,ij->j", V, F @ V).mean(), 1e-5 * n, "trace of a function of a matrix changed in place")
		d = call(P.diagonal.diag, M, converge="count", count=3, pdf=RecSampler(probe_source("rademacher", case["seed"] + 1)))
		V = (lambda f: np.column_stack([f((n, 1)) for _ in range(3)]))(probe_source("rademacher", case["seed"] + 1))
		close(np.ravel(arr(d)), _ratios(V, F), 1e-5 * n, "diagonal of a function of a matrix changed in place")
		return [est, d]
	return [(A, fresh, True, HOW)], once


SETUPS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
