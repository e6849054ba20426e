"""Each property once more at sizes well beyond those of the other sub-checks (roughly log-uniform up to about a thousand),
where only cheap, well-conditioned oracles are used. Behaviour that changes at some size shows here."""
import numpy as np
from core import Sub, check, close, same, arr, num, call
from lib import P, strategies, rng, sym_from, RecSampler, probe_source, lanczos_ref, twin

RULE = " big: sizes (dimensions, degrees, batches, lengths) drawn log-uniformly up to several hundred or more, compared with direct computations."


def s_big():
	st = strategies()
	f = st.one_of(st.floats(0.0, 1.0), st.sampled_from([0.2, 0.5, 0.8, 1.0]))
	return st.fixed_dictionaries({"size": f, "other": f, "seed": st.integers(0, 10**6), "opt": st.integers(0, 11)})


def log(case, lo, hi, key="size"):
	return int(round(lo * (hi / lo) ** case[key]))


def sub(prop, quick=8, thorough=300, shards=1):
	def run(case, c):
		note = BIG[prop](case, rng(case["seed"]))
		c.mark()
		c.label(*(note or ()))
	return Sub("big", s_big, run, quick=quick, thorough=thorough, shards=shards, examples=[{"size": s, "other": o, "seed": 1, "opt": k} for s, o, k in ((1.0, 0.5, 0), (0.6, 1.0, 5))])


def householder(n, g, k=3):
	"""Orthogonal matrix as a product of reflections (cheap at large sizes)."""
	U = np.eye(n)
	for _ in range(k):
		u = g.normal(size=n)
		u /= np.linalg.norm(u)
		U -= 2 * np.outer(U @ u, u)
	return U


def c01(case, g):
	dim, n = log(case, 3, 250), log(case, 20, 3000, "other")
	X = g.normal(size=(n, dim)) * (1 + np.arange(dim) % 3) + 7
	M, C = P.stats.Mean(dim), P.stats.Covariance(dim)
	cuts = sorted({int(q) for q in g.integers(1, n, size=4)} | {n})
	a = 0
	for q in cuts:
		for t in (M, C):
			call(t.update, X[a:q])
			close(arr(t.mean(), (dim,)), X[:q].mean(axis=0), 1e-11, f"mean of {q} rows of dimension {dim}")
		a = q
		if q > 1:
			close(arr(C.covariance(), (dim, dim)), np.cov(X[:q].T), 1e-10, f"covariance of {q} rows of dimension {dim}")


def c02(case, g):
	dim, n = log(case, 3, 400), log(case, 5, 2000, "other")
	X = g.normal(size=(n, dim))
	e = P.estimators.MeanEstimator(dim=dim, covariance=bool(case["opt"] % 2), record=True)
	cuts = sorted({int(q) for q in g.integers(1, n, size=3)} | {n})
	a = 0
	for q in cuts:
		call(e.update, X[a:q])
		check(len(e) == q, "length {} after {} samples", len(e), q)
		close(arr(e.estimate, (dim,)), X[:q].mean(axis=0), 1e-11, f"estimate of {q} samples of dimension {dim}")
		close(np.ravel(arr(e.delta)), X[:q].mean(axis=0) - (X[:a].mean(axis=0) if a else 0), 1e-11, "last change")
		a = q
	same(np.array(e.values).reshape(n, dim), X, "record")


def c03(case, g):
	k, n = log(case, 2, 60), log(case, 70, 4000, "other")
	X = g.normal(size=(n, k))
	beta, ecv = g.normal(size=k), g.normal(size=k)
	y = X @ beta + 2 + 0.1 * g.normal(size=n)
	given = case["opt"] % 2
	e = P.estimators.ControlVariableEstimator(ecv=ecv.copy(), alpha=beta.copy() if given else None, record=True)
	S, a = np.c_[y, X], 0
	for q in sorted({int(q) for q in g.integers(1, n, size=3)} | {n}):
		call(e.update, S[a:q])
		a = q
		if given or q > 2 * k + 20:
			mu = S[:q].mean(axis=0)
			al = beta if given else np.linalg.lstsq(X[:q] - mu[1:], y[:q] - mu[0], rcond=None)[0]
			close(num(e.estimate), mu[0] - al @ (mu[1:] - ecv), 1e-7 * k, f"estimate of {q} samples with {k} control variables")
	check(len(e) == n and len(e.values) == n, "length {}, {} recorded of {}", len(e), len(e.values), n)


def c05(case, g):
	from props.c05 import norm
	dim, n = log(case, 30, 3000), log(case, 3, 60, "other")
	E = P.estimators
	o = [2.0, 1, np.inf, 3][case["opt"] % 4]
	e = E.MeanEstimator(dim=dim, covariance=False)
	X = g.normal(size=(n, dim)) + 1
	e.update(X[:-1])
	e.update(X[-1:])
	mu, old = X.mean(axis=0), X[:-1].mean(axis=0)
	err, ref = norm(mu - old, o), norm(mu, o)
	for f in (0.98, 1.02):
		check(bool(call(E.ToleranceCriterion(rtol=0.0, atol=err * f, ord=o), e)) == (f > 1), "absolute tolerance {} times the change, dimension {}, order {}", f, dim, o)
		check(bool(call(E.ToleranceCriterion(rtol=err / ref * f, atol=0.0, ord=o), e)) == (f > 1), "relative tolerance {} times the change, dimension {}, order {}", f, dim, o)
	check(bool(call(E.CountCriterion(n), e)) and not bool(call(E.CountCriterion(n + 1), e)), "count rule with {} samples", n)


def c06(case, g):
	E = P.estimators
	depth = log(case, 10, 250)
	e = E.MeanEstimator(covariance=True)
	e.update(g.normal(size=10))
	r, want = E.CountCriterion(5), True
	for _ in range(depth):
		k = int(g.integers(0, 3))
		n = int(g.integers(1, 20))
		if k == 0:
			r, want = r | E.CountCriterion(n), want or 10 >= n
		elif k == 1:
			r, want = r & E.CountCriterion(n), want and 10 >= n
		else:
			r, want = ~r, not want
	check(bool(call(r, e)) == want, "expression of depth {} decided {}", depth, not want)
	check(bool(call(r, e)) == want, "expression of depth {} decided {} the second time", depth, not want)


def c07(case, g):
	pdf = ["rademacher", "normal", "sphere", "sphere", "signs"][case["opt"] % 5]
	n, m = log(case, 20, 5000), log(case, 1, 300, "other")
	if case["opt"] >= 6:
		n, m = m, n
	seed = case["seed"]
	X = arr(call(P.random.isotropic, (n, m), pdf=pdf, seed=seed), (n, m))
	if pdf in ("rademacher", "signs"):
		check(np.all(np.abs(X) == 1), "{} of size {} has other entries than signs", pdf, (n, m))
	if pdf == "sphere":
		close(np.linalg.norm(X, axis=0), np.full(m, np.sqrt(n)), 1e-11 * n, f"norm of sphere columns of length {n}")
	s = call(P.random.isotropic, pdf=pdf, seed=seed)
	k = m // 3
	same(np.column_stack([arr(s((n, k))), arr(s((n, m - k)))]), X, f"{m} columns of length {n} drawn in two parts")
	out = np.empty((n, m), order="F")
	call(P.random.isotropic, pdf=pdf, seed=seed, out=out)
	same(out, X, f"output array of size {(n, m)}")
	N = n * m
	if N >= 1000:
		check(abs(X.mean()) < 7 / np.sqrt(N) and abs((X**2).mean() - 1) < 12 / np.sqrt(N), "mean {} and second moment {} of {} values", X.mean(), (X**2).mean(), N)
		if n > 1 and pdf != "sphere" or n > 40:
			check(abs((X[1:] * X[:-1]).mean()) < 7 / np.sqrt(N / 2), "neighbours in columns are correlated: {}", (X[1:] * X[:-1]).mean())
		if m > 1:
			check(abs((X[:, 1:] * X[:, :-1]).mean()) < 7 / np.sqrt(N / 2), "neighbouring columns are correlated: {}", (X[:, 1:] * X[:, :-1]).mean())
	return [pdf]


def c08(case, g):
	pdf = ["rademacher", "normal", "sphere"][case["opt"] % 3]
	n, m, threads = log(case, 5, 600), log(case, 10, 2000, "other"), [1, 3, 8, 40][case["opt"] % 4]
	I = call(P.random.Isotropic, (n, m), pdf=pdf, seed=case["seed"], threads=threads)
	J = call(P.random.Isotropic, (n, m), pdf=pdf, seed=case["seed"], threads=threads)
	try:
		for t in range(2):
			call(I.fill)
			call(J.fill)
			X = np.array(I.values, dtype=float)
			same(X, np.array(J.values, dtype=float), f"fill {t + 1} of size {(n, m)} with {threads} threads differs between two objects of one seed")
			check(np.all(np.any(X != 0, axis=0)) and (n < 30 or len(np.unique(X.T, axis=0)) == m), "columns not filled, or filled alike")
			if pdf == "rademacher":
				check(np.all(np.abs(X) == 1), "other entries than signs")
			if pdf == "sphere":
				close(np.linalg.norm(X, axis=0), np.full(m, np.sqrt(n)), 1e-11 * n, "norms")
		if threads == 1:
			s = P.random.isotropic(pdf=pdf, seed=case["seed"])
			s((n, m))
			same(arr(s((n, m))), X, "one thread differs from the plain generator")
	finally:
		I.executor.shutdown(True)
		J.executor.shutdown(True)


def c09(case, g):
	n = log(case, 30, 420)
	ew = g.normal(size=n) * 3
	A = arr(call(P.random.symmetric, n, ew=ew, pd=bool(case["opt"] % 2), dist=["normal", "uniform"][case["opt"] % 3 % 2], seed=case["seed"]), (n, n))
	close(A, A.T, 0, "symmetry")
	close(np.linalg.eigvalsh(A), np.sort(np.maximum(ew, 0) if case["opt"] % 2 else ew), 1e-12 * n, f"eigenvalues of a symmetric matrix of size {n}")
	if n <= 200:
		B = arr(call(P.random.haar, n, ew=ew, seed=case["seed"]), (n, n))
		close(np.linalg.eigvalsh(B), np.sort(ew), 1e-12 * n, f"eigenvalues of a Haar matrix of size {n}")
	w = np.linalg.eigvalsh(arr(call(P.random.symmetric, n, pd=True, seed=case["seed"]), (n, n)))
	check(w[0] > -1e-10 and w[-1] < 1 + 1e-10, "eigenvalues {} to {} without prescription", w[0], w[-1])


def c10(case, g):
	S, n = P.special, log(case, 20, 20000)
	x = g.normal(size=n)
	q = log(case, 1, 400, "other")
	v = np.clip(x, -1, 1)
	s, t = np.zeros(n), np.ones(n)
	for i in range(q + 1):
		t = t * (1 - v * v) * (2 * i - 1) / (2 * i) if i else t
		s += t
	close(arr(call(S.softsign, x, q=q), (n,)), v * s, 1e-12, f"softsign of {n} values, q={q}")
	close(arr(call(call(S.param_callable, "softsign", q=q), x), (n,)), v * s, 1e-12, f"softsign by name of {n} values, q={q}")
	y = np.clip((x + 0.5) / 1.25, 0, 1)
	close(arr(call(S.smoothstep, x, a=-0.5, b=0.75), (n,)), y * y * (3 - 2 * y), 1e-13, f"smoothstep of {n} values")
	close(arr(call(S.exp, x, t=-1.5), (n,)), np.exp(-1.5 * x), 1e-13 * np.exp(1.5 * np.abs(x).max()), f"exp of {n} values")
	same(arr(call(S.step, x, c=0.3), (n,)), (x >= 0.3) * 1.0, f"step of {n} values")
	for name, f in (("abs", np.abs), ("numrank", lambda z: (np.abs(z) >= 1e-6) * 1.0), ("inv", lambda z: 1 / z), ("identity", lambda z: z)):
		same(arr(call(call(S.param_callable, name), x), (n,)), f(x), f"{name} of {n} values")


def c11(case, g):
	n = log(case, 20, 700)
	B = np.triu(g.normal(size=(n, n)), 1) / n + np.diag(g.uniform(0.5, 2, size=n) * g.choice([-1, 1], size=n))
	inv = np.linalg.inv(B[: n - 1, : n - 1])
	new = arr(call(P.linalg.update_trinv, inv, B[:, n - 1].copy()), (n, n))
	close(B @ new, np.eye(n), 1e-11, f"updated inverse of size {n}")


def c12(case, g):
	method = ["auto", "mrrr", "tqli"][case["opt"] % 3]
	n = log(case, 40, 900 if method != "tqli" else 260)
	d, e = g.normal(size=n), g.normal(size=n - 1)
	if case["opt"] % 4 == 3:
		e[g.integers(0, n - 1, size=2)] = 0.0
	ee = np.append([0.0], e) if case["opt"] % 2 else e
	A = np.diag(d) + np.diag(e, 1) + np.diag(e, -1)
	w = np.linalg.eigvalsh(A)
	T = P.tridiag
	r, Y = call(T.eigh_tridiag, d.copy(), ee.copy(), method=method)
	tol = 1e-13 * n * 8
	r, Y = arr(r, (n,)), arr(Y, (n, n))
	close(np.sort(r), w, tol, f"eigenvalues ({method}) of size {n}")
	close(A @ Y, Y * r, tol, f"eigenvectors ({method}) of size {n}")
	close(Y.T @ Y, np.eye(n), 1e-10, f"orthonormality ({method}) of size {n}")
	close(np.sort(arr(call(T.eigvalsh_tridiag, d, ee, method=method), (n,))), w, tol, f"eigenvalues alone ({method}) of size {n}")
	return [method]


def c13(case, g):
	n = log(case, 30, 500)
	k = min(n, log(case, 20, 500, "other"))
	i = np.arange(1, n)
	d, e = np.zeros(n), i / np.sqrt(4.0 * i * i - 1)  # Legendre
	if case["opt"] % 2:
		d, e = d + 0.3 * np.cos(np.arange(n)), e * (1 + 0.2 * np.sin(i))
	w, U = np.linalg.eigh((np.diag(d) + np.diag(e, 1) + np.diag(e, -1))[:k, :k])
	for quad in ("gw", "fttr") if not case["opt"] % 2 else ("gw",):
		x, y = call(P.integrate.quadrature, d.copy(), e.copy(), deg=k, quad=quad)
		x, y = arr(x, (k,)), arr(y, (k,))
		p = np.argsort(x)
		close(x[p], w, 1e-12 * k, f"{quad} nodes of degree {k} of {n}")
		close(y[p], U[0] ** 2, 1e-8, f"{quad} weights of degree {k} of {n}")
		close(y.sum(), 1.0, 1e-10 * k, f"sum of {quad} weights of degree {k} of {n}")
	return [f"deg {'<' if k < n else '='} size"]


def _spread(n, g):
	"""Symmetric matrix with n well separated eigenvalues."""
	w = -1 + 2 * (np.arange(n) + g.uniform(0.2, 0.8, size=n)) / n
	return sym_from(w, householder(n, g)), w


def _op(A, opt):
	import scipy.sparse as ss
	from scipy.sparse.linalg import aslinearoperator
	return [A, ss.csr_array(A), aslinearoperator(A), np.asfortranarray(A)][opt % 4]


def c14(case, g):
	n = log(case, 60, 700)
	deg = min(n, log(case, 20, 250, "other"))
	A, _ = _spread(n, g)
	v = g.normal(size=n)
	(a, b), Q = call(P.lanczos.lanczos, _op(A, case["opt"]), v0=v, deg=deg, orth=[-1, deg, deg - 1][case["opt"] % 3], return_basis=True)
	a, b, Q = arr(a, (deg,)), arr(b, (deg - 1,)), arr(Q, (n, deg))
	T = np.diag(a) + np.diag(b, 1) + np.diag(b, -1)
	close(Q[:, 0], v / np.linalg.norm(v), 1e-13, "first basis vector")
	close(Q.T @ Q, np.eye(deg), 1e-10, f"orthonormality, degree {deg} of {n}")
	close(Q.T @ A @ Q, T, 1e-10, f"projection, degree {deg} of {n}")
	R = A @ Q - Q @ T
	close(R[:, :-1], np.zeros((n, deg - 1)), 1e-10, f"recurrence, degree {deg} of {n}")
	check(np.all(b >= 0), "negative subdiagonal entry")
	x, y = call(P.lanczos.lanczos, A, v0=3.0 * v, deg=deg, orth=-1)
	close(arr(x), a, 1e-9, f"diagonal without basis, degree {deg} of {n}")
	close(arr(y), b, 1e-9, f"subdiagonal without basis, degree {deg} of {n}")


def c15(case, g):
	n = log(case, 60, 600)
	deg = min(n, log(case, 20, 200, "other"))
	A, w = _spread(n, g)
	v = g.normal(size=n)
	kw = dict(v0=v, orth=deg)
	r, Y, Q = call(P.lanczos.rayleigh_ritz, _op(A, case["opt"]), deg=deg, return_eigenvectors=True, return_basis=True, **kw)
	r, Y, Q = arr(r, (deg,)), arr(Y, (deg, deg)), arr(Q, (n, deg))
	rs = np.sort(r)
	ws = np.sort(w)
	check(np.all(rs >= ws[:deg] - 1e-10) and np.all(rs <= ws[n - deg :] + 1e-10), "Ritz values of degree {} of {} are not within the bounds of the spectrum", deg, n)
	close(Y.T @ Y, np.eye(deg), 1e-10, "orthonormality of the Ritz vectors")
	V = Q @ Y
	res = np.linalg.norm(A @ V - V * r, axis=0)
	last = np.linalg.norm(A @ Q[:, -1] - Q @ (Q.T @ (A @ Q[:, -1])))
	check(np.all(res <= last * 1.0001 + 1e-9), "residual {} above the last coupling {}", res.max(), last)
	r2 = np.sort(arr(call(P.lanczos.rayleigh_ritz, A, deg=deg, **kw), (deg,)))
	close(r2, rs, 1e-9, "values with and without vectors")


def _few(case, g, hi=700):
	"""Large matrix with few distinct eigenvalues."""
	n, r = log(case, 60, hi), 2 + case["opt"] % 5
	vals = np.array([0.4, 1.0, 1.9, 2.5, 3.3, 4.6])[:r]
	ew = vals[np.append(np.arange(r), g.integers(0, r, size=n - r))]
	U = householder(n, g)
	return n, r, sym_from(ew, U), lambda f, v: U @ (f(ew) * (U.T @ v).T).T


FUN = [("exp", np.exp), ("log", np.log), ("inv", lambda x: 1 / x), ("sqrt", np.sqrt), (np.tanh, np.tanh)]


def c16(case, g):
	f, ref = FUN[case["opt"] % 5]
	if case["opt"] % 2:
		n, r, A, fA = _few(case, g)
		deg = max(2, min(n, r + log(case, 1, 60, "other") - 1))
	else:
		n = log(case, 40, 220)
		A, w = _spread(n, g)
		A, deg = A + 2 * np.eye(n), n
		lam, U = np.linalg.eigh(A)
		fA = lambda h, v: U @ (h(lam) * (U.T @ v).T).T
	M = call(P.operators.MatrixFunction, _op(A, case["opt"]), f, deg=deg, orth=-1)
	check(M.shape == (n, n) and M.degree <= n, "shape {}, degree {}", M.shape, M.degree)
	x, X = g.normal(size=n), g.normal(size=(n, log(case, 1, 20, "other")))
	for j in range(1, X.shape[1], 2):
		X[:, j] = twin(X[:, j - 1], g)
	tol = 1e-8 * np.sqrt(n)
	close(np.ravel(arr(call(M.__matmul__, x))), fA(ref, x), tol, f"f(A)v at size {n}, degree {deg}")
	close(arr(call(M.__matmul__, X), X.shape), fA(ref, X), tol, f"f(A)V at size {n}, degree {deg}")


def c17(case, g):
	f, ref = FUN[case["opt"] % 5]
	if case["opt"] % 2:
		n, r, A, fA = _few(case, g)
		deg = max(2, min(n, r + log(case, 1, 60, "other") - 1))
	else:
		n = log(case, 40, 220)
		A, w = _spread(n, g)
		A, deg = A + 2 * np.eye(n), min(n, 60)
		lam, U = np.linalg.eigh(A)
		fA = lambda h, v: U @ (h(lam) * (U.T @ v).T).T
	M = call(P.operators.MatrixFunction, _op(A, case["opt"]), f, deg=deg, orth=-1)
	X = g.normal(size=(n, log(case, 1, 60, "other")))
	for j in range(1, X.shape[1], 2):
		X[:, j] = twin(X[:, j - 1], g)
	want = np.einsum("ij,ij->j", X, fA(ref, X))
	close(np.ravel(arr(call(M.quad, X))), want, 1e-8 * n, f"quadratic forms at size {n}, degree {deg}")
	close(num(call(M.quad, X[:, 0])), want[0], 1e-8 * n, f"quadratic form at size {n}, degree {deg}")


def c19(case, g):
	n = log(case, 30, 600)
	w = g.uniform(0.1, 1, size=n) * g.choice([-1, 1], size=n)
	w[0] = [1.4, -1.4][case["opt"] % 2]
	A = sym_from(w, householder(n, g))
	N = call(P.operators.normalize_unit, _op(A, case["opt"]))
	lam = np.sort(np.linalg.eigvalsh(arr(N @ np.eye(n), (n, n))))
	close(lam, np.sort((w + w[0]) / (2 * w[0])), 1e-9, f"normalised spectrum of size {n}")


def c21(case, g):
	n = log(case, 30, 1200)
	B = g.normal(size=(n, n))
	A = (B + B.T) / np.sqrt(n)
	batch, count = log(case, 1, 700, "other"), int(g.integers(1, 400))
	s = RecSampler(probe_source(["rademacher", "normal", "sphere"][case["opt"] % 3], case["seed"], case["opt"] >= 6))
	est, r = call(P.trace.hutch, _op(A, case["opt"]), batch=batch, converge="count", count=count, pdf=s, full=True, record=True)
	V = s.columns(n)
	k = -(-count // batch) * batch
	check(V.shape[1] == k == len(r.estimator) == int(r.nit), "{} probes, {} samples for count {} in batches of {}", V.shape[1], r.nit, count, batch)
	q = np.einsum("ij,ij->j", V, A @ V)
	close(num(est), q.mean(), 1e-10 * n, f"estimate at size {n}, batch {batch}")
	close(np.ravel(arr(r.estimator.values)), q, 1e-10 * n * 4, f"samples at size {n}, batch {batch}")
	s = RecSampler(probe_source("rademacher", case["seed"]))
	est = call(P.trace.hutch, A, converge="count", count=min(count, 60), pdf=s)
	V = s.columns(n)
	close(num(est), np.einsum("ij,ij->j", V, A @ V).mean(), 1e-10 * n, f"estimate at size {n}, one by one")


def c22(case, g):
	n = log(case, 30, 500)
	m = log(case, 3, 500, "other")
	A, _ = _spread(n, g)
	A = A + 0.5 * np.eye(n)
	mode = ["reduced", "full"][case["opt"] % 2]
	s = RecSampler(probe_source(["rademacher", "normal", "sphere"][case["opt"] % 3], case["seed"]))
	given = case["opt"] < 8
	est = num(call(P.trace.hutchpp, _op(A, case["opt"]), mode=mode, pdf=s, **({"m": m} if given else {})))
	W, G = s.drawn[0], s.drawn[1]
	m = m if given else n // 3
	check(W.shape[1] <= n and W.shape[1] >= min(m, n), "sketch of {} columns for {} samples at size {}", W.shape[1], m, n)
	Q = np.linalg.qr(A @ W)[0]
	R = G - Q @ (Q.T @ G)
	close(est, np.trace(Q.T @ A @ Q) + np.einsum("ij,ij->j", R, A @ R).mean(), 1e-8 * n, f"estimate at size {n}, m={m} ({mode})")


def c23(case, g):
	n = log(case, 20, 150)
	batch = log(case, 1, 160, "other")
	A, _ = _spread(n, g)
	A = A + 3 * np.eye(n)
	W = arr(P.random.isotropic((n, n), pdf="sphere", seed=case["seed"]))
	est = num(call(P.trace.xtrace, _op(A, case["opt"]), batch=batch, seed=case["seed"], converge="count", count=n))
	s = np.linalg.svd(W, compute_uv=False)
	if s[-1] > 1e-3 * s[0]:
		close(est, np.trace(A), 1e-6 * n * s[0] / s[-1], f"estimate with as many sphere probes as the dimension {n}, batch {batch}")


def c24(case, g):
	from reuse import _ratios
	n, count = log(case, 30, 1200), log(case, 1, 120, "other")
	B = g.normal(size=(n, n))
	A = (B + B.T) / np.sqrt(n)
	s = RecSampler(probe_source("rademacher", case["seed"], case["opt"] >= 6))
	full = bool(case["opt"] % 2)
	r = call(P.diagonal.diag, _op(A, case["opt"]), converge="count", count=count, pdf=s, full=full)
	V = s.columns(n)
	check(V.shape[1] == count, "{} probes for a count of {}", V.shape[1], count)
	close(np.ravel(arr(r[0] if full else r)), _ratios(V, A), 1e-10 * n, f"estimate at size {n}, {count} probes")


def c25(case, g):
	from props.c25 import loo
	n = log(case, 20, 250)
	k = min(n, log(case, 2, 40, "other"))
	A, _ = _spread(n, g)
	A = A + 3 * np.eye(n)
	W = arr(P.random.isotropic((n, k), pdf="sphere", seed=case["seed"]))
	s = np.linalg.svd(A @ W, compute_uv=False)
	d = arr(call(P.diagonal.xdiag, _op(A, case["opt"]), m=2 * k, pdf="sphere", seed=case["seed"]), (n,))
	if s[-1] > 1e-3 * s[0]:
		close(d, loo(A, W), 1e-6 * n * (s[0] / s[-1]), f"leave-one-out estimate at size {n}, {k} probes")
	if case["opt"] % 3 == 0:
		d = arr(call(P.diagonal.xdiag, A, seed=case["seed"]), (n,))
		s = np.linalg.svd(P.random.isotropic((n, n), pdf="sphere", seed=case["seed"]), compute_uv=False)
		check(np.all(np.isfinite(d)), "estimate with a full sketch is not finite at size {}", n)


def c28(case, g):
	from props.c28 import install, glyphs, find, POINTS, LINES
	install()
	n = log(case, 100, 20000)
	x = g.normal(size=n) + 2
	gs, _ = glyphs(call(P.plotting.figure_sequence, x))
	find(gs, POINTS, np.arange(1, n + 1), x, 1e-9, f"{n} samples")
	find(gs, LINES, np.arange(1, n + 1), np.cumsum(x) / np.arange(1, n + 1), 1e-9, f"running mean of {n} samples")


def c30(case, g):
	f, ref = FUN[case["opt"] % 5]
	n, r, A, fA = _few(case, g, 500)
	deg = max(2, min(n, r + log(case, 1, 40, "other") - 1))
	M = call(P.operators.MatrixFunction, _op(A, case["opt"]), f, deg=deg, orth=-1)
	batch, count = log(case, 1, 100, "other"), int(g.integers(1, 60))
	s = RecSampler(probe_source("rademacher", case["seed"], case["opt"] >= 6))
	est = num(call(P.trace.hutch, M, batch=batch, converge="count", count=count, pdf=s, full=True)[0])
	V = s.columns(n)
	close(est, np.einsum("ij,ij->j", V, fA(ref, V)).mean(), 1e-8 * n, f"trace of f(A) at size {n}, batch {batch}")
	s = RecSampler(probe_source("rademacher", case["seed"]))
	d = call(P.diagonal.diag, M, converge="count", count=3, pdf=s)
	from reuse import _ratios
	V = s.columns(n)
	close(np.ravel(arr(d)), (np.cumsum(V * fA(ref, V), axis=1) / np.arange(1, 4)).mean(axis=1), 1e-8 * n, f"diagonal of f(A) at size {n}")


BIG = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
