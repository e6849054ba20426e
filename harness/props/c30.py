"""C30: stochastic Lanczos quadrature estimates the trace of f(A)."""
import numpy as np
from core import Sub, check, close, same, arr, num, call
from lib import P, strategies, s_large, Large, s_matrix, matrix, any_operator, ALL_OPS, s_fun, make_fun, positive_only, fun_scale, s_spectral, Spectral, rng, RecSampler, probe_source, sign_vectors, ListSource, sym_from, orth, sizes
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = ["_lanczos", "tqli", "fttr"]
RULE = ("same_probes: matrices of size 1..16 (one in five up to 48) with 1..7 separated eigenvalues, fourteen functions, any operator kind, both precisions, degrees below, at and beyond the number of eigenvalues, single and batched modes, recorded or seeded named probes: each estimator (Hutchinson, Hutch++, diagonal, XTrace, XDiag) on the matrix function against the same call on "
        "the explicit f(A), and Hutchinson against the mean of single quadratic forms at any degree. long: up to 30 separated eigenvalues, expansions of up to 30 steps, Chebyshev polynomials up to the highest exact degree and functions of arbitrary values, batches of up to 13 probes. signs: all 2^n sign vectors (n <= 7) against the exact trace. identities: log-determinant, inverse trace, determinant of the exponential, rank, nuclear and Frobenius norms of arbitrary matrices at full degree over all sign vectors (n <= 6). "
        "Non-trivial: size two or more and two or more distinct eigenvalues.")


def s_same():
	st = strategies()
	return st.fixed_dictionaries({"S": s_spectral(16, big=48), "fun": s_fun(), "op": st.sampled_from(ALL_OPS), "dt": st.sampled_from(["f8", "f8", "f8", "f4"]), "deg": st.sampled_from(["exact", "exact", "more", "n", "low"]), "extra": st.integers(1, 4), "est": st.sampled_from(["hutch", "hutch", "hutchpp", "diag", "xtrace", "xdiag"]),
	                              "pdf": st.sampled_from(["rademacher", "normal", "sphere"]), "named": st.booleans(), "seed": st.integers(0, 10**6), "count": sizes(1, 14, 70), "batch": sizes(1, 12, 40), "full": st.booleans(), "m": sizes(1, 12, 40)})


def build(case, S, lowest=2):
	arg, kw, ref = make_fun(case["fun"])
	r = len(S.vals)
	deg = {"exact": r, "more": r + case["extra"], "n": S.n, "low": max(r - case["extra"], 2)}[case["deg"]]
	deg = max(deg, 2)
	mk = {"deg": deg, "orth": -1}
	if case["dt"] == "f4":
		mk["dtype"] = np.float32
	return arg, kw, ref, mk, min(deg, S.n) >= r


def run_same(case, c):
	S = Spectral(case["S"], positive_only(case["fun"]["f"]))
	n, dt, est = S.n, case["dt"], case["est"]
	arg, kw, ref, mk, exact = build(case, S)
	if case["fun"]["f"] == "numrank" and (dt == "f4" or np.min(np.abs(S.vals)) < 1e-9):
		return
	if dt == "f4" and (mk["deg"] > len(S.vals) or len(S.vals) < 3):
		c.label("skipped: single precision beyond exhaustion")
		return
	if not exact and est != "hutch":
		c.label("skipped: inexact products")
		return
	MF = P.operators.MatrixFunction
	new = lambda: call(MF, any_operator(S.A, case["op"], dt), arg, **mk, **kw)
	FA = sym_from(ref(S.ew), S.U).astype(dt)
	scale = fun_scale(ref, S.vals) + 1e-12
	tol = (1e-8 if dt == "f8" else 2e-3) * n * scale

	def probes():
		return {"pdf": case["pdf"], "seed": case["seed"]} if case["named"] else {"pdf": RecSampler(probe_source(case["pdf"], case["seed"]))}
	T = P.trace
	tag = f"{est}, f={case['fun']['f']}, degree {mk['deg']}, {len(S.vals)} eigenvalues, n={n}"
	if est == "hutch":
		hk = dict(converge="count", count=case["count"], batch=case["batch"])
		M = new()
		p = {"pdf": RecSampler(probe_source(case["pdf"], case["seed"], case["seed"] % 3 == 2))}
		r = call(T.hutch, M, full=case["full"], record=True, **hk, **p)
		got = num(r[0] if case["full"] else r)
		V = p["pdf"].columns(n)
		vmax = float(np.max(np.einsum("ij,ij->j", V, V))) / n
		# the mean of the single forms, at any degree
		M1 = new()
		single = np.array([num(call(M1.quad, V[:, j])) for j in range(V.shape[1])])
		close(got, single.mean(), tol * vmax, f"mean of the quadratic forms ({tag})")
		if case["full"]:
			close(np.ravel(r[1].estimator.values).astype(float), single, tol * vmax, f"samples ({tag})")
			check(len(r[1].estimator) == V.shape[1], "{} samples from {} probes", len(r[1].estimator), V.shape[1])
		if exact:
			want = np.einsum("ij,ij->j", V, S.f(ref, V)).mean()
			close(got, want, tol * vmax, f"mean of v'f(A)v ({tag})")
			a = call(T.hutch, new(), full=case["full"], **hk, **probes())
			b = call(T.hutch, FA, full=case["full"], **hk, **probes())
			close(num(a[0] if case["full"] else a), num(b[0] if case["full"] else b), tol * 30, f"matrix function against the explicit f(A) ({tag})")
	elif est == "hutchpp":
		m = min(case["m"], n)
		hk = dict(m=m, mode="full" if case["full"] else "reduced")
		s = RecSampler(probe_source(case["pdf"], case["seed"]))
		b = num(call(T.hutchpp, FA, pdf=s, **hk))
		sv = np.linalg.svd(FA.astype(float) @ s.drawn[0].reshape(n, -1), compute_uv=False)
		if sv[-1] < (1e-4 if dt == "f8" else 0.1) * scale:
			c.label("skipped: dependent sketch")
			return
		a = num(call(T.hutchpp, new(), pdf=RecSampler(probe_source(case["pdf"], case["seed"])), **hk))
		close(a, b, tol * 30 * scale / sv[-1], f"matrix function against the explicit f(A) ({tag})")
		# the matrix function without its own quadratic form
		a = num(call(T.hutchpp, 1.0 * new(), pdf=RecSampler(probe_source(case["pdf"], case["seed"])), **hk))
		close(a, b, tol * 30 * scale / sv[-1], f"matrix function through products only ({tag})")
	elif est == "diag":
		hk = dict(converge="count", count=case["count"], full=case["full"])
		a, b = call(P.diagonal.diag, new(), **hk, **probes()), call(P.diagonal.diag, FA, **hk, **probes())
		a, b = (a[0], b[0]) if case["full"] else (a, b)
		p = RecSampler(probe_source(case["pdf"], case["seed"]))
		V = p.columns(n)
		# the first denominators v_i^2 may be small for normal probes
		t = tol * (30 if case["pdf"] == "rademacher" else np.inf)
		a, b = arr(np.ravel(a), (n,)), arr(np.ravel(b), (n,))
		if np.isfinite(t):
			close(a, b, t, f"matrix function against the explicit f(A) ({tag})")
		else:
			ps = RecSampler(probe_source(case["pdf"], case["seed"]))
			a = call(P.diagonal.diag, new(), converge="count", count=case["count"], pdf=ps)
			V = ps.columns(n)
			den = np.cumsum(V**2, axis=1)
			want = (np.cumsum(V * S.f(ref, V), axis=1) / den).mean(axis=1)
			close(arr(np.ravel(a), (n,)), want, tol * 3 * (np.cumsum(np.abs(V) * np.linalg.norm(V, axis=0), axis=1) / den).mean(axis=1), f"diagonal estimate from the probes ({tag})")
	else:
		m = min(case["m"], n)
		sing = np.abs(ref(S.vals)).min() / scale
		if dt == "f4" or sing < 1e-3:
			c.label("skipped: singular function")
			return
		if est == "xtrace":
			pk = dict(pdf=case["pdf"], seed=case["seed"], batch=case["batch"], converge="count", count=m)
			s = call(P.random.isotropic, pdf=case["pdf"], seed=case["seed"])
			f = lambda A: num(call(T.xtrace, A, **pk))
		else:
			pk = dict(pdf=case["pdf"], seed=case["seed"], m=max(2, 2 * (m // 2)))
			f = lambda A: arr(call(P.diagonal.xdiag, A, **pk), (n,))
		W = np.column_stack([P.random.isotropic(pdf=case["pdf"], seed=case["seed"])((n, k)) for k in ([pk["m"] // 2] if est == "xdiag" else [n])])
		if case["pdf"] == "rademacher" or W.shape[1] > n // 2:
			# probes may be dependent: the leave-one-out estimators are then singular
			if est == "xtrace":
				ss = P.random.isotropic(pdf=case["pdf"], seed=case["seed"])
				cols = [ss((n, case["batch"])) for _ in range(-(-m // case["batch"]))]
				W = np.column_stack(cols)[:, :n]
			if np.linalg.cond(W) > 1e3:
				c.label("skipped: dependent probes")
				return
		cond = np.linalg.cond(W) if W.shape[1] <= n else 1e3
		try:
			b = f(FA)
		except Exception as e:
			if "LinAlg" in str(e) or "ingular" in str(e):
				return
			raise
		a = f(new())
		close(a, b, tol * 1e3 * (1 + cond) ** 2 / sing**2, f"matrix function against the explicit f(A) ({tag})")
	c.mark(n >= 2 and len(S.vals) >= 2)
	c.label(est, case["fun"]["f"], dt, case["op"], "exact" if exact else "low degree", "batched" if case["full"] else "single")


def s_long():
	st = strategies()
	return st.fixed_dictionaries({"L": s_large(), "m": st.integers(1, 13), "batch": st.integers(1, 13), "full": st.booleans(), "wseed": st.integers(0, 10**6)})


def run_long(case, c):
	"""Long quadratures: the estimate is the mean of v'f(A)v over the probes."""
	L, m = Large(case["L"]), case["m"]
	n = L.n
	f, deg, fe = L.plan(True)
	V = np.column_stack([L.vector(case["wseed"] + i) for i in range(m)])
	if not all(L.good(V[:, i], deg) for i in range(m)):
		c.label("skipped: ambiguous coupling")
		return
	M = call(P.operators.MatrixFunction, any_operator(L.A, case["L"]["op"]), f, deg=deg, orth=L.orth(deg))
	want = np.einsum("ij,i->j", (L.U.T @ V) ** 2, fe)
	tol = 1e-10 * np.abs(fe).max() * np.max(np.einsum("ij,ij->j", V, V))
	m = m - m % case["batch"] if m > case["batch"] else m
	b = min(case["batch"], m)
	r = call(P.trace.hutch, M, pdf=ListSource(V), converge="count", count=m, batch=b, full=case["full"], record=case["full"])
	tag = f"({case['L']['what']}, degree {deg}, {L.r} eigenvalues, n={n}, {m} probes, batch {b})"
	close(num(r[0] if case["full"] else r), want[:m].mean(), tol, "mean of v'f(A)v " + tag)
	if case["full"]:
		close(np.ravel(r[1].estimator.values).astype(float), want[:m], tol, "samples " + tag)
	c.mark(deg >= 4 and m >= 2)
	c.label(case["L"]["what"], "full" if case["full"] else "estimate", f"batch{min(b, 9)}")


def s_signs():
	st = strategies()
	return st.fixed_dictionaries({"S": s_spectral(7, 5), "fun": s_fun(), "op": st.sampled_from(ALL_OPS), "dt": st.sampled_from(["f8"]), "deg": st.sampled_from(["exact", "more", "n"]), "extra": st.integers(1, 4), "order": st.integers(0, 100), "full": st.booleans(), "lb": st.integers(0, 7)})


def run_signs(case, c):
	S = Spectral(case["S"], positive_only(case["fun"]["f"]))
	n = S.n
	arg, kw, ref, mk, exact = build(case, S)
	if not exact or case["fun"]["f"] == "numrank" and np.min(np.abs(S.vals)) < 1e-9:
		return
	M = call(P.operators.MatrixFunction, any_operator(S.A, case["op"]), arg, **mk, **kw)
	got = signs_trace(M, n, case)
	tol = 1e-8 * n * (fun_scale(ref, S.vals) + 1e-12)
	close(got, np.sum(ref(S.ew)), tol, f"trace of {case['fun']['f']}(A) over all sign vectors (degree {mk['deg']}, {len(S.vals)} eigenvalues)")
	c.mark(n >= 2 and len(S.vals) >= 2)
	c.label(case["fun"]["f"], case["op"], "batched" if case["full"] else "single")


def signs_trace(M, n, case):
	V = sign_vectors(n, case["order"])
	r = call(P.trace.hutch, M, pdf=ListSource(V), converge="count", count=2**n, batch=2 ** min(case["lb"], n), full=case["full"])
	return num(r[0] if case["full"] else r)


IDS = ["logdet", "logdet_small", "inverse", "expdet", "rank", "rank_default", "nuclear", "frobenius", "trace", "sqrt", "charpoly"]


def s_ids():
	st = strategies()
	return st.fixed_dictionaries({"what": st.sampled_from(IDS), "n": st.integers(1, 6), "seed": st.integers(0, 10**6), "ew": st.lists(st.sampled_from([-2.0, -1.0, -0.4, 0.1, 0.5, 1.0, 1.1, 3.0, 9.0]), min_size=6, max_size=6), "zeros": st.integers(0, 4), "jit": st.booleans(), "U": st.sampled_from(["dense", "dense", "eye", "blocks"]), "op": st.sampled_from(ALL_OPS), "full": st.booleans(), "order": st.integers(0, 100), "lb": st.integers(0, 6), "deg": st.sampled_from(["n", "default", "more"])})


def run_ids(case, c):
	n, w, g = case["n"], case["what"], rng(case["seed"])
	ew = np.array(case["ew"][:n])
	if case["jit"]:
		ew = ew * g.uniform(0.9, 1.1, size=n)
	if w in ("logdet", "inverse", "sqrt"):
		ew = np.abs(ew)
	if w == "logdet_small":
		# one tiny eigenvalue, resolved absolutely at full degree
		ew = np.abs(ew)
		ew[0] = 10.0 ** -(4 + case["zeros"] * 1.4)
		case = {**case, "U": "eye", "deg": "n"}
	if w in ("rank", "rank_default", "nuclear", "frobenius", "trace", "expdet"):
		ew[:min(case["zeros"], n)] = 0.0
	A = sym_from(ew, orth(n, case["seed"] + 1, case["U"]))
	z = 12.0
	f, kw, want = {"logdet": ("log", {}, np.linalg.slogdet(A)[1]), "logdet_small": ("log", {}, np.linalg.slogdet(A)[1]), "inverse": ("inv", {}, np.sum(1 / ew) if np.all(ew) else 0), "expdet": ("exp", {"t": -0.5}, np.sum(np.exp(-0.5 * ew))), "rank": ("numrank", {"threshold": 0.05}, np.sum(ew != 0)), "rank_default": ("numrank", {}, np.sum(ew != 0)),
	               "nuclear": ("abs", {}, np.linalg.norm(A, "nuc")), "frobenius": (np.square, {}, np.linalg.norm(A, "fro") ** 2), "trace": (None, {}, np.trace(A)), "sqrt": ("sqrt", {}, np.sum(np.sqrt(np.abs(ew)))), "charpoly": (lambda x: np.log(z - x), {}, np.linalg.slogdet(z * np.eye(n) - A)[1])}[w]
	if case["deg"] != "default":
		kw = dict(kw, deg=max(n, 2) + (3 if case["deg"] == "more" else 0))
	M = call(P.operators.MatrixFunction, any_operator(A, case["op"]), f, orth=-1, **kw)
	got = signs_trace(M, n, case)
	close(got, want, 1e-6 * n * max(1.0, np.abs(ew).max() ** 2), f"{w} over all sign vectors")
	c.mark(n >= 2 and len(set(ew)) >= 2)
	c.label(w, case["op"], case["deg"])


F0 = {"f": "exp", "t": 0.5, "q": None, "ab": None, "thr": None, "poly": [1.0]}
S0 = {"n": 9, "gaps": [4, 5, 3], "start": -5, "ex": [True, True, True], "seed": 4, "U": "dense"}
C0 = {"S": S0, "fun": F0, "op": "dense", "dt": "f8", "deg": "exact", "extra": 1, "est": "hutch", "pdf": "rademacher", "named": False, "seed": 3, "count": 7, "batch": 3, "full": True, "m": 4}
SUBS = [
	Sub("same_probes", s_same, run_same, quick=500, thorough=20000, shards=5, examples=[{**C0, "est": e, "full": f, "named": f} for e in ("hutch", "hutchpp", "diag", "xtrace", "xdiag") for f in (True, False)] + [{**C0, "dt": "f4"}, {**C0, "deg": "low"}], cost=3),
	Sub("long", s_long, run_long, quick=160, thorough=5000, shards=3),
	Sub("signs", s_signs, run_signs, quick=150, thorough=5000, shards=2),
	Sub("identities", s_ids, run_ids, quick=150, thorough=5000, shards=2),
]
SUBS.append(reuse_sub("C30"))
SUBS.append(big_sub("C30"))
