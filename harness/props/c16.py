"""C16: matrix-function products equal f(A)v where theory says they are exact."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, strategies, s_large, Large, s_matrix, matrix, any_operator, ALL_OPS, dense_of, lanczos_ref, start_vector, s_fun, make_fun, positive_only, fun_scale, s_spectral, Spectral, rng, sizes, sym_from
from big import sub as big_sub
from reuse import sub as reuse_sub
from extreme import sub as extreme_sub

NEEDS = ["_lanczos", "tqli", "fttr"]
RULE = ("spectral: matrices of size 1..20 (one in five up to 40) with 1..7 separated eigenvalues of any multiplicity, vectors exciting subsets of them, all built-in functions with parameters and six user callables, degrees from the number excited to beyond n, every operator kind, both precisions of the operator and of the computation, "
        "full and partial reorthogonalisation, and call histories of up to six products and quadratic forms before the checked one. polynomial: arbitrary symmetric matrices and polynomials of degree below the expansion's. "
        "long: up to 30 separated eigenvalues with outliers, weakly excited ones, vectors scaled by 1e+-30, functions by 1e+-12: Chebyshev polynomials up to the highest exact degree and functions with arbitrary values at the eigenvalues. compose: functions of functions of a matrix up to three levels, with sums and multiples between. square: blocks of particular form (symmetric, the identity, the matrix itself..) by every way to multiply. interface: adjoint, transpose, sums, multiples, products, blocks. Oracle: eigen-decomposition. Non-trivial: size and number of excited eigenvalues two or more.")


def s_case():
	st = strategies()
	return st.fixed_dictionaries({"S": s_spectral(big=48), "fun": s_fun(), "op": st.sampled_from(ALL_OPS), "dt": st.sampled_from(["f8", "f8", "f8", "f4"]), "deg": st.one_of(st.none(), st.integers(2, 24)), "orth": st.sampled_from([-1, -1, 30, None, 2, 5, 0]), "opdt": st.sampled_from(["f8", "f8", "f8", "f4"]), "vseed": st.integers(0, 10**6),
	                              "hist": st.lists(st.tuples(st.sampled_from(["mv", "quad", "zero", "full", "block", "fun"]), st.integers(0, 99)), max_size=6), "c": st.sampled_from([2.0, -1.0, 1e3, -0.01]), "k": st.integers(1, 3)})


def setup(case, quad=False):
	arg, kw, ref = make_fun(case["fun"])
	S = Spectral(case["S"], positive_only(case["fun"]["f"]))
	if case["fun"]["f"] == "numrank" and case["fun"]["thr"] is None and np.min(np.abs(S.vals)) < 1e-9:
		return None
	v = S.vector(case["vseed"])
	K, b = S.K(v), S.smallest_coupling(v)
	if b < 5e-3:
		return None
	n, dt, orth = S.n, case["dt"], case["orth"]
	if orth in (0, 2, 5, None) and (K > 6 or b < 0.03):
		orth = -1
	deg = 20 if case["deg"] is None else case["deg"]
	low = "f4" in (dt, case["opdt"])
	if low:
		if K < 2 and n > 1:
			return None
		deg, orth = max(K, 2), -1  # a single-precision expansion beyond exhaustion cannot be recognised
	if min(deg, n) < K:
		deg = K
	mk = dict(deg=deg) if not (case["deg"] is None and deg == 20) else {}
	if orth is not None:
		mk["orth"] = orth
	if dt == "f4":
		mk["dtype"] = np.float32
	F = fun_scale(ref, S.vals)
	eps = 3e-7 if low else 2.3e-16
	tol = 100 * eps * n * (F + 1e-9) * (1 + 1 / b) ** 2
	return S, arg, kw, ref, v, K, b, mk, tol, deg


def history(M, hist, S, c, ref=None):
	"""Earlier calls on the same operator; their results are irrelevant but must stay as they are."""
	out = []
	for what, s in hist:
		x = rng(s).normal(size=S.n)
		if what == "mv":
			r = M.matvec(x)
		elif what == "quad":
			r = M.quad(x)
		elif what == "zero":
			r = M.matvec(np.zeros(S.n))
		elif what == "full":
			r = M @ S.vector(s, np.ones(len(S.vals), dtype=bool))
		elif what == "fun":
			f = M.fun
			M.fun = np.square
			r = M @ x
			M.fun = f
		else:
			r = M @ rng(s).normal(size=(S.n, 2))
		out.append((r, np.array(r, copy=True)))
	return out


def run(case, c):
	st = setup(case)
	if st is None:
		return
	S, arg, kw, ref, v, K, b, mk, tol, deg = st
	n, dt = S.n, case["dt"]
	op = any_operator(S.A, case["op"], case["opdt"])
	MF = P.operators.MatrixFunction
	M = call(MF, op, arg, **mk, **kw)
	check(tuple(M.shape) == (n, n), "shape {}", M.shape)
	check(np.dtype(M.dtype) == np.dtype(mk.get("dtype", "f8")), "dtype {}", M.dtype)
	check(M.degree == min(deg, n), "degree {} for {} in dimension {}", M.degree, deg, n)
	past = call(history, M, case["hist"], S, c)
	vn = np.linalg.norm(v)
	want = S.f(ref, v)
	x = v.astype(dt)
	x0 = x.copy()
	tag = f"f={case['fun']['f']}, degree {deg}, {K} excited eigenvalues"
	y = arr(call(lambda: M @ x), (n,), name="product with a vector")
	close(y, want, tol * vn, f"f(A)v ({tag}, after {[h[0] for h in case['hist']]})")
	close(arr(call(M.matvec, x), (n,)), y, tol * vn, "matvec differs from the product")
	close(arr(call(lambda: M @ x[:, None]), (n, 1)), y[:, None], tol * vn, "product with a column")
	same(x, x0, "the vector was modified")
	same(np.asarray(dense_of(op), dtype=float), S.A.astype(case["opdt"]).astype(float), "the operator was modified")
	for r, snap in past:
		same(r, snap, "the result of an earlier call was altered")
	keep = y.copy()
	s = case["c"]
	close(arr(call(lambda: M @ (x * np.dtype(dt).type(s))), (n,)), s * y, tol * vn * abs(s) * 2, "homogeneity")
	same(arr(call(lambda: M @ np.zeros(n)), (n,)), np.zeros(n), "the zero vector is not mapped to zero")
	k = case["k"]
	X = np.column_stack([S.vector(case["vseed"] + i) for i in range(k)]).astype(dt)
	if all(S.smallest_coupling(X[:, i].astype(float)) > 0.7 * b for i in range(k)):
		close(arr(call(lambda: M @ X), (n, k)), S.f(ref, X.astype(float)), 3 * tol * np.linalg.norm(X), "product with a block")
		close(arr(call(lambda: M @ np.asfortranarray(X)), (n, k)), S.f(ref, X.astype(float)), 3 * tol * np.linalg.norm(X), "product with a Fortran-ordered block")
	same(y, keep, "a returned product was altered by later calls")
	# a fresh operator gives the same
	M2 = call(MF, any_operator(S.A, case["op"], case["opdt"]), arg, **mk, **kw)
	close(arr(call(lambda: M2 @ x), (n,)), y, tol * vn, "result depends on earlier calls")
	for name, T in (("transpose", M.T), ("adjoint", M.H)):
		close(arr(call(lambda: T @ x), (n,)), y, 2 * tol * vn, name)
	close(arr(call(M.rmatvec, x), (n,)), y, 2 * tol * vn, "rmatvec")
	close(arr(call(lambda: (2.0 * M) @ x), (n,)), 2 * y, 4 * tol * vn, "multiple")
	close(arr(call(lambda: (M + M2) @ x), (n,)), 2 * y, 4 * tol * vn, "sum")
	close(arr(call(lambda: (-M) @ x), (n,)), -y, 2 * tol * vn, "negative")
	close(arr(call(lambda: (M - M2) @ x), (n,)), np.zeros(n), 4 * tol * vn, "difference")
	# another function through the property
	M.fun = lambda t: np.cos(t)
	close(arr(call(lambda: M @ x), (n,)), S.f(np.cos, v), (tol + 100 * (3e-7 if "f4" in (dt, case["opdt"]) else 2.3e-16) * n * (1 + np.abs(S.vals).max()) * (1 + 1 / b) ** 2) * vn, "after replacing the function")
	c.mark(n >= 2 and K >= 2)
	c.label(case["fun"]["f"], case["op"], dt + " over " + case["opdt"], f"orth {mk.get('orth', 'default')}", "history" if case["hist"] else "fresh", "exhausted early" if K < min(deg, n) else "exact degree")


def s_poly():
	st = strategies()
	return st.fixed_dictionaries({"A": s_matrix(2, 14, big=40), "op": st.sampled_from(ALL_OPS), "deg": st.integers(2, 12), "coef": st.lists(st.sampled_from([-2.0, -1.0, 0.5, 1.0, 3.0]), min_size=1, max_size=12), "v": st.sampled_from(["normal", "e", "ones", "ints", "few"]), "vseed": st.integers(0, 10**6), "helper": st.booleans()})


def clean_dimension(A, v, deg, low=1e-6, high=1e-5):
	"""Dimension of the expansion up to deg, or None if an off-diagonal is neither clearly zero nor clearly positive."""
	n, nA = len(v), np.linalg.norm(A, 2)
	_, rb, _ = lanczos_ref(A, v, min(deg, n))
	for j in range(min(deg, n)):
		if j >= len(rb) or rb[j] < 1e-11 * nA:
			return j + 1
		if j + 1 < min(deg, n) and (rb[j] < 2e-3 * nA or rb[j] < 1e-6):
			return None
	return min(deg, n)


def run_poly(case, c):
	A = matrix(case["A"])
	n = A.shape[0]
	nA = np.linalg.norm(A, 2)
	if nA == 0:
		return
	v = start_vector(case, A, n)
	k = clean_dimension(A, v, case["deg"])
	if k is None:
		c.label("skipped: ambiguous coupling")
		return
	deg = case["deg"]
	coef = case["coef"][:min(deg, n)]
	p = lambda x: np.polyval(coef, np.asarray(x) / nA)
	w, U = np.linalg.eigh(A)
	want = U @ (p(w) * (U.T @ v))
	op = any_operator(A, case["op"])
	M = call(P.operators.MatrixFunction, op, p, deg=deg, orth=-1)
	y = arr(call(lambda: M @ v), (n,))
	tol = 1e-9 * n * np.sum(np.abs(coef)) * len(coef) * np.linalg.norm(v)
	close(y, want, tol, f"polynomial of degree {len(coef) - 1} in an expansion of degree {deg}")
	if case["helper"] and deg <= 4:
		H = call(P.operators.matrix_function, op, fun=p, deg=deg)
		close(arr(call(lambda: H @ v), (n,)), want, tol, "matrix_function operator")
		close(np.ravel(call(P.operators.matrix_function, op, fun=p, v=v, deg=deg)), want, tol, "matrix_function product")
	c.mark(len(coef) >= 2)
	c.label(case["op"], f"degree {len(coef) - 1}", "exhausted early" if k < min(deg, n) else "full")


def run_long(case, c):
	"""Long expansions: polynomials of any degree below the expansion's (Chebyshev), or any values at up to 30 eigenvalues."""
	L = Large(case)
	n, vs = L.n, 10.0 ** case["vexp"]
	f, deg, fe = L.plan(False)
	v = L.vector(case["seed"] + 5)
	if not L.good(v, deg):
		c.label("skipped: ambiguous coupling")
		return
	orth = 0 if case["what"] == "chebyshev" and case["j"] % 3 == 0 else L.orth(deg)
	M = call(P.operators.MatrixFunction, any_operator(L.A, case["op"]), f, deg=deg, orth=orth)
	check(M.degree == min(deg, n), "degree {} for {} in dimension {}", M.degree, deg, n)
	fm, nv = np.abs(fe).max(), np.linalg.norm(v)
	tag = f"({case['what']}, degree {deg}, orth {orth}, {L.r} eigenvalues, n={n}, vector of norm {nv * vs:.1e})"
	y = arr(call(lambda: M @ (v * vs)), (n,))
	close(y / vs, L.U @ (fe * (L.U.T @ v)), 1e-9 * fm * nv, "f(A)v " + tag)
	X = np.column_stack([v * vs, np.zeros(n), v])
	Y = arr(call(lambda: M @ X), (n, 3), name="product with a block")
	close(Y[:, 0] / vs, y / vs, 1e-9 * fm * nv, "column of a block " + tag)
	same(Y[:, 1], np.zeros(n), "a zero column of a block is not mapped to zero")
	close(Y[:, 2], y / vs, 1e-9 * fm * nv, "column of a block " + tag)
	w = [1, 4, 9, 33][case["seed"] % 4]
	sc = rng(case["seed"] + 9).choice([0.0, 1.0, -2.0, 1e3], size=w)
	Y = arr(call(lambda: M @ np.outer(v, sc)), (n, w), name="product with a block")
	close(Y, np.outer(y / vs, sc), 1e-9 * fm * nv * (np.abs(sc)[None, :] + 1e-300), f"product with a block of {w} multiples of a vector " + tag)
	c.mark(deg >= 8)
	c.label(case["what"], case["spec"], "exhausted" if deg > L.r or n > L.r and deg == L.r else "open", f"orth {case['orth']}")


def s_default():
	st = strategies()
	return st.fixed_dictionaries({"n": sizes(1, 40, 70), "seed": st.integers(0, 10**6), "how": st.sampled_from(["class", "helper", "vector"]), "j": st.integers(0, 19)})


def run_default(case, c):
	"""The documented default degree is 20: polynomials of degree 19 are exact, and no degree exceeds the dimension."""
	n, g = case["n"], rng(case["seed"])
	x = np.cos(np.pi * (np.arange(n) + 0.5) / n)
	U = np.linalg.qr(g.normal(size=(n, n)))[0]
	A, v = (U * x) @ U.T, U @ (g.uniform(0.5, 1.5, size=n) * g.choice([-1, 1], size=n))
	A = (A + A.T) / 2
	p = np.polynomial.chebyshev.Chebyshev.basis(min(case["j"], n - 1))
	want = U @ (p(x) * (U.T @ v))
	O = P.operators
	if case["how"] == "vector":
		y = np.ravel(call(O.matrix_function, A, fun=p, v=v))
	else:
		M = call(O.MatrixFunction, A, p) if case["how"] == "class" else call(O.matrix_function, A, p)
		check(M.degree == min(20, n), "default degree {} in dimension {}", M.degree, n)
		y = call(lambda: M @ v)
	k = 2 + case["seed"] % 45
	check(call(O.matrix_function, A, fun=p, deg=k).degree == min(k, n), "matrix_function of degree {} has another degree in dimension {}", k, n)
	for f in (p, "log", "inv", None):
		same(np.ravel(call(O.matrix_function, A, fun=f, v=np.zeros(n), deg=k)), np.zeros(n), "the zero vector is not mapped to zero (matrix_function)")
	close(arr(y, (n,)), want, 1e-7 * np.linalg.norm(v), f"polynomial of degree {min(case['j'], n - 1)} with default parameters ({case['how']})")
	c.mark(n >= 20 and case["j"] >= 10)


COMP = {"square": np.square, "sqrt": np.sqrt, "exp": lambda x: np.exp(0.3 * x), "inv": lambda x: 1 / (x + 0.1), "affine": lambda x: 0.5 * x - 1, "tanh": lambda x: np.tanh(0.2 * x)}


def s_compose():
	st = strategies()
	return st.fixed_dictionaries({"S": s_spectral(14, 5), "g": st.sampled_from(sorted(COMP)), "f": st.sampled_from(["exp", "affine", "tanh", "square"]), "h": st.sampled_from([None, "affine", "tanh"]), "more": st.integers(0, 3), "same": st.booleans(), "vseed": st.integers(0, 10**6), "wrap": st.sampled_from([None, "sum", "scaled"])})


def run_compose(case, c):
	"""The operator of a function of a matrix is itself an operator: functions of it are compositions (same sizes and degrees included)."""
	S = Spectral(case["S"], True)
	v, g, f, h = S.vector(case["vseed"]), COMP[case["g"]], COMP[case["f"]], COMP.get(case["h"])
	n, K = S.n, S.K(v)
	G = (S.U * g(S.ew)) @ S.U.T
	for B in [S.A, G] + ([(S.U * f(g(S.ew))) @ S.U.T] if h else []):
		b = lanczos_ref(B, v, K)[1][:K - 1].astype(float)
		if len(b) != K - 1 or (len(b) and b.min() < 2e-2):
			c.label("skipped: weak coupling")
			return
	MF, d = P.operators.MatrixFunction, max(K, 2)
	M1 = call(MF, S.A, g, deg=d, orth=-1)
	inner, gi = {None: (M1, g), "sum": (M1 + M1, lambda x: 2 * g(x)), "scaled": (3.0 * M1, lambda x: 3 * g(x))}[case["wrap"]]
	M2 = call(MF, inner, f, deg=d if case["same"] else d + case["more"], orth=-1)
	fun = lambda x: f(gi(x))
	if h:
		M2, fun2 = call(MF, M2, h, deg=d, orth=-1), fun
		fun = lambda x: h(fun2(x))
	F = np.abs(fun(S.vals)).max() + 1
	tag = f"{case['h'] or ''} {case['f']} of {case['g']} of a matrix, degree {d}, {K} excited eigenvalues"
	tol = 1e-9 * F * np.linalg.norm(v)
	y = arr(call(lambda: M2 @ v), (n,))
	close(y, S.f(fun, v), tol, "product with the composition " + tag)
	close(arr(call(M2.quad, v), (1,)), [v @ S.f(fun, v)], tol * np.linalg.norm(v), "form of the composition " + tag)
	close(arr(call(lambda: M1 @ v), (n,)), S.f(g, v), tol * (1 + np.abs(g(S.vals)).max()), "product with the inner function afterwards " + tag)
	close(arr(call(lambda: M2 @ v), (n,)), y, tol, "second product with the composition " + tag)
	c.mark(K >= 2)
	c.label(case["g"], case["f"], case["wrap"] or "plain", "three levels" if h else "two levels")


def s_bad():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(2, 6), "k": st.integers(0, 9), "deg": st.integers(-3, 1), "what": st.sampled_from(["degree", "fun", "name", "square", "length", "nofun"])})


def run_bad(case, c):
	n, k, MF = case["n"], case["k"], P.operators.MatrixFunction
	A = np.diag(np.arange(1.0, n + 1))
	w = case["what"]
	if w == "degree":
		rejects(MF, A, deg=case["deg"], what="degree below two")
	elif w == "fun":
		rejects(MF, A, lambda x: 3.0, what="function that does not return an array")
		rejects(MF, A, lambda x: np.zeros(len(x) + 1), what="function that changes the length")
		M = MF(A)
		rejects(setattr, M, "fun", 3, what="function that is not callable")
		close(arr(M @ np.ones(n)), np.arange(1.0, n + 1), 1e-9, "operator after a rejected function")
	elif w == "name":
		rejects(MF, A, "nosuchfunction", what="unknown function name")
	elif w == "square":
		rejects(MF, np.ones((n, n + 1)), what="rectangular matrix")
	elif w == "length" and k != n:
		M = MF(A)
		rejects(lambda: M @ np.ones(k), what=f"vector of length {k} for size {n}")
	c.mark()


def s_square():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(1, 9), "seed": st.integers(0, 10**6), "f": st.sampled_from(["exp", "cos", "poly"]), "op": st.sampled_from(ALL_OPS), "X": st.sampled_from(["eye", "sym", "skew", "perm", "self", "ones", "tri", "gram", "diag", "tall", "wide", "same", "F", "strided"]), "how": st.sampled_from(["@", "matmat", "dot", "*", "sum", "T"]), "dt": st.sampled_from(["f8", "f8", "f4"])})


def run_square(case, c):
	"""Blocks of particular form (square, symmetric, the identity, the operator's own matrix): each column is multiplied on its own."""
	n, g = case["n"], rng(case["seed"])
	U = np.linalg.qr(g.normal(size=(n, n)))[0]
	w = np.arange(n) * 0.4 - 1.0 + 0.1 * g.random(n)
	A = sym_from(w, U)
	f = {"exp": np.exp, "cos": np.cos, "poly": lambda t: 1 + t - 0.5 * t**2}[case["f"]]
	B = g.normal(size=(n, n))
	X = {"eye": lambda: np.eye(n), "sym": lambda: B + B.T, "skew": lambda: B - B.T, "perm": lambda: np.eye(n)[g.permutation(n)], "self": lambda: A, "ones": lambda: np.ones((n, n)), "tri": lambda: np.triu(B), "gram": lambda: B @ B.T, "diag": lambda: np.diag(g.normal(size=n)),
	     "tall": lambda: B[:, :max(n // 2, 1)], "wide": lambda: g.normal(size=(n, n + 3)), "same": lambda: np.tile(B[:, :1], (1, n)), "F": lambda: np.asfortranarray(B), "strided": lambda: np.repeat(np.repeat(B, 2, 0), 3, 1)[::2, ::3]}[case["X"]]()
	X = X.astype(case["dt"])
	M = call(P.operators.MatrixFunction, any_operator(A, case["op"]), f, deg=max(n, 2), orth=max(n, 2))
	snap = X.copy()
	want = (U * f(w)) @ U.T @ X
	how = case["how"]
	Y = {"@": lambda: M @ X, "matmat": lambda: M.matmat(X), "dot": lambda: M.dot(X), "*": lambda: M * X, "sum": lambda: (M + 2 * M) @ X, "T": lambda: M.T @ X}[how]
	Y = arr(call(Y), X.shape, name="product with a block") / (3 if how == "sum" else 1)
	close(Y, want, (1e-6 if case["dt"] == "f8" else 1e-4) * np.abs(f(w)).max() * np.maximum(np.linalg.norm(X, axis=0), 1e-300)[None, :] * np.ones((n, 1)), f"product with a block ({case['X']}, by {how})")
	same(X, snap, "the block was modified")
	c.mark(n >= 2)
	c.label(case["X"], how)


F0 = {"f": "exp", "t": None, "q": None, "ab": None, "thr": None, "poly": [1.0]}
S0 = {"n": 6, "gaps": [3, 5, 7], "start": 0, "ex": [True, True, True], "seed": 2, "U": "dense"}
C0 = {"S": S0, "fun": F0, "op": "dense", "dt": "f8", "opdt": "f8", "deg": 5, "orth": -1, "vseed": 1, "hist": [["mv", 3], ["quad", 4]], "c": 2.0, "k": 2}
SUBS = [
	Sub("spectral", s_case, run, quick=300, thorough=15000, shards=5, examples=[C0, {**C0, "S": {**S0, "ex": [True, False, False]}}, {**C0, "fun": {**F0, "f": "inv"}}, {**C0, "dt": "f4", "opdt": "f4"}, {**C0, "dt": "f4"}, {**C0, "opdt": "f4"}, {**C0, "fun": {**F0, "f": "numrank"}, "deg": None, "orth": None}, {**C0, "S": {**S0, "n": 1, "gaps": [3], "ex": [True]}}, {**C0, "fun": {**F0, "f": "log"}, "hist": [["zero", 1]]}]),
	Sub("polynomial", s_poly, run_poly, quick=200, thorough=8000, shards=2),
	Sub("long", s_large, run_long, quick=200, thorough=8000, shards=3),
	Sub("default", s_default, run_default, quick=60, thorough=1500, shards=1, examples=[{"n": 25, "seed": 1, "how": h, "j": 19} for h in ("class", "helper", "vector")]),
	Sub("compose", s_compose, run_compose, quick=150, thorough=5000, shards=2),
	Sub("reject", s_bad, run_bad, quick=60, thorough=300, shards=1),
]
SUBS.append(Sub("square", s_square, run_square, quick=250, thorough=8000, shards=2))
SUBS.append(reuse_sub("C16"))
SUBS.append(big_sub("C16"))
SUBS.append(extreme_sub("C16"))
