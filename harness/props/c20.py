"""C20: operators are accepted exactly when usable."""
import numpy as np
from core import Sub, check, close, same, arr, call, rejects
from lib import P, strategies, s_matrix, matrix, any_operator, ALL_OPS, dense_of, rng
from reuse import sub as reuse_sub

NEEDS = ["_lanczos", "tqli", "fttr"]
RULE = ("protocol: objects offering any subset of the four product interfaces, with no shape or shapes of zero to five dimensions, square or not, declaring any of nine data types or none; real: dense, sparse and matrix-free operators of the libraries in several types, and thirty kinds of other objects. "
        "estimators: each estimator and factorisation on unusable objects (must raise) and on usable operators of every kind (must run and leave them as they were). arguments: start vectors and degrees that do not fit must be refused. Oracle: the acceptance rule written out. Non-trivial: the object has a shape.")
PRODUCTS = ["__matmul__", "matmul", "dot", "matvec"]
SHAPES = [None, [], [4], [4, 4], [3, 3], [1, 1], [0, 0], [4, 5], [5, 4], [1, 4], [4, 4, 2], [4, 3, 4], [2, 2, 2], [2, 2, 2, 2], [2, 3, 2, 2], [3, 3, 1, 1], [2, 2, 2, 2, 2], [2, 1, 2, 1, 2]]
DTYPES = [None, None, "float32", "float64", "int64", "int32", "float16", "complex128", "complex64", "bool", "longdouble"]


def protocol(products, shape, declared, produced):
	ns = {}
	m = None if not shape else shape[0]
	f = lambda self, x: np.zeros(m, dtype=produced)
	for p in products:
		ns[p] = f
	if shape is not None:
		ns["shape"] = tuple(shape)
	if declared is not None:
		ns["dtype"] = np.dtype(declared)
	return type("Thing", (), ns)()


def s_protocol():
	st = strategies()
	return st.fixed_dictionaries({"products": st.lists(st.sampled_from(PRODUCTS), unique=True), "shape": st.sampled_from(SHAPES), "declared": st.sampled_from(DTYPES), "produced": st.sampled_from(DTYPES[2:]), "aslist": st.booleans()})


def run_protocol(case, c):
	shape = case["shape"]
	X = protocol(case["products"], shape, case["declared"], case["produced"])
	if case["aslist"] and shape is not None:
		type(X).shape = list(shape)
	linear = bool(case["products"]) and shape is not None and len(shape) >= 2 and shape[0] == shape[1]
	r = call(P.operators.is_linear_op, X)
	check(isinstance(r, (bool, np.bool_)), "the Boolean test returned {}", r)
	check(bool(r) == linear, "is_linear_op is {} for products {}, shape {}", r, case["products"], shape)
	dt = case["declared"] if case["declared"] is not None else case["produced"]
	if linear and case["declared"] is None and "__matmul__" not in case["products"]:
		c.label("skipped: cannot infer the precision")
		return
	if linear and dt in ("float32", "float64"):
		d = call(P.operators.is_valid_operator, X)
		check(np.dtype(d) == np.dtype(dt), "is_valid_operator returned {} for {}", d, dt)
	else:
		rejects(P.operators.is_valid_operator, X, what=f"object with products {case['products']}, shape {shape}, dtype {dt}")
	c.mark(shape is not None)
	c.label("accepted" if linear else "refused", str(dt))


def others():
	import scipy.sparse as ss
	from scipy.sparse.linalg import aslinearoperator
	return {"none": None, "int": 3, "float": 2.5, "str": "abc", "bytes": b"ab", "list": [[1.0, 0.0], [0.0, 1.0]], "tuple": ((1.0,),), "dict": {"shape": (2, 2)}, "set": {1}, "function": lambda x: x, "class": protocol, "object": object(), "range": range(3), "complex": 1j,
	        "scalar array": np.array(1.0), "vector": np.ones(4), "rectangular": np.ones((3, 4)), "tall": np.ones((4, 3)), "sparse rectangular": ss.csr_array(np.ones((3, 4))), "linop rectangular": aslinearoperator(np.ones((4, 3))), "numpy scalar": np.float64(2.0), "generator": (i for i in range(2)), "dtype": np.dtype("f8"), "slice": slice(1), "bool": True, "ellipsis": ...}


def operators_of(dt):
	import scipy.sparse as ss
	from scipy.sparse.linalg import aslinearoperator
	A = np.diag(np.arange(1.0, 5.0)).astype(dt)
	out = {"dense": A, "fortran": np.asfortranarray(A), "matrix": np.asmatrix(A), "view": A[::-1, ::-1]}
	if dt != "float16":
		out.update({k: getattr(ss, k)(A) for k in ("csr_array", "csc_array", "coo_array", "dia_array", "bsr_array", "lil_array", "csr_matrix")})
		out["linop"] = aslinearoperator(A)
		out["sum"] = aslinearoperator(A) + aslinearoperator(A)
	return out


def run_real(case, c):
	O = P.operators
	if case["i"] < len(DTYPES) - 2:
		dt = DTYPES[2 + case["i"]]
		for k, X in operators_of(dt).items():
			r = call(O.is_linear_op, X)
			check(r is True or r is np.True_, "is_linear_op is {} for a {} operator of type {}", r, k, dt)
			if dt in ("float32", "float64"):
				check(np.dtype(call(O.is_valid_operator, X)) == np.dtype(dt), "wrong precision of a {} operator of type {}", k, dt)
			else:
				rejects(O.is_valid_operator, X, what=f"{k} operator of type {dt}")
	else:
		for k, X in others().items():
			r = call(O.is_linear_op, X)
			check(not r and isinstance(r, (bool, np.bool_)), "is_linear_op is {} for {}", r, k)
			rejects(O.is_valid_operator, X, what=k)
		T = O.Toeplitz(np.ones(3))
		M = O.MatrixFunction(np.eye(4), dtype=np.float32)
		for X, d in ((T, "f8"), (M, "f4"), (2.0 * M, None), (T @ T, "f8")):
			check(call(O.is_linear_op, X) is not False, "is_linear_op refuses {}", X)
			if d:
				check(np.dtype(call(O.is_valid_operator, X)) == np.dtype(d), "precision of {}", X)
	c.mark()


def estimators():
	cc = dict(converge="count", count=4)
	T, D, L, O = P.trace, P.diagonal, P.lanczos, P.operators
	return {"hutch": lambda A: T.hutch(A, seed=1, **cc), "hutch full": lambda A: T.hutch(A, seed=1, full=True, batch=2, **cc)[0], "hutchpp": lambda A: T.hutchpp(A, seed=1), "hutchpp full": lambda A: T.hutchpp(A, seed=1, mode="full", full=True)[0], "xtrace": lambda A: T.xtrace(A, seed=1), "diag": lambda A: D.diag(A, seed=1, **cc),
	        "diag full": lambda A: D.diag(A, seed=1, full=True, **cc)[0], "xdiag": lambda A: D.xdiag(A, seed=1), "lanczos": lambda A: L.lanczos(A, deg=3, seed=1)[0], "rayleigh_ritz": lambda A: L.rayleigh_ritz(A, deg=3, seed=1), "MatrixFunction": lambda A: O.MatrixFunction(A, np.tanh, deg=3) @ np.ones(A.shape[0]), "matrix_function": lambda A: O.matrix_function(A, np.tanh, deg=3) @ np.ones(A.shape[0])}


NAMES = ["hutch", "hutch full", "hutchpp", "hutchpp full", "xtrace", "diag", "diag full", "xdiag", "lanczos", "rayleigh_ritz", "MatrixFunction", "matrix_function"]


def s_est():
	st = strategies()
	return st.fixed_dictionaries({"est": st.sampled_from(NAMES), "A": s_matrix(3, 8, ["normal", "psd", "ints", "diag", "sparse", "decay"]), "op": st.sampled_from([o for o in ALL_OPS if not o.startswith("py") or o == "py"]), "dt": st.sampled_from(["f8", "f8", "f4"]), "bad": st.sampled_from([None, None, "rectangular", "tall", "vector", "none", "list", "str", "noproduct", "int", "complex", "half", "linrect", "sprect", "lintall", "cube"])})


def run_est(case, c):
	f, e, bad, O = estimators()[case["est"]], case["est"], case["bad"], P.operators
	A = matrix(case["A"])
	n = A.shape[0]
	if bad is None:
		if e == "xdiag" and case["op"] == "py":
			return
		if e in ("xtrace", "xdiag") and np.linalg.cond(A) > (1e6 if case["dt"] == "f8" else 1e3):
			return
		op = any_operator(A, case["op"], case["dt"])
		keep = np.array(np.asarray(dense_of(op)), copy=True)
		meta = (op.shape, getattr(op, "dtype", None))
		r = call(f, op)
		check(np.all(np.isfinite(np.asarray(r, dtype=float))), "{} returned {}", e, r)
		same(np.asarray(dense_of(op)), keep, f"{e} modified the operator")
		check((op.shape, getattr(op, "dtype", None)) == meta, "{} changed the operator's attributes", e)
	else:
		from scipy.sparse.linalg import aslinearoperator
		import scipy.sparse as ss
		B = np.ones((n, n + 2)) if case["dt"] == "f8" else np.ones((n, n + 2), dtype="f4")
		X = {"rectangular": lambda: B, "tall": lambda: B.T.copy(), "vector": lambda: np.ones(n), "none": lambda: None, "list": lambda: A.tolist(), "str": lambda: "operator", "noproduct": lambda: protocol([], [n, n], "float64", "float64"), "int": lambda: np.eye(n, dtype=int), "complex": lambda: np.eye(n) * 1j, "half": lambda: np.eye(n, dtype="f2"), "linrect": lambda: aslinearoperator(B), "sprect": lambda: ss.csr_array(B.T), "cube": lambda: np.ones((n, n + 1, 2)), "lintall": lambda: aslinearoperator(B.T)}[bad]()
		if e in ("MatrixFunction", "matrix_function"):
			# refused as an operator, whatever function comes with it
			ctor = getattr(O, e)
			rejects(ctor, X, lambda x: np.ones((np.shape(X) or [1])[0]), deg=3, what=f"{bad} object given to {e}") if bad not in ("int", "complex", "half") else None
		if bad in ("int", "complex", "half") and e in ("xtrace", "xdiag", "MatrixFunction", "matrix_function"):
			return  # these do not restrict the type of their operator
		rejects(f, X, what=f"{bad} object given to {e}")
	c.mark()
	c.label(e, bad or "usable", case["op"] if bad is None else "")


def s_args():
	st = strategies()
	return st.fixed_dictionaries({"n": st.integers(1, 9), "k": st.integers(0, 14), "deg": st.integers(-4, 1), "op": st.sampled_from(["dense", "csr", "linop", "py"]), "dt": st.sampled_from(["f8", "f4"])})


def run_args(case, c):
	"""Degrees and vectors that do not fit are refused."""
	n, k, O, L = case["n"], case["k"], P.operators, P.lanczos
	A = np.diag(np.arange(1.0, n + 1))
	op = any_operator(A, case["op"], case["dt"])
	if k != n:
		rejects(L.lanczos, op, v0=np.ones(k, dtype=case["dt"]), deg=min(3, n), what=f"start vector of length {k} in dimension {n}")
		rejects(lambda: O.MatrixFunction(op, np.tanh, deg=3) @ np.ones(k), what=f"product with a vector of length {k} in dimension {n}")
		rejects(lambda: O.MatrixFunction(op, np.tanh, deg=3).quad(np.ones(k)), what=f"form of a vector of length {k} in dimension {n}")
		rejects(lambda: O.matrix_function(op, np.tanh, v=np.ones(k), deg=3), what=f"matrix_function of a vector of length {k} in dimension {n}")
	if case["deg"] < 1:
		rejects(L.lanczos, op, deg=case["deg"], what=f"expansion of degree {case['deg']}")
	rejects(O.MatrixFunction, op, np.tanh, deg=case["deg"], what=f"matrix function of degree {case['deg']}")
	rejects(O.matrix_function, op, np.tanh, deg=case["deg"], what=f"matrix function of degree {case['deg']}")
	c.mark(k != n)
	c.label("longer" if k > n else "shorter" if k < n else "fits", case["op"])


SUBS = [
	Sub("protocol", s_protocol, run_protocol, quick=600, thorough=6000, shards=2, examples=[{"products": ["matvec"], "shape": [4, 4], "declared": "float32", "produced": "float64", "aslist": False}, {"products": ["__matmul__"], "shape": [4, 4], "declared": None, "produced": "float32", "aslist": False}]),
	Sub("real", None, run_real, fixed_only=True, examples=[{"i": i} for i in range(len(DTYPES) - 1)], shards=1),
	Sub("arguments", s_args, run_args, quick=150, thorough=2000, shards=1),
	Sub("estimators", s_est, run_est, quick=400, thorough=10000, shards=4),
]
SUBS.append(reuse_sub("C20"))
