"""C02: the mean estimator reports exactly the samples it was given."""
import numpy as np
from core import Sub, check, close, same, arr, num, call
from lib import P, strategies, rng, sizes
from big import sub as big_sub
from many import sub as many_sub

NEEDS = []
RULE = ("Histories are lists of operations on estimators of a drawn dimension: updates with drawn batches (scalars, lists, 1-d and 2-d arrays, none at all, views of a "
        "buffer that is overwritten afterwards) and reads of length, estimate, mean, change and record. Four estimators (covariance x record) receive the "
        "same history and are compared after every operation with a list of the samples; everything read earlier is compared again at the end. long: up to 140 updates and 10000 samples, verified now and then. "
        "Non-trivial: at least two updates with a read in between.")


def strategy():
	st = strategies()

	@st.composite
	def s(draw):
		dim = draw(sizes(1, 4, 24))
		ops = []
		v = st.one_of(st.integers(-5, 5).map(float), st.floats(-1e3, 1e3, allow_nan=False, width=32))
		for _ in range(draw(st.integers(1, 8))):
			if draw(st.integers(0, 3)) == 0:
				ops.append(["read"])
			elif ops and draw(st.integers(0, 9)) == 0:
				ops.append(["empty"])
			else:
				n = draw(sizes(1, 5, 150))
				if n * dim > 20:
					ops.append([draw(st.sampled_from(["natural", "2d", "list", "f32", "buffer"])), {"n": n, "seed": draw(st.integers(0, 10**6))}])
					continue
				ops.append([draw(st.sampled_from(["natural", "2d", "list", "buffer", "f32", "ints"])), draw(st.lists(v, min_size=n * dim, max_size=n * dim))])
		return {"dim": dim, "ops": ops}
	return s()


def batch(form, X, dim, buf):
	n = len(X)
	if form == "ints":
		X = np.round(X)
	if form == "f32":
		X = X.astype(np.float32)
	rows = np.asarray(X, dtype=float).copy()
	if form == "ints":
		B = X.astype(int)
	elif form == "buffer":
		buf[:n] = X
		B = buf[:n]
	elif form == "natural" and dim == 1:
		B = float(X[0, 0]) if n == 1 else X[:, 0].copy()
	elif form == "list":
		B = X[:, 0].tolist() if dim == 1 else X.tolist()
	else:
		B = X.copy()
	return B, rows


def s_long():
	st = strategies()
	return st.fixed_dictionaries({"dim": sizes(1, 3, 8), "updates": st.integers(20, 140), "max": st.sampled_from([1, 1, 2, 9, 60]), "seed": st.integers(0, 10**6), "spike": st.sampled_from([0, 0, 700, 5000]), "every": st.integers(3, 40)})


def run_long(case, c):
	"""Many updates, verified now and then (and values read in between kept)."""
	g = rng(case["seed"])
	ops = []
	for i in range(case["updates"]):
		n = int(g.integers(1, case["max"] + 1))
		if case["spike"] and i == case["updates"] // 3:
			n = case["spike"]
		ops.append([["natural", "2d", "list"][int(g.integers(0, 3))], {"n": n, "seed": int(g.integers(0, 10**6))}])
		if i % case["every"] == 2:
			ops.append(["read"])
	run({"dim": case["dim"], "ops": ops, "sparse": True}, c)


def run(case, c):
	dim = case["dim"]
	ests = {(cov, rec): P.estimators.MeanEstimator(dim=dim, covariance=cov, record=rec) for cov in (False, True) for rec in (False, True)}
	data, prev, kept, reads, updates = np.zeros((0, dim)), np.zeros(dim), [], 0, 0
	buf = np.zeros((160, dim))
	delta = np.full(dim, np.inf)
	eps = np.finfo(np.float32 if any(op[0] == "f32" for op in case["ops"]) else float).eps

	def verify(read=False):
		n = len(data)
		for (cov, rec), e in ests.items():
			w = f"MeanEstimator(dim={dim}, covariance={cov}, record={rec}): "
			check(len(e) == n and e.n_samples == n, w + "length {} after {} samples", len(e), n)
			est, mean, d = e.estimate, e.mean, e.delta
			if n == 0:
				check(np.all(np.isnan(arr(est))), w + "estimate before any sample is {}", est)
				check(np.all(np.isinf(arr(d))), w + "change before any sample is {}", d)
			else:
				tol = 32 * eps * max(updates, 4) * (np.abs(data).max(axis=0) + 1e-300) * max(n, 4) ** 0.5
				mu = data.mean(axis=0)
				shape = () if dim == 1 else (dim,)
				close(arr(est, shape).reshape(dim), mu, tol, w + "estimate")
				close(arr(mean, shape).reshape(dim), mu, tol, w + "mean")
				close(arr(d).reshape(-1), delta, 2 * tol, w + "last change")
			if rec:
				vals = e.values
				check(vals is not None and len(vals) == n, w + "{} recorded values for {} samples", None if vals is None else len(vals), n)
				got = arr(np.array(vals), name=w + "values").reshape(n, dim) if n else np.zeros((0, dim))
				same(got, data, w + "recorded values")
			else:
				check(e.values is None or len(e.values) == 0, w + "values recorded without being asked to")
			if read:
				kept.append((w, [est, mean, d], [np.array(x, copy=True) for x in (est, mean, d)]))
				if rec:
					kept.append((w + "record ", list(e.values), [np.array(x, copy=True) for x in e.values]))
		# covariance tracking and recording change nothing else: up to rounding, all are the same estimator (checked above against the same data)

	verify(True)
	for op in case["ops"]:
		if op[0] == "read":
			verify(True)
			reads += 1
			continue
		if op[0] == "empty":
			if len(data):
				for e in ests.values():
					call(e.update, np.zeros((0, dim)))
				delta = np.zeros(dim)
				verify()
			continue
		X = rng(op[1]["seed"]).normal(size=(op[1]["n"], dim)) if isinstance(op[1], dict) else np.array(op[1]).reshape(-1, dim)
		updates += 1
		for k, e in ests.items():
			B, rows = batch(op[0], X, dim, buf)
			call(e.update, B)
			buf[:] = 1e9
		data = np.concatenate([data, rows])
		mu = data.mean(axis=0)
		delta, prev = mu - prev, mu
		if not case.get("sparse"):
			verify(updates % 2 == 0)
	for w, objs, snaps in kept:
		for o, sn in zip(objs, snaps):
			same(o, sn, w + "a value read earlier was altered by later updates")
	fresh = P.estimators.MeanEstimator(dim=dim, record=True)
	check(len(fresh) == 0 and len(fresh.values) == 0, "a new estimator is not empty")
	call(fresh.update, np.full((2, dim), 1e9))
	P.estimators.MeanEstimator(dim=dim, record=True, covariance=True).update(np.full((3, dim), -1e9))
	verify()
	same(np.array(fresh.values).reshape(-1, dim), np.full((2, dim), 1e9), "record of a second estimator")
	c.mark(updates >= 2 and (reads >= 1 or updates >= 2))
	c.label(f"dim{dim}", f"updates{min(updates, 5)}")


SUBS = [Sub("history", strategy, run, quick=500, thorough=20000, shards=3, examples=[
	{"dim": 2, "ops": [["2d", [1.0, 2.0]], ["read"], ["2d", [5.0, -2.0, 3.0, 3.0]]]},
	{"dim": 2, "ops": [["buffer", [1.0, 2.0]], ["read"], ["buffer", [5.0, -2.0, 3.0, 3.0]]]},
	{"dim": 1, "ops": [["buffer", [1.0]], ["natural", [2.0]], ["read"]]}]),
	Sub("long", s_long, run_long, quick=25, thorough=2000, shards=2)]
SUBS.append(big_sub("C02"))
SUBS.append(many_sub("C02"))
