"""C06: stopping rules compose as Boolean algebra and are routed by name."""
import numpy as np
from core import Sub, check, close, same, arr, num, call, rejects
from lib import P, strategies, rng
from big import sub as big_sub
from reuse import sub as reuse_sub

NEEDS = []
RULE = ("Random expression trees (and, or, not; depth up to 5; sub-trees shared and reused) over count, tolerance, confidence, knee and user-defined rules are evaluated on "
        "estimators along a drawn history and compared with Python's Boolean value of the parts' own decisions. Factory calls with drawn names, letter cases and keyword sets "
        "(known, unknown, partial) are compared with directly constructed rules along a history. Non-trivial: a tree with at least two operators, or a factory call with keywords, "
        "on at least two states.")

LEAVES = ["count", "tolerance", "confidence", "knee", "user_true", "user_odd", "user_np"]


def params(g, name):
	"""Drawn keyword arguments; each present or absent."""
	full = {"count": {"count": int(g.integers(0, 12))},
	        "tolerance": {"rtol": float(g.choice([0.0, 0.05, 0.5])), "atol": float(g.choice([0.0, 0.1, 1.0])), "ord": [2.0, 1, np.inf, None][int(g.integers(4))]},
	        "confidence": {"confidence": float(g.choice([0.5, 0.9, 0.99])), "atol": [0.0, 0.3, 1.0, None][int(g.integers(4))], "rtol": [0.0, 0.2, 1.0, None][int(g.integers(4))]},
	        "knee": {"S": float(g.choice([0.5, 1.0, 3.0]))}}[name]
	return {k: v for k, v in full.items() if name == "count" or g.random() < 0.7}


def classes():
	E = P.estimators
	return {"count": E.CountCriterion, "tolerance": E.ToleranceCriterion, "confidence": E.ConfidenceCriterion, "knee": E.KneeCriterion}


def leaf(name, seed):
	E = P.estimators
	if name == "user_true":
		return E.ConvergenceCriterion(lambda est: True)
	if name == "user_odd":
		return E.ConvergenceCriterion(lambda est: len(est) % 2 == 1)
	if name == "user_np":
		return E.ConvergenceCriterion(lambda est: np.mod(np.arange(40), 3)[min(len(est), 39)] == 0)
	return classes()[name](**params(rng(seed), name))


def s_tree():
	st = strategies()
	lf = st.tuples(st.just("leaf"), st.sampled_from(LEAVES), st.integers(0, 50)).map(list)
	tree = st.recursive(lf, lambda ch: st.one_of(
		st.tuples(st.just("and"), ch, ch).map(list), st.tuples(st.just("or"), ch, ch).map(list), st.tuples(st.just("not"), ch).map(list),
		st.tuples(st.just("twice"), st.sampled_from(["and", "or"]), ch).map(list), st.tuples(st.just("inplace"), st.sampled_from(["and", "or"]), ch, ch).map(list)), max_leaves=8)
	return st.fixed_dictionaries({"tree": tree, "seed": st.integers(0, 10**6), "batches": st.lists(st.integers(1, 5), min_size=1, max_size=8), "mag": st.sampled_from([1.0, 0.01, 100.0]), "offset": st.sampled_from([0.0, 3.0])})


def build(t, parts):
	"""Returns (composite, evaluator); parts collects the leaf rules."""
	if t[0] == "leaf":
		r = leaf(t[1], t[2])
		parts.append(r)
		return r, lambda e: bool(r(e))
	if t[0] == "not":
		a, fa = build(t[1], parts)
		return ~a, lambda e: not fa(e)
	if t[0] == "twice":
		a, fa = build(t[2], parts)
		return (a & a, fa) if t[1] == "and" else (a | ~a, lambda e: True)
	op = t[1] if t[0] == "inplace" else t[0]
	a, fa = build(t[-2], parts)
	b, fb = build(t[-1], parts)
	if t[0] == "inplace":
		r = a
		if op == "and":
			r &= b
		else:
			r |= b
	else:
		r = a & b if op == "and" else a | b
	return r, ((lambda e: fa(e) and fb(e)) if op == "and" else (lambda e: fa(e) or fb(e)))


def ops(t):
	return 0 if t[0] == "leaf" else 1 + sum(ops(x) for x in t[1:] if isinstance(x, list))


def state(e):
	return [np.array(x, dtype=float, copy=True) for x in (len(e), e.estimate, e.delta, e.values if e.values is not None else [])]


def run_tree(case, c):
	E = P.estimators
	parts = []
	crit, ref = call(build, case["tree"], parts)
	check(isinstance(crit, E.ConvergenceCriterion), "composite is not a stopping rule")
	crit_not = ~crit
	est, twin = (E.MeanEstimator(covariance=True, record=True) for _ in range(2))
	g = rng(case["seed"])
	vals = set()
	for i, b in enumerate(case["batches"] + [0]):
		s0 = state(est)
		want = ref(twin)
		got = call(crit, est)
		s1 = state(est)
		for u, v in zip(s0, s1):
			same(v, u, "evaluating the rule changed the estimator")
		check(isinstance(got, (bool, np.bool_)), "decision {!r} is not Boolean", got)
		check(bool(got) == want, "composite decided {}, its parts give {} (after {} samples)", got, want, len(est))
		check(bool(call(crit, est)) == want and bool(call(crit_not, est)) == (not want), "second evaluation or negation differs")
		check(ref(twin) == want, "evaluating the composite changed a part")
		check(isinstance(crit.message(est), str) if len(est) > 0 else True, "message is not text")
		vals.add(want)
		if b:
			x = g.normal(size=b) * case["mag"] * 0.8**i + case["offset"]
			est.update(x)
			twin.update(x)
	k = ops(case["tree"])
	c.mark(k >= 2 and len(case["batches"]) >= 2)
	c.label(f"ops{min(k, 6)}", "both outcomes" if len(vals) == 2 else f"always {vals.pop()}")


def s_factory():
	st = strategies()
	return st.fixed_dictionaries({"name": st.sampled_from(["count", "tolerance", "confidence", "knee"]), "case": st.sampled_from(["lower", "upper", "title", "mixed"]), "pseed": st.integers(0, 10**4),
	                              "extra": st.lists(st.sampled_from(["verbose", "foo", "n", "S", "count", "atol", "rtol", "confidence", "ord", "self_", "record"]), max_size=4, unique=True),
	                              "seed": st.integers(0, 10**6), "batches": st.lists(st.integers(1, 8), min_size=1, max_size=7), "offset": st.sampled_from([0.0, 2.0])})


def run_factory(case, c):
	E = P.estimators
	name = case["name"]
	kw = params(rng(case["pseed"]), name)
	own = {"count": {"count"}, "tolerance": {"rtol", "atol", "ord"}, "confidence": {"confidence", "atol", "rtol"}, "knee": {"S"}}[name]
	extra = {k: {"count": 2, "ord": 1, "confidence": 0.5}.get(k, 0.5) for k in case["extra"] if k not in own}
	nm = {"lower": name, "upper": name.upper(), "title": name.title(), "mixed": "".join(ch.upper() if i % 2 else ch for i, ch in enumerate(name))}[case["case"]]
	kws = {**extra, **kw}
	kws0 = dict(kws)
	a, b = call(E.convergence_criterion, nm, **kws), classes()[name](**kw)
	check(type(a) is type(b), "name {!r} gives a {}", nm, type(a).__name__)
	check(kws == kws0, "keywords modified")
	T = P.typing
	for cls in classes().values():
		names = set(__import__("inspect").signature(cls).parameters)
		r, d = call(T.restrict_kwargs, cls, kws), call(T.setdiff_kwargs, cls, kws)
		check(r == {k: v for k, v in kws.items() if k in names} and d == {k: v for k, v in kws.items() if k not in names}, "keywords split into {} and {} for a rule taking {}", r, d, sorted(names))
		check(kws == kws0 and list(kws) == list(kws0), "selecting keywords modified the given ones")
	check(call(E.convergence_criterion, a, **kws) is a, "an existing rule is not returned unchanged")
	comp = a | b
	check(call(E.convergence_criterion, comp, count=1) is comp, "an existing composite is not returned unchanged")
	class Mine(classes()[name]):
		"""A rule of the user's own, derived from a built-in one."""

	class Own(E.ConvergenceCriterion):
		def __init__(self):
			pass

		def __call__(self, est):
			return len(est) > 5
	mine, own_rule = Mine(**kw), Own()
	check(call(E.convergence_criterion, mine, **kws) is mine and call(E.convergence_criterion, own_rule) is own_rule, "an existing rule of a derived class is not returned unchanged")
	both, neither = call(lambda: mine & own_rule), call(lambda: ~(mine | own_rule))
	est = E.MeanEstimator(covariance=True, record=True)
	g = rng(case["seed"])
	for i, q in enumerate(case["batches"]):
		est.update(g.normal(size=q) * 0.7**i + case["offset"])
		x, y = call(a, est), call(b, est)
		check(bool(x) == bool(y), "rule by name {!r} with {} decides {}, directly constructed {} (after {} samples)", nm, kws, x, y, len(est))
		check(a.message(est) == b.message(est), "messages differ")
		z, w = bool(call(mine, est)), len(est) > 5
		check(z == bool(y) and bool(call(both, est)) == (z and w) and bool(call(neither, est)) == (not (z or w)), "rules of derived classes compose differently (after {} samples)", len(est))
	c.mark(len(kws) > 0 and len(case["batches"]) >= 2)
	c.label(name, "extra keywords" if extra else "own keywords only")


def s_bad():
	st = strategies()
	return st.fixed_dictionaries({"name": st.one_of(st.sampled_from(["", "counts", "tol", "none", "default", " count", "knee ", None, 3]), st.text(max_size=6))})


def run_bad(case, c):
	nm = case["name"]
	if isinstance(nm, str) and nm.lower() in classes():
		return
	rejects(P.estimators.convergence_criterion, nm, what=f"unknown rule {nm!r}")
	c.mark()


SUBS = [Sub("tree", s_tree, run_tree, quick=500, thorough=20000), Sub("factory", s_factory, run_factory, quick=300, thorough=8000), Sub("unknown", s_bad, run_bad, quick=40, thorough=500, shards=1)]
SUBS.append(reuse_sub("C06"))
SUBS.append(big_sub("C06"))
