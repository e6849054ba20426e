"""Entry point: check.py CXX [--tier quick|thorough] | check.py --replay FILE | (internal) check.py CXX --worker ..."""
import os, sys
for k, v in {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}.items():
	if os.environ.get(k) != v:
		os.environ[k] = v
		_re = True
	else:
		_re = locals().get("_re", False)
if sys.executable != "/opt/venv/bin/python" and os.path.exists("/opt/venv/bin/python") or _re:
	os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), *sys.argv[1:]], os.environ)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import argparse, importlib, json, signal, subprocess, tempfile, time, traceback
import boot


def load(prop):
	return importlib.import_module("props." + prop.lower())


def worker_main(a):
	sos = json.loads(os.environ["VERIF_SOS"])
	boot.setup_imports(sos)
	import numpy  # noqa: F401
	import core
	mod = load(a.prop)
	subs = {s.name: s for s in mod.SUBS}
	if hasattr(mod, "KNOWN_SUBS"):
		subs.update({s.name: s for s in mod.KNOWN_SUBS})
	sub = subs[a.worker]
	if a.case:
		case = json.load(open(a.case))
		try:
			ctx, msg = (core.run_case_isolated if a.isolate else core.run_case)(sub, case)
			json.dump({"msg": msg, "error": None}, open(a.out, "w"))
		except BaseException:
			json.dump({"msg": None, "error": traceback.format_exc()}, open(a.out, "w"))
		return 0
	w = core.Worker(a.prop, sub, a.seed, a.n, a.budget, os.path.dirname(a.out), a.tag, a.isolate)
	try:
		w.run()
		res = w.result()
	except BaseException:
		res = w.result(error=traceback.format_exc())
	json.dump(res, open(a.out, "w"))
	return 0


def spawn(a_list, sos, logfile):
	env = dict(os.environ, VERIF_SOS=json.dumps(sos))
	return subprocess.Popen([sys.executable, os.path.abspath(__file__), *map(str, a_list)], env=env, stdout=logfile, stderr=subprocess.STDOUT, start_new_session=True)


def run_one_case(prop, subname, case, sos, tmp, isolate=True, timeout=300):
	cf, of = os.path.join(tmp, "case.json"), os.path.join(tmp, "case.out")
	json.dump(case, open(cf, "w"))
	if os.path.exists(of):
		os.unlink(of)
	with open(os.path.join(tmp, "case.log"), "w") as log:
		p = spawn([prop, "--worker", subname, "--case", cf, "--out", of] + (["--isolate"] if isolate else []), sos, log)
		try:
			p.wait(timeout)
		except subprocess.TimeoutExpired:
			os.killpg(p.pid, signal.SIGKILL)
			p.wait()
			return None, "timed out"
	if not os.path.exists(of):
		return None, f"no result (exit {p.returncode}): " + open(os.path.join(tmp, "case.log")).read()[-2000:]
	r = json.load(open(of))
	return r["msg"], r["error"]


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument("prop", nargs="?")
	ap.add_argument("--tier", default=None)
	ap.add_argument("--replay")
	ap.add_argument("--setup", action="store_true")
	ap.add_argument("--only")
	ap.add_argument("--worker"); ap.add_argument("--case"); ap.add_argument("--out"); ap.add_argument("--tag", default="")
	ap.add_argument("--seed", type=int, default=1); ap.add_argument("--n", type=int, default=0)
	ap.add_argument("--budget", type=float, default=100); ap.add_argument("--isolate", action="store_true")
	a = ap.parse_args()
	if a.worker:
		return worker_main(a)
	if a.setup:
		sys.path.append(boot.TOOLS_SITE)
		import hypothesis, numpy, scipy  # noqa: F401
		boot.build(["tqli", "fttr", "_lanczos"])
		print("setup: tools present, extensions build")
		return 0
	t0 = time.monotonic()
	replay = json.load(open(a.replay)) if a.replay else None
	prop = replay["property"] if replay else a.prop
	tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
	seed = int(os.environ.get("VERIF_SEED") or 1)
	sys.path.append(boot.TOOLS_SITE)
	mod = load(prop)
	meta = {"needs": mod.NEEDS, "drivers": getattr(mod, "DRIVERS", []), "rule": mod.RULE + "".join(importlib.import_module(m).RULE for m in ("reuse", "big") if any(s.name == m for s in mod.SUBS)), "assumptions": getattr(mod, "ASSUMPTIONS", []),
	        "subs": [{"name": s.name, "quick": s.quick, "thorough": s.thorough, "shards": s.shards, "cost": s.cost} for s in mod.SUBS]}
	try:
		sos = boot.build(meta["needs"], meta["drivers"])
	except boot.BuildError as e:
		print(e, file=sys.stderr)
		print(f"ERROR: {prop}: the tree does not build; nothing was decided")
		return 3
	with tempfile.TemporaryDirectory(prefix="vp-") as tmp:
		if replay:
			msg, err = run_one_case(prop, replay["sub"], replay["case"], sos, tmp)
			if err:
				print("ERROR:", err)
				return 3
			if msg is None:
				print(f"replay: property {prop} holds for this case")
				return 0
			print(msg)
			print(f"VIOLATION property={prop} replay={a.replay}")
			return 1
		return explore(prop, tier, seed, meta, sos, tmp, t0, a.only)


def explore(prop, tier, seed, meta, sos, tmp, t0, only):
	max_workers = int(os.environ.get("VERIF_WORKERS", "7"))
	budget = 60.0 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "1500"))
	jobs = []
	for s in meta["subs"]:
		if only and s["name"] not in only.split(","):
			continue
		n, shards = s[tier] * (5 if tier == "quick" and s["quick"] > 2 else 1), max(1, s["shards"])
		for k in range(shards):
			jobs.append((s["name"], k, -(-n // shards)))
	jobs.sort(key=lambda j: -{s["name"]: s["cost"] for s in meta["subs"]}[j[0]])
	results, running, errors, fails = [], [], [], []
	def start(name, k, n, isolate=False):
		tag = f"{name}-{k}" + ("-iso" if isolate else "")
		out, lg = os.path.join(tmp, tag + ".json"), open(os.path.join(tmp, tag + ".log"), "w")
		args = [prop, "--worker", name, "--seed", seed * 1000 + k, "--n", n, "--budget", budget, "--out", out, "--tag", tag]
		p = spawn(args + (["--isolate"] if isolate else []), sos, lg)
		running.append(dict(p=p, name=name, k=k, n=n, tag=tag, out=out, log=lg, iso=isolate, t=time.monotonic()))
	queue = list(jobs)
	limit = budget + 240
	stop = False
	while queue or running:
		while queue and len(running) < max_workers and not stop:
			start(*queue.pop(0))
		if stop:
			queue.clear()
		time.sleep(0.02)
		for j in list(running):
			rc = j["p"].poll()
			if rc is None:
				if time.monotonic() - j["t"] > limit:
					os.killpg(j["p"].pid, signal.SIGKILL); j["p"].wait()
					running.remove(j)
					cur = os.path.join(tmp, j["tag"] + ".cur")
					errors.append(f"{j['tag']}: time limit reached (inconclusive), at case {open(cur).read()[:1500] if os.path.exists(cur) else '?'}")
				continue
			running.remove(j)
			j["log"].close()
			logtxt = open(j["log"].name).read()
			if os.path.exists(j["out"]):
				r = json.load(open(j["out"]))
				results.append(r)
				if r["error"]:
					errors.append(f"{j['tag']}: {r['error']}")
				if r["fail"]:
					fails.append((j["name"], r["fail"]))
			elif rc < 0 and -rc in (4, 6, 7, 8, 11) and not j["iso"]:
				case = json.load(open(os.path.join(tmp, j["tag"] + ".cur")))
				msg, err = run_one_case(prop, j["name"], case, sos, tmp)
				if msg is None:
					errors.append(f"{j['tag']}: worker crashed with signal {-rc}, not reproduced from its case ({err}); log {logtxt[-1500:]}")
				else:
					fails.append((j["name"], {"case": case, "message": msg, "origin": "crash"}))
					start(j["name"], j["k"], j["n"], isolate=True)  # shrinks it; its result replaces this one
			else:
				errors.append(f"{j['tag']}: worker ended with {rc}: {logtxt[-2500:]}")
		if fails and tier == "quick" and not any(j["iso"] for j in running):
			stop = True
			for j in list(running):
				# let the others finish quickly: one violation decides the run
				try:
					os.killpg(j["p"].pid, signal.SIGKILL)
				except ProcessLookupError:
					pass
				j["p"].wait(); running.remove(j)
	# known findings: replay each fixed case; a listed one that still fails is reported, and nothing else is suppressed
	kf_path = os.path.join(VERIF, "known_findings.json")
	kf = json.load(open(kf_path)) if os.path.exists(kf_path) else {"known": []}
	nknown = 0
	if not fails:
		for k in kf.get("known", []):
			if k["property"] != prop:
				continue
			msg, err = run_one_case(prop, k["sub"], k["case"], sos, tmp)
			if err:
				errors.append(f"known finding {k['id']}: {err}")
			elif msg is not None:
				if k.get("expect") and k["expect"] not in msg:
					fails.append((k["sub"], {"case": k["case"], "message": msg, "origin": "known finding failing in another way"}))
				else:
					nknown += 1
					print(f"KNOWN-FINDING: property={prop} {k['what']}")
	hashes, labels, per_sub, samples = set(), {}, {}, []
	evals = skipped = 0
	for r in results:
		hashes |= {r["sub"] + h for h in r["hashes"]}
		evals += r["evaluations"]; skipped += r["skipped_after_budget"]
		for l, c in r["labels"].items():
			labels[r["sub"] + ":" + l] = labels.get(r["sub"] + ":" + l, 0) + c
		ps = per_sub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "wall_s": 0})
		ps["evaluations"] += r["evaluations"]; ps["distinct_nontrivial"] += len(r["hashes"]); ps["wall_s"] += r["wall_s"]
		samples += r["samples"][:2]
	replay_path = None
	if fails:
		fails.sort(key=lambda f: len(json.dumps(f[1]["case"])))
		name, f = fails[0]
		os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
		replay_path = os.path.join(VERIF, "evidence", "replays", f"{prop}-{tier}-{seed}.json")
		json.dump({"property": prop, "sub": name, "case": f["case"], "message": f["message"], "origin": f["origin"]}, open(replay_path, "w"), indent=1)
	if not only:
		os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
		ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		      "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": meta["rule"], "samples": samples[:12],
		                   "per_subcheck": per_sub, "labels": dict(sorted(labels.items())), "skipped_after_time_budget": skipped,
		                   "known_findings_reported": nknown, "errors": [e[:500] for e in errors]},
		      "assumptions": meta.get("assumptions", []), "wall_s": round(time.monotonic() - t0, 2), "violations": len(fails)}
		json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
	if fails:
		name, f = fails[0]
		print(f"[{name}] {f['message']}")
		print("case:", json.dumps(f["case"])[:3000])
		print(f"VIOLATION property={prop} replay={replay_path}")
		return 1
	if errors:
		for e in errors:
			print("ERROR:", e)
		return 3
	print(f"{prop}: held on {evals} cases ({len(hashes)} distinct non-trivial) in {time.monotonic() - t0:.1f} s" + (f", {skipped} skipped by the time budget" if skipped else ""))
	return 0


if __name__ == "__main__":
	sys.exit(main())
