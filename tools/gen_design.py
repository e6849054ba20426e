"""Assembles DESIGN.md from tools/design_head.md, the property modules and seeded/*/meta.json."""
import importlib, json, os, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness")); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
from design_notes import NOTES
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
out.append("## The properties\n\nPer property: what is generated and against what it is compared (the same text is the evidence file's rule), the bounds, why the "
	"tests cannot settle it, and the sub-checks with the number of cases of the quick (thorough) tier. A quick check takes 2-20 s, a thorough one is bounded by "
	"`VERIF_THOROUGH_S` (default in `harness/check.py`).\n\n")
wrap = lambda s, ind="": "\n".join(textwrap.wrap(" ".join(s.split()), 130, initial_indent=ind, subsequent_indent=ind, break_long_words=False, break_on_hyphens=False))
for line in open(os.path.join(V, "properties.jsonl")):
	p = json.loads(line); m = importlib.import_module("props." + p["id"].lower())
	out.append(f"### {p['id']} {p['title']}\n\n")
	out.append(wrap(m.RULE) + "\n\n")
	if p["id"] in NOTES: out.append(wrap(NOTES[p["id"]]) + "\n\n")
	out.append(wrap("Sub-checks: " + ", ".join(f"{s.name} ({'fixed cases' if s.fixed_only else f'{s.quick}/{s.thorough}'})" for s in m.SUBS + getattr(m, "KNOWN_SUBS", []))) + ".\n\n")
out.append("## Planted bugs\n\n`seeded/`: each compiles, passes the existing tests and is caught by the quick check of its property "
	"(last run: every one of them, seed 1).\n\n| bug | property | needs |\n|---|---|---|\n")
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)):
	j = json.load(open(os.path.join(S, d, "meta.json")))
	out.append(f"| {d} | {j['property']} | {' '.join(str(j['needs']).split()).replace('|', '/')} |\n")
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
