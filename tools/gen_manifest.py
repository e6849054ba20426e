"""Writes /verif/MANIFEST.json from the property modules present in harness/props."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness")); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import importlib
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "harness", "props", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"}); continue
    m = importlib.import_module("props." + p["id"].lower())
    checks.append({"property": p["id"], "quick_cmd": f"python3 harness/check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 harness/check.py {p['id']} --tier thorough",
        "technique": getattr(m, "TECHNIQUE", "property-based testing (Hypothesis): generated inputs and histories against a reference model"),
        "level": "exploration",
        "level_note": getattr(m, "NOTE", "Generated-input search against an explicit oracle with shrinking and replay; finds counterexamples within the generated sizes, never proves absence. Trusts NumPy/SciPy and the stated rounding tolerances.")})
json.dump({"version": 1, "setup_cmd": "python3 harness/check.py --setup", "checks": checks, "not_applicable": na,
  "notes": "Every check rebuilds the Pythran modules and (where used) the _lanczos extension from /repo's working tree into /verif/.cache before exploring."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
