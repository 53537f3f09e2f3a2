"""writes MANIFEST.json from the registered harnesses (run with /opt/venv/bin/python)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import runner
from engine.common import WIDE
reg = runner.registry()
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in reg:
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check.py {p} --tier quick",
        "thorough_cmd": f"./check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "symbolic execution of the package's Python source with all inputs, choices and environment results as solver variables; z3 decides every claim on every path, counterexamples are replayed on the real code",
        "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs within these bounds: " + reg[p]["bounds"] + WIDE +
                      ". Trusts the models of numpy/scipy/iminuit/numdifftools/matplotlib (cross-checked on concrete runs in every run) and treats floats as reals.",
    })
NA = {}
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import engine.runner, engine.symcore'",
     "checks": checks, "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in ids if p not in reg],
     "notes": "Solver-based checking of the real source: see DESIGN.md. VERIF_REPO overrides the checked tree (default /repo)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(m["not_applicable"]), "not claimed")
