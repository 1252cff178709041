"""Writes MANIFEST.json: a check for every property that has checks/<id>.py, the rest not applicable."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"), ROOT + "/harness", ROOT + "/checks", ROOT]
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"

TECH = "explicit-state exhaustive enumeration of input/operation histories on the real code against an independent reference model"
checks, na = [], []
with open(ROOT + "/properties.jsonl", encoding="utf8") as f:
    props = [json.loads(line) for line in f]
for p in props:
    pid = p["id"]
    if not os.path.exists(f"{ROOT}/checks/{pid}.py"):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    mod = importlib.import_module("checks." + pid)
    bounds = mod.BOUNDS["quick"] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    note = (
        f"Every case within the bounds is executed on the real code: {bounds}. Oracle: {mod.ORACLE}. "
        "Trusted: the oracle, numpy and pandas; nothing is claimed beyond the bounds."
    )
    if getattr(mod, "ASSUMPTIONS", None):
        note += " Assumes: " + "; ".join(mod.ASSUMPTIONS) + "."
    checks.append({
        "property": pid,
        "quick_cmd": f"{PY} check.py {pid}",
        "thorough_cmd": f"{PY} check.py {pid} --thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": getattr(mod, "TECHNIQUE", TECH),
        "level": "model_checking",
        "level_note": note,
    })
man = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"import sys; sys.path[:0]=['/repo/src','harness']; import numpy, pandas, ciceroscm, ref\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: checks import /repo/src directly. /repo commits are fix: repairs, listed in known_findings.txt.",
}
with open(ROOT + "/MANIFEST.json", "w", encoding="utf8") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not built")
