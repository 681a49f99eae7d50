"""Writes MANIFEST.json from the checks in checks/ (run with run.sh's python)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(V, "checks"), os.path.join(V, "lib")]
import common  # noqa: E402,F401
NOTE = ("Randomised search over generated inputs: it found no violation among "
        "the cases that its evidence file counts; it does not prove the "
        "absence of one. Trusted: numpy, Hypothesis, and the oracle in "
        "/verif/lib that the check names.")
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        c = importlib.import_module(p.lower()).CHECK
        checks.append({
            "property": p,
            "quick_cmd": "checks/run.sh %s --tier quick" % p,
            "thorough_cmd": "checks/run.sh %s --tier thorough" % p,
            "technique": c.technique, "level": "exploration",
            "level_note": getattr(c, "level_note", "") + NOTE})
    else:
        na.append({"property": p, "reason": NA.get(
            p, "its check is not built yet")})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.append("
     "\"/opt/veriftools/pyvenv/lib/python3.12/site-packages\"); "
     "import numpy, hypothesis'",
     "checks": checks, "not_applicable": na,
     "notes": "checks/run.sh ID --replay FILE runs one recorded case again. "
     "No hooks: /repo has 'fix:' commits only (see known-findings.txt)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
