"""Writes properties.jsonl and MANIFEST.json from props.py and the check modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools"), os.environ.get("VERIF_REPO", "/repo")]
from props import P  # noqa: E402

for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks, missing = [], []
for p in P:
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "mc", "checks", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "check not built yet (in progress)"})
        continue
    c = importlib.import_module(f"mc.checks.{pid.lower()}").C
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid}",
        "thorough_cmd": f"./check.sh {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": c.technique,
        "level": c.level,
        "level_note": c.note,
    })
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "All checks import graphicle from /repo's working tree; no hooks are needed in /repo.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(missing), "missing")
