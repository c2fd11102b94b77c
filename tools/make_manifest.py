"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")) and pid in TECH:
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"bash /verif/check.sh {pid} quick",
                "thorough_cmd": f"bash /verif/check.sh {pid} thorough",
                "technique": TECH[pid],
                "level": "exploration",
                "level_note": "runtime monitoring: the verdict covers the executions generated from the seed; counts of observed events and states are in the evidence file",
                "evidence_file": f"/verif/evidence/{pid}.json",
            }
        )
    else:
        na.append({"property": pid, "reason": "its monitors are not built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks run the code under /repo/src from source (no bytecode cache, no hooks in /repo) and work in a scratch directory under /tmp that they remove.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
