"""Writes MANIFEST.json from the check modules that exist."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NOTES = {
    "exploration": "exhaustive enumeration of the bounded input space on the real code against an independent reference model",
    "model_checking": "explicit state exploration of all operation histories up to the bound, every model trace replayed on the real code",
    "fault_enumeration": "every file operation and truncation point of the write paths enumerated as the fault, real code run on each",
}
NOT_CLAIMED = {}
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    pid = p["id"]
    path = V / "mc" / "checks" / f"{pid.lower()}.py"
    if not path.exists():
        na.append({"property": pid, "reason": NOT_CLAIMED.get(pid, "check not built yet")})
        continue
    tree = ast.parse(path.read_text())
    consts = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    level = consts["LEVEL"]
    note = f"Bounded: holds on every case enumerated, nothing is claimed beyond the bounds (see evidence). {consts['RULE']}. Assumes: " + "; ".join(consts["ASSUMPTIONS"])
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"./run.sh {pid} quick",
            "thorough_cmd": f"./run.sh {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": consts.get("TECHNIQUE", NOTES[level]),
            "level": level,
            "level_note": note,
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: everything is driven through public interfaces. scikit-learn is not installed; mc/stubs holds a stand-in used by the checks only.",
}
(V / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
