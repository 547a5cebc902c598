"""Write MANIFEST.json from the registry of checks and the list of properties."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry  # noqa: E402

PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
        continue
    mods = sorted({b.module for b in c.batches} | {m.module for m in c.models})
    checks.append({
        "property": p["id"],
        "quick_cmd": f"{PY} harness/check.py {p['id']} quick",
        "thorough_cmd": f"{PY} harness/check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "TLA+ specification (" + ", ".join(mods) + ") checked by TLC; conformance: " + (c.note or
                     "recorded executions of the real code validated by TLC against the specification"),
        "level": "model_checking",
        "level_note": "bounded: the models are explored exhaustively within the constants of their .cfg; the code is bound to "
                      "them by validating recorded executions (seeded), so a defect needing an input outside the generated "
                      "shapes is not seen",
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
