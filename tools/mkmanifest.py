"""write MANIFEST.json from the registered contracts"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from contracts import run, notes  # noqa: E402

reg = run.load()
have = {t for h in reg for t in h.tags}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in notes.LEVEL:
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i}",
            "thorough_cmd": f"bin/check {i} --tier thorough",
            "technique": "contract-based deductive verification of the real source (own VC generator over /repo's Python AST, "
                         "z3; refutations replayed by executing the real code)",
            "level": "proof",
            "level_note": notes.LEVEL[i],
        })
    else:
        na.append({"property": i, "reason": notes.NOT_YET.get(i, "contracts not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; known_findings.txt lists repaired defects and the open finding; no hooks in /repo"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
