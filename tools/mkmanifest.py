"""MANIFEST.json from the property list and the levels table below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from levels import LEVELS, DEFAULT
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    d = LEVELS.get(p, DEFAULT)
    checks.append(dict(property=p, quick_cmd=f"bin/check {p}", thorough_cmd=f"bin/check {p} --thorough",
                       evidence_file=f"evidence/{p}.json", technique=d["technique"], level=d["level"], level_note=d["note"]))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
               notes="See DESIGN.md. No hooks in /repo; the checks read and run /repo's working tree."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
