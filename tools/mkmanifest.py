import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, H)
from tools.levels import LEVELS, NOTE, TECH
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./run.py {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.py {i}",
                       technique=TECH(i), level=LEVELS.get(i, "exploration"), level_note=NOTE(i)))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
               notes="No hooks in /repo. Every check reads /repo's current source; the deductive layer extracts its obligations from it on every run."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
