#!/usr/bin/env python3
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
CLAIMED = json.load(open(os.path.join(D, "tools/claims.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED["checks"]:
        c = CLAIMED["checks"][i]
        checks.append({"property": i, "quick_cmd": f"/verif/check.sh {i} quick", "thorough_cmd": f"/verif/check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": CLAIMED["na"][i]})
m = {"version": 1, "setup_cmd": "/verif/setup.sh", "checks": checks, "not_applicable": na, "notes": CLAIMED["notes"]}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
print(len(checks), len(na))
