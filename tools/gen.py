#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import PROPS
try:
    from props import NA
except ImportError:
    NA = []
from checks import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p["d"]["id"] in CHECKS:
            f.write(json.dumps(p["d"]) + "\n")
    for d, reason in NA:
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "POLYMPC_VERIF_HOOKS", "enable": "no hooks were needed: the monitors observe the public interface", "source_commits": []},
     "checks": [{"property": p["d"]["id"], "quick_cmd": "python3 run_check.py %s --tier quick" % p["d"]["id"], "thorough_cmd": "python3 run_check.py %s --tier thorough" % p["d"]["id"],
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"], "evidence_file": "evidence/%s.json" % p["d"]["id"]} for p in PROPS if p["d"]["id"] in CHECKS],
     "not_applicable": [{"property": d["id"], "reason": r} for d, r in NA]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p in PROPS:
    assert len(p["d"]["title"]) <= 80, p["d"]["title"]
print(len(m["checks"]), "checks", len(NA), "not applicable; missing:", [p["d"]["id"] for p in PROPS if p["d"]["id"] not in CHECKS])
