#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import PROPS, NA
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "QLPEPS_VERIF_MONITOR", "enable": "-DQLPEPS_VERIF_MONITOR (passed by run.py; no hook is currently compiled in)", "source_commits": []},
       "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA]}
for p in PROPS:
    if p["id"] in CHECKS:
        man["checks"].append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick",
                              "thorough_cmd": f"python3 run.py {p['id']} thorough", "technique": p["technique"],
                              "level": CHECKS[p["id"]].get("level", "exploration"), "level_note": p["note"]})
    else:
        assert any(a == p["id"] for a, _ in NA), p["id"]
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
