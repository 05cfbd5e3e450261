#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p.get("state", [])],
                "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists(os.environ.get("REPO", "/repo") + "/" + x), x
json.dump({
    "version": 1,
    "setup_cmd": "bash /verif/tools/setup.sh",
    "hooks": {"guard": "none", "enable": "The checks lay out /repo's working tree under /verif/work/ferrite with std:: and parking_lot:: routed through a controlled scheduler (tools/layout.py); /repo itself carries no hooks.", "source_commits": []},
    "checks": [{
        "property": p["id"], "quick_cmd": f"bash /verif/tools/run.sh {p['id']} quick", "thorough_cmd": f"bash /verif/tools/run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
    } for p in PROPS if p["id"] not in NOT_APPLICABLE],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
}, open("MANIFEST.json", "w"), indent=1)
