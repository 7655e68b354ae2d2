#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = json.load(open("checks.json"))
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    c = checks.get(i)
    if c and "reason" not in c:
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/run.sh {i}", "thorough_cmd": f"bash /verif/run.sh {i}",
                            "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": c["reason"] if c else "Static check still being written."})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
