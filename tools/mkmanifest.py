#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the checks which exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks drive public interfaces and read generated output", "source_commits": []},
     "checks": [], "not_applicable": []}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(f) and i in NOTES:
        m["checks"].append({"property": i, "quick_cmd": "python3 /verif/checks/%s.py quick" % i.lower(),
                            "thorough_cmd": "python3 /verif/checks/%s.py thorough" % i.lower(),
                            "technique": NOTES[i]["technique"], "level": "model_checking",
                            "level_note": NOTES[i]["note"], "evidence_file": "evidence/%s.json" % i})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
