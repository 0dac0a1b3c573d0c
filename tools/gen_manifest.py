#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none: the machinery uses only public items of /repo", "enable": "nothing to enable", "source_commits": []},
    "checks": [],
    "not_applicable": [],
    "notes": "One driver (check.py) builds the explorers in mc/ against /repo's working tree and runs the explorations of a property.",
}
for p in props:
    s = registry.PROPS.get(p["id"])
    if s is None:
        m["not_applicable"].append({"property": p["id"], "reason": "its exploration is not built yet"})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": s["technique"],
        "level": s["level"],
        "level_note": s["note"],
    })
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
