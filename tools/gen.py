#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/spec.py (maintenance; no check uses it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(spec.P + spec.N, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p.get("observe"): d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c 'from sa.prog import tool; tool()'",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": "static analysis: " + p["note"], "evidence_file": "evidence/%s.json" % p["id"]} for p in sorted(spec.P, key=lambda p: p["id"])],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(spec.N, key=lambda p: p["id"])]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
ids = [p["id"] for p in spec.P + spec.N]; assert len(ids) == len(set(ids)), "duplicate id"
print(len(spec.P), "claimed,", len(spec.N), "not applicable")
