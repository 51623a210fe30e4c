"""Writes properties.jsonl and MANIFEST.json from tools/spec.py; claims the properties that have a module in vp/props."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import spec
have = lambda i: os.path.exists(os.path.join(H, "vp", "props", i + ".py"))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in spec.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, 'vendor'); import hypothesis, numpy, scipy\"",
     "checks": [{"property": p["id"], "quick_cmd": "python3 vp/run.py %s quick" % p["id"],
                 "thorough_cmd": "python3 vp/run.py %s thorough" % p["id"], "technique": p["technique"],
                 "level": "exploration", "level_note": p["note"]} for p in spec.P if have(p["id"])],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in spec.P if not have(p["id"])]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]], "open")
