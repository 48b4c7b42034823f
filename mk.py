#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/*.json (one file per property). Run by hand after editing."""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__))
props, checks = [], []
for f in sorted(glob.glob(os.path.join(H, "meta", "*.json"))):
    m = json.load(open(f))
    pid = m["id"]
    assert os.path.basename(f) == pid + ".json"
    assert len(m["title"]) <= 80, (pid, len(m["title"]))
    assert os.path.exists(os.path.join(H, "props", pid + ".py")), pid
    props.append({k: m[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    for a in m["anchors"]["files"]:
        assert os.path.exists("/repo/" + a), a
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick",
                   "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                   "technique": m["technique"], "level": "exploration", "level_note": m["level_note"]})
with open(os.path.join(H, "properties.jsonl"), "w") as o:
    for p in props:
        o.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(os.path.join(H, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in props:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("schemas ok", len(props))
except ImportError:
    print("no jsonschema; run with python3-vt")
