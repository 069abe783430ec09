#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property list (spec/*.py) and bin/props.json."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PROPS = []
for f in sorted(os.listdir(HERE)):
    if f.startswith("p_") and f.endswith(".py"):
        ns = {}
        exec(open(os.path.join(HERE, f)).read(), ns)
        PROPS += ns["PROPS"]
table = json.load(open(os.path.join(V, "bin", "props.json")))
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in table:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bin/check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bin/check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": p.get("na", "no monitor built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "All checks: bin/check PROP. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
