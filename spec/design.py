#!/usr/bin/env python3
"""Writes DESIGN.md: spec/design_head.md, a section per property, planted bugs, spec/design_tail.md."""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
rules_p = H + "/rules.json"
rules = json.load(open(rules_p)) if os.path.exists(rules_p) else {}
out = [open(H + "/design_head.md").read()]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    ev = V + f"/evidence/{i}.json"
    if os.path.exists(ev):
        d = json.load(open(ev)); c = d["coverage"]
        if d.get("tier") == "quick" and d.get("seed") == 1:
            rules[i] = {"rule": c["rule"], "n": c["evaluations"], "s": c["distinct_nontrivial"], "t": d.get("wall_seconds") or d.get("cost", {}).get("wall_seconds")}
    r = rules.get(i, {})
    out.append(f"### {i} {p['title']}\n\n*Method and oracle.* {man[i]['technique'] if i in man else 'not claimed'}.\n*Workload.* {r.get('rule','')}\n"
               f"*Code.* {', '.join(p['anchors']['files'])}. *Quick.* {r.get('n')} judgements, {r.get('s')} distinct states.\n*Beyond the tests.* {p['why_tests_cant']}\n\n")
json.dump(rules, open(rules_p, "w"), indent=1, sort_keys=True)
out.append("## Planted bugs\n\nEach compiles, passes the repository's tests and fails its own demonstration; all were run against the checks.\n\n| seed | needs | breaks | caught by |\n|---|---|---|---|\n")
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |\n")
if os.path.exists(H + "/mutants.md"):
    out.append(open(H + "/mutants.md").read())
out.append(open(H + "/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("".join(out))
