#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and checks.txt from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
props=[]; checks=[]; na=[]; txt=[]
for p in PROPS:
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["qtext"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "state": [{"name": n, "meaning": m} for n, m in p.get("state", [])],
                    "observe_at": p.get("observe", []),
                    "hook_needed": None}})
    if p.get("bin"):
        checks.append({"property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": p.get("level", "model_checking"),
            "level_note": p["note"]})
        txt.append("%s %s" % (p["id"], p["bin"]))
    else:
        na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
with open(os.path.join(V,"properties.jsonl"),"w") as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False)+"\n")
man={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"All checks run the real code from /repo's working tree, instrumented at build time by go/rewrite (an overlay; /repo is never written). No hooks in /repo are needed. Known findings: known_findings.txt."}
json.dump(man, open(os.path.join(V,"MANIFEST.json"),"w"), indent=1, ensure_ascii=False); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
open(os.path.join(V,"checks.txt"),"w").write("\n".join(txt)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props: jsonschema.validate(p,s)
    jsonschema.validate(man,json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(props), "properties", len(checks), "checks")
except ImportError:
    print("no jsonschema")
for p in PROPS:
    if p["statement"].count(". ")>2: print("WARN statement of", p["id"], "may have more than three sentences")
