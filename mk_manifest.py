#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, harness/props and techniques below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
meta = json.load(open(V + "/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(V + "/harness/props/%s.cpp" % i):
        na.append({"property": i, "reason": meta.get(i, {}).get("reason", "no check built")})
        continue
    m = meta.get(i, {})
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": m.get("technique", "property-based testing against a reference model"),
        "level": "exploration",
        "level_note": m.get("note", "Generated-input search: no counterexample among the generated cases; not a proof. Trusts the "
                                    "reference computations of the harness, the compiler and Eigen/OpenCV/boost."),
    })
out = {"version": 1, "setup_cmd": "python3 vbuild.py", "checks": checks, "not_applicable": na,
       "notes": "check.py rebuilds the harness of a property from the working tree of /repo (content-hashed objects in build/), "
                "runs it in forked workers, and replays every failure three times before it is reported."}
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
