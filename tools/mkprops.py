#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the one table in tools/proptable.py."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from proptable import P, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "libs/cmdr11/include/cmdr11/"
lines, checks, na = [], [], []
for p in P:
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["qtext"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": [I + f for f in p["files"]],
                     "mechanism": [{"name": n, "where": I + w} for n, w in p["mech"]],
                     "state": [{"name": n, "meaning": m} for n, m in p.get("state", [])],
                     "observe_at": p["observe"], "hook_needed": None}}
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps(d))
    have = glob.glob(os.path.join(V, "harness", p["id"] + ".cc")) + glob.glob(os.path.join(V, "harness", p["id"] + "_*.cc"))
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
    elif have:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "CMDR_MC_HOOKS", "enable": "no hook was needed: the checks compile the unmodified headers of /repo; the guard name is reserved", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles the real headers from /repo's working tree; see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable/unbuilt")
try:
    import jsonschema
except ImportError:
    sys.exit(0)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in lines:
    jsonschema.validate(json.loads(l), sch)
print("schemas ok")
