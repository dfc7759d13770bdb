#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/registry.py and lib/props."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
from registry import PROPS
NA = registry.NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, p in sorted(PROPS.items()):
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": p["quantifier"],
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mechanism"]}}) + "\n")
    for pid, p in sorted(NA.items()):
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": p["quantifier"],
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mechanism"]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/check.py setup", "checks": [], "not_applicable": [],
     "notes": "Checks build their harness from /repo's working tree with CMake/ninja in /verif/build (ccache keeps rebuilds short). See DESIGN.md."}
for pid, p in sorted(PROPS.items()):
    m["checks"].append({"property": pid, "quick_cmd": "python3 /verif/check.py %s quick" % pid,
                        "thorough_cmd": "python3 /verif/check.py %s thorough" % pid, "technique": p["technique"],
                        "level": "exploration", "level_note": p["note"], "evidence_file": "/verif/evidence/%s.json" % pid})
for pid, p in sorted(NA.items()):
    m["not_applicable"].append({"property": pid, "reason": p["reason"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
except ImportError:
    pass
# DESIGN.md = design_head.md + one section per property
head = open(os.path.join(V, "design_head.md")).read()
out = []
for pid, p in sorted(PROPS.items()):
    n = sum(f["quick"] for f in p["facets"])
    t = sum(f["thorough"] for f in p["facets"])
    out.append("### %s. %s\n\n%s\n\n* **Generated**: %s.\n* **Method and oracle**: %s - %s\n* **Harness**: %s; quick %s, thorough %s generated cases.\n* **Non-trivial when**: %s.\n* **Why tests cannot settle it**: %s\n* **Anchored in**: %s.\n%s" % (
        pid, p["title"], p["statement"], p["quantifier"]["text"], p["technique"], p["note"],
        ", ".join("`%s/%s`" % (f["harness"], f["facet"]) for f in p["facets"]), format(n, ","), format(t, ","), p["rule"], p["why"],
        ", ".join("`%s`" % f for f in p["files"]),
        "".join("* *Assumes*: %s.\n" % a for a in p.get("assumptions", []))))
for pid, p in sorted(NA.items()):
    out.append("### %s. %s (not claimed)\n\n%s\n\nNot applicable: %s.\n" % (pid, p["title"], p["statement"], p["reason"]))
rows = ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(V, "seeded")
caught = {}
cp = os.path.join(V, "catches.json")
if os.path.exists(cp):
    caught = json.load(open(cp))
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    me = json.load(open(os.path.join(sd, b, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (b, me["property"], me["what_it_breaks"].replace("|", "/"), me["needs"].replace("|", "/"), caught.get(b, "?")))
if len(rows) > 2:
    open(os.path.join(V, "seeded_table.md"), "w").write("\n".join(rows) + "\n")
tab = open(os.path.join(V, "seeded_table.md")).read() if os.path.exists(os.path.join(V, "seeded_table.md")) else ""
open(os.path.join(V, "DESIGN.md"), "w").write(head.replace("<!-- SEEDED -->", tab).replace("<!-- PROPS -->", "\n".join(out)))
