#!/usr/bin/env python3
"""Dev aid: record the fix commits of /repo that known-findings.jsonl does not list yet: fixrec.py HASH=PROP ..."""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known-findings.jsonl")
have = open(p).read()
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
m = dict(a.split("=") for a in sys.argv[1:])
with open(p, "a") as f:
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        if not s.startswith("fix: ") or h in have:
            continue
        if h not in m:
            print("unassigned", l)
            continue
        f.write(json.dumps({"id": "fix-" + h, "property": m[h], "status": "fixed", "what": "fixed: property=%s %s %s" % (m[h], h, s[5:])}) + "\n")
