#!/usr/bin/env python3
"""addfix.py PROP "commit subject part" "what failed" - record a repaired defect."""
import json, subprocess, sys
p, k, w = sys.argv[1:4]
f = "/verif/known_findings.json"
d = json.load(open(f))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
h = [l.split()[0] for l in log if k in l]
assert len(h) == 1, h
d["findings"].append({"id": "F%03d" % (len(d["findings"]) + 1), "property": p, "status": "fixed", "commit": h[0], "group": "", "key": "", "what": "fixed: property=%s %s %s" % (p, h[0], w)})
open(f, "w").write('{"findings": [\n ' + ",\n ".join(json.dumps(x) for x in d["findings"]) + "\n]}\n")
