#!/usr/bin/env python3
"""addfix.py PROP COMMIT 'what failed': append a fixed entry to known-findings.json"""
import json, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
L = json.load(open(f))
n = 1 + max(int(x["id"][1:]) for x in L)
p, c, t = sys.argv[1:4]
L.append({"id": "F%02d" % n, "status": "fixed", "property": p, "commit": c, "entry": "fixed: property=%s %s %s" % (p, c, t)})
open(f, "w").write("[\n" + ",\n".join("  " + json.dumps(x) for x in L) + "\n]\n")
