#!/usr/bin/env python3
"""addfix.py Pxx <commit> <what>: record a repaired defect in known_findings.json (by hand; no check runs it)."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(f))
p, c, w = sys.argv[1:4]
d["findings"].append({"property": p, "key": "-", "status": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)})
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
