#!/usr/bin/env python3
"""kf.py add PROP ID KIND FILE WHAT | kf.py fixed PROP COMMIT WHAT: edits known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
if sys.argv[1] == "add":
    pr, i, kind, f, what = sys.argv[2:]
    d["findings"] = [x for x in d["findings"] if x["id"] != i] + [{"property": pr, "id": i, "status": "known", "kind": kind, "file": f, "what": what}]
else:
    pr, c, what = sys.argv[2:]
    d["fixed"].append("fixed: property=%s %s %s" % (pr, c, what))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
