#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: record a repaired defect."""
import json, sys
f = __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))) + "/known_findings.json"
k = json.load(open(f))
k["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(k, open(f, "w"), indent=1)
