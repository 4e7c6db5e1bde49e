"""addfixed.py PROP COMMIT WHAT: records a repaired defect in known_findings.json."""
import json, sys
p, c, w = sys.argv[1:4]
f = "/verif/known_findings.json"
k = json.load(open(f))
e = "fixed: property=%s %s %s" % (p, c, w)
if e not in k["fixed"]:
    k["fixed"].append(e)
json.dump(k, open(f, "w"), indent=1)
