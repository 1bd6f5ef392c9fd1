"""tools/addfix.py PROPERTY COMMIT WHAT — logs a fix in known_findings.json"""
import json, sys
f = "/verif/known_findings.json"
d = json.load(open(f))
pr, c, w = sys.argv[1:4]
d["findings"] = [x for x in d["findings"] if not (x.get("commit") == c and x["property"] == pr)]
d["findings"].append(dict(property=pr, sub=None, case=None, status="fixed", commit=c, what=w, line=f"fixed: property={pr} {c} {w}"))
open(f, "w").write(json.dumps(d, indent=1) + "\n")
