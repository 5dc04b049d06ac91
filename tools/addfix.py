"""addfix.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(__file__), "..", "known_findings.json")
d = json.load(open(p))
prop, commit, what = sys.argv[1:]
L = d if isinstance(d, list) else d["findings"]
L.append(dict(kind="fixed", property=prop, commit=commit, what=what, line=f"fixed: property={prop} {commit} {what}"))
open(p, "w").write(json.dumps(d, indent=1) + "\n")
