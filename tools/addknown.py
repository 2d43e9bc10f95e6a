"""addknown.py PROPERTY CASEFILE TEXT...  /  addknown.py --fixed TEXT  : edits known_findings.json."""
import json
import sys

P = "/verif/known_findings.json"
d = json.load(open(P))
if sys.argv[1] == "--fixed":
    d["fixed"].append("fixed: " + " ".join(sys.argv[2:]))
else:
    c = json.load(open(sys.argv[2]))
    d["known"].append({"property": sys.argv[1], "what": " ".join(sys.argv[3:]),
                       "case": c.get("case", c)})
json.dump(d, open(P, "w"), indent=1)
