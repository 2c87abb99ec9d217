"""records a fixed defect or a known finding: finding.py fixed PROP COMMIT TEXT | known PROP KEYREGEX TEXT"""
import json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
L = json.load(open("known_findings.json"))
st, prop, x, text = sys.argv[1:5]
if st == "fixed": L.append({"property": prop, "status": "fixed", "commit": x, "what": "fixed: property=%s %s %s" % (prop, x, text)})
else: L.append({"property": prop, "status": "known", "key": x, "what": text})
json.dump(L, open("known_findings.json", "w"), indent=1); open("known_findings.json", "a").write("\n")
