"""writes MANIFEST.json from the checks present and properties.jsonl"""
import json, glob, os, re, subprocess
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open("properties.jsonl")]
tech=json.load(open("tools/techniques.json"))
checks=[]; na=[]
for p in props:
    f=glob.glob("checks/%s_*.py"%p["id"])
    if f:
        t=tech.get(p["id"],["runtime monitoring of the real code against an independent reference oracle",""])
        lev=re.search(r'LEVEL\s*=\s*"(\w+)"',open(f[0]).read()).group(1)
        checks.append({"property":p["id"],"quick_cmd":"./check %s"%p["id"],"thorough_cmd":"./check %s --thorough"%p["id"],
          "technique":t[0],"level":lev,"level_note":t[1] or "held on the executions listed in the evidence file; not a proof"})
    else:
        na.append({"property":p["id"],"reason":tech.get("NA",{}).get(p["id"],"no check has been built yet")})
m={"version":1,"setup_cmd":"python3-vt tools/setup.py","checks":checks,"not_applicable":na,
   "hooks":{"guard":"none","enable":"no hooks were added to /repo: the checks compile its sources unchanged (own config.h) and observe through the library's interface, the files it writes and sanitizers","source_commits":[]},
   "notes":"See DESIGN.md. Known findings and fixed defects: known_findings.json."}
json.dump(m,open("MANIFEST.json","w"),indent=1)
try:
    import jsonschema; jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
except FileNotFoundError: pass
print(len(checks),"checks",len(na),"not applicable")
