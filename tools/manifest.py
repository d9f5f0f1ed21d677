#!/usr/bin/env python3
"""rewrites MANIFEST.json from properties.jsonl and the checks that exist"""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA=json.load(open(f"{V}/tools/na.json")) if os.path.exists(f"{V}/tools/na.json") else {}
props=[json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks,na=[],[]
for p in props:
    i=p["id"]; src=f"{V}/checks/{i}.cpp"
    if os.path.exists(src) and i not in NA:
        t=open(src).read()
        tech=re.search(r"^// MC-TECHNIQUE: (.*)$",t,re.M); note=re.search(r"^// MC-NOTE: (.*)$",t,re.M)
        checks.append(dict(property=i,quick_cmd=f"python3 mc/run.py {i} quick",thorough_cmd=f"python3 mc/run.py {i} thorough",evidence_file=f"evidence/{i}.json",
          technique=tech.group(1) if tech else "stateless model checking of the implementation: exhaustive bounded enumeration of operation sequences and inputs against a reference model",
          level="model_checking",level_note=note.group(1) if note else "Every execution within the bounds recorded in the evidence is run on the code compiled from /repo and compared with an independent reference model step by step; nothing is claimed beyond those bounds. Native x86-64 build with simulated operating-system calls."))
    else: na.append(dict(property=i,reason=NA.get(i,"no check built yet; nothing in the family rules it out")))
m=dict(version=1,setup_cmd="python3 mc/run.py --build-only",hooks=dict(guard="CEX_MC_HOOKS",enable="no hooks were needed: the checks compile /repo/CEX unchanged against native/ (a simulated Windows API) and instrument it with compiler passes only",source_commits=[]),checks=checks,not_applicable=na,
 notes="Engine in mc/, simulated platform in native/, one driver per property in checks/. Known findings and fixes in known_findings.txt; design in DESIGN.md.")
json.dump(m,open(f"{V}/MANIFEST.json","w"),indent=1); open(f"{V}/MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(na),"n/a")
