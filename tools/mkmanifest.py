#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules present in lib/props."""
import json, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    f=V+"/lib/props/%s.py"%p["id"].lower()
    if os.path.exists(f):
        s=open(f).read()
        g=lambda n,d: (re.search(r'^%s = (?:\(\s*)?((?:"[^\n]*"\s*)+)'%n,s,re.M) or [None,json.dumps(d)])[1]
        val=lambda n,d: eval("("+g(n,d)+")")
        checks.append(dict(property=p["id"],quick_cmd="python3 checks/run.py "+p["id"],
          thorough_cmd="VERIF_TIER=thorough python3 checks/run.py "+p["id"],
          technique=val("TECHNIQUE","TLA+ specification, conformance by replay"),
          level=val("LEVEL","model_checking"),level_note=val("NOTE","")))
    else:
        na.append(dict(property=p["id"],reason="no check has been built for it yet"))
m=dict(version=1,setup_cmd="python3 checks/setup.py",checks=checks,not_applicable=na)
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"unclaimed")
