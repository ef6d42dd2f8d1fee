#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table of claimed checks.
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI="abstract interpretation of the type-checked SSA"
C={}   # id -> (technique, level_note)
NA={}
exec(open(os.path.join(root,"tools","claims.py")).read())
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
checks=[]
for i in ids:
    if i in C:
        t,n=C[i]
        checks.append(dict(property=i,quick_cmd="sh run.sh "+i,thorough_cmd="sh run.sh "+i,technique=t,level="other",level_note=n))
na=[dict(property=i,reason=NA.get(i,"no check has been built yet")) for i in ids if i not in C]
m=dict(version=1,setup_cmd="sh setup.sh",checks=checks,not_applicable=na,
  notes="All checks are static: bin/ouroflow loads /repo's current source with go/packages, builds SSA and decides obligations by dataflow over it; nothing of /repo is executed.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); print(len(checks),"checks",len(na),"n/a")
