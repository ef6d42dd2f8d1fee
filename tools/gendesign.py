#!/usr/bin/env python3
# Writes /verif/DESIGN.md from tools/design_head.md, the properties, the claims, the rules in ouroflow and the table of
# planted changes (tools/seeds/caught.json, made by tools/seedtable.py).
import json, os, re, glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m=json.load(open(root+"/MANIFEST.json"))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
rules={}
for f in sorted(glob.glob(root+"/ouroflow/rules_*.go")):
    for a,b in re.findall(r'id: "(C\d+)",\s*rule: "((?:[^"\\]|\\.)*)"',open(f).read()): rules[a]=(b,os.path.basename(f))
    for a,b in re.findall(r'register\(&check\{id: "(C\d+)", rule: (\w+)',open(f).read()): rules.setdefault(a,("",os.path.basename(f)))
chk={c["property"]:c for c in m["checks"]}; na={c["property"]:c["reason"] for c in m["not_applicable"]}
caught=json.load(open(root+"/tools/seeds/caught.json"))
cost=json.load(open(root+"/tools/seeds/cost.json"))
o=[open(root+"/tools/design_head.md").read().rstrip()+"\n","\n## Property by property\n\n"]
for p in props:
    i=p["id"]; o.append("### %s %s\n\n"%(i,p["title"]))
    if i in na: o.append("Not applicable. "+na[i]+"\n\n"); continue
    c=chk[i]; r,f=rules.get(i,("",""))
    o.append("Decided by: "+c["technique"]+".\n\n")
    if r and len(r)>12: o.append("Rule (`ouroflow/%s`): %s.\n\n"%(f,r))
    o.append("Extent: "+c["level_note"].strip()+"\n\n")
    if i in cost: o.append("Cost: %s obligations, %s s.\n\n"%tuple(cost[i]))
    s=[k for k in sorted(caught) if caught[k][0]==i]
    if s: o.append("Planted changes: "+", ".join("%s (%s)"%(k,"caught" if caught[k][1]==1 else "MISSED") for k in s)+".\n\n")
o.append("## Which check catches which planted change\n\nEach change is in `seeded/<id>`; the report is the first line that the check of its property prints.\n\n| change | property | result | report |\n|---|---|---|---|\n")
for k in sorted(caught):
    p,rc,msg=caught[k]
    o.append("| %s | %s | %s | %s |\n"%(k,p,"caught" if rc==1 else "missed",msg.replace("|","\\|")[:150]))
open(root+"/DESIGN.md","w").write("".join(o))
