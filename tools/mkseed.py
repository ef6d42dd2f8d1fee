#!/usr/bin/env python3
"""Makes planted bugs under /verif/seeded from tools/seeds/*.py and confirms each in a scratch copy.
usage: mkseed.py [id...]   (default: all specs whose folder does not exist)"""
import sys, os, glob, json, subprocess, shutil, tempfile
root="/verif"
specs={}
def seed(id, prop, edits, pkg, demo, needs, breaks, race=False):
    assert id not in specs, id
    specs[id]=dict(race=race,prop=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks)
for f in sorted(glob.glob(root+"/tools/seeds/*.py")):
    exec(open(f).read())
DEMO='''#!/bin/sh
# Exits 0 when the behaviour is right, nonzero when it is broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
go test%(race)s -vet=off -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 -timeout 60s ./%(pkg)s
rc=$?
rm -r "$t"
exit $rc
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def make(id,s):
    w=tempfile.mkdtemp(prefix="seed",dir="/tmp")
    r=w+"/repo"
    try:
        sh("cp -a /repo "+r,"/")
        sh("git checkout -q -- . && git clean -fdq",r)
        base=subprocess.run("git show b139d19:%s",shell=False,args=["true"]) if False else None
        d=root+"/seeded/"+id
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
        open(d+"/demo.sh","w").write(DEMO%dict(pkg=s["pkg"],race=" -race" if s["race"] else "")); os.chmod(d+"/demo.sh",0o755)
        open(d+"/demo_test.go.txt","w").write(s["demo"].lstrip("\n"))
        p=sh("timeout 200 sh %s/demo.sh"%d,r)
        if p.returncode!=0: return "demo fails on unchanged tree:\n"+p.stdout[-1500:]
        orig=[]
        for f,old,new in s["edits"]:
            t=open(r+"/"+f).read()
            if t.count(old)!=1: return "edit of %s matches %d times: %r"%(f,t.count(old),old)
            t=t.replace(old,new)
            open(r+"/"+f,"w").write(t)
        df=sh("git diff",r).stdout
        open(d+"/patch.diff","w").write(df)
        # changed lines must exist in the original repository
        rem=[(l[1:]) for l in df.splitlines() if l.startswith("-") and not l.startswith("---")]
        new=0
        for f in {e[0] for e in s["edits"]}:
            o=set(subprocess.run(["git","show","b139d19:"+f],cwd=r,stdout=subprocess.PIPE,text=True).stdout.splitlines())
            new+=sum(1 for l in rem if l in o)
        if rem and new==0: return "touches no line of the original repository"
        p=sh("gofmt -l net cmd; go build ./... && go vet ./net/... >/dev/null 2>&1; go test ./... 2>&1 | tail -20",r)
        if "FAIL" in p.stdout or "cannot" in p.stdout: return "build or tests fail:\n"+p.stdout[-1500:]
        p=sh("timeout 200 sh %s/demo.sh"%d,r)
        if p.returncode==0: return "demo passes with the change"
        json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
        q=sh("OUROFLOW_REPO=%s OUROFLOW_OUT=%s timeout 900 %s/bin/ouroflow check %s"%(r,w,root,s["prop"]),root)
        return "ok; check exits %d %s"%(q.returncode,"CAUGHT" if q.returncode==1 and "VIOLATION" in q.stdout else "MISSED")+" | "+(q.stdout.splitlines() or [""])[0][:200]
    finally:
        shutil.rmtree(w)
ids=sys.argv[1:] or [i for i in specs if not os.path.exists(root+"/seeded/%s/meta.json"%i)]
for i in ids:
    print(i,":",make(i,specs[i]),flush=True)
