#!/usr/bin/env python3
# Runs the check of its property on each planted change, in scratch copies of /repo, and writes tools/seeds/caught.json.
import json, os, glob, subprocess, tempfile, shutil, sys, concurrent.futures as cf
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=root+"/tools/seeds/caught.json"
try: old=json.load(open(out))
except Exception: old={}
w=tempfile.mkdtemp(prefix="seedtab",dir="/tmp")
shutil.copy(root+"/bin/ouroflow",w+"/ouroflow")
def sh(c,cwd="/"): return subprocess.run(c,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
def run(d):
    n=os.path.basename(d); p=json.load(open(d+"/meta.json"))["property"]; r=w+"/"+n
    sh("cp -a /repo "+r); sh("git checkout -q -- .",r)
    a=sh("git apply %s/patch.diff"%d,r)
    if a.returncode: return n,[p,9,a.stdout]
    os.makedirs(r+"-out")
    q=sh("OUROFLOW_REPO=%s OUROFLOW_OUT=%s-out timeout 890 %s/ouroflow check %s"%(r,r,w,p),root)
    shutil.rmtree(r); shutil.rmtree(r+"-out")
    return n,[p,q.returncode,q.stdout.split("\n")[0]]
ds=sorted(glob.glob(root+"/seeded/*"))
if len(sys.argv)>1: ds=[d for d in ds if any(os.path.basename(d).startswith(s) for s in sys.argv[1:])]
with cf.ThreadPoolExecutor(int(os.environ.get("J","6"))) as e:
    for n,v in e.map(run,ds):
        old[n]=v
        if v[1]!=1: print(n,v)
for k in list(old):
    if not os.path.isdir(root+"/seeded/"+k): del old[k]
json.dump(old,open(out,"w"),indent=1,sort_keys=True); shutil.rmtree(w); print(len(old),"changes")
