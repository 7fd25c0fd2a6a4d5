#!/usr/bin/env python3
"""phase2.py P1 OUT: run the quick checks against mutants that pass the tests (in a copy of /repo under /tmp)."""
import json, os, random, subprocess, sys, time
V="/verif"; R="/tmp/mt/p2repo"; W="/tmp/mt/p2w"
muts=[m for m in map(json.loads,open(sys.argv[1])) if m["status"]=="survives" and not m["file"].startswith("examples")]
random.Random(7).shuffle(muts)
n=int(os.environ.get("ONE_IN","3"))
muts=[m for m in muts if m["i"]%n==0 or not ("updater" in m["file"] or "multirepo" in m["file"])]
done=set()
if os.path.exists(sys.argv[2]):
    done={json.loads(l)["i"] for l in open(sys.argv[2])}
subprocess.run(["rm","-rf",R,W]); subprocess.run(["cp","-a","/repo",R]); os.makedirs(W)
subprocess.run(["cp","-a",V,W+"/verif"]); V=W+"/verif"
s=open(V+"/mc/go.mod").read().replace("=> /repo","=> "+R); open(V+"/mc/go.mod","w").write(s)
env=dict(os.environ)
for l in subprocess.run(["bash","-c",". /opt/vp/env.sh >/dev/null 2>&1; env"],capture_output=True,text=True).stdout.splitlines():
    k,_,v=l.partition("="); env[k]=v
env.update(GOFLAGS="-mod=mod",GOPROXY="off",GOTOOLCHAIN="local",MC_REPO=R,MC_BUILD_DIR=W,VERIF_SEED="1",VERIF_TIER="quick")
goroot=subprocess.run(["go","env","GOROOT"],env=env,capture_output=True,text=True).stdout.strip()
subprocess.run(["python3",V+"/mc/overlay/gen.py",goroot,W+"/ov"],check=True)
hooked="C04 C08 C10 C14 C20 C24 C26".split()
order={"multirepo":"C16 C29","fetcher":"C15 C30 C13","errors":"C30","keys":"C27 C21 C01 C18 C19","trusted":"C02 C03 C05 C04 C06 C30 C18",
 "updater":"C22 C26 C10 C08 C13 C30 C07 C23 C09 C03 C04 C05 C02 C14 C29","metadata":"C12 C21 C20 C10 C04 C01 C02 C03 C11 C05 C27 C30 C17 C19 C18 C28 C06","config":"C26 C13 C22 C29"}
rest="C16 C12 C26 C10 C22 C13 C30 C07".split()
def build(tag):
    a=["go","build","-o",W+"/mc"+tag]
    if tag: a+=["-overlay",W+"/ov/overlay.json","-tags","hooked"]
    return subprocess.Popen(a+["."],cwd=V+"/mc",env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
out=open(sys.argv[2],"a"); n=0
for m in muts:
    if m["i"] in done: continue
    p=f"{R}/{m['file']}"; src=open(p,"rb").read()
    open(p,"wb").write(src[:m["Start"]]+m["Text"].encode()+src[m["End"]:])
    t0=time.time(); res=None
    ps=[build(""),build("h")]
    if any(x.communicate() and x.returncode for x in ps): res="nobuild"
    else:
        key=[k for k in order if k in m["file"].split("/")[-1]]
        key=key[0] if m["file"]!="metadata/metadata.go" else "metadata"
        ids=order[key].split(); ids+= [x for x in rest if x not in ids]
        if key in("multirepo","errors","fetcher"): ids=order[key].split()
        for c in ids:
            try:
                r=subprocess.run([W+"/mc"+("h" if c in hooked else ""),"-prop",c,"-tier","quick","-verif",V],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=200)
                rc=r.returncode
            except subprocess.TimeoutExpired: rc=99
            if rc!=0:
                res=f"{c} rc={rc}"; break
        else: res="SURVIVES"
    open(p,"wb").write(src)
    m["res"]=res; m["t"]=round(time.time()-t0,1); out.write(json.dumps(m)+"\n"); out.flush()
