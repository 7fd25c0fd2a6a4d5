#!/usr/bin/env python3
"""ideas.py SPEC.py [NAME...]: hand-written changes against the quick checks, in a copy of /repo under /tmp.
SPEC defines M = [(name, file, old, new, "C01 C02"), ...]. Prints whether the stable tests pass and which checks catch it."""
import json, os, subprocess, sys, time, runpy
M = runpy.run_path(sys.argv[1])["M"]; only = sys.argv[2:]
V="/verif"; R="/tmp/mt/irepo"; W="/tmp/mt/iw"
subprocess.run(["rm","-rf",R,W]); subprocess.run(["cp","-a","/repo",R]); os.makedirs(W)
subprocess.run(["git","-C",R,"checkout","-q","--","."])
subprocess.run(["cp","-a",V,W+"/verif"]); V=W+"/verif"
s=open(V+"/mc/go.mod").read().replace("=> /repo","=> "+R); open(V+"/mc/go.mod","w").write(s)
env=dict(os.environ)
for l in subprocess.run(["bash","-c",". /opt/vp/env.sh >/dev/null 2>&1; env"],capture_output=True,text=True).stdout.splitlines():
    k,_,v=l.partition("="); env[k]=v
env.update(GOFLAGS="-mod=mod",GOPROXY="off",GOTOOLCHAIN="local",MC_REPO=R,MC_BUILD_DIR=W,VERIF_SEED="1",VERIF_TIER="quick")
goroot=subprocess.run(["go","env","GOROOT"],env=env,capture_output=True,text=True).stdout.strip()
subprocess.run(["python3",V+"/mc/overlay/gen.py",goroot,W+"/ov"],check=True)
hooked="C04 C08 C10 C14 C20 C24 C26".split()
stmts=open(V+"/mc/stmts.txt").read().split()
def build(tag):
    a=["go","build","-o",W+"/mc"+tag]
    if tag=="s":
        subprocess.run(["rm","-rf",W+"/ovs"]); subprocess.run(["cp","-a",W+"/ov",W+"/ovs"])
        subprocess.run([W+"/instr",R,W+"/ovs",W+"/ovs/overlay.json"],check=True)
        return subprocess.Popen(a+["-overlay",W+"/ovs/overlay.json","-tags","hooked","."],cwd=V+"/mc",env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if tag: a+=["-overlay",W+"/ov/overlay.json","-tags","hooked"]
    return subprocess.Popen(a+["."],cwd=V+"/mc",env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
subprocess.run(["go","build","-o",W+"/instr","./overlay/instr"],cwd=V+"/mc",env=env,check=True)
for name,f,old,new,checks in M:
    if only and name not in only: continue
    edits=[(f,old,new)] if isinstance(old,str) else [(f,o,n) for o,n in zip(old,new)]
    bad=False
    for ff,o,n in edits:
        p=f"{R}/{ff}"; t=open(p).read()
        if t.count(o)!=1: print(name,"EDIT MATCHES",t.count(o)); bad=True; break
        open(p,"w").write(t.replace(o,n))
    if not bad:
        e2=dict(env); e2.pop("GOFLAGS",None)
        tr=subprocess.run("go test ./metadata/... 2>&1 | grep -E '^(--- FAIL|FAIL|ok|#|[a-z].*go:)' | grep -v '^ok' | head -5",shell=True,cwd=R,env=e2,capture_output=True,text=True).stdout
        ps=[build(t) for t in ("","h","s") if t!="s" or set(stmts)&set(checks.split())]; outs=[p.communicate()[0] for p in ps]
        if any(p.returncode for p in ps): print(name,"NOBUILD",outs[0][:500])
        else:
            res=[]
            for c in checks.split():
                t0=time.time()
                try:
                    r=subprocess.run([W+"/mc"+("s" if c in stmts else "h" if c in hooked else ""),"-prop",c,"-tier","quick","-verif",V],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=400); rc=r.returncode
                except subprocess.TimeoutExpired: rc=99
                res.append(f"{c}:{'caught' if rc==1 else 'MISSED' if rc==0 else rc}({time.time()-t0:.0f}s)")
            print(name,"| tests:", "pass" if not tr else "FAIL "+tr.replace("\n"," ")[:150],"|"," ".join(res),flush=True)
    subprocess.run(["git","-C",R,"checkout","-q","--","."])
