#!/usr/bin/env python3
"""phase1.py MUTANTS OUT: which mutants build and pass the stable tests (in copies of /repo under /tmp)."""
import json, os, shutil, subprocess, sys, threading, queue
muts = [json.loads(l) for l in open(sys.argv[1])]
out = open(sys.argv[2], "a")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable_pass"]) if "stable_pass" in json.load(open("/opt/vp/BASELINE.json")) else None
q = queue.Queue()
for i, m in enumerate(muts):
    q.put((i, m))
lock = threading.Lock()
def sh(cmd, cwd, t):
    try:
        return subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; cd %s; %s" % (cwd, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired:
        return None
def work(k):
    d = f"/tmp/mt/r{k}"
    subprocess.run(["rm", "-rf", d]); subprocess.run(["cp", "-a", "/repo", d])
    while True:
        try: i, m = q.get_nowait()
        except queue.Empty: return
        p = f"{d}/{m['file']}"
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["Start"]] + m["Text"].encode() + src[m["End"]:])
        r = sh("go build ./...", d, 120)
        st = "nobuild"
        if r is not None and r.returncode == 0:
            pk = "./metadata ./metadata/config ./metadata/trustedmetadata ./metadata/multirepo ./metadata/repository ./testutils/... ./examples/..."
            tmp = f"/tmp/mt/t{k}"; subprocess.run(["rm", "-rf", tmp]); os.makedirs(tmp)
            r = sh(f"TMPDIR={tmp} timeout 60 go test -vet=off -count=1 $(go list -e ./... | grep -Ev '/metadata/(fetcher|updater)$')", d, 180)
            st = "survives" if r is not None and r.returncode == 0 else "killed"
        open(p, "wb").write(src)
        with lock:
            m["status"] = st; m["i"] = i
            out.write(json.dumps(m) + "\n"); out.flush()
ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
[t.start() for t in ts]; [t.join() for t in ts]
