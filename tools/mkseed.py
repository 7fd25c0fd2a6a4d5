#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, edits=[(file,old,new)], demo (Go test body file text), needs, breaks.
Makes /verif/seeded/<id>/ and confirms it: builds, passes the stable tests, demo 0 without and non-zero with."""
import sys, os, subprocess, json, shutil, runpy
S = runpy.run_path(sys.argv[1])
sid = S['id']; D = f'/verif/seeded/{sid}'; K = '/verif/tools/seedkit'
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh('git -C /repo status --porcelain').stdout == '', 'repo dirty'
os.makedirs(D, exist_ok=True)
for f in ('kit_test.go', 'demo.sh'): shutil.copy(f'{K}/{f}', D)
if S.get('own_demo_sh'):
    open(f'{D}/demo.sh', 'w').write(S['own_demo_sh'])
open(f'{D}/demo_test.go', 'w').write(S['demo'])
json.dump({"property": S['prop'], "needs": S['needs'], "what_it_breaks": S['breaks']}, open(f'{D}/meta.json', 'w'), indent=1)
ok = True
def demo():
    r = sh(f'bash {D}/demo.sh', cwd='/repo'); return r.returncode, r.stdout
c, o = demo()
if c != 0: print('demo fails on the unchanged tree', o[-3000:]); ok = False
try:
    for f, old, new in S['edits']:
        p = f'/repo/{f}'; t = open(p).read()
        n = t.count(old)
        assert n >= 1, ('not found', f, old)
        want = 1
        assert n == want, ('matches', n, old)
        open(p, 'w').write(t.replace(old, new))
    print(sh('. /opt/vp/env.sh; gofmt -l metadata examples', cwd='/repo').stdout)
    open(f'{D}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    # deleted lines must be original ones
    for f, old, new in S['edits']:
        d = sh(f"git -C /repo diff -U0 HEAD -- {f}").stdout
        for l in d.splitlines():
            if l.startswith('@@'):
                a = l.split()[1][1:]; st, _, n = a.partition(','); n = int(n or 1)
                if n:
                    b = sh(f'git -C /repo blame -s -L{st},+{n} HEAD -- {f}').stdout
                    for x in b.splitlines():
                        if not x.startswith('^f63ba2c'): print('NOT ORIGINAL:', x)
    r = sh('bash /opt/vp/build.sh')
    if r.returncode: print('BUILD FAILS', r.stdout); ok = False
    r = sh('bash /opt/vp/test.sh /tmp/seed.json')
    res = json.load(open('/tmp/seed.json')); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    txt = json.dumps(res)
    failed = [x for x in st if x in (res.get('failed') or [])]
    passed = res.get('passed') or []
    miss = [x for x in st if x not in passed]
    if failed or miss: print('STABLE TESTS FAIL', failed, miss[:5], r.stdout[-1500:]); ok = False
    c, o = demo()
    if c == 0: print('demo passes with the change'); ok = False
    else: print('demo with change:', [l for l in o.splitlines() if 'demo_test' in l or 'panic' in l][:4] or o[-800:])
finally:
    sh('git -C /repo checkout -- .')
print(sid, 'OK' if ok else 'BAD')
