#!/usr/bin/env python3
"""Generate a `go build -overlay` file that puts harness hooks into copies of a few
standard-library files (never touching GOROOT or /repo).

Hooks:  syscall.VerifHook (every file-system call), time.VerifNow (the clock),
        runtime.VerifMapOrder (map iteration start), runtime.VerifGoid.
usage: gen.py GOROOT OUTDIR
"""
import json, os, re, sys

G, out = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)
rep = {}


def load(rel):
    with open(f"{G}/src/{rel}") as f:
        return f.read()


def emit(rel, text):
    p = f"{out}/{rel.replace('/', '__')}"
    with open(p, "w") as f:
        f.write(text)
    rep[f"{G}/src/{rel}"] = p


def ins(src, name, call, rel):
    pat = re.compile(r"(\nfunc %s\([^\n]*\{\n)" % re.escape(name))
    if len(pat.findall(src)) != 1:
        sys.exit(f"overlay: no unique func {name} in {rel}")
    return pat.sub(lambda m: m.group(1) + call, src)


def hook(op, dirfd, a, b, n, p, ret):
    return (f'\tif h := VerifHook; h != nil {{\n\t\tif e := h("{op}", {dirfd}, {a}, {b}, int64({n}), {p}); e != 0 {{\n'
            f'\t\t\treturn {ret}\n\t\t}}\n\t}}\n')


rel = "syscall/zsyscall_linux_amd64.go"
s = load(rel)
for name, op, dirfd, a, b, n, p, ret in [
    ("openat", "open", "dirfd", "path", '""', "flags", "nil", "-1, e"),
    ("write", "write", "-1", '""', '""', "fd", "p", "-1, e"),
    ("pwrite", "write", "-1", '""', '""', "fd", "p", "-1, e"),
    ("read", "read", "-1", '""', '""', "fd", "p", "-1, e"),
    ("Close", "close", "-1", '""', '""', "fd", "nil", "e"),
    ("Renameat", "rename", "olddirfd", "oldpath", "newpath", "newdirfd", "nil", "e"),
    ("unlinkat", "unlink", "dirfd", "path", '""', "flags", "nil", "e"),
    ("Mkdirat", "mkdir", "dirfd", "path", '""', "mode", "nil", "e"),
    ("Ftruncate", "ftruncate", "-1", '""', '""', "fd", "nil", "e"),
    ("Truncate", "truncate", "-100", "path", '""', "length", "nil", "e"),
    ("Fsync", "fsync", "-1", '""', '""', "fd", "nil", "e"),
    ("Fchmod", "fchmod", "-1", '""', '""', "fd", "nil", "e"),
    ("fchmodat", "chmod", "dirfd", "path", '""', "mode", "nil", "e"),
    ("linkat", "link", "olddirfd", "oldpath", "newpath", "newdirfd", "nil", "e"),
    ("symlinkat", "symlink", "newdirfd", "oldpath", "newpath", "newdirfd", "nil", "e"),
]:
    s = ins(s, name, hook(op, dirfd, a, b, n, p, ret), rel)
s += ("\n// VerifHook sees every file-system call before it is made; a non-zero result is returned instead.\n"
      "var VerifHook func(op string, dirfd int, a, b string, n int64, p []byte) Errno\n"
      "\n// VerifStmtHook is called before every instrumented statement (entry: first of a function).\n"
      "var VerifStmtHook func(site int, entry bool)\n"
      "\nfunc VerifStmt(entry int) {\n\tif h := VerifStmtHook; h != nil {\n\t\th(entry>>1, entry&1 == 1)\n\t}\n}\n")
emit(rel, s)

rel = "internal/syscall/unix/at.go"
s = load(rel)
H = lambda op, d, a, b, n, ret: (
    f'\tif h := syscall.VerifHook; h != nil {{\n\t\tif e := h("{op}", {d}, {a}, {b}, int64({n}), nil); e != 0 {{\n\t\t\treturn {ret}\n\t\t}}\n\t}}\n')
s = ins(s, "Unlinkat", H("unlink", "dirfd", "path", '""', "flags", "e"), rel)
s = ins(s, "Openat", H("open", "dirfd", "path", '""', "flags", "-1, e"), rel)
s = ins(s, "Mkdirat", H("mkdir", "dirfd", "path", '""', "mode", "e"), rel)
s = ins(s, "Renameat", H("rename", "olddirfd", "oldpath", "newpath", "newdirfd", "e"), rel)
s = ins(s, "Linkat", H("link", "olddirfd", "oldpath", "newpath", "newdirfd", "e"), rel)
s = ins(s, "Symlinkat", H("symlink", "newdirfd", "oldpath", "newpath", "newdirfd", "e"), rel)
emit(rel, s)

rel = "time/time.go"
s = load(rel)
s = ins(s, "Now", "\tif h := VerifNow; h != nil {\n\t\treturn h()\n\t}\n", rel)
s += "\n// VerifNow, when set, is the clock.\nvar VerifNow func() Time\n"
emit(rel, s)

rel = "internal/runtime/maps/table.go"
s = load(rel)
old = "\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n"
if s.count(old) != 1:
    sys.exit("overlay: map iteration seam not found")
s = s.replace(old, "\tif VerifOrderOn {\n\t\tit.entryOffset = VerifOrder\n\t\tit.dirOffset = VerifOrder\n\t} else {\n"
              "\t\tit.entryOffset = rand()\n\t\tit.dirOffset = rand()\n\t}\n")
s += "\nvar VerifOrderOn bool\nvar VerifOrder uint64\n"
emit(rel, s)

rel = "runtime/verif_hooks.go"
emit(rel, '''package runtime

import "internal/runtime/maps"

// VerifMapOrder fixes (on) or frees (off) the offset at which map iterations start.
func VerifMapOrder(on bool, v uint64) { maps.VerifOrder = v; maps.VerifOrderOn = on }

// VerifGoid returns the current goroutine's number.
func VerifGoid() uint64 { return getg().goid }
''')

with open(f"{out}/overlay.json", "w") as f:
    json.dump({"Replace": rep}, f)
