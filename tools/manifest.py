#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks (python3 tools/manifest.py)."""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # id: (technique, level_note)
"C01": ("explicit enumeration of signature-state assignments on the real verifier against a reference model",
        "Exhaustive within the stated alphabet; trusts crypto/ed25519 and the reference counting rule."),
"C02": ("breadth-first search over root chains on the real trusted set against a reference model",
        "Exhaustive over the stated candidate roots and depth."),
"C03": ("exhaustive operation sequences and session histories on the real code, with a monotonicity invariant",
        "Exhaustive over versions 1..3 and the stated depths; caches are shared across simulated sessions."),
"C04": ("exhaustive combinations of expiry offsets at every step, reference time and clock controlled by the harness",
        "Exhaustive over five offsets around the reference time."),
"C05": ("exhaustive combinations of declared and actual version, length and hashes against a reference model",
        "Exhaustive over the stated declaration alphabet."),
"C06": ("breadth-first search of all reachable trusted sets with deep state comparison after refused calls",
        "Exhaustive over the stated documents and calls."),
}
EXTRA = os.path.join(V, "tools", "manifest_extra.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        T[k] = tuple(v)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in T:
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=T[i][0], level="model_checking", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason="the check for this property is not built yet (planned, see DESIGN.md)"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: checks that need to see file-system calls, the clock or map order build against a patched copy of the standard library made at check time (mc/overlay/gen.py)."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
