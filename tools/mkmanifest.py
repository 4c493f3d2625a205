#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Every path of the real code within the stated bounds is executed symbolically from its LLVM bitcode and each assertion decided by Z3 over all values; "
        "counterexamples are replayed on an ASan/UBSan (or TSan) build before they are reported. ")
TRUST = "Trusted: the engine, Z3, the models of libprotobuf/libstdc++ runtime internals, clock and MD5 (cross-checked by native replay of sampled paths). "
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in specs.PROPS:
        s = specs.PROPS[pid]
        b = s["bounds"] if isinstance(s["bounds"], str) else s["bounds"]["quick"]
        checks.append({"property": pid, "quick_cmd": "python3 tools/check.py %s" % pid, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": s.get("technique", "symbolic execution of the LLVM bitcode of the real sources, assertions decided by SMT (Z3)"),
                       "level": "model_checking", "level_note": NOTE + "Bounds: " + b + ". " + TRUST + ("Outside: " + s["outside"] + "." if s.get("outside") else "")})
    else:
        na.append({"property": pid, "reason": specs.NOT_APPLICABLE.get(pid, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: clock, digest and heap are intercepted below the code (bitcode models; link-time wrapping in the native replay build)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
