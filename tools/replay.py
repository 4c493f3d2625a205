#!/usr/bin/env python3
"""Replays a counterexample file on the natively compiled current tree."""
import json, sys, os
f = json.load(open(sys.argv[1]))
sys.argv = ["check.py", f["property"]]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, vlib
vlib.ensure_gen()
vlib.ensure_native_pb()
job = {"harness": f["harness"], "defs": tuple(f["defs"])}
ok, text = check.confirm(job, {"entry": f["entry"], "case": f["case"], "kind": f["kind"], "replay": f["values"], "sched": f["schedule"]})
print("reproduced" if ok else "not reproduced", "-", text)
sys.exit(1 if ok else 0)
