"""Prints what each known finding does now: VERIF_SHIM environment of check.py needed."""
import json, sys, tempfile
from sim import engine
engine.load_library()
k = json.load(open("/verif/known_findings.json"))
for f in k["findings"]:
    p = engine.prop_module(f["property"])
    r = engine.run_one(p, f["trace"], tempfile.mkdtemp(dir="/dev/shm"))
    print(f["id"], r.get("viol"), r.get("error"))
