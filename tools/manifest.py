#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
NA = {
 "C19": "escaping and path processing are pure functions of one argument: no thread, clock, I/O, randomness or fault can take part, so a simulated schedule has nothing to decide (their effect on stored variables is exercised inside C01, C14 and C18)",
 "C20": "option objects are plain data set by one thread: no concurrency, time, I/O or fault takes part in it",
 "C21": "the conversions are pure functions of their argument; what they do to stored values is decided as part of C01 and C16",
}
checks = []
for i in range(1, 23):
    pid = "C%02d" % i
    f = os.path.join(V, "sim", "props", pid.lower() + ".py")
    if not os.path.exists(f):
        if pid not in NA:
            NA[pid] = "not built yet"
        continue
    src = open(f).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s quick" % pid,
        "thorough_cmd": "python3 check.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": NOTES[pid]["technique"],
        "level": level,
        "level_note": NOTES[pid]["note"],
    })
m = {
 "version": 1,
 "setup_cmd": "python3 tools/setup.py",
 "hooks": {"guard": "none", "enable": "No change to /repo is needed: the seams are the system calls (LD_PRELOAD shim sim/simdisk.c), threading.Lock, sys.monitoring line events, random, time, importlib and os.urandom, replaced from outside by the simulator. The checks import /repo/src directly.", "source_commits": []},
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "Every check is a seeded search over simulated runs; a failing run is reported with a minimised replay file that 'python3 check.py --replay FILE' reproduces exactly. VERIF_SEED selects the runs.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
