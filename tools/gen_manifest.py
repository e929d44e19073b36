#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.CHECKS and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif:")]
NOTE = ("Every recorded execution of the real code (schedules enumerated within a preemption bound plus random/PCT/weak-memory runs, or input scripts enumerated to a "
        "length bound plus random ones) is checked by TLC against the TLA+ specification; the specification's own invariants are checked exhaustively by TLC within the "
        "constants of its .cfg. Trusted: the harness's event recording, the cfg(futures_verif) shim and TLC. Not a proof beyond these bounds.")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "futures_verif", "enable": "RUSTFLAGS=\"--cfg futures_verif\" when building /verif/harness (check.py does this)", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json", "technique": c.get("technique", "TLA+ specification checked with TLC; traces recorded from the real code validated against it by TLC"),
        "level": "model_checking", "level_note": c.get("note", NOTE)})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
