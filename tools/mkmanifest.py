#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (properties without a check are listed as not yet claimed)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "tools"), os.path.join(VERIF, "checks")]
import check  # noqa: E402

T = "TLA+ (TLC): "
REPLAY = "TLC checks the state machine against its declarative definition and writes it as a table, which a harness replays into the real code"
NOTES = json.load(open(os.path.join(VERIF, "tools", "notes.json")))
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [], "not_applicable": []}
for line in open(os.path.join(VERIF, "properties.jsonl")):
    pid = json.loads(line)["id"]
    e = check.find(pid)
    if e and pid in NOTES:
        n = NOTES[pid]
        m["checks"].append({"property": pid, "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + pid,
                            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + pid,
                            "evidence_file": "evidence/%s.json" % pid,
                            "technique": T + n["technique"], "level": e[0], "level_note": n["note"]})
    else:
        m["not_applicable"].append({"property": pid, "reason": "check under construction; not claimed yet"})
m["notes"] = "Specifications: spec/*.tla. Checks: checks/*.py. Harnesses: harness/*.cpp. See DESIGN.md. No hooks are needed in /repo."
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
