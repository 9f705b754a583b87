"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in [n["property"] for n in NA]:
        continue
    assert p in check.PLAN, p
    scen = sorted({s for s, _, _ in check.PLAN[p]})
    checks.append({
        "property": p,
        "quick_cmd": "./check run %s --tier quick" % p,
        "thorough_cmd": "./check run %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, %s"
                     % NOTES["technique"].get(p, "reference model compared after every event"),
        "level": "exploration",
        "level_note": NOTES["level"][p] + " " + NOTES["common"],
    })
doc = {"version": 1,
       "setup_cmd": "./check setup",
       "checks": checks,
       "not_applicable": NA,
       "notes": "No hooks in /repo: the checks use the seams pySOT and POAP already have (controllers, strategy, surrogate and "
                "design interfaces, the file functions of the process). Replay a violation with ./check replay FILE; "
                "./check selftest compares the same seeds across processes, worker counts and hash seeds."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
