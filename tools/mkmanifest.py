#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEC = "deterministic simulation of decorators generated from the current tree: seeded scheduler, simulated clock and channels, injected faults (slow, stuck, failing, panicking, re-entrant wrapped calls, cancellations, stalls, clock steps), history oracle, minimised exact replay"
GEN = "deterministic simulation of the command on a simulated file system, network, package loader and map order, with injected faults and crash points; seeded, minimised exact replay"
NOTE = {}
DECNOTE = "Seeded search over scenarios, schedules and faults on the real generated code (source-rewritten onto the simulator); a clean run is evidence, not proof. Trusts the rewriting, the simulated sync/time/context/channels and the oracle."
GENNOTE = "Seeded search over inputs, faults, crash points and schedules on gowrap's own packages (source-rewritten onto the simulator, built with go build -overlay from the current tree); a clean run is evidence, not proof. Trusts the rewriting, the simulated file system and network, and the oracle."
NA = {
 "N01": "pure function of the source interface: no schedule, clock, fault, I/O or multi-party behaviour the property depends on; generating inputs for it would not be simulation",
 "N02": "pure function of the source interface and its type arguments; nothing for a simulator to decide",
 "N03": "pure function of the source interface and the destination package; nothing for a simulator to decide",
 "N04": "pure string functions and flag parsing; nothing for a simulator to decide",
}
CLAIMED = os.environ.get("CLAIMED", "").split() or None
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if CLAIMED is not None and i not in CLAIMED:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                   "technique": DEC if i[0] == "C" else GEN, "level": "exploration",
                   "level_note": DECNOTE if i[0] == "C" else GENNOTE})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are put in at build time by rewriting the source of the current tree (src/vtool/rewrite). Replay a violation with ./check.sh <id> --replay <file>."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
