#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: a property is claimed when a scenario for it exists."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {}
for f in sorted(os.listdir(f"{V}/scen")):
    if f.endswith(".cpp"):
        for m in re.finditer(r"^\s*SCENARIO\((\w+), (\w+),", open(f"{V}/scen/{f}").read(), re.M):
            have.setdefault(m[1], []).append(m[2])
PURE = ("a pure single-threaded function of its inputs: no schedule, clock, fault, file or other party for the simulation to decide; "
        "only input generation would remain")
NOTES = json.load(open(f"{V}/tools/level_notes.json"))
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=${{VERIF_TIER:-quick}} ./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and workloads): " + NOTES[i][0],
            "level": "exploration",
            "level_note": NOTES[i][1] + " Sampled, not exhaustive; trusts the simulator's model of glibc/POSIX and sequentially consistent atomics with happens-before checking.",
        })
    else:
        na.append({"property": i, "reason": PURE if i.startswith("X") else "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks compile the unmodified sources with -fsanitize=thread instrumentation and redirect their calls to libc, pthread and the allocator to the simulator with objcopy --redefine-syms", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "check.sh PROPERTY runs one check; build/simrun-* --replay FILE replays a violation.",
}
open(f"{V}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")
