#!/usr/bin/env python3
# Writes /verif/MANIFEST.json
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "tools"))
from scenarios import SCEN
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = "pure function of its arguments: no schedule, clock, I/O, allocation failure, crash or second party enters it, so a simulator has nothing to decide (its freedom from hidden shared state is part of C20)"
note = "Seeded search: a clean batch is evidence, not proof. Real: the library code of /repo compiled from the working tree. Simulated: allocator, files, descriptors, pipes, processes, clocks, randomness, task scheduling. Assumes the simulated calls follow POSIX as written in /verif/sim/sys.cpp."
m = dict(version=1, setup_cmd="python3 -c pass", checks=[], not_applicable=[],
  notes="No hooks in /repo: the library's calls of malloc, read, posix_spawn, nanosleep ... are renamed to the simulator's functions in the compiled object files (objcopy --redefine-syms), and preemption points come from -fsanitize-coverage=trace-pc.")
for p in props:
    i = p["id"]
    if i in SCEN: m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i, technique="deterministic simulation with fault injection: seeded search over histories, schedules and faults against a reference model", level="exploration", level_note=note))
    else: m["not_applicable"].append(dict(property=i, reason=NA))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
