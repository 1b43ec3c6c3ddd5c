#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/properties.jsonl."""
import json, os, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = runpy.run_path(os.path.join(V, "tools/props.py"), run_name="__main__")["P"]
EXH = "exhaustive enumeration of inputs on the real program against an independent model"
T = {
    "P01": "explicit enumeration of all decompositions on the real program, serial run as oracle",
    "P02": "stateless model checking of thread and message schedules of the real program, deviation bounded, with race detection",
    "P03": "explicit enumeration of all decompositions on the real partitioner",
}
N = {
    "P01": "Bounded: meshes of 2 to 8 elements, all assignments to at most 4 submeshes, all placements on at most 3 nodes, 2 to 4 steps, up to 3 threads.",
    "P02": "Bounded: 2 to 4 submeshes, at most 2 (quick) or 3 (thorough) deviations from the default schedule of each run, 1 to 2 steps; data races judged per schedule by happens-before.",
    "P03": "Bounded: meshes of 2 to 8 elements, every assignment to at most 4 submeshes and their placements; METIS is replaced by the enumeration.",
}
DEF = "Bounded: patches of 1 to 9 elements with nodal values from small sets, 1 to 10 steps; the model is compared with the program on every state reached."
from importlib import util
SETUP = "python3 bin/build.py"
import sys
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "mc"))
import targets
exes = sorted({targets.PROPS[p["id"]] for p in P})
extra = runpy.run_path(os.path.join(V, "tools/notes.py")) if os.path.exists(os.path.join(V, "tools/notes.py")) else {}
T.update(extra.get("TECH", {})); N.update(extra.get("NOTE", {}))
NA = extra.get("NOT_APPLICABLE", [])
na = {x["property"] for x in NA}
M = {"version": 1, "setup_cmd": "python3 bin/build.py " + " ".join(exes),
     "hooks": {"guard": "none", "enable": "No hooks: the checks compile the unmodified sources of /repo against replacement MPI, METIS, OpenMP and PETSc runtimes kept in /verif.", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "bin/check " + p["id"], "thorough_cmd": "bin/check " + p["id"] + " --tier thorough",
                 "technique": T.get(p["id"], EXH), "level": "model_checking", "level_note": N.get(p["id"], DEF)} for p in P if p["id"] not in na],
     "not_applicable": NA}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
