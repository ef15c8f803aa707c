"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C20": "pure function of its arguments (permutation matrices built once from the lattice size): no scheduling, time, I/O, randomness, fault or multi-party behaviour for a simulator to control",
    "C21": "pure function of parameters and configuration: no scheduling, time, I/O, fault or multi-party behaviour for a simulator to control",
    "C22": "pure linear algebra on constants: no scheduling, time, I/O, fault or multi-party behaviour for a simulator to control",
}
TECH = "deterministic simulation with fault injection: seeded runs of the real package on R simulated MPI processes x D devices inside one process; the scheduler, communicator, clock, storage and failures are drawn from the seed"
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "exploration",
                       "level_note": NOTES.get(i, "seeded search; see coverage in the evidence file for what was reached")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check setup", "hooks": {"guard": "none", "enable": "no hooks: the seams are the modules mpi4py, h5py, time and the jax device functions, replaced from outside", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "see DESIGN.md; fixed defects are listed in KNOWN_FINDINGS.txt"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
