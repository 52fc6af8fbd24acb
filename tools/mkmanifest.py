#!/usr/bin/env python3
"""Write MANIFEST.json from the list of built property modules."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "seeded call histories on several density problems against an executable reference model",
    "C02": "call histories with failing distributions/KDEs/validation and line-level interrupts against the model",
    "C03": "call histories with faults on Bayesian problems against an executable reference model",
    "C04": "solve/assign/plot/fault histories on linear problems against closed forms",
    "C05": "epoch histories with failing factorisations and interrupts against a chain model",
    "C06": "deterministic line-level scheduling of client threads (seeded), each compared with its solo run",
    "C07": "call histories with faults; every caller-owned input frozen and compared, twin objects scribbled on",
    "C08": "plot/setter histories over several figures with failing draws; drawn data against the model",
    "C09": "seeded entry points replayed after simulated process histories (generator states, hash seeds)",
    "C10": "setter/generation/mask histories with failing decompositions against a reference model",
    "C11": "loads through a simulated file system: missing, truncated, corrupt, short-read, failing files",
    "C12": "example commands run over a simulated file layer with write faults at every operation",
    "C13": "paper command over a simulated web server and file layer with crashes, restarts and cut downloads",
    "C14": "import of the library under simulated LaTeX outcomes, working directories and pyplot states",
    "C15": "dataset generation over a simulated PDE solver and disk with failures, re-runs and reloads",
    "C16": "random generator behind a seam: the simulator delivers every draw and recomputes the measurements",
    "C20": "growing measurement campaigns with failing draws and solves, living objects; estimates bounded against the known truth",
}
NA = {
    "C17": "pure, stateless formulas: no schedule, time, I/O, fault or history to simulate; only input sampling would remain",
    "C18": "pure functions of one matrix or domain: nothing nondeterministic or faulty to simulate",
    "C19": "one pure scalar formula: nothing nondeterministic or faulty to simulate",
}
checks, na = [], []
for pid, what in NOTES.items():
    if os.path.exists(os.path.join(HERE, "dst", "props", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": f"./check.sh {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {pid}",
            "technique": "deterministic simulation with fault injection: " + what,
            "level": "exploration",
            "level_note": "Seeded search over simulated histories, schedules and faults on the real code; "
            "no claim beyond the runs explored. Assumptions and stubs are in the evidence file and DESIGN.md.",
        })
    else:
        na.append({"property": pid, "reason": "no check built yet"})
na += [{"property": k, "reason": v} for k, v in NA.items()]
doc = {
    "version": 1,
    "setup_cmd": "./check.sh --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks were needed in /repo: every seam is an argument, a module attribute or a "
    "library function replaced inside the simulated process. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump(doc, fp, indent=1)
    fp.write("\n")
