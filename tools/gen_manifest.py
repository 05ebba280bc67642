#!/usr/bin/env python3
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
 "P25": "pure functions of one argument: no schedule, clock, fault or history for a simulator to decide (their use in sampling is covered by P21 and P23)",
}
REF = {
 "P12":"weighted averages", "P13":"conservation, range and reachable-state models", "P14":"conservation, range and lone-pair models",
 "P15":"closure and reachable-state models", "P16":"contact rules", "P17":"Runge-Kutta reference", "P18":"velocity Verlet reference",
 "P19":"bot rules and reference integrators", "P20":"expected-contact reference", "P21":"documented initial states", "P22":"adjacency-list reference model",
 "P23":"exact probabilities (Hoeffding/Chernoff bounds, error probability 1e-11 per comparison)", "P24":"iterative component count",
}
TECH = {
 "P01":"deterministic simulation: paired executions under different simulated environments",
 "P02":"deterministic simulation: seeded preemptive scheduler, against solo executions",
 "P03":"deterministic simulation with kills: output files against the trace of every state",
 "P04":"deterministic simulation: paired executions that differ in observation",
 "P05":"deterministic simulation: save/load histories under I/O noise, independent parser",
 "P06":"deterministic simulation: kill and torn write at random operations, failing allocations",
 "P07":"deterministic simulation: kill/resume histories against the uninterrupted run",
 "P08":"deterministic simulation: write-side fault injection",
 "P09":"deterministic simulation: read-side fault injection",
 "P10":"deterministic simulation: damaged inputs on the simulated disk",
 "P26":"deterministic simulation: configuration files under read faults and noise, against the values written",
 "P27":"deterministic simulation: whole-program runs under a simulated clock and disk, reports against what was done",
 "P28":"deterministic simulation: failing allocations and I/O in repeated simulations, accounting of memory and files",
 "P29":"deterministic simulation: the same seeded run at four lengths, peak memory, files and work compared",
 "P30":"deterministic simulation: several processes interleaved on one simulated disk, against solo executions",
 "P11":"deterministic simulation: run histories against the stopping rule",
}
checks = []
for p in props:
    if p["id"] in NA: continue
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
        technique=TECH.get(i, "deterministic simulation: seeded search over histories, against " + REF.get(i, "")),
        level="exploration",
        level_note="seeded sampling of executions of the real code in a simulated environment (disk, clocks, randomness source, scheduler, process death); "
                   "a clean batch is evidence, not proof; trusts the simulator's seams and reference models, checked by planted bugs and a determinism self-test"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo: the seams are link- and compile-time (sim/build.sh compiles /repo's sources with a forced include and interposes libc). "
          "Replay a violation with ./replay.sh FILE [v].")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
