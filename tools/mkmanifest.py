#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when some scenario decides it."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
have = set()
for f in glob.glob(os.path.join(H, "scen", "*.cc")):
    have |= set(re.findall(r"^SCENARIO\((\w+),", open(f).read(), re.M))
NA = {
    "D01": "Intrusive list: no allocation, I/O, time, concurrency or other party, so there is no schedule or fault for a "
           "simulator to vary; its behaviour is a pure function of the call sequence and belongs to model-based or "
           "deductive checking.",
    "U01": "Grammar conformance of a pure function of one input string; apart from the single allocation (refused by "
           "R01's and M04's runs) nothing nondeterministic enters, so simulation adds nothing over input generation.",
    "O01": "Pure function of the argument vector: no time, I/O, concurrency, allocation or peer to simulate.",
    "K01": "Pure function of its bytes and of the CPU's instruction set; no schedule, clock, I/O or peer to inject "
           "faults into (its cross-thread independence is covered under M04).",
}
NOTE = {
 "_": "Sampling evidence: seeded search over schedules, faults and histories against an executable reference model; "
      "the real sources of /repo are compiled unchanged and run inside the simulated kernel. Assumes the simulated "
      "kernel, allocator and C library follow POSIX/Linux, and sequentially consistent memory (weaker orders are "
      "covered only by the built-in data-race detector). A clean run is not a proof.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i + " --thorough",
            "technique": "deterministic simulation with fault injection (seeded schedule, fault and history search)",
            "level": "exploration",
            "level_note": NOTE["_"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No scenario yet: the check for this property is still being built.")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is a symbol of the C library redirected to the simulator when the "
              "check builds its own objects from /repo's working tree (see DESIGN.md)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", [x["property"] for x in na])
