"""Write MANIFEST.json: claimed = properties with a module under sim/props."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = {
 "C20": "at this commit no result ever reaches the coordinator: extract_mesa_results asks for a grid format the grid reader rejects and swallows the exception, so every report is an empty table and the coordinator raises at the first one (further: DataFrame.append is gone from the pandas in use, all ranks share one temporary file, workers have no end condition); there is no history of results for a simulation to judge, and making one exist is a rework of the feature, not a small repair",
 "N01": "probability laws of pure sampling functions: no schedule, clock, I/O or fault takes part, so deterministic simulation decides nothing about them",
 "N02": "pure orbital mechanics of one call: no concurrency, time, I/O or multi-party behaviour to simulate",
 "N03": "accuracy of a numerical integrator inside one call: no concurrency, real time, I/O or multi-party behaviour to simulate",
 "N04": "numerical property of pure interpolation functions: no concurrency, time, I/O or multi-party behaviour to simulate",
 "N05": "numerical property of pure functions: no concurrency, time, I/O or multi-party behaviour to simulate",
 "N06": "algebra of pure functions: no concurrency, time, I/O or multi-party behaviour to simulate",
 "N07": "numerical property of a pure function of one track: no concurrency, time, I/O or multi-party behaviour to simulate",
}
NOTE = ("Seeded search over schedules, faults and workloads on the real code in a deterministic "
        "simulator; a pass means no violation in the runs explored (counts in the evidence file), "
        "not a proof. Trusts: the scripted stand-ins named in the evidence, process-crash (not "
        "power-loss) durability, and the reference model of this property in sim/props.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/sim/props/{i.lower()}.py"):
        src = open(f"{V}/sim/props/{i.lower()}.py").read()
        m = re.search(r'^LEVEL_NOTE = \((.*?)\)\n\n', src, re.S | re.M)
        note = NOTE
        if m:
            note = eval("(" + m.group(1) + ")") + " " + NOTE
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}",
                       "thorough_cmd": f"./check.sh {i} --tier thorough",
                       "technique": "deterministic simulation with fault injection (seeded schedule, "
                                    "fault and workload search; reference-model oracle)",
                       "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks were added to /repo: every seam is patched from outside (sim/seams.py). "
                    "/repo carries only fix: commits."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
