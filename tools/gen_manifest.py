#!/usr/bin/env python3
"""Write MANIFEST.json: a property is claimed when its group's source exists
under checks/; the others are listed as not yet built."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import run
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
grp = {p: g for g, ps in run.GROUPS.items() for p in ps}
NOTE = ("generated-input search against an independent oracle: exhaustive over the finite sub-domains named in the evidence, "
        "random, boundary-biased and coverage-guided elsewhere; what it explored is counted in the evidence, nothing is proved beyond it")
TECH = {"P05": "model-based stateful property testing", "P07": "model-based stateful property testing",
        "P43": "model-based stateful property testing", "P50": "model-based stateful property testing",
        "P52": "model-based stateful property testing with generated schedules and exhaustive single preemption",
        "P53": "metamorphic property testing over call histories and injected preemptions",
        "P54": "end-to-end round-trip property testing (encode, observe, decode, solve, compare with the truth)",
        "P03": "model-based property testing and fuzzing"}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", grp[i] + ".cc")) and "SUB(%s," % i in open(os.path.join(H, "checks", grp[i] + ".cc")).read():
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": TECH.get(i, "property-based testing") + " (generated inputs, explicit oracle, shrinking, coverage-guided mutation, ASan/UBSan)",
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py all --build-only", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
