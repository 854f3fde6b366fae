#!/usr/bin/env python3
"""Write MANIFEST.json from the property modules that exist."""
import importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {
    "N01": "pure function of corpus and parameters: no schedule, fault, clock, I/O or history to simulate (the float64 reference model used as oracle elsewhere samples it, which is not this technique deciding it)",
    "N02": "pure function of one array: nothing for a simulator to schedule or fail",
    "N03": "pure function of one text and a constant table: nothing for a simulator to schedule or fail",
    "N04": "pure function of the run and the judgements, computed by a third-party evaluator: nothing to simulate",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
import re
for i in ids:
    p = os.path.join(V, "sim", "props", i + ".py")
    if os.path.exists(p):
        src = open(p).read()
        tech = re.search(r'^TECHNIQUE = (\(?".*?"\)?)$', src, re.M | re.S)
        note = re.search(r'^NOTE = (\(.*?\)|".*?")$', src, re.M | re.S)
        lev = re.search(r'^LEVEL = "(.*?)"', src, re.M)
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py --property {i}",
            "thorough_cmd": f"python3 check.py --property {i}",
            "technique": eval(tech.group(1)) if tech else "deterministic simulation with fault injection",
            "level": lev.group(1) if lev else "exploration",
            "level_note": eval(note.group(1)) if note else "seeded search; assumes the stated stubs",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "Nothing in /repo is instrumented: every seam is outside it (LD_PRELOAD, replaced threading primitives, sys.settrace, stand-ins for urllib and the hub), so there are no hooks. Commits in /repo are repairs only, listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
