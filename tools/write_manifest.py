#!/usr/bin/env python3
"""Writes MANIFEST.json. The claimed checks are those with a plan."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from vlib import plans
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
TECH = "explicit TLA+ specification checked with TLC; conformance of recorded runs of the real library against it"
NOTE = ("Every recorded run of the real library, over generated registries, data, damage and fault positions, must be "
        "a behaviour of the TLA+ parser specification; within the bounds in DESIGN.md the specification itself is model "
        "checked. Trusted: the specification, TLC, the harness that prints results, frame-metadata/scale-info decoding.")
EXTRA = {
 "C13": " The decoder for 32-bit targets is reached through a guarded hook.",
 "C14": " Crashes, aborts and time-outs of the real library are violations; two recorded findings are re-run.",
 "C23": " The library built without its std feature is run; only what the usual build does otherwise counts.",
 "C25": " Calls are repeated within histories of other calls and from several threads at once; thread schedules are sampled, not enumerated.",
 "C24": " Decided only while the inner public functions keep their signatures.",
 "C18": " Every memory access of every generated case is made to fail, once or from there on.",
}
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(substrate_parser_verif)", "enable": "RUSTFLAGS=\"--cfg substrate_parser_verif\" (vlib/tool.py build_harness)",
               "source_commits": HOOK},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in plans.ALL:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": TECH, "level": "fault_enumeration" if i == "C18" else "model_checking",
            "level_note": NOTE + EXTRA.get(i, "")})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
