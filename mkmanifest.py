#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "sim"))
from props import PROPS, NA
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PROPS:
        s = PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": "deterministic simulation with fault injection: " + s["technique"], "level": "exploration",
                       "level_note": "Seeded search over simulated runs of the real code, no proof: a clean batch is evidence. Trusted: the reference model and oracles in sim/, AddressSanitizer, the compiler. " + "; ".join(s["assumptions"]) + "."})
m = {"version": 1, "setup_cmd": "python3 build_all.py",
     "hooks": {"guard": "none (no hooks are needed: the seams are the library's own callbacks, operator new and the application side)", "enable": "nothing to enable", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "check.py builds into build/ (ignored). VERIF_SEED selects the seed range; VERIF_BUDGET_S overrides the thorough search time. replay.py replays a violation file. KNOWN_FINDINGS.txt lists repaired defects and known findings."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
