#!/usr/bin/env python3
"""Write MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
from props import PROPS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": s.get("technique", "runtime monitoring: differential oracle over generated executions under ASan+UBSan"),
                       "level": "exploration",
                       "level_note": s.get("note", "Every generated execution of the real code is judged by an independently written oracle while AddressSanitizer and UndefinedBehaviorSanitizer watch it; nothing is claimed about executions that were not generated.")})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh",
     "hooks": {"guard": "SDP_FUNC_VERIF", "enable": "the Makefile in /verif compiles /repo's sources with -DSDP_FUNC_VERIF; no hook in /repo uses it so far", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
