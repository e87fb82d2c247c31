#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from plan import PLAN, NOTE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]


def technique(p):
    """what decides the property, from the phases of its check"""
    ph = PLAN[p]["phases"]
    mods = list(dict.fromkeys(x["module"] for x in ph if x["do"] == "model"))
    bad = list(dict.fromkeys(x["module"] for x in ph if x["do"] == "broken"))
    t = "explicit TLA+ specification; TLC explores %s" % ", ".join(mods)
    if bad:
        t += " (and refutes a deliberately wrong variant of %s)" % ", ".join(bad)
    if any(x["do"] == "model" and x.get("replay") for x in ph):
        t += "; every behaviour it prints is replayed into the real code"
    tr = list(dict.fromkeys(x.get("trace", "Trace") for x in ph if x["do"] in ("sys", "random", "race")))
    if tr:
        t += "; systematic and random executions of the real code are validated by TLC against the specification (%s)" % ", ".join(tr)
    return t


checks = [dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
               technique=technique(p),
               level="model_checking", level_note=PLAN[p].get("note", NOTE)) for p in props if p in PLAN]
na = [dict(property=p, reason="check not built yet") for p in props if p not in PLAN]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
