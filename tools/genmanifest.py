#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = json.load(open(os.path.join(H, "registry.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
na = {"P01": "the functions that route a message from the connection to a handler (handler.handleImmediate, handleMsg, handleCallMsg, handleSubscribe, the client's dispatch loop and the codecs) do not compile or are cut off in the pinned tree, so there is no implementation of the whole path to explore; the parts of package rpc that do compile are checked as P02 to P06"}
TECH = {
    "enum": "bounded-exhaustive explicit-state exploration of the real code against a reference model",
    "mc": "stateless model checking of the real code: exhaustive schedule exploration under a controlled scheduler with iterated preemption bounds, plus a race-detector pass per execution",
}
NOTE = {
    "enum": "Every element of the stated finite space of inputs or operation histories is run on the real code and compared with an independent reference. Trusts the Go toolchain and the reference model; says nothing outside the stated bounds.",
    "mc": "Every schedule of the stated scenarios within the completed preemption bound (usually unbounded; reported) is run on the real, source-instrumented code. Trusts the instrumenter, the modelled semantics of channels, sync, atomic, time and context, sequential consistency, and the Go toolchain.",
}
checks = []
for p in props:
    if p in reg:
        k = reg[p]["kind"]
        checks.append({"property": p, "quick_cmd": "python3 check.py run %s" % p, "thorough_cmd": "python3 check.py run %s --tier thorough" % p,
                       "technique": reg[p].get("technique", TECH[k] + ("; concurrent calls by " + TECH["mc"] if k == "enum" and "mc" in reg[p] else "")), "level": "model_checking", "level_note": reg[p].get("level_note", NOTE[k])})
m = {"version": 1, "setup_cmd": "python3 check.py list", "checks": checks,
     "not_applicable": [{"property": p, "reason": na.get(p, "no check yet")} for p in props if p not in reg]}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
