#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties the checker implements (hv -list)."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rules = json.loads(subprocess.check_output([os.path.join(V, "bin/hv"), "-list"]))
ps = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C50": "whether a textual rewrite leaves the meaning of every Go program unchanged quantifies over the content of runtime strings (the plugin's sources); deciding it needs reasoning about string values, which no dataflow, typestate or lint argument in reach can bound.",
 "C51": "decided by the Go runtime's plugin loader from the compiled objects, not by any construct in /repo; what /repo contributes (a package path and a file name of its own per build and load) is claimed as C33 and C17.",
 "C52": "a liveness statement over the scheduler and over user code run by releases (OnFree may block for ever); no static argument bounds it. The safety half (one release is scheduled per replacement) is C07.",
}
try:
    NA.update(json.load(open(os.path.join(V, "tools/na.json"))))
except FileNotFoundError:
    pass
TECH = "path-sensitive dataflow/typestate analysis (abstract interpretation of the SSA form, whole-call inlining, fixpoint over loops)"
try:
    T = json.load(open(os.path.join(V, "tools/technique.json")))
except FileNotFoundError:
    T = {}
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in rules:
        t = T.get(i, {})
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "bash check.sh " + i, "evidence_file": "evidence/%s.json" % i,
            "technique": t.get("technique", TECH), "level": "other",
            "level_note": "Static rule over all paths of the analysed entry points of /repo's current source: " + rules[i] + ". " + t.get("note", "Assumes the documented behaviour of the Go standard library and of user code (plugins may return errors and panic); the analysis and its rules are trusted, not machine-checked.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "One checker (checker/, Go, x/tools SSA) decides every property from the source; see DESIGN.md. Changes to /repo are fix: commits only, no hooks."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable:", " ".join(x["property"] for x in na))
