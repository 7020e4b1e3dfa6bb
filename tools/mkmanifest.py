#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per checks/<id>.py."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTE = {}
NA = {"C22": "Memory safety is not a statement over the states of a TLA+ specification; TLC cannot observe it (see DESIGN.md).",
      "C23": "Convergence under refinement is a limit statement over real-valued solutions; no finite-state model decides it (see DESIGN.md)."}
checks, na = [], []
for p in props:
    f = os.path.join(R, "checks", p["id"] + ".py")
    if p["id"] in NA:
        na.append(dict(property=p["id"], reason=NA[p["id"]]))
    elif os.path.exists(f):
        s = open(f).read()
        tech = re.search(r'^TECHNIQUE = "(.*)"$', s, re.M)
        note = re.search(r'^NOTE = "(.*)"$', s, re.M)
        checks.append(dict(property=p["id"], quick_cmd="bin/check " + p["id"], thorough_cmd="bin/check " + p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=tech.group(1) if tech else "TLA+ specification, TLC model checking and trace validation of real runs",
                           level="model_checking",
                           level_note=note.group(1) if note else "Specification explored exhaustively for small constants; recorded runs of the real program are validated event by event against it. Trusts TLC, the recorder and the Exodus reader."))
    else:
        na.append(dict(property=p["id"], reason="No check has been built yet."))
m = dict(version=1, setup_cmd="bin/setup",
         hooks=dict(guard="none", enable="No hooks are used; the checks build /repo's sources unchanged (bin/setup, lib/vlib.py build()).", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Checks build the program into /verif/_build from /repo's working tree. Specifications are in spec/. Exit 2 or 3 means that a tool failed, not that the property is broken.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
