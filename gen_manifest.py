#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
import plan
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = "Search, not proof: the property held on every generated case of the run (counts in the evidence file). Trusts the independent reference code in harness/, the compilers and the sanitizer runtimes."
checks, na = [], []
for i in ids:
    if i in plan.PROPS:
        c = plan.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py check %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py check %s" % i,
                           technique=c.get("technique", "property-based testing (shrinking choice-sequence generators) and libFuzzer against a reference oracle"),
                           level=c.get("level", "exploration"), level_note=c.get("note", "") + (" " if c.get("note") else "") + NOTE))
    else: na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: checks build the unmodified working tree. Fix commits are listed in known_findings.json.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
