#!/usr/bin/env python3
"""Replaces the table of planted bugs of DESIGN.md."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seed | property | needs | breaks | caught |", "|---|---|---|---|---|"]
MISSED = {"c12": "yes; missed before adjacent times","b29": "yes; missed before the check of several sets", "c14": "yes; missed before the wider choice of calls", "c17": "yes; missed before negative F10.7 indices",
          "e04": "yes; missed before separately evaluated potential and gradient", "e05": "yes; missed before option sweeps",
          "d03": "yes; missed before calls differing in some arguments only",
          "f01": "yes; missed before wide ranges of wave numbers", "f02": "yes; missed before differing validities of the two expansions",
          "g01": "yes; missed before one array passed as both positions", "g02": "yes; missed before the check of many sets", "g05": "yes; missed before disjoint validities",
          "f03": "yes; missed before tiny values", "f04": "yes; missed before the check of high degrees", "f05": "yes; missed before the check of long names",
          "f07": "yes; missed before numbers next to the limit", "f08": "yes; missed before incomplete positions of the Sun", "f09": "yes; missed before barely overlapping validities"}
for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(path))
    name = os.path.basename(os.path.dirname(path))
    rows.append("| %s | %s | %s | %s | %s |" % (name, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), MISSED.get(name, "yes")))
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
text = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", text.replace("@SEEDS@", "<!-- seeds --><!-- /seeds -->"), flags=re.S)
open(path, "w").write(text)
