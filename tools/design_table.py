#!/usr/bin/env python3
"""Prints the table of planted bugs and the checks that catch them (results: JSON {id: [property, caught]})."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    print("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), res.get(d, "?")))
