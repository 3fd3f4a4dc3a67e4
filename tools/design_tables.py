#!/usr/bin/env python3
"""Prints the planted-change table of DESIGN.md from /verif/seeded (development aid, no check uses it)."""
import json, os
d = "/verif/seeded"
for i in sorted(os.listdir(d), key=lambda i: (json.load(open(d + "/" + i + "/meta.json"))["property"], i)):
    m = json.load(open(d + "/" + i + "/meta.json"))
    print("| %s | `%s` | %s | %s |" % (m["property"], i, m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
