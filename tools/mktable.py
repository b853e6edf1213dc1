#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Table of planted bugs\n"
text = open(HERE + "/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n" + MARK
text += "\nEach is caught by the quick check of its property (others may catch it as well).\n\n| id | property | needs | breaks |\n|---|---|---|---|\n"
one = lambda s: " ".join(str(s).split()).replace("|", "/")
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    text += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], one(m["needs"]), one(m["what_it_breaks"]))
open(HERE + "/DESIGN.md", "w").write(text)
