#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: planted bugs and what is not applicable."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(ROOT + "/DESIGN.md").read()
rows = ["| planted bug | caught by | breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
na = json.load(open(ROOT + "/MANIFEST.json"))["not_applicable"]
lines = ["* **%s**: %s" % (x["property"], x["reason"]) for x in na]
for tag, body in ("seeds", rows), ("na", lines):
    d = re.sub("<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, "\n".join(body), tag), d, flags=re.S)
open(ROOT + "/DESIGN.md", "w").write(d)
