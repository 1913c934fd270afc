#!/usr/bin/env python3
"""Assemble DESIGN.md from tools/design_body.md, replacing @TABLE@ by the planted-bug table (seeded/*/meta.json)."""
import glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
body = open("tools/design_body.md").read()
rows = ["| planted bug | property (its check catches it) | needs |", "|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s |" % (m.split("/")[1], j["property"] + (" — MISSED: " + j["missed"] if "missed" in j else ""), j["needs"].replace("\n", " ").replace("|", "/")))
open("DESIGN.md", "w").write(body.replace("@TABLE@", "\n".join(rows)))
