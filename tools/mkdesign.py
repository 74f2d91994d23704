#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (text) plus the lists kept elsewhere: fixed defects, known findings, planted bugs."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(H, "tools", "design.md")).read()
k = json.load(open(os.path.join(H, "known_findings.json")))
fx = "\n".join("- **%s** `%s` %s" % (f.split()[1].split("=")[1], f.split()[2], " ".join(f.split()[3:])) for f in k["fixed"])
kf = "\n".join("- **%s**, key `%s`: %s" % (f["property"], f["key"], f["what"]) for f in k["findings"])
rows = []
note = {}
p = os.path.join(H, "tools", "caught.json")
if os.path.exists(p): note = json.load(open(p))
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], d["needs"], note.get(i, "")))
t = t.replace("@FIXED@", fx).replace("@FINDINGS@", kf).replace("@SEEDED@", "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(H, "DESIGN.md"), "w").write(t)
print(len(t), "characters;", len(rows), "planted bugs")
