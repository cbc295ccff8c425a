#!/usr/bin/env python3
"""Writes DESIGN.md from tools/mkdesign_head.md, known_findings.json, seeded/ and tools/results.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(V + "/tools/mkdesign_head.md").read()
fx = [f for f in json.load(open(V + "/known_findings.json"))["findings"]]
fixes = "\n".join("* %s `%s` %s" % (f["property"], f.get("commit") or "open", f["what"]) for f in fx)
res = {}
p = V + "/tools/results.json"
if os.path.exists(p):
    res = json.load(open(p))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("\n", " ").replace("|", "/"),
                                         res.get("seeds", {}).get(d, "?")))
head = head.replace("@FIXES@", fixes).replace("@SEEDS@", "\n".join(rows)).replace("@MUTANTS@", res.get("mutants", ""))
open(V + "/DESIGN.md", "w").write(head)
