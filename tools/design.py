#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (not-applicable list and table of planted bugs)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = H + "/DESIGN.md"
s = open(p, encoding="utf-8").read()
na = json.load(open(H + "/tools/manifest_extra.json"))["na"]
t = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(H + "/properties.jsonl")}
ids = sorted(x for x in t if x.startswith("N"))
NA = "\n".join("* **%s %s.** %s" % (i, t[i], na[i]) for i in ids)
rows = ["| bug | property | needs |", "|---|---|---|"]
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"]))
s = re.sub(r"(## Not applicable\n\n).*?(\n\n## )", lambda m: m.group(1) + NA + m.group(2), s, flags=re.S)
s = re.sub(r"(check \(others often catch it too\)\.\n\n).*", lambda m: m.group(1) + "\n".join(rows) + "\n", s, flags=re.S)
open(p, "w", encoding="utf-8").write(s)
