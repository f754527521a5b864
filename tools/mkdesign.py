#!/usr/bin/env python3
"""fills the tables of DESIGN.md from known_findings.json and seeded/"""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(R + "/known_findings.json"))["findings"]
fx = "\n".join("- %s %s: %s" % (f["property"], f["commit"], f["what"].split(" ", 3)[3]) for f in sorted(d, key=lambda f: f["property"]) if f["status"] == "fixed")
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    j = json.load(open(m)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"].replace("|", "/"), j["needs"].replace("|", "/")))
s = open(R + "/DESIGN.md").read()
def put(s, tag, text):
    return re.sub(r"<!-- %s -->.*?(?=\n\n(?:By design|Besides))" % tag, lambda _: "<!-- %s -->\n%s" % (tag, text), s, flags=re.S)
s = put(s, "FIXED", fx); s = put(s, "SEEDS", "\n".join(rows) + "\n\nEvery one of them is reported by the check of its property.")
open(R + "/DESIGN.md", "w").write(s)
