#!/usr/bin/env python3
"""Writes known_findings.json: genuine defects recorded (known) or repaired (fixed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def known(id, prop, match, what): F.append({"id": id, "property": prop, "status": "known", "match": match, "what": what})
def fixed(prop, commit, what): F.append({"id": "F-" + commit, "property": prop, "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (prop, commit, what)})
exec(open(os.path.join(V, "tools", "findings.py")).read())
json.dump({"findings": F}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(F), "findings")
