#!/usr/bin/env python3-vt
"""Fills the tables of DESIGN.tmpl.md -> DESIGN.md"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H + "/vc")
import registry
ROWS = json.load(open(H + "/design_rows.json"))
levels = {c["property"]: c.get("level") for c in json.load(open(H + "/MANIFEST.json"))["checks"]} if 0 else {}
t = []
for p, P in registry.PROPS.items():
    a, b = ROWS.get(p, ["", ""])
    t.append("| %s | %s | %s | %s | %s |" % (p, a, b, P["harness_note"], P["level"] + ("; bounded: " + ", ".join(P["bounded"]) if P.get("bounded") else "")))
bugs = []
for b in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % b))
    how = ROWS.get(b, "")
    bugs.append("| %s | %s | %s (needs: %s) | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"], how or m["property"] + " (executed contract)"))
s = open(H + "/DESIGN.tmpl.md").read().replace("@@TABLE@@", "\n".join(t)).replace("@@BUGS@@", "\n".join(bugs))
open(H + "/DESIGN.md", "w").write("<!-- generated by tools_design.py from DESIGN.tmpl.md -->\n" + s)
