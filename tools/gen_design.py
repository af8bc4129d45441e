#!/usr/bin/env python3
"""Writes DESIGN.md. Usage: gen_design.py [evidence directory]"""
import json, os, sys, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
evdir = sys.argv[1] if len(sys.argv) > 1 else here + "/evidence"
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
man = json.load(open(here + "/MANIFEST.json"))
na = {x.get("property", x.get("id")): x["reason"] for x in man["not_applicable"]}
o = [open(here + "/tools/design_head.md").read().rstrip(), ""]
o += ["## Planted bugs and what catches them", "", "| planted bug | property, reported by | needs |", "|---|---|---|"]
for s in sorted(os.listdir(here + "/seeded")):
    f = here + "/seeded/" + s + "/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        o.append("| %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
o += ["", "## Defects found", "", "Recorded (printed as KNOWN-FINDING):", ""]
lines = [l.strip() for l in open(here + "/known_findings.txt") if l.startswith(("finding:", "fixed:"))]
o += ["* " + l[len("finding: "):] for l in lines if l.startswith("finding:")]
o += ["", "Repaired, one `fix:` commit each:", ""]
o += ["* " + l[len("fixed: "):] for l in lines if l.startswith("fixed:")]
o += ["", "## Properties", "", "How each is decided: the analysis, then the rules with what each demands. Where no",
      "bound is given there is none. The statements are in `properties.jsonl`.", ""]
for p in props:
    i = p["id"]
    if i in na:
        continue
    o += ["### %s %s" % (i, p["title"]), ""]
    f = "%s/%s.json" % (evdir, i)
    if os.path.exists(f):
        c = json.load(open(f))["coverage"]
        o += [c["explanation"], ""]
        o += ["* **%s**: %s." % (r["rule"], r["what"].rstrip(".")) for r in c["rules"]]
        o += ["", "Last run: %d obligations at %d program points, %d functions." % (c["obligations"], c["program_points"], c["functions"]), ""]
o += ["## Not applicable", ""]
for p in props:
    if p["id"] in na:
        o.append("* %s, %s: %s." % (p["id"], p["title"], na[p["id"]]))
open(here + "/DESIGN.md", "w").write("\n".join(o) + "\n")
tech = {}
for p in props:
    f = "%s/%s.json" % (evdir, p["id"])
    if p["id"] not in na and os.path.exists(f):
        tech[p["id"]] = {"technique": "static analysis of Go SSA: " + json.load(open(f))["coverage"]["explanation"]}
json.dump(tech, open(here + "/tools/techniques.json", "w"), indent=1)
