#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the repairs (from known-findings.txt) and the planted changes (from
seeded/*/meta.json and tools/caught.json, which says which checks were seen to report which change)."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
kf = open(V + "/known-findings.txt").read().splitlines()
caught = json.load(open(V + "/tools/caught.json"))
fixes = ["| %s | %s | %s |" % re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups() for l in kf if l.startswith("fixed:")]
known = ["| %s | `%s` | %s |" % re.match(r"known: property=(\S+) id=(\S+) (.*)", l).groups() for l in kf if l.startswith("known:")]
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    c = caught.get(i, {})
    rows.append("| %s | %s | %s | %s%s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(c.get("by", [])) or "–", " (" + c["note"] + ")" if c.get("note") else ""))
parts = dict(fixes="| property | commit | what failed |\n|---|---|---|\n" + "\n".join(fixes),
             known="| property | id | what fails |\n|---|---|---|\n" + "\n".join(known),
             planted="| change | property | manifests with | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
s = open(V + "/DESIGN.md").read()
for k, t in parts.items():
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (k, k), lambda m: m[1] + t + "\n" + m[2], s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
