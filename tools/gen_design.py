#!/usr/bin/env python3
"""Writes DESIGN.md from the registry, the properties and design_notes.py (run by hand)."""
import json, os, re, sys, glob
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from checks import CHECKS
from design_notes import N
from design_text import HEAD, TAIL
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
o = [HEAD]
o.append("## Properties and how each is decided\n")
for p in props:
    i = p["id"]
    o.append("### %s  %s\n" % (i, p["title"]))
    how, orc, out, cost = N[i]
    o.append("*Encoding.* %s\n\n*Oracle.* %s\n" % (how, orc))
    o.append("*Bounds* (harness `%s`):\n" % ", ".join(sorted(set("harness/" + j["src"] for j in CHECKS[i]["jobs"]))))
    for j in CHECKS[i]["jobs"]:
        o.append("- `%s`%s: %s" % (j["name"], " (thorough only)" if j.get("tier") == "thorough" else "", j.get("bounds", "")))
    o.append("")
    if out: o.append("*Left out / preconditions.* %s\n" % out)
    o.append("*Why beyond the tests.* %s\n\n*Quick cost.* %s\n" % (p["why_tests_cant"], cost))
o.append("## Genuine defects found\n\nRepaired in /repo (each its own `fix:` commit; the check reports it again if it returns):\n")
fx, fd = [], []
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.append(m.groups())
    m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', l)
    if m: fd.append(m.groups())
o += ["- %s `%s` %s" % f for f in fx]
o.append("\nRecorded (known_findings.txt; printed as KNOWN-FINDING, anything else of the property is still reported):\n")
o += ["- %s %s (key: `%s`)" % (a, c, b) for a, b, c in fd]
o.append("\n## Planted bugs\n\nEach was confirmed to compile, pass the 30 tests, and fail its demonstration. Catch column: the check that reports it (quick tier).\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); s = d.split("/")[-2]
    cb = CATCH.get(s, m["property"]) if "CATCH" in globals() else m["property"]
    o.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), cb))
o.append(TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
