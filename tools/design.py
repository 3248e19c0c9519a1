#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, properties.jsonl, the harnesses, known_findings.txt and the planted changes."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from entries import entries
B = {}   # property -> (what is compared with what, bounds)
exec(open(os.path.join(V, "tools", "design_notes.py")).read())
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## The properties one by one", ""]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    oracle, bounds = B[i]
    out += ["*Decided by* " + oracle, "", "*Bounds.* " + bounds, ""]
    ents = entries(i)
    h = open(os.path.join(V, "harness", i + ".c")).read()
    narrow = set(re.findall(r"^//! entry: (\w+) narrow", h, re.M))
    coarse = set(re.findall(r"^//! entry: (\w+) coarse", h, re.M))
    out += ["| entry | what the analysis covers |", "|---|---|"]
    for n, th, c in ents:
        out.append("| `%s`%s%s | %s |" % (n, " (thorough)" if th else "", " (narrow rule)" if n in narrow else " (coarse rule)" if n in coarse else "", c.replace("|", "\\|")))
    out.append("")
out += ["## Planted changes", "",
        "Each was written from a property and the code, keeps the 16 stable tests passing, and has a demonstration that fails with it and",
        "passes without it (confirmed with `tools/seed.py`). \"Caught by\" lists the property's check and the entry or rule that reports it.", "",
        "| change | property | needs | caught by |", "|---|---|---|---|"]
res = {}
if os.path.exists(os.path.join(V, "tools", "caught.txt")):
    for l in open(os.path.join(V, "tools", "caught.txt")):
        a = l.rstrip("\n").split("\t"); res[a[0]] = a[1]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|").replace("\n", " "), res.get(d, "?")))
out.append("")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines;", sum(d not in res for d in os.listdir(os.path.join(V, "seeded"))), "planted changes without a recorded result")
