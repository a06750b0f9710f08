#!/usr/bin/env python3
"""Regenerate the tables of /verif/DESIGN.md (between the markers) from checks.py, properties.jsonl and seeded/."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        continue
    c = CHECKS[i]
    out.append("#### %s %s\n" % (i, p["title"]))
    for h in c["harnesses"]:
        fl = [x for x in ("thorough",) if h.get(x)]
        if h.get("mode") == "proponly": fl.append("only the property's assertions count")
        if h.get("peek"): fl.append("state inspected at the panic")
        if h.get("reach") == "ASKED": fl.append("must reach the call under test")
        out.append("- `%s`: %s. Bounds: %s.%s" % (h["name"], h["what"], h["bounds"], (" [" + ", ".join(fl) + "]") if fl else ""))
    out.append("- Outside: %s." % c.get("outside", "").rstrip("."))
    for a in c.get("assumptions", []):
        out.append("- Assumed: %s." % a.rstrip("."))
    out.append("")
harn = "\n".join(out)
rows = ["| planted change | property | what it does | caught |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json"))) if os.path.exists(os.path.join(ROOT, "tools", "caught.json")) else {}
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))) if os.path.isdir(os.path.join(ROOT, "seeded")) else []:
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), caught.get(d, "not run")))
seeds = "\n".join(rows)
f = os.path.join(ROOT, "DESIGN.md")
s = open(f).read()
for k, t in (("harnesses", harn), ("seeds", seeds)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (k, k), lambda m: m.group(1) + t + "\n" + m.group(2), s, flags=re.S)
open(f, "w").write(s)
