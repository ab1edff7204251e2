#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md"""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
exec(open(f"{root}/tools/claims.py").read())
exec(open(f"{root}/tools/design_props.py").read())
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
out = [open(f"{root}/tools/design_intro.md").read().rstrip(), "", "## The properties, and how each is decided", ""]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        out.append(f"*Technique*: {t}. *Level*: {l}. *Limits*: {n}.\n")
        out.append(DESIGN.get(i, "") + "\n")
    else:
        out.append("Not claimed: " + NA.get(i, "no sound check yet") + "\n")
out.append("## Genuine defects of Seafowl found on the way\n")
out.append("Repaired with a `fix:` commit in /repo, or recorded as a known finding (see `known-findings.txt`, whose signatures the checks match exactly):\n")
for l in open(f"{root}/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: out.append(f"* {m[1]}, repaired by {m[2]}: {m[3]}")
    m = re.match(r"known: property=(\S+) sig=(.*?) -- (.*)", l)
    if m: out.append(f"* {m[1]}, known finding `{m[2]}`: {m[3]}")
if os.path.exists(f"{root}/tools/design_notes.md"): out += ["", open(f"{root}/tools/design_notes.md").read().rstrip()]
out += ["", "## Planted bugs\n", "Each was written from the property's text and the code; \"caught\" is by the property's own quick check.\n"]
res = {}
if os.path.exists(f"{root}/tools/seed_results.json"): res = json.load(open(f"{root}/tools/seed_results.json"))
for s in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{s}/meta.json"))
    out.append(f"* `{s}` ({m['property']}; {res.get(s,'not run yet')}): {m['what_it_breaks']}. Needs {m['needs']}.")
open(f"{root}/DESIGN.md", "w").write("\n".join(out) + "\n")
