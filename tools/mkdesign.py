#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (kept between markers)."""
import json, os, re, glob
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
lev = json.load(open(os.path.join(D, "tools", "levels.json")))
how = json.load(open(os.path.join(D, "tools", "how.json")))
rows = ["<!--table-->", "| id | property | level | what is specified and proved / what stays bounded |", "|---|---|---|---|"]
for l in open(os.path.join(D, "properties.jsonl")):
    p = json.loads(l)
    rows.append("| %s | %s | %s | %s |" % (p["id"], p["title"], lev[p["id"]][0], how.get(p["id"], "")))
rows.append("<!--/table-->")
seeds = ["<!--seeds-->", "| seed | property | change | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(D, "tools", "caught.json"))) if os.path.exists(os.path.join(D, "tools", "caught.json")) else {}
for m in sorted(glob.glob(os.path.join(D, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    x = json.load(open(m))
    seeds.append("| %s | %s | %s | %s |" % (i, x["property"], x["what_it_breaks"].replace("|", "/"), caught.get(i, "")))
seeds.append("<!--/seeds-->")
f = os.path.join(D, "DESIGN.md")
t = open(f).read()
t = t.replace("@@TABLE@@", "<!--table--><!--/table-->").replace("@@SEEDS@@", "<!--seeds--><!--/seeds-->")
t = re.sub(r"<!--table-->.*?<!--/table-->", lambda m: "\n".join(rows), t, flags=re.S)
t = re.sub(r"<!--seeds-->.*?<!--/seeds-->", lambda m: "\n".join(seeds), t, flags=re.S)
open(f, "w").write(t)
