#!/usr/bin/env python3
"""tables.py: rewrites the tables of DESIGN.md between <!-- fixes --> and <!-- seeded --> markers from
known_findings.json, tools/fixes_results.txt, seeded/*/meta.json and tools/seed_results.json."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(root + "/known_findings.json"))["fixed"]
res = {}
for l in open(root + "/tools/fixes_results.txt"):
    m = re.match(r"(caught|CONFLICT|MISSED) (\w+)(?: (P\d\d) (\d+s))?", l)
    if m: res.setdefault(m[2], m)
out = ["| commit | check | what failed | with the fix reverted |", "|---|---|---|---|"]
for f in k:
    p, c, what = re.match(r"fixed: property=(\w+) (\w+) (.*)", f).groups()
    m = res.get(c[:7])
    r = "" if not m else "later fixes change the same lines, so that it cannot be reverted alone" if m[1] == "CONFLICT" else f"reported by {m[3]} after {m[4]}" if m[1] == "caught" else m[1]
    out.append(f"| {c[:7]} | {p} | {what.replace('|', '/')} | {r} |")
fixes = "\n".join(out)
sr = json.load(open(root + "/tools/seed_results.json"))
out = ["| bug | what it needs | check | reported in | at first |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    id = d.split("/")[-2]
    m = json.load(open(d))
    r = sr.get(id, {})
    out.append(f"| {id} | {m['needs'].replace('|', '/')} | {m['property']} | {r.get('scenario', '') if r.get('caught') else 'NOT CAUGHT' if r else '?'} | {r.get('first', '')} |")
seeded = "\n".join(out)
s = open(root + "/DESIGN.md").read()
for n, t in (("fixes", fixes), ("seeded", seeded)):
    s = re.sub(rf"(<!-- {n} -->\n).*?(<!-- /{n} -->)", lambda m: m[1] + t + "\n" + m[2], s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
