#!/usr/bin/env python3
"""reach.py [PXX...]: runs the quick checks and lists the statements of /repo which none of them reaches."""
import json, os, subprocess, sys, tempfile, glob, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.environ.get("MC_REACHED") or tempfile.mkdtemp()
env = dict(os.environ, MC_REACHED=d)
props = sys.argv[1:] or [c["property"] for c in json.load(open(root + "/MANIFEST.json"))["checks"]]
if props != ["-"]:
    for p in props:
        subprocess.run(["./check", p, "quick"], cwd=root, env=env, stdout=subprocess.DEVNULL)
all = {}
for f in glob.glob(d + "/*.json"):
    for k, v in json.load(open(f)).items():
        all[k] = all.get(k, False) or v
print(len(all), "statements,", sum(all.values()), "reached")
miss = collections.defaultdict(set)
for k, v in all.items():
    if not v:
        f, l = k.split("/", 0)[0].rsplit("/", 1)[0].rsplit(":", 1)
        miss[f].add(int(l))
for f in sorted(miss):
    print(f, sorted(miss[f]))
