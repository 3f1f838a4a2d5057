#!/usr/bin/env python3
"""mut.py FILE.py [names]: apply each mutant of MUTS = [(name, [properties], [(file, old, new)])]
to a scratch copy of /repo and run the quick checks on it."""
import os, re, shutil, subprocess, sys, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
D = f"/tmp/mutrepo{os.getpid()}"
shutil.rmtree(D, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", D], check=True)
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", VERIF_REPO=D)
for name, props, edits in ns["MUTS"]:
    if only and not any(re.search(o, name) for o in only): continue
    bad = None
    for f, old, new in edits:
        s = open(f"{D}/{f}").read()
        if s.count(old) != 1: bad = f"{f}: {s.count(old)} matches of {old[:60]!r}"; break
        open(f"{D}/{f}", "w").write(s.replace(old, new))
    if not bad:
        r = subprocess.run(["go", "vet", "./internal/bus/...", "./pkg/...", "./internal/stream/...", "./internal/interceptors/...", "."], cwd=D, env=env, capture_output=True, text=True)
        r2 = subprocess.run(["go", "build", "./..."], cwd=D, env=env, capture_output=True, text=True)
        if r2.returncode: bad = "build: " + r2.stderr[:300]
    if bad: print("BAD  ", name, bad)
    else:
        for p in props:
            t = time.time()
            r = subprocess.run(["./check", p, "quick"], cwd=root, env=env, capture_output=True, text=True)
            m = ""
            if r.returncode == 1:
                import json
                l = [x for x in r.stdout.split("\n") if "VIOLATION" in x]
                try: m = json.load(open(root + "/" + l[0].split("replay=")[1] if not l[0].split("replay=")[1].startswith("/") else l[0].split("replay=")[1]))
                except Exception as e: m = {"msg": str(e), "scenario": ""}
                m = (m.get("scenario", "") + ": " + m.get("msg", ""))[:160]
            print("caught" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "EXIT%d" % r.returncode, name, p, f"{time.time()-t:.0f}s", m, flush=True)
    subprocess.run(["git", "-C", D, "checkout", "-q", "--", "."])
shutil.rmtree(D, ignore_errors=True)
