#!/usr/bin/env python3
"""fixes.py [hash...]: revert each fix: commit of /repo in a scratch clone and run the checks of its properties
(known_findings.json, "fixed") on it: each must report a violation."""
import json, os, re, shutil, subprocess, sys, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
def sh(*a, cwd=None, e=env): return subprocess.run(a, cwd=cwd, env=e, capture_output=True, text=True)
repo = os.environ.get("VERIF_REPO", "/repo")
for e in json.load(open(root + "/known_findings.json"))["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", e)
    props, h, what = m[1].split(","), m[2], m[3]
    if len(sys.argv) > 1 and not any(h.startswith(x) for x in sys.argv[1:]): continue
    d = f"/tmp/fixrepo{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    sh("cp", "-a", repo, d)
    r = sh("git", "revert", "--no-commit", h, cwd=d)
    if r.returncode:
        print("CONFLICT", h, what[:70]); shutil.rmtree(d); continue
    if sh("go", "build", "./...", cwd=d).returncode:
        print("NOBUILD", h, what[:70]); shutil.rmtree(d); continue
    for p in props:
        t = time.time()
        r = sh("./check", p, "quick", cwd=root, e=dict(env, VERIF_REPO=d))
        l = [x for x in r.stdout.split("\n") if x.startswith("scenario")]
        print("caught" if r.returncode == 1 else f"EXIT{r.returncode}", h, p, f"{time.time()-t:.0f}s", what[:60], "|", (l or [""])[0][:120], flush=True)
    shutil.rmtree(d)
