#!/usr/bin/env python3
"""seed.py make FILE: creates seeded changes from a Python file which sets SEEDS, a list of
(id, property, [(file, old, new)...], needs, what, main.go source), verifying each in a scratch copy.
seed.py run [ID...]: applies each change to a scratch copy of /repo and runs its property's quick check on it.
VERIF_REPO names the tree to use instead of /repo."""
import json, os, shutil, subprocess, sys, tempfile, time, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = root + "/seeded"
repo = os.environ.get("VERIF_REPO", "/repo")
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(f, only):
    g = {}
    exec(open(f).read(), g)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
    for id, prop, edits, needs, what, main in g["SEEDS"]:
        if only and id not in only: continue
        d = S + "/" + id
        w = tempfile.mkdtemp(prefix="wt")
        try:
            subprocess.run(["cp", "-a", repo + "/.", w], check=True)
            for file, old, new in edits:
                p = w + "/" + file
                s = open(p).read()
                if s.count(old) != 1: print(id, "PATTERN", s.count(old), repr(old)[:80]); raise SystemExit
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/main.go", "w").write(main.strip() + "\n")
            for lib, use in (("lib", ""), ("redis", "newFakeRedis("), ("nats", "fakeNats"), ("gen", "runGenerated(")):
                if use in main: shutil.copy(f"{root}/tools/seedlib/{lib}.go", f"{d}/{lib}.go")
            s = open(root + "/tools/seedlib/demo.sh").read()
            if "//race" in main: s = s.replace("$DEMO_BUILD", "-race")
            else: s = s.replace(" $DEMO_BUILD", "")
            open(d + "/demo.sh", "w").write(s)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
            ok = []
            for i in range(2):
                r = sh(d + "/demo.sh", repo); ok.append(r.returncode)
                if r.returncode: print(id, "demo on clean:", r.stdout[-1500:])
            bad = []
            for i in range(2):
                r = sh(d + "/demo.sh", w); bad.append(r.returncode)
            print(id, "demo clean", ok, "patched", bad, r.stdout[-150:].strip())
            r = sh("go build ./... ", w)
            if r.returncode: print(id, "BUILD", r.stdout); continue
            fails = []
            for i in range(2):
                r = sh("go test -vet=off -count=1 -short . ./internal/bus/ ./internal/interceptors/ ./internal/test/ ./internal/stream/ ./pkg/... ./testutils/ -json", w)
                for l in r.stdout.splitlines():
                    try: e = json.loads(l)
                    except Exception: continue
                    if e.get("Action") == "fail" and e.get("Test"):
                        fails.append(e["Package"] + "/" + e["Test"])
            fails = [x for x in set(fails) if x in stable]
            print(id, "tests failing:", fails)
        finally:
            shutil.rmtree(w)

def run(ids, tier="quick"):
    res = {}
    for id in ids or sorted(os.listdir(S)):
        m = json.load(open(f"{S}/{id}/meta.json"))
        w = tempfile.mkdtemp(prefix="wt")
        t = time.time()
        try:
            subprocess.run(["cp", "-a", repo + "/.", w], check=True)
            r = subprocess.run(["git", "-C", w, "apply", f"{S}/{id}/patch.diff"])
            if r.returncode: print(id, "does not apply"); continue
            env["VERIF_REPO"] = w
            r = sh(f"./check {m['property']} {tier}", root)
        finally:
            shutil.rmtree(w)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        f = root + "/tools/seed_results.json"
        all = json.load(open(f)) if os.path.exists(f) else {}
        why = ""
        if r.returncode == 1 and v:
            d = json.load(open(root + "/" + v[0].split("replay=")[1] if not v[0].split("replay=")[1].startswith("/") else v[0].split("replay=")[1]))
            why = d.get("scenario", "")
        old = all.get(id, {})
        all[id] = {"property": m["property"], "caught": bool(r.returncode == 1 and v), "scenario": why, "seconds": round(time.time()-t), "first": old.get("first", "missed" if not (r.returncode == 1 and v) else "caught")}
        json.dump(all, open(f, "w"), indent=1, sort_keys=True)
        print(id, m["property"], "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", (r.stdout[:300] if not v else ""), flush=True)

if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
else: run(sys.argv[2:])
