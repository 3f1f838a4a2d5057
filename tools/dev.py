#!/usr/bin/env python3
"""Development runner: dev.py HARNESS ONLY [budget] [tier] [-nobuild] [-race]: all violations, all shards."""
import json, os, subprocess, sys, time
a = [x for x in sys.argv[1:] if not x.startswith("-")]
h, only = a[0], a[1]
budget = a[2] if len(a) > 2 else "30"
tier = a[3] if len(a) > 3 else "quick"
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
race = "-race" in sys.argv
d = "/tmp/dev/" + h + ("-race" if race else "")
os.makedirs(d, exist_ok=True)
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", VERIF_DIR=root)
if "-nobuild" not in sys.argv:
    subprocess.run(["go", "build", "-o", "/tmp/dev/mc", "./cmd/mc"], cwd=root, env=env, check=True)
    instr = [x[7:] for x in sys.argv if x.startswith("-instr=")]
    r = subprocess.run(["/tmp/dev/mc", "build", h, d] + (["race"] if race else ["norace"]) + instr, cwd=root, env=env)
    if r.returncode: sys.exit(2)
known = json.load(open(root + "/known_findings.json"))["findings"] if os.path.exists(root + "/known_findings.json") else []
json.dump([k for k in known if only.find(k["property"]) >= 0] if "-noknown" not in sys.argv else [], open(d + "/known.json", "w"))
e = dict(env, GODEBUG="asyncpreemptoff=1,invalidptr=0", GOMAXPROCS="1")
if race: e["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
t = time.time()
ps = []
for i in range(8):
    ps.append(subprocess.Popen([d + "/harness", "-shard", str(i), "-shards", "8", "-budget", budget, "-tier", tier, "-only", only,
        "-known", d + "/known.json", "-out", f"{d}/o{i}", "-status", f"{d}/s{i}", "-vlimit", "40"] + (["-raceonly"] if race else []), env=e, stdout=open(f"{d}/e{i}", "w"), stderr=subprocess.STDOUT))
viol, passes, inc, outs = {}, {}, set(), set()
ex = dv = 0
kn = {}
for i, p in enumerate(ps):
    p.wait()
    if p.returncode:
        s = open(f"{d}/s{i}", "rb").read()
        n = s[0] | s[1] << 8
        print("shard", i, "exit", p.returncode, s[8:8+n].decode(errors="replace"))
        print("   ", "\n    ".join(open(f"{d}/e{i}").read().split("\n")[:int(os.environ.get("LINES","14"))]))
        continue
    o = json.load(open(f"{d}/o{i}"))
    ex += o["executions"]; dv += o["diverged"]
    outs |= set(o["out_hashes"])
    kn.update(o["known"] or {})
    for k, v in o["pass_info"].items(): passes[k] = passes.get(k, 0) + v
    for k in o["incomplete"] or []: inc.add(k)
    for v in o["violations"] or []:
        key = (v["scenario"], v["msg"])
        if key not in viol or len(v["devs"] or []) < len(viol[key]["devs"] or []): viol[key] = v
    err = open(f"{d}/e{i}").read()
    if err: print("shard", i, err[:600])
for k, v in sorted(passes.items()): print(f"  {k}: {v}{' INCOMPLETE' if k in inc else ''}")
print(f"{ex} executions, {len(outs)} outcomes, diverged {dv}, {time.time()-t:.1f}s", "incomplete:", sorted(inc) if len(inc) < 6 else len(inc))
for k, v in kn.items(): print("KNOWN", k, v[:150])
per = {}
for i, ((s, m), v) in enumerate(sorted(viol.items())):
    per[s] = per.get(s, 0) + 1
    if per[s] > 3: continue
    f = f"/tmp/dev/v{i}.json"
    json.dump(v, open(f, "w"))
    print(f"VIOL {f} {s} [{v['pass']['Name']}] devs={len(v['devs'] or [])}: {m[:600]}")
for s, n in per.items():
    if n > 3: print(f"   ... {n} violations in {s}")
