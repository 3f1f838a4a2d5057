#!/usr/bin/env python3
"""automut.py OUT [-n N] [-seed S] [-budget SEC] FILES...: random small changes of FILES of /repo (tools/automut),
kept when they compile and the repository's tests pass, against all scenarios of the rpc and bus harnesses
(development only: which changes does nothing notice?)."""
import json, os, random, re, shutil, subprocess, sys, threading, time, queue
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
def opt(n, d):
    if n in a:
        i = a.index(n); v = a[i+1]; del a[i:i+2]; return type(d)(v)
    return d
N, seed, budget, only = opt("-n", 200), opt("-seed", 1), opt("-budget", 60.0), opt("-only", "")
checks = opt("-checks", "")
out, files = a[0], a[1:]
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
os.makedirs("/tmp/automut", exist_ok=True)
subprocess.run(["go", "build", "-o", "/tmp/automut/gen", "./tools/automut"], cwd=root, env=env, check=True)
sock = "/tmp/automut/docker.sock"
if os.path.exists(sock): os.remove(sock)
ping = subprocess.Popen(["python3", "/opt/vp/gen/docker_ping.py", sock])
tenv = dict(env, DOCKER_HOST="unix://" + sock)
muts = []
for f in files:
    r = subprocess.run(["/tmp/automut/gen", f], cwd="/repo", capture_output=True, text=True, check=True)
    muts += [json.loads(l) for l in r.stdout.splitlines()]
if only: muts = [m for m in muts if re.search(only, m["Op"])]
random.Random(seed).shuffle(muts)
muts = muts[:N]
surv = queue.Queue()
todo = queue.Queue()
for m in muts: todo.put(m)
stat = {"mutants": 0, "nobuild": 0, "tests": 0, "survive": 0, "caught": 0, "missed": 0}
def apply(d, m):
    s = open(f"/repo/{m['File']}", "rb").read()
    open(f"{d}/{m['File']}", "wb").write(s[:m["Off"]] + m["New"].encode() + s[m["End"]:])
def undo(d, m): shutil.copy(f"/repo/{m['File']}", f"{d}/{m['File']}")
W = 3
def filt(k):
    d = f"/tmp/automut/r{k}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    while True:
        try: m = todo.get_nowait()
        except queue.Empty: break
        apply(d, m)
        stat["mutants"] += 1
        b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode: stat["nobuild"] += 1
        else:
            try:
                t = subprocess.run(["go", "test", "-vet=off", "-failfast", "-count=1", "-timeout", "60s", "-skip", "^TestRedisMessageBus$|^Test.*$/^(NATS|Redis)$", "./internal/bus", "./internal/stream", "./internal/interceptors", "./internal/test/...", "./pkg/...", "./protoc-gen-psrpc/..."], cwd=d, env=tenv, capture_output=True, text=True, timeout=120)
                ok = t.returncode == 0
            except subprocess.TimeoutExpired: ok = False
            if ok:
                stat["survive"] += 1
                surv.put(m)
            else: stat["tests"] += 1
        undo(d, m)
    surv.put(None)
    shutil.rmtree(d, ignore_errors=True)
ths = [threading.Thread(target=filt, args=(k,)) for k in range(W)]
for t in ths: t.start()
D = "/tmp/automut/repo"
shutil.rmtree(D, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", D], check=True)
subprocess.run(["go", "build", "-o", "/tmp/automut/mc", "./cmd/mc"], cwd=root, env=env, check=True)
json.dump(json.load(open(root + "/known_findings.json"))["findings"], open("/tmp/automut/known.json", "w"))
ALL = "pkg/middleware,pkg/middleware/otelpsrpc,internal/bus,internal/interceptors,internal/stream,pkg/client,pkg/server"
def run(h, sel, budget):
    d = "/tmp/automut/" + h
    os.makedirs(d, exist_ok=True)
    e = dict(env, VERIF_DIR=root, VERIF_REPO=D)
    r = subprocess.run(["/tmp/automut/mc", "build", h, d, "norace", ALL], cwd=root, env=e, capture_output=True, text=True)
    if r.returncode: return "BUILD " + (r.stdout + r.stderr)[-300:]
    e.update(GODEBUG="asyncpreemptoff=1,invalidptr=0", GOMAXPROCS="1")
    ps = [subprocess.Popen([d + "/harness", "-shard", str(i), "-shards", "8", "-budget", str(budget), "-tier", "quick", "-only", sel,
        "-known", "/tmp/automut/known.json", "-out", f"{d}/o{i}", "-status", f"{d}/s{i}", "-vlimit", "1"], env=e, stdout=open(f"{d}/e{i}", "w"), stderr=subprocess.STDOUT) for i in range(8)]
    res, left, end = "", set(range(8)), time.time() + budget * 2 + 60
    while left and not res:
        time.sleep(.2)
        for i in list(left):
            p = ps[i].poll()
            if p is None: continue
            left.discard(i)
            if p:
                s = open(f"{d}/s{i}", "rb").read()
                n = s[0] | s[1] << 8
                res = f"crash {s[8:8+n].decode(errors='replace')[:60]} {open(f'{d}/e{i}').read()[:80]!r}"
            else:
                v = json.load(open(f"{d}/o{i}"))["violations"]
                if v: res = f"{v[0]['scenario']}: {v[0]['msg'][:90]}"
        if time.time() > end: res = "HUNG"
    for p in ps:
        if p.poll() is None: p.kill()
        p.wait()
    return res
done = 0
log = open(out, "a")
while done < W:
    m = surv.get()
    if m is None: done += 1; continue
    apply(D, m)
    t = time.time()
    if checks:
        res = ""
        for c in checks.split(","):
            r = subprocess.run(["./check", c, "quick"], cwd=root, env=dict(env, VERIF_REPO=D), capture_output=True, text=True)
            if r.returncode:
                res = (r.stdout + r.stderr)[:200].replace("\n", " ")
                break
    elif "internal/bus" in m["File"] and "local" not in m["File"]: res = run("bus", "^P", budget * .6) or run("rpc", "^P(13|14|15|24)", budget * .4)
    else: res = run("rpc", "^P[0-9]+/", budget)
    undo(D, m)
    stat["caught" if res else "missed"] += 1
    line = f"{'caught' if res else 'MISSED'} {m['File']}:{m['Line']} {m['Op']} {time.time()-t:.0f}s {m['Old'][:90]!r} -> {m['New'][:90]!r} {res}"
    print(line, file=log, flush=True)
    json.dump(stat, open(out + ".stat", "w"))
print(stat, file=log, flush=True)
ping.kill()
