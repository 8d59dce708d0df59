#!/usr/bin/env python3
"""Stage 1 of a mutation campaign: which first-order mutants of /repo build and pass the stable tests.

filter.py LISTER OUT.jsonl [WORKERS]   (scratch copies under /tmp/mu, removed at the end)
Mutants of healthd only have to compile (with the stand-ins) and pass healthd's own tests: the official build has neither.
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading, queue
LISTER, OUT = sys.argv[1], sys.argv[2]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 4
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base.get("stable") or base.get("pass") or base.get("passed") or [])
files = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files"], text=True).split()
         if f.endswith(".go") and not f.endswith("_test.go") and not f.startswith("cmd/") and f != "healthd/mock_time.go"]
only = os.environ.get("ONLY")
if only: files = [f for f in files if re.search(only, f)]
muts = []
for f in files:
    for l in subprocess.check_output([LISTER, "/repo/" + f], text=True).splitlines():
        m = json.loads(l); m["file"] = f; muts.append(m)
for i, m in enumerate(muts): m["n"] = i
print(len(muts), "mutants;", len(stable), "stable tests", flush=True)
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")
GC = "-gcflags=github.com/gocraft/health/...=-l"
pool = queue.Queue()
os.makedirs("/tmp/mu", exist_ok=True)
for i in range(N):
    d = f"/tmp/mu/w{i}"; shutil.rmtree(d, ignore_errors=True); subprocess.check_call(["cp", "-a", "/repo", d])
    h = f"/tmp/mu/h{i}"; shutil.rmtree(h, ignore_errors=True); subprocess.check_call(["cp", "-a", "/repo", h])
    for a, b in (("github.com/gocraft/web", "web"), ("github.com/braintree/manners", "manners")):
        subprocess.check_call(["go", "mod", "edit", f"-require={a}@v0.0.0", f"-replace={a}=/verif/harness/shims/{b}"], cwd=h, env=env)
    pool.put(i)
lock = threading.Lock(); out = open(OUT, "w"); stat = {}
def sh(cmd, cwd, t):
    try:
        p = subprocess.run(["unshare", "-Urn", "bash", "-c", "ip link set lo up; " + cmd], cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""
def one(m):
    i = pool.get()
    try:
        hd = m["file"].startswith("healthd/")
        d = f"/tmp/mu/{'h' if hd else 'w'}{i}"; p = f"{d}/{m['file']}"
        src = open(p, "rb").read()
        try:
            open(p, "wb").write(src[:m["a"]] + m["new"].encode() + src[m["b"]:])
            if hd:
                rc, _ = sh("go build ./healthd", d, 120); r = "nobuild" if rc else None
                if not r:
                    rc, _ = sh("timeout 60 go test -vet=off -count=1 -timeout 40s ./healthd", d, 90); r = "killed" if rc else "survives"
            else:
                pk = "$(go list -e ./... | grep -vE '/(healthd|cmd)(/|$)')"
                rc, _ = sh(f"go build {GC} {pk}", d, 120); r = "nobuild" if rc else None
                if not r:
                    own = "./" + os.path.dirname(m["file"])
                    rc, _ = sh(f"go test -failfast -vet=off -count=1 -cpu 1 -timeout 40s {GC} {own}", d, 90)
                    if rc: r = "killed"
                if not r:
                    rc, o = sh(f"go test -json -vet=off -count=1 -p 1 -cpu 1 -timeout 40s {GC} {pk}", d, 150)
                    ok = set()
                    for l in o.splitlines():
                        try: e = json.loads(l)
                        except ValueError: continue
                        if e.get("Action") == "pass" and e.get("Test"): ok.add((e["Package"], e["Test"]))
                    r = "survives" if len([t for t in stable if t_in(t, ok)]) == len(stable) else "killed"
        finally:
            open(p, "wb").write(src)
        with lock:
            stat[r] = stat.get(r, 0) + 1
            m["r"] = r; out.write(json.dumps(m) + "\n"); out.flush()
            if sum(stat.values()) % 100 == 0: print(stat, flush=True)
    finally:
        pool.put(i)
def t_in(t, ok): return tuple(t.rsplit("/", 1)) in ok
with ThreadPoolExecutor(N) as ex: list(ex.map(one, muts))
print(stat)
for i in range(N):
    shutil.rmtree(f"/tmp/mu/w{i}"); shutil.rmtree(f"/tmp/mu/h{i}")
