#!/usr/bin/env python3
"""Stage 2: runs the checks of the properties a surviving mutant may break, until one reports it.

campaign.py FILTERED.jsonl OUT.jsonl [WORKERS]    continues where OUT.jsonl ends
"""
import json, os, re, shutil, subprocess, sys, threading, time, queue
from concurrent.futures import ThreadPoolExecutor
FILT, OUT = sys.argv[1], sys.argv[2]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 3
MAP = [("^health.go", "C01 C02 C04 C03 C10"), ("^error.go", "C03 C01"), ("^aggregator", "C05 C06 C07 C09"), ("^json_polling_sink_http", "C09 C12"), ("^json_polling_sink", "C05 C06 C07 C09 C12"),
       ("^interval_aggregation_(merge|clone)", "C08 C07 C05"), ("^interval_aggregation", "C05 C08"), ("^statsd", "C10 C11 C12"), ("^writer", "C13"), ("^json_writer", "C14"),
       ("^identifier", "C09 C19"), ("bugsnag", "C15 C12"), ("librato", "C16 C12"), ("^runtime", "C17 C12"), ("^stack", "C21 C03"), ("^healthd/api", "C19 C22 C20 C18"), ("^healthd/poll", "C20 C22 C18"),
       ("^healthd/debouncer", "C20 C12 C18"), ("^healthd", "C18 C20 C22 C19 C12")]
ms = [m for m in map(json.loads, open(FILT)) if m["r"] == "survives"]
done = {(m["file"], m["a"], m["b"], m["new"]) for m in map(json.loads, open(OUT))} if os.path.exists(OUT) else set()
ms = [m for m in ms if (m["file"], m["a"], m["b"], m["new"]) not in done]
if os.environ.get("ONLY"): ms = [m for m in ms if re.search(os.environ["ONLY"], m["file"])]
print(len(ms), "to do", flush=True)
os.makedirs("/tmp/mu/cache", exist_ok=True)
pool = queue.Queue()
for i in range(N):
    d = f"/tmp/mu/c{i}"; shutil.rmtree(d, ignore_errors=True); subprocess.check_call(["cp", "-a", "/repo", d]); pool.put(d)
lock = threading.Lock(); out = open(OUT, "a"); stat = {}
def one(m):
    d = pool.get()
    try:
        p = f"{d}/{m['file']}"; src = open(p, "rb").read()
        open(p, "wb").write(src[:m["a"]] + m["new"].encode() + src[m["b"]:])
        res = []
        try:
            for pr in next(v for k, v in MAP if re.search(k, m["file"])).split():
                t = time.time()
                x = subprocess.run(["python3", os.environ.get("VDIR", "/verif") + "/bin/check.py", pr], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_DEV_CACHE="/tmp/mu/cache"))
                rej = [l for l in x.stdout.splitlines() if "rejected" in l]
                res.append([pr, x.returncode, round(time.time() - t), (rej[0] if rej else x.stdout[-1500:])[:1500] if x.returncode else ""])
                if x.returncode == 1: break
        finally:
            open(p, "wb").write(src)
        m["res"] = res; m["v"] = "caught" if res[-1][1] == 1 else "err" if any(r[1] not in (0, 1) for r in res) else "missed"
        with lock:
            stat[m["v"]] = stat.get(m["v"], 0) + 1
            out.write(json.dumps(m) + "\n"); out.flush()
            if m["v"] != "caught": print(m["v"], m["file"], m["line"], m["desc"], [(r[0], r[1]) for r in res], flush=True)
            if sum(stat.values()) % 25 == 0: print(time.strftime("%H:%M"), stat, flush=True)
    finally:
        pool.put(d)
with ThreadPoolExecutor(N) as ex: list(ex.map(one, ms))
print(stat)
for i in range(N): shutil.rmtree(f"/tmp/mu/c{i}")
