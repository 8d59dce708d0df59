#!/usr/bin/env python3
"""Decides one property of gocraft/health:  check.py C05 [--tier quick|thorough] [--replay FILE]

1. TLC model-checks the property on the specification (spec/*MC*.cfg).
2. TLC generates behaviours of the specification as operation sequences.
3. The Go driver, built from /repo's working tree, executes them on the real
   code and records what it did.
4. TLC checks every recorded trace against the specification.

exit 0: held; exit 1 + VIOLATION line: a recorded execution of the real code is
not a behaviour of the specification; anything else: error of the check.
"""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
sys.path.insert(0, os.path.join(VERIF, "bin"))


class CheckError(Exception):
    pass


def log(*a):
    print("#", *a, flush=True)


def go_env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin"
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", TZ="UTC")
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
        e.pop(k, None)
    return e


# --------------------------------------------------------------- building --
MAINS = {"top": "healthtop", "daemon": "healthd"}


def build_driver(pkg, out, race=False, inline=False):
    """Builds the driver package against /repo's working tree."""
    for f in ("go.mod", "go.sum"):
        if not os.path.exists(os.path.join(REPO, f)):
            src = os.path.join("/opt/vp/gomod", f)
            if os.path.exists(src):
                shutil.copy(src, os.path.join(REPO, f))
    # a private copy of the module, so that the go tool never edits committed files
    mod = out + ".mod"
    shutil.copytree(HARNESS, mod)
    if REPO != "/repo":     # development only: judge a scratch copy
        gm = os.path.join(mod, "go.mod")
        txt = open(gm).read().replace("=> /repo", "=> " + REPO)
        open(gm, "w").write(txt)
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if not inline:
        cmd += ["-gcflags=github.com/gocraft/health/...=-l", "-gcflags=verif/...=-l"]
    if race:
        cmd.append("-race")
    if pkg in MAINS:    # package main: the driver goes in through an overlay
        ov = os.path.join(mod, "overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, "cmd", MAINS[pkg], "zz_drive_test.go"): os.path.join(mod, pkg, pkg + "_test.go")}}, f)
        cmd += ["-overlay", ov, "github.com/gocraft/health/cmd/" + MAINS[pkg]]
    else:
        cmd.append("./" + pkg)
    p = subprocess.run(cmd, cwd=mod, env=go_env(), capture_output=True, text=True, timeout=600)
    shutil.rmtree(mod, ignore_errors=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise CheckError("driver does not build:\n" + p.stdout + p.stderr)


# -------------------------------------------------------------------- TLC --
def cfg_text(name, over):
    s = open(os.path.join(SPEC, name)).read()
    for k, v in (over or {}).items():
        if k in ("INIT", "NEXT"):
            s, n = re.subn(r"(?m)^%s .*$" % k, "%s %s" % (k, v), s)
        else:
            s, n = re.subn(r"(?m)^(\s*)%s\s*(=|<-).*$" % re.escape(k), lambda m: m.group(1) + k + " " + v, s)
        if n != 1:
            raise CheckError("cfg override %s matched %d times in %s" % (k, n, name))
    return s


class Tlc:
    def __init__(self, work):
        self.work = work
        self.n = 0
        self.procs = set()

    def kill(self):
        for p in list(self.procs):
            p.kill()

    def run(self, module, cfg, over=None, args=(), env=None, timeout=600, mem="3g", workers="4", tag=""):
        self.n += 1
        d = tempfile.mkdtemp(prefix="tlc%s-" % tag, dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        open(os.path.join(d, "run.cfg"), "w").write(cfg_text(cfg, over))
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-Djava.io.tmpdir=" + d, "-cp", TLACP, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-workers", str(workers), "-config", "run.cfg"] + list(args) + [module + ".tla"]
        t0 = time.time()
        with open(os.path.join(d, "out.txt"), "w") as f:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT)
            self.procs.add(p)
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise CheckError("TLC timed out on %s/%s" % (module, cfg))
            finally:
                self.procs.discard(p)
        out = open(os.path.join(d, "out.txt"), errors="replace").read()
        r = dict(module=module, cfg=cfg, rc=p.returncode, out=out, wall=time.time() - t0)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            r["generated"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            r["depth"] = int(m[-1])
        shutil.rmtree(d, ignore_errors=True)
        return r


def tla_classpath():
    base = os.path.dirname(TLAJAR)
    jars = [TLAJAR] + sorted(os.path.join(base, f) for f in os.listdir(base) if f.endswith(".jar") and f != os.path.basename(TLAJAR))
    return ":".join(jars)


TLACP = tla_classpath()
TLCS = []


def model_check(tlc, m, timeout):
    r = tlc.run(m["module"], m["cfg"], m.get("over"), timeout=timeout, mem=m.get("mem", "4g"), workers=m.get("workers", "4"), tag="mc",
                args=m.get("args", ()))
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise CheckError("model checking %s failed (the model, not the code, is wrong):\n%s" % (m["cfg"], r["out"][-3000:]))
    return r


def generate(tlc, g, seed, work):
    cache = os.environ.get("VERIF_DEV_CACHE") if REPO != "/repo" else None
    if not cache:
        return generate_new(tlc, g, seed, work)
    import hashlib
    fn = os.path.join(cache, hashlib.sha1(json.dumps([g, seed], sort_keys=True).encode()).hexdigest())
    if not os.path.exists(fn):
        h = generate_new(tlc, g, seed, work)
        open(fn + ".%d" % os.getpid(), "w").write(json.dumps(h))
        os.rename(fn + ".%d" % os.getpid(), fn)
    return json.load(open(fn))


def generate_new(tlc, g, seed, work):
    fn = tempfile.mktemp(prefix="gen-", dir=work)
    args = []
    over = dict(g.get("over") or {})
    depth = g["depth"]
    over["Depth"] = "= %d" % depth
    if g.get("exhaustive"):
        over["NEXT"] = "AllNext"
    else:
        args = ["-simulate", "num=%d" % g["num"], "-depth", str(depth + 1), "-seed", str(seed)]
    r = tlc.run(g["module"], g.get("cfg", g["module"] + ".cfg"), over, args=args, env={"GEN_FILE": fn}, timeout=g.get("timeout", 300),
                workers=1, tag="gen")
    if not os.path.exists(fn) or (r["rc"] != 0):
        raise CheckError("generation from %s failed:\n%s" % (g["module"], r["out"][-3000:]))
    hists, seen = [], set()
    for line in open(fn):
        line = line.strip()
        if line and line not in seen:
            seen.add(line)
            hists.append(json.loads(json.loads(line)))
    os.unlink(fn)
    return hists


# ---------------------------------------------------------------- driving --
def crash_in_repo(stderr):
    """True if the process died in code under test (not in the harness)."""
    m = re.search(r"(?m)^(panic:|fatal error:|SIG[A-Z]+:|unexpected fault).*$", stderr)
    if not m:
        return None
    head = m.group(0)
    tail = stderr[m.start():]
    if "harness:" in tail[:400]:
        return None
    # the goroutine that died is printed first
    gs = re.split(r"(?m)^goroutine ", tail)
    if len(gs) < 2:
        return None
    def top(g):
        for f, _ in re.findall(r"(?m)^\t(/\S+):(\d+)", g):
            if "/usr/local/go/" in f or "/veriftools/go" in f:
                continue
            return f if f.startswith(REPO.rstrip("/") + "/") else None
        return None
    if top(gs[1]):
        return head + " at " + top(gs[1])
    if head.startswith("panic: runtime error:"):
        # the driver tripped over something the code under test gave it (a nil pointer, say)
        return head + " in the driver"
    if "concurrent map" in head:
        # the driver reads a result it was given while the code under test still changes it
        for g in gs[2:]:
            if re.match(r"\d+ (gp=\S+ m=\S+ (mp=\S+ )?)?\[(runn|GC|sleep|select|chan)", g) and top(g):
                return head + " with " + top(g)
    return None


def race_in_repo(stderr):
    out = []
    for rep in stderr.split("WARNING: DATA RACE")[1:]:
        rep = rep.split("==================")[0]
        # the innermost non-runtime frame of each of the two accesses
        secs = re.split(r"(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite|[Aa]tomic \w+) .*$", rep)
        tops = []
        for s in secs[1:3]:
            for f in re.findall(r"(?m)^\s+(/\S+\.go):\d+", s):
                if "/usr/local/go/" in f or "/veriftools/go" in f:
                    continue
                tops.append(f)
                break
        if any(t.startswith(REPO.rstrip("/") + "/") for t in tops):
            out.append(" / ".join(tops))
    return out


STALL = 100   # seconds without a recorded event after which a driver counts as hanging


def wait_progress(p, out, limit, name, idx):
    """Waits for the driver; True if it stopped making progress (and was ended)."""
    t0, last, size = time.time(), time.time(), -1
    while True:
        try:
            p.wait(timeout=0.5 if time.time() - t0 > 2 else 0.02)
            return False
        except subprocess.TimeoutExpired:
            pass
        n = os.path.getsize(out) if os.path.exists(out) else 0
        if n != size:
            size, last = n, time.time()
        if time.time() - last > STALL:
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(timeout=20)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            return True
        if time.time() - t0 > limit:
            p.kill()
            p.wait()
            raise CheckError("driver %s timed out (chunk %d)" % (name, idx))


def confirm_hang(binary, name, scenario, work, idx, env_extra):
    scn = os.path.join(work, "hang-%d.ndjson" % idx)
    out = os.path.join(work, "hang-%d.out" % idx)
    open(scn, "w").write(json.dumps(scenario) + "\n")
    e = go_env()
    e.update(DRV_NAME=name, DRV_SCN=scn, DRV_OUT=out, DRV_START="0")
    e.update(env_extra or {})
    with open(os.devnull, "w") as dn:
        p = subprocess.Popen([binary, "-test.run", "TestDrive", "-test.timeout", "0"], cwd=work, env=e, stdout=dn, stderr=dn)
        return wait_progress(p, out, 10 * STALL, name, idx)


def run_driver(binary, name, scenarios, work, idx, timeout, env_extra=None):
    scn = os.path.join(work, "scn-%d.ndjson" % idx)
    with open(scn, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    out = os.path.join(work, "trace-%d.ndjson" % idx)
    start, crashes, races = 0, {}, []
    deadline = time.time() + timeout
    while start < len(scenarios):
        e = go_env()
        e.update(DRV_NAME=name, DRV_SCN=scn, DRV_OUT=out, DRV_START=str(start), GOTRACEBACK="all")
        e.update(env_extra or {})
        so = tempfile.TemporaryFile(dir=work)
        se = tempfile.TemporaryFile(dir=work)
        p = subprocess.Popen([binary, "-test.run", "TestDrive", "-test.timeout", "0"], cwd=work, env=e, stdout=so, stderr=se)
        hung = wait_progress(p, out, max(5, deadline - time.time()), name, idx)
        def rd(f):
            f.seek(0)
            b = f.read()
            return (b[:200000] + b[-200000:] if len(b) > 400000 else b).decode("utf-8", "replace")
        stderr = rd(se) + rd(so)
        races += race_in_repo(stderr)
        if p.returncode == 0 or (p.returncode == 66 and "DATA RACE" in stderr):
            break
        last = None
        if os.path.exists(out):
            for line in open(out):
                if line.startswith('{"'):
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    if o.get("t") == "begin":
                        last = o["i"]
        what = crash_in_repo(stderr)
        if hung and last is not None:
            # once more, alone: a scenario that hangs again is not a matter of load
            if confirm_hang(binary, name, scenarios[last], work, idx, env_extra):
                what = "hang: no progress for %d s" % STALL
        if what is None or last is None:
            raise CheckError("driver %s died (exit %d), not in the code under test:\n%s" % (name, p.returncode, stderr[:3000] + "\n...\n" + stderr[-3000:]))
        crashes[scenarios[last]["id"]] = what
        start = last + 1
        if len(crashes) >= 5 or hung:
            break
    traces, cur = [], None
    if os.path.exists(out):
        for line in open(out):
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if o["t"] == "begin":
                if cur is not None:
                    traces.append(cur)
                cur = dict(id=o["id"], cfg={"note": ""}, ev=[], complete=False)
            elif o["t"] == "cfg":
                cur["cfg"] = o["cfg"]
            elif o["t"] == "ev":
                cur["ev"].append(o["e"])
            elif o["t"] == "end":
                cur["complete"] = True
        if cur is not None:
            traces.append(cur)
    for t in traces:
        if t["id"] in crashes:
            t["ev"].append({"op": "crash", "what": crashes[t["id"]]})
    if races and traces:
        # the race detector reports per process; the spec allows no such event
        traces[0]["ev"].append({"op": "race", "what": races[0]})
    return traces


def validate(tlc, prop, traces, module, cfg, over, timeout, mem="4g"):
    """Returns (stats, rejection or None)."""
    fd, fn = tempfile.mkstemp(suffix=".ndjson", dir=tlc.work)
    with os.fdopen(fd, "w") as f:
        for t in traces:
            f.write(json.dumps({"cfg": t["cfg"], "ev": t["ev"]}) + "\n")
    o = {"FOCUS": '= "%s"' % prop}
    o.update(over or {})
    r = tlc.run(module, cfg, o, env={"TRACE_FILE": fn}, timeout=timeout, mem=mem, workers="4", tag="trace")
    os.unlink(fn)
    if "Deadlock reached" in r["out"] or "Invariant Accepted is violated" in r["out"]:
        tids = re.findall(r"/\\ tid = (\d+)", r["out"])
        ls = re.findall(r"/\\ l = (\d+)", r["out"])
        if not tids:
            raise CheckError("cannot read TLC's rejection:\n" + r["out"][-3000:])
        t = traces[int(tids[-1]) - 1]
        return r, (t, int(ls[-1]))
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise CheckError("trace validation failed to run:\n" + r["out"][:1500] + "\n...\n" + r["out"][-3000:])
    return r, None


# ------------------------------------------------------------------- main --
def short(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def main():
    import props
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    av = sys.argv[2:]
    while av:
        a = av.pop(0)
        if a == "--tier":
            tier = av.pop(0)
        elif a == "--replay":
            replay = av.pop(0)
        else:
            raise CheckError("unknown argument " + a)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = props.PROPS[prop](tier)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = decide(prop, conf, tier, seed, work, replay, t0)
    except BaseException:
        for t in TLCS:
            t.kill()
        raise
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, conf, tier, seed, work, replay, t0):
    tlc = Tlc(work)
    TLCS.append(tlc)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    thorough = tier == "thorough"
    mc_timeout = 3000 if thorough else 400
    ex = cf.ThreadPoolExecutor(max_workers=10)
    if os.environ.get("VERIF_DEV_CACHE") and REPO != "/repo":   # mutation campaigns: the specification has not changed
        conf = dict(conf, mc=[])
    mcs = [] if replay else [ex.submit(model_check, tlc, m, mc_timeout) for m in conf.get("mc", [])]

    builds = {}
    for part in conf["parts"]:
        key = (part["pkg"], bool(part.get("race")), bool(part.get("inline")))
        if key not in builds:
            b = os.path.join(work, "drv-%s%s%s" % (part["pkg"], "-race" if key[1] else "", "-inline" if key[2] else ""))
            builds[key] = (b, ex.submit(build_driver, part["pkg"], b, key[1], key[2]))
    gens = []
    for pi, part in enumerate(conf["parts"]):
        gens.append([] if replay else [ex.submit(generate, tlc, g, seed * 1000 + pi * 100 + gi, work) for gi, g in enumerate(part.get("gen", []))])
    for b, f in builds.values():
        f.result()

    violations, n_traces, n_events, ops, samples, tstates, tgen, n_scn, known_hits = [], 0, 0, {}, [], 0, 0, 0, []
    for pi, part in enumerate(conf["parts"]):
        scns = []
        if replay:
            rep = json.load(open(replay))
            if rep["part"] != pi:
                continue
            scns = [rep["scenario"]]
        else:
            rng = random.Random(seed * 7919 + pi)
            for gi, g in enumerate(part.get("gen", [])):
                hists = gens[pi][gi].result()
                cap = g.get("cap")
                if cap and len(hists) > cap:
                    hists = rng.sample(hists, cap)
                for h in hists:
                    for k in range(g.get("repeat", 1)):
                        scns.append(dict(id="%s.%d.%d.%d" % (prop, pi, gi, len(scns)), seed=rng.randrange(1 << 40), kind=part.get("kind", prop),
                                         cfg=g.get("scfg", {}), ops=h))
            for extra in part.get("extra", lambda rng, tier: [])(rng, tier):
                scns.append(dict(id="%s.%d.x.%d" % (prop, pi, len(scns)), seed=rng.randrange(1 << 40), kind=part.get("kind", prop),
                                 cfg=extra.get("cfg", {}), ops=extra["ops"]))
        n_scn += len(scns)
        binary = builds[(part["pkg"], bool(part.get("race")), bool(part.get("inline")))][0]
        nch = min(part.get("chunks", 6), max(1, len(scns)))
        chunks = [scns[i::nch] for i in range(nch)]
        tmo = 2400 if thorough else 500
        futs = [ex.submit(run_driver, binary, part["driver"], c, work, pi * 100 + i, tmo, part.get("env")) for i, c in enumerate(chunks)]
        traces = []
        for f in futs:
            traces += f.result()
        if not traces:
            raise CheckError("no traces recorded")
        log("%s part %d: %d scenarios executed, %d traces, %.1fs" % (prop, pi, len(scns), len(traces), time.time() - t0))
        bysc = {s["id"]: s for s in scns}
        tr = part["trace"]
        # validate in batches, in parallel
        bs = tr.get("batch", 400)
        batches = [traces[i:i + bs] for i in range(0, len(traces), bs)]
        with cf.ThreadPoolExecutor(max_workers=tr.get("par", 3)) as ex2:
            res = list(ex2.map(lambda b: validate(tlc, prop, b, tr["module"], tr.get("cfg", tr["module"] + ".cfg"), tr.get("over"),
                                                  3000 if thorough else 500), batches))
        for b, (r, rej) in zip(batches, res):
            tstates += r.get("distinct", 0)
            tgen += r.get("generated", 0)
            if rej:
                t, l = rej
                violations.append((pi, bysc[t["id"]], t, l))
            else:
                n_traces += len(b)
        for t in traces:
            n_events += len(t["ev"])
            for e in t["ev"]:
                k = e["op"] + (":" + e["k"] if "k" in e and isinstance(e["k"], str) else "")
                ops[k] = ops.get(k, 0) + 1
        for t in traces[:2]:
            samples.append({"cfg": t["cfg"], "events": [short(e, 300) for e in t["ev"][:8]], "length": len(t["ev"])})
        log("%s part %d: validated, %.1fs" % (prop, pi, time.time() - t0))
        if violations:
            break

    if violations:      # the verdict is in; do not wait for the model
        tlc.kill()
        mcr = []
    else:
        mcr = [f.result() for f in mcs]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(violations),
              coverage=dict(states=sum(r.get("distinct", 0) for r in mcr) + tstates,
                            transitions=sum(r.get("generated", 0) for r in mcr) + tgen,
                            traces_validated_against_impl=n_traces,
                            model_checking=[dict(config=r["cfg"], distinct=r.get("distinct"), generated=r.get("generated"), depth=r.get("depth"),
                                                 wall_s=round(r["wall"], 1)) for r in mcr],
                            scenarios_executed=n_scn, trace_events=n_events, events_by_kind=ops, trace_states=tstates,
                            samples=samples),
              assumptions=conf.get("assumptions", []))
    if not replay and REPO == "/repo":
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in known.get("findings", []):
        if k.get("property") == prop and k.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        pi, sc, t, l = violations[0]
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (prop, sc["id"]))
        rejected = t["ev"][l - 1] if l - 1 < len(t["ev"]) else None
        with open(path, "w") as f:
            json.dump(dict(property=prop, part=pi, scenario=sc, cfg=t["cfg"], rejected_at=l, rejected_event=rejected, trace=t["ev"]), f, indent=1)
        log("trace %s rejected at event %d of %d: %s" % (sc["id"], l, len(t["ev"]), short(rejected, 1500)))
        log("re-run it alone: python3 bin/check.py %s --replay %s" % (prop, path))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    log("%s held: %d traces (%d events) validated, %d model states, %.1fs" % (prop, n_traces, n_events, ev["coverage"]["states"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        main()
    except CheckError as e:
        print("ERROR:", e, flush=True)
        os._exit(2)
    except SystemExit as e:
        sys.stdout.flush()
        os._exit(e.code)
    except BaseException:
        import traceback
        traceback.print_exc(file=sys.stdout)
        sys.stdout.flush()
        os._exit(2)
