"""What each check runs: models, generators, drivers, trace specifications."""


def poll(prop, weights, num, depth, small, mcs):
    def conf(tier):
        th = tier == "thorough"
        return dict(
            mc=mcs(th),
            parts=[dict(pkg="core", driver="poll",
                        gen=[dict(module="PollGen", depth=depth, num=num * (8 if th else 1), over={"Weights": "<- " + weights}),
                             dict(module="PollGen", depth=3 if not th else 4, exhaustive=True, cap=600 if not th else 6000,
                                  over=dict(small, Weights="<- " + weights))],
                        trace=dict(module="PollTrace"))],
            assumptions=["virtual time (testing/synctest)", "sums of durations fit an int64"])
    return conf


SMALL = {"Jobs": '= {"j1", "j2"}', "Evs": '= {"e1"}', "Vs": "<- Small", "Gs": '= {"g1"}', "Sts": '= {"success", "panic"}', "Advs": "= {1, 8, 17}"}

PROPS = {}
PROPS["C05"] = poll("C05", "W5", 250, 24, SMALL, lambda th: [dict(module="PollMC", cfg="PollMC.cfg")])
PROPS["C06"] = poll("C06", "W6", 300, 26, SMALL, lambda th: [dict(module="PollMC", cfg="PollMC2.cfg")])
PROPS["C09"] = poll("C09", "W9", 250, 16, SMALL, lambda th: [dict(module="PollMC", cfg="PollMC2.cfg")])


def stream(prop, w, x, xdepth, mc, thmc=None, xover=None):
    def conf(tier):
        th = tier == "thorough"
        return dict(
            mc=[dict(module="StreamMC", cfg=mc, over=(thmc if th else None))],
            parts=[dict(pkg="core", driver="stream",
                        gen=[dict(module="StreamGen", depth=22, num=350 if not th else 3000, over={"Weights": "<- " + w}),
                             dict(module="StreamGen", depth=xdepth, exhaustive=True, cap=400 if not th else 5000,
                                  over=dict({"Weights": "<- " + x, "Streams": "= {1, 2}", "Sinks": '= {"k1"}', "Evs": '= {"n1"}', "KeySet": '= {"x"}', "ValSet": '= {"a", "b"}',
                                        "MapIds": '= {"m1"}', "Raws": '= {"r1"}', "Advs": "= {1}", "KvArgs": '= {"", "m1"}'}, **(xover or {})))],
                        trace=dict(module="StreamTrace")),
                   dict(pkg="core", driver="stream", race=True,
                        gen=[dict(module="StreamGen", depth=18, num=40 if not th else 600, over={"Weights": "<- " + w}, scfg={"conc": True})],
                        trace=dict(module="StreamTrace", batch=10))],
            assumptions=["sinks do not modify the key/value maps they are given", "recorded errors are non-nil"])
    return conf


PROPS["C01"] = stream("C01", "W1", "X1", 3, "StreamMC01.cfg", {"MaxLog": "= 5"})
PROPS["C02"] = stream("C02", "W2", "X2", 4, "StreamMC02.cfg", {"KeySet": '= {"x", "y"}', "MaxLog": "= 1"})
PROPS["C03"] = stream("C03", "W3", "X3", 4, "StreamMC03.cfg", {"MaxRet": "= 4"}, {"KvArgs": '= {""}'})
PROPS["C04"] = stream("C04", "W4", "X4", 5, "StreamMC04.cfg", {"MaxLog": "= 4"})


def merge(tier):
    th = tier == "thorough"
    return dict(
        mc=[dict(module="MergeMC", cfg="MergeMC.cfg", over={"Sts": '= {"success", "panic"}'} if th else None)],
        parts=[dict(pkg="core", driver="merge",
                    gen=[dict(module="MergeGen", depth=30, num=400 if not th else 4000),
                         dict(module="MergeGen", depth=5, exhaustive=True, cap=500 if not th else 8000,
                              over={"Weights": "<- X8", "Regs": "= {1, 2}", "Srcs": "= {1}", "Jobs": '= {"j1"}', "Evs": '= {"e1"}', "Vs": "<- SmallVs", "Sts": '= {"success"}'})],
                    trace=dict(module="MergeTrace"))],
        assumptions=["an aggregation is not merged into itself", "error samples (not observable) are not compared"])


PROPS["C08"] = merge


def statsd10(tier):
    th = tier == "thorough"
    return dict(
        mc=[dict(module="StatsdMC", cfg="StatsdMC.cfg")],
        parts=[dict(pkg="core", driver="statsd", kind="C10",
                    gen=[dict(module="StatsdGen", depth=30, num=400 if not th else 4000),
                         dict(module="StatsdGen", depth=3, exhaustive=True, cap=400 if not th else 6000,
                              over={"Weights": "<- X10", "Jobs": '= {"j1"}', "Evs": '= {"e1", "e2"}', "Vs": '= {"v1"}', "Gs": '= {"g1"}', "Sts": '= {"panic"}'})],
                    trace=dict(module="StatsdTrace"))],
        assumptions=["finite gauge values", "negative durations above -2^31 ns"])


def statsd11(tier):
    th = tier == "thorough"
    return dict(
        mc=[dict(module="StatsdQ", cfg="StatsdQsafe.cfg")],
        parts=[dict(pkg="core", driver="statsd", kind="C11",
                    gen=[dict(module="StatsdGen", depth=40, num=300 if not th else 4000, over={"Weights": "<- W11"})],
                    trace=dict(module="StatsdTrace", batch=150)),
               dict(pkg="core", driver="statsdq", gen=[dict(module="StatsdQGen", depth=12, num=150 if not th else 2000)], trace=dict(module="StatsdQTrace"))],
        assumptions=["loopback UDP delivers in order and without loss (kernel drops are detected and the run discarded)"])


PROPS["C10"] = statsd10
PROPS["C11"] = statsd11


def stop12(tier):
    th = tier == "thorough"
    return dict(
        mc=[dict(module="StatsdQ", cfg="StatsdQ.cfg"), dict(module="Life", cfg="Life.cfg", over={"Cap": "= 3", "MaxRec": "= 12", "Clients": "= {1, 2, 3}"} if th else None)],
        parts=[dict(pkg="ext", driver="life", trace=dict(module="LifeTrace"),
                    gen=[dict(module="LifeGen", depth=8, num=300 if not th else 3000),
                         dict(module="LifeGen", depth=4, exhaustive=True, cap=300 if not th else 4000, over={"Weights": "<- XL", "Ns": "= {3, 40}"})]),
               dict(pkg="ext", driver="lifesrv", env={"DRV_REAL": "1"}, trace=dict(module="LifeTrace"),
                    gen=[dict(module="LifeGen", depth=4, num=60 if not th else 600)]),
               dict(pkg="core", driver="statsdq",
                    gen=[dict(module="StatsdQGen", depth=8, num=200 if not th else 2000, over={"Weights": "<- W12"}),
                         dict(module="StatsdQGen", depth=6, exhaustive=True, cap=300 if not th else 4000,
                              over={"Weights": "<- X12", "RecIds": "= {1}", "Ns": "= {2}", "MaxDrains": "= 3"})],
                    trace=dict(module="StatsdQTrace"))],
        assumptions=[])


PROPS["C12"] = stop12


def writer(prop):
    def conf(tier):
        th = tier == "thorough"
        small = {"Weights": "<- X13", "Jobs": '= {"j1"}', "Evs": '= {"e1"}', "Vs": '= {"v1"}', "Gs": '= {"g1"}', "Sts": '= {"success", "junk"}', "Errs": '= {"x1"}', "Keys": '= {"k1"}', "Vals": '= {"u1"}'}
        return dict(
            mc=[dict(module="WriterMC", cfg="WriterMC.cfg")],
            parts=[dict(pkg="core", driver="writer", kind=prop,
                        gen=[dict(module="WriterGen", depth=15, num=400 if not th else 5000),
                             dict(module="WriterGen", depth=2, exhaustive=True, cap=400, over=small)],
                        trace=dict(module="WriterTrace")),
                   dict(pkg="core", driver="writer", kind=prop, race=True,
                        gen=[dict(module="WriterGen", depth=6, num=60 if not th else 600)],
                        trace=dict(module="WriterTrace"))],
            assumptions=["the writer accepts concurrent writes"] + (["finite gauges and valid UTF-8 only"] if prop == "C14" else []))
    return conf


PROPS["C13"] = writer("C13")
PROPS["C14"] = writer("C14")


def bugsnag(tier):
    th = tier == "thorough"
    return dict(
        mc=[dict(module="BugsnagMC", cfg="BugsnagMC.cfg", over={"MaxRec": "= 7", "MaxKv": "= 2"} if th else None)],
        parts=[dict(pkg="ext", driver="bugsnag",
                    gen=[dict(module="BugsnagGen", depth=16, num=300 if not th else 3000),
                         dict(module="BugsnagGen", depth=4 if th else 3, exhaustive=True, cap=300 if not th else 4000,
                              over={"Weights": "<- X15", "Jobs": '= {"j1"}', "Evs": '= {"e1"}', "Keys": '= {"k1"}', "Vals": '= {"u1"}', "Outs": '= {"err"}'})],
                    trace=dict(module="BugsnagTrace")),
               dict(pkg="ext", driver="bugsnag", race=True,
                    gen=[dict(module="BugsnagGen", depth=12, num=60 if not th else 600)],
                    trace=dict(module="BugsnagTrace"))],
        assumptions=["the endpoint eventually answers or fails", "an error is re-recorded through the value returned by its first recording", "one wrapper is not recorded by two goroutines at the same instant"])


PROPS["C15"] = bugsnag


def librato(tier):
    th = tier == "thorough"
    return dict(
        mc=[dict(module="LibratoMC", cfg="LibratoMC.cfg", over={"MaxRec": "= 9", "Cap": "= 3"} if th else None)],
        parts=[dict(pkg="ext", driver="librato",
                    gen=[dict(module="LibratoGen", depth=20, num=400 if not th else 4000),
                         dict(module="LibratoGen", depth=3, exhaustive=True, cap=300 if not th else 4000,
                              over={"Weights": "<- X16", "Jobs": '= {"j1"}', "Evs": '= {"e1", "e2"}', "Vs": "<- SmallVs"})],
                    trace=dict(module="LibratoTrace"))],
        assumptions=["finite measurements with finite squares", "the endpoint eventually answers or fails", "the default sanitizer and flush period"])


PROPS["C16"] = librato


def stack(tier):
    th = tier == "thorough"
    k = 1 if not th else 10
    gen = lambda n: [dict(module="StackGen", depth=25, num=n * k)]
    return dict(
        mc=[dict(module="StackMC", cfg="StackMC.cfg", over={"MaxCalls": "= 3"} if th else None)],
        parts=[dict(pkg="stk", driver="stack", trace=dict(module="StackTrace", batch=100),
                    gen=gen(150) + [dict(module="StackGen", depth=2, exhaustive=True, cap=300, over={"Weights": "<- X21"})]),
               dict(pkg="stk", driver="stack", inline=True, trace=dict(module="StackTrace", batch=100),
                    gen=gen(150) + [dict(module="StackGen", depth=2, exhaustive=True, cap=300, over={"Weights": "<- X21"})]),
               dict(pkg="stk", driver="stack", race=True, trace=dict(module="StackTrace", batch=100), gen=gen(40))],
        assumptions=["MaxStackDepth is not changed during a capture"])


PROPS["C21"] = stack


def runtime_metrics(tier):
    th = tier == "thorough"
    return dict(
        mc=[dict(module="RuntimeMC", cfg="RuntimeMC.cfg", over={"MaxTime": "= 20", "Interval": "= 3"} if th else None)],
        parts=[dict(pkg="ext", driver="runtime", trace=dict(module="RuntimeTrace"),
                    gen=[dict(module="RuntimeGen", depth=16, num=200 if not th else 2000),
                         dict(module="RuntimeGen", depth=4, exhaustive=True, cap=200 if not th else 2000, over={"Weights": "<- X17"})])],
        assumptions=["figures are compared with the driver's own reading taken while the gauge is being delivered", "Linux (file descriptors)",
                     "started at most once and stopped at most once"])


PROPS["C17"] = runtime_metrics


def conc(tier):
    th = tier == "thorough"
    return dict(
        mc=[dict(module="PollConcMC", cfg="PollConcMC.cfg", over={"N": "<- MCNbig", "Cap": "= 3"} if th else None)],
        parts=[dict(pkg="core", driver="pollconc", trace=dict(module="PollConcTrace", batch=60), gen=[dict(module="PollConcGen", depth=3, num=150 if not th else 1500)]),
               dict(pkg="core", driver="pollconc", race=True, trace=dict(module="PollConcTrace", batch=60), gen=[dict(module="PollConcGen", depth=2, num=40 if not th else 400)]),
               dict(pkg="core", driver="poll", trace=dict(module="PollTrace"),
                    gen=[dict(module="PollGen", depth=24, num=150 if not th else 1500, over={"Weights": "<- W7"})])],
        assumptions=["virtual time (testing/synctest) with real parallelism"])


PROPS["C07"] = conc


def health_requests(tier):
    """Requests for /health at the same time as each other and as recordings."""
    th = tier == "thorough"
    c = poll("C09", "W9", 250, 16, SMALL, lambda th: [dict(module="PollMC", cfg="PollMC2.cfg")])(tier)
    c["mc"].append(dict(module="PollConcMC", cfg="PollConcMC.cfg"))
    c["parts"] += [dict(pkg="core", driver="pollconc", trace=dict(module="PollConcTrace", batch=60), gen=[dict(module="PollConcGen", depth=2, num=40 if not th else 400)]),
                   dict(pkg="core", driver="pollconc", race=True, trace=dict(module="PollConcTrace", batch=60), gen=[dict(module="PollConcGen", depth=2, num=15 if not th else 150)])]
    return c


PROPS["C09"] = health_requests


def grid(rng):
    """Hosts that come and go, restart and record over a handful of intervals."""
    ops = []
    if rng.random() < 0.5:
        # one host alone has seen some intervals, and is heard of only after later ones are known
        for h in range(3):
            ops.append(dict(op="mode", h=h, m="refused"))
        a = rng.randint(1, 4)
        for i in range(a):
            ops += [dict(op="rec", k="event", h=2, job="j1", ev="e1"), dict(op="adv", dt="i1")]
        for h in range(2):
            ops += [dict(op="restart", h=h), dict(op="mode", h=h, m="ok")]
        for i in range(5 - a if rng.random() < 0.7 else rng.randint(1, 5)):
            ops += [dict(op="rec", k="event", h=rng.randint(0, 2), job="j1", ev="e1"), dict(op="adv", dt="i1")]
        ops += [dict(op="mode", h=2, m="ok"), dict(op="adv", dt="s13"), dict(op="q")]
        return ops
    for i in range(rng.randint(5, 9)):
        for h in range(3):
            ops.append(dict(op="mode", h=h, m=rng.choice(["ok", "refused", "refused"])))
            if rng.random() < 0.4:
                ops.append(dict(op="restart", h=h))
            if rng.random() < 0.7:
                ops.append(dict(op="rec", k=rng.choice(["event", "err"]), h=h, job=rng.choice(["j1", "j2"]), ev="e1"))
        ops.append(dict(op="adv", dt="i1"))
        if rng.random() < 0.4:
            ops.append(dict(op="q"))
    return ops + [dict(op="mode", h=h, m="ok") for h in range(3)] + [dict(op="adv", dt="s13"), dict(op="q")]


def odd(rng):
    """One host has another interval length; who answers first, and with what, decides."""
    first = rng.choice([0, 1, 2])
    ops = [dict(op="mode", h=h, m=rng.choice(["noaggs", "noaggs", "refused", "codetext", "ok"]) if h != 2 else "ok") for h in range(3)]
    ops += [dict(op="rec", k=k, h=h, job="j1", ev="e1", v=1) for h in range(3) for k in ("event", "timing") if rng.random() < 0.8]
    ops += [dict(op="delay", h=h, d="fast" if h == first else rng.choice(["mid", "late"])) for h in range(3)]
    start = len(ops)
    ops += [dict(op="adv", dt="s13"), dict(op="q"), dict(op="rec", k="event", h=0, job="j2", ev="e1"), dict(op="rec", k="event", h=2, job="j2", ev="e1")]
    ops += [dict(op="mode", h=h, m="ok") for h in range(3)] + [dict(op="adv", dt="s13"), dict(op="q"), dict(op="adv", dt=rng.choice(["i1", "s10"])), dict(op="q")]
    return dict(cfg=dict(odd=True, start=start), ops=ops)


def healthd(prop):
    def conf(tier):
        th = tier == "thorough"
        k = 10 if th else 1
        modes = {"Modes": "<- Modes20"} if prop in ("C19", "C20", "C12", "C22") else {}
        w = {"C12": "W20", "C22": "W20"}.get(prop, "W" + prop[1:])
        gens = [dict(module="HealthdGen", depth=34 if prop == "C19" else 30, num={"C18": 160, "C19": 120, "C20": 220, "C12": 60, "C22": 150}[prop] * k, over=dict(modes, Weights="<- " + w))]
        if prop in ("C18", "C20"):
            small = {"Jobs": '= {"j1"}', "Evs": '= {"e1"}', "Hosts": "= {0, 1}", "Advs": '= {"s10", "i1"}'}
            if prop == "C18":
                small["Weights"] = "<- X18"
            else:
                small.update({"Weights": "<- X20", "Modes": "<- Modes20"})
            gens.append(dict(module="HealthdGen", depth=4 if prop == "C18" else 3, exhaustive=True, cap=150 * k, over=small))
        extra = lambda rng, tier: []
        if prop in ("C20", "C12"):
            rec = [dict(op="rec", k="event", h=h, job="j1", ev="e1") for h in (0, 1, 2, 3, 50, 64)]
            extra = lambda rng, tier: [dict(cfg=dict(many=True), ops=rec[:n] + [dict(op="adv", dt="s3"), dict(op="q"), dict(op="adv", dt="s7"), dict(op="q"), dict(op="adv", dt="s13"), dict(op="q")] + rec[n:])
                                       for n in (1, 4, 6)]
        if prop == "C18":
            extra = lambda rng, tier: [dict(cfg=dict(grid=True), ops=grid(rng)) for _ in range(40 * k)] + [odd(rng) for _ in range(15 * k)]
        if prop == "C19":
            # short durations: averages differ by fractions only
            extra = lambda rng, tier: [dict(cfg=dict(small=True, now=True), ops=[dict(op="rec", k="complete", h=rng.randint(0, 1), job="j%d" % rng.randint(1, 14), st="success", v=rng.randint(1, 3))
                                                                            for _ in range(60)] + [dict(op="adv", dt="s13"), dict(op="q"), dict(op="q"), dict(op="q")]) for _ in range(10 * k)] + [
                # many completions
                dict(cfg=dict(small=True, now=True), ops=[dict(op="rec", k="complete", h=h, job="j%d" % j, st=rng.choice(("success", "success", "error", "junk")), v=0, n=rng.choice((5000, 30000, 47000, 66000)))
                                                          for h in (0, 1) for j in (1, 2) if rng.random() < .7]
                     + [dict(op="rec", k="complete", h=rng.randint(0, 1), job="j%d" % rng.randint(1, 3), st="success", v=rng.randint(0, 3)) for _ in range(12)]
                     + [dict(op="adv", dt="s13"), dict(op="q"), dict(op="q"), dict(op="q")]) for _ in range(3 * k)] + [
                # many jobs
                dict(cfg=dict(now=True), ops=[dict(op="rec", k=rng.choice(("complete", "complete", "complete", "complete", "event")), h=rng.randint(0, 1), ev="e1", job="j%d" % rng.randint(1, n),
                                                   st=rng.choice(("success", "success", "validation_error", "panic", "error", "junk")), v=rng.randint(0, 200))
                                              for _ in range(120)] + [dict(op="adv", dt="s13"), dict(op="q"), dict(op="q")]) for _ in range(8 * k) for n in (rng.choice((20, 40, 80)),)]
        return dict(pkg="hd", driver="healthd", kind=prop, gen=gens, extra=extra, trace=dict(module="HealthdTrace", batch=25))
    return conf


def healthd_storm(prop):
    # many requests at once while hosts are polled, under the race detector
    def conf(tier):
        def extra(rng, tier):
            out = []
            for _ in range(60 if tier == "thorough" else 8):
                ops = [dict(op="rec", k=k, h=h, job=j, ev="e1", v=h + 1, st="success") for h in range(3) for k in ("event", "timing", "complete", "err", "gauge") for j in ("j1", "j2")]
                ops += [dict(op="mode", h=rng.randint(0, 2), m=rng.choice(["ok", "refused", "code"])), dict(op="adv", dt="s3"), dict(op="q"), dict(op="storm")]
                ops += [dict(op="rec", k="event", h=rng.randint(0, 2), job="j1", ev="e1"), dict(op="mode", h=rng.randint(0, 2), m="ok"), dict(op="storm"), dict(op="q")]
                out.append(dict(cfg=dict(now=True), ops=[dict(op="storm")] + ops))
            return out
        return dict(pkg="hd", driver="healthd", kind=prop, gen=[], extra=extra, race=True, chunks=4, trace=dict(module="HealthdTrace", batch=25))
    return conf


def healthd_check(prop):
    def conf(tier):
        th = tier == "thorough"
        return dict(mc=[dict(module="HealthdMC", cfg="HealthdMC.cfg")] + ([dict(module="HealthdConc", cfg="HealthdConc.cfg")] if prop == "C20" else []), parts=[healthd(prop)(tier)] + ([healthd_storm(prop)(tier)] if prop in ("C19", "C20") else []),
                    assumptions=["gocraft/web and braintree/manners, not installed here, are replaced by stand-ins with the same routing behaviour",
                                 "hosts retain at most five intervals and their clocks agree with healthd's",
                                 "virtual time (testing/synctest)"])
    return conf


for _p in ("C18", "C19", "C20", "C22"):
    PROPS[_p] = healthd_check(_p)


def stop12_all(tier):
    c = stop12(tier)
    c["mc"] = c["mc"] + [dict(module="HealthdConc", cfg="HealthdConc.cfg")]
    c["parts"] = c["parts"] + [healthd("C12")(tier)]
    return c


PROPS["C12"] = stop12_all


def healthtop(tier):
    th = tier == "thorough"
    k = 10 if th else 1
    return dict(mc=[dict(module="HealthtopMC", cfg="HealthtopMC.cfg", over={"MaxTick": "= 7", "MaxSlow": "= 4"} if th else None)],
                parts=[dict(pkg="top", driver="healthtop", trace=dict(module="HealthtopTrace", batch=100),
                            gen=[dict(module="HealthtopGen", depth=16, num=250 * k),
                                 dict(module="HealthtopGen", depth=4, exhaustive=True, cap=150 * k, over={"Weights": "<- X23"})])],
                assumptions=["buger/goterm and spf13/cobra, not installed here, are replaced by stand-ins", "virtual time (testing/synctest)",
                             "names without tabs, line breaks and escape characters"])


PROPS["C23"] = healthtop


def daemon(tier):
    th = tier == "thorough"
    return dict(mc=[dict(module="DaemonMC", cfg="DaemonMC.cfg")],
                parts=[dict(pkg="daemon", driver="daemon", env={"DRV_REAL": "1"}, trace=dict(module="DaemonTrace"), chunks=8,
                            gen=[dict(module="DaemonGen", depth=1, exhaustive=True, over={"Ups": "= {0, 1, 2, 3, 8, 40}", "Downs": "= {0, 1, 3}"} if th else {})])],
                assumptions=["gocraft/web and braintree/manners, not installed here, are replaced by stand-ins", "the loopback network works", "real time: settled means within a minute"])


PROPS["C24"] = daemon


def mix(tier):
    th = tier == "thorough"
    k = 12 if th else 1
    small = {"Weights": "<- X25", "Jobs": '= {"stream", "j1"}', "Evs": '= {"e1"}', "Errs": '= {"x1"}', "MapArgs": '= {"", "m1"}', "Advs": "= {1}", "Kinds": '= {"json", "statsd", "poll", "librato", "bugsnag"}'}
    return dict(mc=[dict(module="MixMC", cfg="MixMC.cfg", over={"MaxRec": "= 4", "MaxErr": "= 3"} if th else None)],
                parts=[dict(pkg="ext", driver="mix", trace=dict(module="MixTrace", batch=60),
                            gen=[dict(module="MixGen", depth=24, num=250 * k),
                                 dict(module="MixGen", depth=3, exhaustive=True, cap=250 * k, over=small)]),
                       dict(pkg="ext", driver="mix", race=True, trace=dict(module="MixTrace", batch=60),
                            gen=[dict(module="MixGen", depth=20, num=50 * k, scfg={"par": True})])],
                assumptions=["loopback UDP delivers in order and without loss (kernel drops are detected and the run discarded)", "endpoints and writers eventually answer or fail",
                             "names the sinks need not sanitize or escape"])


PROPS["C25"] = mix
