#!/usr/bin/env python3
"""Plants one bug in a scratch copy of /repo, confirms it, and (with --check) runs checks on it.

  seed.py new DEF.py        make /verif/seeded/<id>/ from a definition (ID, PROP, EDITS, DEMO, NEEDS, BREAKS)
  seed.py confirm ID...     patch applies, builds, stable tests pass, demo 0 without / non-zero with
  seed.py check ID [PROP..] run the check of its property (or those given) on a patched scratch copy
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")

DEMO_SH = '''#!/bin/bash
# exit 0: behaves; non-zero: the property is broken. Run with cwd /repo.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
. /opt/vp/env.sh
cd "$R" || exit 1
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp -r "$D"/* "$T"/
cat > "$T"/go.mod <<EOF
module demo

go 1.25

require github.com/gocraft/health v0.0.0
replace github.com/gocraft/health => $R
EXTRA
EOF
cd "$T" && go build RACE -o demo.bin . && timeout 120 ./demo.bin
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="seedw-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    return d, r


def new(defn):
    g = {}
    exec(open(defn).read(), g)
    d, r = copy()
    try:
        for f, old, new_ in g["EDITS"]:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new_))
        sh("gofmt -l .", cwd=r)
        diff = sh("git diff", cwd=r).stdout
        out = os.path.join(SEED, g["ID"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        extra = ""
        if g.get("HEALTHD"):
            for s in ("web", "manners"):
                shutil.copytree(os.path.join(V, "harness", "shims", s), os.path.join(out, "shims", s))
            extra = "require github.com/gocraft/web v0.0.0\nreplace github.com/gocraft/web => ./shims/web\nrequire github.com/braintree/manners v0.0.0\nreplace github.com/braintree/manners => ./shims/manners"
        if g.get("SHIMS"):
            shutil.copytree(os.path.join(V, "harness", "shims"), os.path.join(out, "shims"))
        open(os.path.join(out, "demo.sh"), "w").write(g.get("DEMO_SH") or DEMO_SH.replace("EXTRA", extra).replace("RACE", "-race" if g.get("RACE") else ""))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, g.get("DEMO_FILE", "main.go")), "w").write(g["DEMO"].lstrip("\n"))
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d)
    return g["ID"]


def confirm(i):
    s = os.path.join(SEED, i)
    d, r = copy()
    try:
        def demo():
            dd = os.path.join(d, "demo")
            shutil.rmtree(dd, ignore_errors=True)
            shutil.copytree(s, dd)
            for f in ("patch.diff", "meta.json"):
                os.remove(os.path.join(dd, f))
            txt = open(os.path.join(dd, "demo.sh")).read().replace(". /opt/vp/env.sh", ". <(sed 's#cd /repo#cd .#' /opt/vp/env.sh)")
            open(os.path.join(dd, "demo.sh"), "w").write(txt)
            return sh("bash %s/demo.sh" % dd, cwd=r)
        a = demo()
        p = sh("git apply %s/patch.diff" % s, cwd=r)
        b = demo()
        t = sh("sed 's#cd /repo#cd %s#' /opt/vp/env.sh > %s/env.sh; sed 's#/opt/vp/env.sh#%s/env.sh#' /opt/vp/test.sh > %s/test.sh; sed 's#/opt/vp/env.sh#%s/env.sh#' /opt/vp/build.sh > %s/build.sh; bash %s/build.sh && bash %s/test.sh %s/out.json" % ((r,) + (d,) * 8))
        res = json.load(open(d + "/out.json")) if os.path.exists(d + "/out.json") else {}
        base = json.load(open("/opt/vp/BASELINE.json"))
        def names(x):
            if isinstance(x, dict):
                for k in ("passed", "stable", "tests", "stable_tests"):
                    if k in x:
                        return set(x[k])
            return set(x)
        missing = names(base) - names(res) if res else {"no result"}
        ok = p.returncode == 0 and a.returncode == 0 and b.returncode != 0 and t.returncode in (0, 1) and not missing
        print(i, "OK" if ok else "BAD", "apply", p.returncode, "demo", a.returncode, b.returncode, "tests missing", sorted(missing)[:3], t.stderr[-300:])
        if not ok:
            print(p.stderr, a.stdout[-1500:], a.stderr[-1500:], "\n---\n", b.stdout[-800:], b.stderr[-800:], t.stdout[-500:])
        else:
            print("   demo says:", (b.stdout + b.stderr).strip()[-200:].replace("\n", " | "))
        return ok
    finally:
        shutil.rmtree(d)


def check(i, props):
    s = os.path.join(SEED, i)
    props = props or [json.load(open(s + "/meta.json"))["property"]]
    d, r = copy()
    try:
        assert sh("git apply %s/patch.diff" % s, cwd=r).returncode == 0
        for p in props:
            x = sh("python3 bin/check.py %s" % p, cwd=V, env=dict(os.environ, VERIF_REPO=r))
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION") or "rejected" in l or l.startswith("ERROR")]
            print(i, p, "rc", x.returncode, "CAUGHT" if x.returncode == 1 else "MISSED" if x.returncode == 0 else "ERR " + x.stdout[-1500:], "|", " ".join(v)[:300], flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "new":
        for f in sys.argv[2:]:
            i = new(f)
            if confirm(i):
                check(i, [])
    elif sys.argv[1] == "confirm":
        for i in sys.argv[2:]:
            confirm(i)
    else:
        check(sys.argv[2], sys.argv[3:])
