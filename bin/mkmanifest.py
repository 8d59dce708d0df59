#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        c = props.PROPS[i]("quick")
        mods = sorted({m["module"] for m in c.get("mc", [])})
        tm = sorted({p["trace"]["module"] for p in c["parts"]})
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification model-checked with TLC (%s); TLC-generated behaviours replayed into the real code; recorded traces validated by TLC (%s)" % (", ".join(mods), ", ".join(tm)),
                           level="model_checking",
                           level_note="The specification satisfies the property exhaustively within the bounds of the .cfg; the code conforms to it on every generated behaviour (random and bounded-exhaustive) that was executed. Trusted: TLC, the Go toolchain incl. testing/synctest, the harness' projection of observations. " + "; ".join(c.get("assumptions", []))))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness drives the public API (virtual time via testing/synctest, scripted HTTP transports, loopback UDP). Repairs of genuine defects are listed in known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
