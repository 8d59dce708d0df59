#!/usr/bin/env python3
"""Checks the toolchain and warms the Go build cache (the checks rebuild on their own)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, props
seen = set()
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for p in sorted(props.PROPS):
        for part in props.PROPS[p]("quick")["parts"]:
            k = (part["pkg"], bool(part.get("race")))
            if k not in seen:
                seen.add(k)
                check.build_driver(k[0], os.path.join(d, "drv%d" % len(seen)), k[1])
finally:
    shutil.rmtree(d, ignore_errors=True)
print("ok: built", sorted(seen))
