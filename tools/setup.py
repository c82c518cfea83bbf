#!/usr/bin/env python3
"""Builds the test hosts from /repo's tree and has every module of the
specification parsed."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nv import lib
for v in lib.VARIANTS:
    print("built", os.path.basename(lib.build(v)))
for m in sorted(os.listdir(lib.SPEC)):
    if m.endswith(".tla"):
        r = subprocess.run(["java", "-cp", lib.JARS, "tla2sany.SANY", m], cwd=lib.SPEC, capture_output=True, text=True)
        if r.returncode or "*** Errors" in r.stdout:
            print(r.stdout[-2000:])
            sys.exit(1)
        print("parsed", m)
