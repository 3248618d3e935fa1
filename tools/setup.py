#!/usr/bin/env python3
"""Offline set-up: check the tools, parse the specification, pre-build the common variant."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import build, tlc
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for t in ("java", "g++"):
    subprocess.run([t, "-version" if t == "java" else "--version"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for m in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", tlc.CP, "tla2sany.SANY", os.path.basename(m)], cwd=tlc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or "*** Errors" in r.stdout:
        print(r.stdout)
        sys.exit("specification does not parse: " + m)
print("setup: ok")
