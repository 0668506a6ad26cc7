#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that every specification module parses."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
os.makedirs(vlib.BUILD, exist_ok=True)
for t in ("java", "clang++"):
    if not shutil.which(t): sys.exit(f"{t} is missing")
vlib.types_file()
mods = sorted(f for f in os.listdir(vlib.SPEC) if f.endswith(".tla"))
r = subprocess.run(["java", "-cp", vlib.TLC[-1], "tla2sany.SANY"] + mods, cwd=vlib.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
bad = r.returncode or b"*** Errors" in r.stdout or b"Fatal errors" in r.stdout
if bad: print(r.stdout.decode()[-3000:])
print(len(mods), "modules")
sys.exit(1 if bad else 0)
