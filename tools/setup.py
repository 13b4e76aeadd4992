#!/usr/bin/env python3
"""Parses every specification once (nothing else needs building ahead: checks compile from /repo's current tree)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for t in ("g++", "java"):
    if subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode: print("missing", t); sys.exit(1)
bad = 0
for f in sorted(os.listdir(os.path.join(V, "spec"))):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", f], cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print(f, r.stdout[-1500:]); bad = 1
sys.exit(bad)
