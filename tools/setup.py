#!/usr/bin/env python3
"""Nothing to build: checks that the tools and the library are there."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.run(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0,'/repo'); import czone, numpy, scipy, ase, pymatgen"],
               check=True, cwd="/tmp")
for f in sorted(os.listdir(os.path.join(H, "spec"))):
    if f.endswith(".tla"):
        p = subprocess.run(["tla-sany", f], cwd=os.path.join(H, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or "*** Errors" in p.stdout or "Fatal" in p.stdout:
            print(p.stdout); sys.exit(1)
print("ok")
