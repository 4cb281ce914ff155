#!/usr/bin/env python3
"""Setup: checks that the tools and kernel features the simulators need are there.  Each check builds
everything it runs from the committed files and /repo's current tree, so nothing is kept from here."""
import os, shutil, subprocess, sys, tempfile
for t in ("g++", "objcopy", "ld"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with tempfile.TemporaryDirectory() as d:
    p = subprocess.run(["g++", "-std=c++17", "-O2", "-w", "-rdynamic", V + "/sim/lib/host.cpp", "-o", d + "/host", "-ldl"])
    if p.returncode: sys.exit("the library simulator does not compile")
    p = subprocess.run(["g++", "-std=c++17", "-O2", "-w", "-rdynamic", V + "/sim/gen/gensim.cpp", "-o", d + "/gensim", "-ldl"])
    if p.returncode: sys.exit("the generator simulator does not compile")
print("setup: ok")
