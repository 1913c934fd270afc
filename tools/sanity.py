#!/usr/bin/env python3
"""setup: checks that the pieces the analyses need are present (nothing to build)."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsa import ll, build
for t in ("clang++-18", "opt-18", "llvm-link-18"):
    subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
print("ok")
