#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vsa import run
if __name__ == "__main__":
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    sys.exit(run.main(sys.argv[1], "thorough" if tier == "thorough" else "quick"))
