#!/usr/bin/env python3
"""tools/refcheck.py [seconds]: compares the reviewed float gate lists (ref/float32.json.xz) with IEEE arithmetic: SQR and SQRT on all 2^32 operands, the others on as many structured pairs as fit the time.
A one-off review of the reference; no check runs it."""
import json, lzma, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import C11
from vsa import gatecmp
ref = json.loads(lzma.open(C11.REF).read())
d = tempfile.mkdtemp(prefix="refcheck-")
subprocess.run(["gcc", "-O2", "-w", "-march=native", "-pthread", os.path.join(os.path.dirname(os.path.abspath(__file__)), "refcheck.c"), "-o", d + "/r", "-lm"], check=True)
for i, op in enumerate(("ADD", "SUB", "MUL", "DIV", "SQR", "SQRT")):
    G = gatecmp.Graph()
    n, o = C11.load(ref[op])
    open(d + "/p", "wb").write(gatecmp.program(G, [(x, 0) for x in G.load(n, o)]))
    print(op, subprocess.run([d + "/r", d + "/p", "1" if i >= 4 else "2", "8", sys.argv[1] if len(sys.argv) > 1 else "60", str(i)], stdout=subprocess.PIPE, text=True).stdout[-600:], end="", flush=True)
for f in "rp":
    os.remove(d + "/" + f)
os.rmdir(d)
