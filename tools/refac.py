#!/usr/bin/env python3
"""tools/refac.py FILE [--each] [CHECK...]: behaviour-preserving edits (list R of (name, [(file, old, new)])) applied together (or one at a time) to a scratch copy; every check must stay quiet."""
import os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
a = sys.argv[2:]
each = "--each" in a
names = [x[2:] for x in a if x.startswith("n=")]
chk = [x for x in a if x.startswith("C")] or ["C%02d" % i for i in range(1, 40) if os.path.exists("/verif/checks/C%02d.py" % i)]
R = [r for r in ns["R"] if not names or r[0] in names]


def go(rs):
    d = tempfile.mkdtemp(prefix="refac-")
    try:
        subprocess.run(["cp", "-a", "/repo/emp-tool", d + "/emp-tool"], check=True)
        for nm, eds in rs:
            for f, o, n in eds:
                p = d + "/emp-tool/" + f
                s = open(p).read()
                if o not in s:
                    print("NOT FOUND", nm, f)
                    continue
                open(p, "w").write(s.replace(o, n, 1))
        for c in chk:
            e = dict(os.environ, VSA_REPO=d, VSA_EVIDENCE=d)
            r = subprocess.run(["python3", "check.py", c], cwd="/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ls = r.stdout.splitlines()
            if r.returncode == 0:
                print("ok ", c, ls[-1] if ls else "", flush=True)
            else:
                print("BAD", c, "rc=%d" % r.returncode, flush=True)
                print("\n".join("     " + l[:300] for l in ls if l.startswith("  ") or l.startswith("ERROR") or "error:" in l)[:1800], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if each:
    for r in R:
        print("==", r[0])
        go([r])
else:
    go(R)
