#!/usr/bin/env python3
"""tools/mut.py FILE: each mutation (a python list M of (check, file, old, new[, expect])) is applied to a scratch copy of /repo, the check is run there.
expect 1 = must be caught (default), 0 = behaviour preserved, must be quiet."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def one(m):
    chk, f, old, new = m[:4]
    exp = m[4] if len(m) > 4 else 1
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run(["cp", "-a", "/repo/emp-tool", d + "/emp-tool"], check=True)
        ed = [(f, old, new)] if isinstance(old, str) else list(zip(f if not isinstance(f, str) else [f] * len(old), old, new))
        for f, o, n in ed:
            p = d + "/emp-tool/" + f
            s = open(p).read()
            if o not in s:
                return m, "OLD TEXT NOT FOUND"
            s = s.replace(o, n, 1)
            open(p, "w").write(s)
        e = dict(os.environ, VSA_REPO=d, VSA_EVIDENCE=d)
        r = subprocess.run(["python3", "check.py", chk], cwd="/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = [l for l in r.stdout.splitlines() if l.startswith("  [") or l.startswith("ERROR")][:1]
        return m, "%s rc=%d %s" % ("ok " if exp is None or r.returncode == exp else "BAD", r.returncode, (out or [""])[0][:230])
    finally:
        shutil.rmtree(d, ignore_errors=True)


bad = 0
with ThreadPoolExecutor(2) as ex:
    for m, r in ex.map(one, [m for m in ns["M"] if not only or m[0] in only]):
        bad += not r.startswith("ok")
        print("%s %-50.50s -> %-50.50s : %s" % (m[0], str(m[2]).strip().replace("\n", " ")[-50:], str(m[3]).strip().replace("\n", " ")[:50], r), flush=True)
sys.exit(bad > 0)
