#!/usr/bin/env python3
"""Create a planted bug: seed.py ID PROPERTY FILE  (reads a JSON spec on stdin)
spec: {"edits":[[file, old, new],...], "demo": C++ source, "needs":..., "breaks":..., "srcs":[...], "flags":...}"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(sid, prop, edits, demo, needs, breaks, srcs=("emp-tool/emp-tool.cpp",), libs="-lcrypto -lpthread", flags="", run='timeout 120 "$d/demo"', opt="-O1"):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % w, shell=True, check=True)
        subprocess.run("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % w, shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches in %s for %r" % (sid, s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: behaviour is right; non-zero: broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
g++ -std=c++11 %s -w -march=x86-64-v3 -maes -mpclmul -mrdseed %s -I. "$here/demo.cpp" %s -o "$d/demo" %s || exit 8
cd "$d" || exit 9
%s
""" % (opt, flags, " ".join(srcs), libs, run))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)


def verify(sid):
    """local check: demo passes on HEAD, fails with the patch"""
    d = os.path.join(V, "seeded", sid)
    w = tempfile.mkdtemp(prefix="seedv-", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % w, shell=True, check=True)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subprocess.run("cd %s && git init -q . && git apply %s/patch.diff" % (w, d), shell=True, check=True)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        p = json.load(open(d + "/meta.json"))["property"]
        c = subprocess.run([sys.executable, V + "/check.py", p], env=dict(os.environ, VSA_REPO=w, VSA_EVIDENCE=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = a.returncode == 0 and b.returncode != 0
        print("%-24s %s demo %d/%d  check exit %d  %s" % (sid, "ok " if ok else "BAD", a.returncode, b.returncode, c.returncode,
              [l for l in c.stdout.splitlines() if l.startswith("  [") or l.startswith("ERROR")][:1]))
        if not ok:
            print(a.stdout[-600:], b.stdout[-600:])
        if c.returncode != 1:
            print(c.stdout[-1500:])
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    for s in sys.argv[1:]:
        verify(s)
