"""Compile harness translation units (which include /repo's sources) to bitcode."""
import hashlib, os, subprocess, sys, tempfile, shutil, atexit

REPO = os.environ.get("VSA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANGXX = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
LINK = "/usr/bin/llvm-link-18"
FLAGS = ["-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-g1", "-emit-llvm", "-c", "-Wno-everything",
         "-include", VERIF + "/harness/pre.h", "-I" + REPO, "-fno-access-control"]
ARCH = ["-march=x86-64-v3", "-maes", "-mpclmul", "-mrdseed"]

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vsa-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def compile_tu(src, defs=(), arch=None, passes="sroa", tag=""):
    """src: path -> path of bitcode"""
    out = os.path.join(tmpdir(), os.path.basename(src).replace(".cpp", "") + "-" + hashlib.sha1(repr((src, tuple(defs), arch, tag)).encode()).hexdigest()[:8] + ".bc")
    cmd = ([CLANGXX] + FLAGS + (ARCH if arch is None else list(arch)) + ["-D" + d for d in defs] + ["-I" + os.path.join(VERIF, "harness"), src, "-o", out])
    try:
        _run(cmd)
    except BuildError:
        # g++ (the project's compiler) accepts newer constructs as extensions
        try:
            _run([cmd[0], "-std=gnu++17"] + [c for c in cmd[1:] if c != "-std=c++11"] + ["-fpermissive"])
        except BuildError:
            _run(cmd)
    _run([OPT, "-passes=" + passes, out, "-o", out])
    return out


def link(paths, name):
    out = os.path.join(tmpdir(), name)
    _run([LINK] + list(paths) + ["-o", out])
    return out
