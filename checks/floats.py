import glob
from vsa import build
from vsa.ir import AnalysisError

NAMES = "EQ LT LE NEG ABS XOR AND XORA IFM IFF SWAP IDX ADD SUB MUL DIV SQR SQRT SIN COS EXP2 EXP LN LOG2".split()


def define():
    p = build.tmpdir() + "/floats_all.h"
    src = sorted(glob.glob(build.REPO + "/emp-tool/circuits/float32_*.cpp"))
    if not src:
        raise AnalysisError("no float32_*.cpp found")
    with open(p, "w") as f:
        for s in src:
            f.write('#include "%s"\n' % s)
    return ['FLOATS_ALL="%s"' % p]


def compile():
    return build.compile_tu(build.VERIF + "/harness/floats.cpp", defs=define())
