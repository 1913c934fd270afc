"""Bit-matrix transpose and block helpers: exact value analysis."""
from vsa import run, build, spec
from vsa.dom import bits


def post_trans(mc, res):
    r, c = mc.params["r"], mc.params["c"]
    out, inp = mc.outs[0][2], mc.outs[1][2]
    ob = [b for x in out for b in bits(x, 8)]
    ib = [mc.D.var("m[%d].%d" % (k // 8, k % 8)) for k in range(r * c)]
    for k, x in enumerate(inp):
        if bits(x, 8) != tuple(ib[8 * k:8 * k + 8]):
            return res.failure("sse_trans", "input byte %d is changed" % k)
    for i in range(r):
        for j in range(c):
            res.obl += 1
            if ob[j * r + i] != ib[i * c + j]:
                return res.failure("sse_trans", "%d x %d: output bit (%d,%d) is %s, must be input bit (%d,%d)" % (r, c, j, i, mc.D.show(ob[j * r + i]), i, j))


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/blockh.cpp")
    th = tier == "thorough"
    C = run.Ctx
    cx = []
    top = 72 if th else 48
    sizes = [(r, c) for r in range(8, top + 1, 8) for c in range(8, top + 1, 8)]
    sizes += [(128, 8), (8, 128), (128, 128), (128, 24), (24, 128), (8, 256), (256, 8), (136, 40), (40, 136), (128, 64), (16, 512), (512, 16), (8, 1032), (1032, 8), (120, 56), (0, 16), (16, 0),
              (8, 2064), (24, 2056), (2056, 24), (2064, 8), (24, 4112), (4120, 16), (8, 65552), (65544, 8)]
    if th:
        sizes += [(128, 256), (256, 128), (256, 256), (136, 136), (8, 4096), (4096, 8), (64, 1024)]
    for r, c in sizes:
        cx.append(C("transpose %dx%d" % (r, c), bc, "h_trans", dict(r=r, c=c, skew=(r + c) // 8 % 2), post=post_trans, min_obl=min(1, r * c), weight=r * c / 100))
    cx.append(C("helpers", bc, "h_small", weight=20))
    for n in range(0, 18):
        cx.append(C("xor n=%d" % n, bc, "h_xorarr", dict(n=n)))
    for n in range(0, 10):
        cx.append(C("compare n=%d" % n, bc, "h_cmp", dict(n=n), dom="BDD"))
    r = run.Report("All contents at the listed sizes: each output bit is computed as a Boolean function of the input bits by forward value analysis (transpose/xor: GF(2) forms, comparison: decision diagrams) and compared with its meaning; "
                   "all accesses are checked against the exact array sizes.",
                   "out(j,i) == in(i,j); helpers == definitions on all 128 bits; reads and writes inside the given arrays",
                   ["sizes listed in this file"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::sse_trans", "emp::cmpBlock", "emp::xorBlocks_arr", "emp::set_bit", "emp::sigma", "emp::getLSB")
