"""Typed messages."""
from vsa import run, build, osmodel
from checks.C24 import ecmodels


def check(tier):
    th = tier == "thorough"
    src = build.VERIF + "/harness/ec.cpp"
    b = run.parallel_compile([("bmi", src, {}), ("nobmi", src, dict(arch=["-march=x86-64", "-msse4.1", "-maes", "-mpclmul"])), ("rel", src, dict(defs=["NDEBUG"]))])
    C = run.Ctx
    cx = []
    top = 130 if th else 42
    for v in ("bmi", "nobmi"):
        for n in list(range(0, top)) + [63, 64, 65, 100, 128, 1000]:
            for s, r in ((0, 0), (1, 0), (0, 3), (5, 2), (7, 8)) if n < 20 else ((n % 8, 0), (0, (n + 1) % 8)):
                cx.append(C("%s, %d bools, addresses %d and %d mod 8" % (v, n, s, r), b[v], "h_bools", dict(n=n, s=s, r=r, mode=3), weight=n, dom="BDD"))
                if (s, r) in ((0, 0), (5, 2)) or n >= 20:
                    for mode in (0, 1, 2):
                        cx.append(C("%s, %d bools, addresses %d and %d mod 8, mode %d" % (v, n, s, r, mode), b[v], "h_bools", dict(n=n, s=s, r=r, mode=mode), weight=n, dom="BDD"))
        for n in list(range(0, 9)) + [33]:
            cx.append(C("%s, %d blocks" % (v, n), b[v], "h_blocks", dict(n=n)))
    for n in range(0, 7):
        for pre in (0, 1):
            cx.append(C("%d points%s" % (n, " into existing ones" if pre else ""), b["bmi"], "h_points", dict(n=n, preset=pre, bn_bits=255), models=ecmodels(), weight=30))
            cx.append(C("%d points, release build%s" % (n, " into existing ones" if pre else ""), b["rel"], "h_points", dict(n=n, preset=pre, bn_bits=255), models=ecmodels(), weight=30))
    for v in ("bmi", "rel"):
        for ln in (0, 1, 64, 65, 66, 255, 256, 257, 2048, 2049, 2050, 4096, 5000, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
            cx.append(C("%s, encoding of %d bytes that is no point" % (v, ln), b[v], "h_badpoint", dict(len=ln, bn_bits=255), models=ecmodels(), expect_abort=True))
        for ln in (65, 2049, 4000, (1 << 32) - 1):
            cx.append(C("%s, second encoding of %d bytes is no point" % (v, ln), b[v], "h_badsecond", dict(len=ln, bn_bits=255), models=ecmodels(), expect_abort=True))
    io = build.compile_tu(build.VERIF + "/harness/io.cpp")
    G = 1 << 30
    for n in (2 * G - 16, 2 * G, 4 * G - 16, 4 * G, 4 * G + 48, 16 * G, 32 * G + 16, 64 * G, 64 * G + 16):
        for rv in (0, 1):
            for fl in ("net", "file"):
                cx.append(C("%s, %s %d blocks" % (fl, "receive" if rv else "send", n // 16), io, "h_big_" + fl, dict(n=n, recv=rv, blk=1), models=osmodel.models()))
        cx.append(C("memory, send %d blocks" % (n // 16), io, "h_big_mem", dict(n=n, recv=0, blk=1), models=osmodel.models()))
        cx.append(C("send %d bytes" % n, io, "h_big_net", dict(n=n, recv=0, blk=0), models=osmodel.models()))
    r = run.Report("Sender and receiver code of every typed operation composed over a byte FIFO and analysed for all contents at the listed lengths and alignments, in the builds with and without BMI2; points are terms with an injective encoding.",
                   "received == sent bit for bit; sender's and receiver's byte counts agree; counter == bytes handed over; over-long or invalid encodings => error(), with and without NDEBUG; accesses within the exact arrays",
                   ["lengths listed in this file"])
    r.add(run.run_ctxs(cx))
    return r.need("send_bool", "recv_bool", "send_pt", "recv_pt", "send_block", "recv_block")
