"""Streaming hash."""
from vsa import run, build
from checks.C24 import ecmodels

B = 8192
P, PB, DG, RS, ONCE, FB = range(6)


def scripts(th):
    o = []
    around = [0, 1, 2, B - 2, B - 1, B, B + 1, 2 * B]
    for a in around:
        for b in around:
            o.append([(P, a), (P, b), (DG, 0)])
    for a in (0, 1, B - 1, B, B + 1):
        for b in (0, 5, B - 1, B):
            for c in (0, 3, B):
                o.append([(P, a), (P, b), (P, c), (DG, 0), (P, 7), (DG, 0)])
    for a in (0, 1, 100, B - 1, B, B + 5):
        o.append([(P, a), (RS, 0), (P, 3), (DG, 0)])
        o.append([(P, a), (DG, 0), (DG, 0), (P, a), (DG, 0)])
        o.append([(RS, 0), (P, a), (P, 1), (DG, 0), (RS, 0), (RS, 0), (P, a), (P, 2), (DG, 0)])
        o.append([(P, a), (RS, 0), (DG, 0)])
    o.append([(P, i) for i in range(12)] + [(DG, 0)])
    o.append([(P, 1000)] * 18 + [(DG, 0), (P, 1), (DG, 0)])
    o.append([(P, 1024)] * 17 + [(DG, 0)])
    o.append([(P, 4096)] * 5 + [(DG, 0)])
    o.append([(P, 8191), (P, 1), (P, 8191), (P, 2), (P, 8190), (P, 1), (P, 1), (DG, 0)])
    o.append([(PB, 1), (PB, 3), (PB, 0), (P, 5), (PB, 2), (DG, 0)])
    o.append([(PB, 511), (PB, 1), (PB, 512), (PB, 513), (DG, 0)])
    for n in (0, 1, 31, 32, 33, B - 1, B, B + 1):
        o.append([(P, 2), (ONCE, n), (FB, n), (P, 3), (DG, 0)])
    if th:
        for k in range(B - 20, B + 21):
            for j in range(0, 6):
                o.append([(P, j), (P, k), (P, B - k if k <= B else 3), (P, 1), (DG, 0)])
    return o


def check(tier):
    th = tier == "thorough"
    bc = build.compile_tu(build.VERIF + "/harness/hash.cpp")
    C = run.Ctx
    cx = []
    for s in scripts(th):
        tot = sum(n * (16 if k == PB else 1) for k, n in s if k in (P, PB))
        d = dict(nop=len(s), total=tot)
        d.update({"op%d" % i: k | n << 8 for i, (k, n) in enumerate(s)})
        cx.append(C("%s" % s, bc, "h_hash", d, models=ecmodels(), weight=tot))
    for nb in (1 << 26, (1 << 27) - 1, 1 << 27, (1 << 27) + 1, 1 << 28, (1 << 28) + 3, (1 << 31) - 1):
        for pre in (0, 9):
            cx.append(C("%d bytes, then %d blocks" % (pre, nb), bc, "h_hash_big", dict(blocks=nb, pre=pre), models=ecmodels()))
    ec = build.compile_tu(build.VERIF + "/harness/ec.cpp")
    cx.append(C("key derivation from points", ec, "h_kdf", dict(bn_bits=255), models=ecmodels()))
    r = run.Report("Sequences of put, put_block, digest and reset with chunk sizes around the internal buffer size; every byte is an unknown and SHA-256 is an uninterpreted function of the exact byte sequence, so two digests agree only if the same bytes were fed in the same order.",
                   "digest == SHA-256(all bytes put since construction, last digest or reset); accesses inside caller data and own buffer; context released exactly once",
                   ["operation sequences listed in this file", "SHA-256 itself (OpenSSL)"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::Hash::put(", "emp::Hash::digest", "emp::Hash::reset", "emp::Hash::put_block", "emp::Hash::hash_for_block", "emp::Hash::KDF")
