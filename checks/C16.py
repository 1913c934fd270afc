"""PRP, CRH, CCRH, TCCRH: value analysis against the definitions over FIPS-197."""
from vsa import run, build


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/crypto.cpp")
    th = tier == "thorough"
    C = run.Ctx
    ns = list(range(0, 34 if th else 19)) + [24, 25, 32, 33]
    cx = [C("permute n=%d" % n, bc, "h_prp", dict(n=n, skew=(n * 3) % 17), weight=4 * n) for n in ns]
    M64 = (1 << 64) - 1
    ids = [0, 1, 0xffffffff, M64 - 2, 0x123456789abcdef0]
    for h in ("crh", "ccrh", "tccrh"):
        for k, n in enumerate(ns):
            cx.append(C("%s n=%d" % (h, n), bc, "h_" + h, dict(n=n, defkey=k % 2, symid=0, id=ids[k % 5]), weight=5 * n))
        cx.append(C("%s single, any tweak" % h, bc, "h_" + h, dict(n=0, defkey=0, symid=1, id=0)))
    r = run.Report("All keys and block values at the listed counts and starting tweaks (any 64-bit tweak for the single-block form); separate output, output over input, with and without scratch space; "
                   "values tracked as GF(2) forms over inputs and S-box atoms by forward analysis of the LLVM IR.",
                   "output == definition written over FIPS-197; no access outside the caller's arrays; scratch space released once",
                   ["x86-64 instruction semantics as modelled"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::PRP::permute_block", "emp::CRH::Hn", "emp::CCRH::Hn", "emp::TCCRH::Hn", "emp::CRH::H(", "emp::CCRH::H(", "emp::TCCRH::H(")
