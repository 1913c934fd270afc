"""AES: value analysis with S-box atoms against FIPS-197."""
from vsa import run, build


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/crypto.cpp")
    th = tier == "thorough"
    C = run.Ctx
    cx = [C("n=%d" % n, bc, "h_aes", dict(n=n), weight=n) for n in list(range(0, 34 if th else 18)) + [24, 32, 33]]
    cx += [C("fixed sizes", bc, "h_aes_fixed", weight=40)] + [C("batch shapes %d" % s, bc, "h_para", dict(s=s), weight=40) for s in range(7)]
    r = run.Report("All keys and all block values at the listed counts. Every byte of every block is tracked as a GF(2)-linear form over key/plaintext bits and S-box outputs "
                   "(one atom per distinct S-box argument) by forward value analysis of the LLVM IR of the current tree, and compared with the form FIPS-197 gives.",
                   "enc == FIPS-197, dec(enc(x)) == x, schedules == FIPS-197 expansion, neighbours unchanged, no access outside the arrays",
                   ["x86-64 AES-NI/SSSE3 instruction semantics as modelled; equality up to S-box atoms is sufficient for equality of functions", "AArch64 variant not analysed"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::AES_set_encrypt_key", "emp::AES_ecb_encrypt_blks", "emp::AES_ecb_decrypt_blks", "AES_opt_key_schedule", "ParaEnc", "emp::AES_set_decrypt_key_fast")
