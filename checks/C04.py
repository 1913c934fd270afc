"""Privacy-free garbling: generator and evaluator analysed side by side."""
from vsa import run, build
from checks import C01


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/gc.cpp")
    r = C01.report()
    r.add(run.run_ctxs(C01.contexts(bc, "h_pf", "h_pf_chain", tier == "thorough")))
    return r.need("PrivacyFreeGen<Chan>::and_gate", "PrivacyFreeEva<Chan>::and_gate", "PrivacyFreeGen<Chan>::not_gate", "PrivacyFreeEva<Chan>::xor_gate", "PrivacyFreeEva<Chan>::num_and")
