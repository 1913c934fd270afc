"""Half gates: generator and evaluator analysed side by side, gate by gate."""
from vsa import run, build, gcm


def contexts(bc, entry, chain, th):
    C = run.Ctx
    pm = gcm.prg_models()
    cx = []
    for s in range(24 if th else 12):
        cx.append(C("random gates %d" % s, bc, entry, dict(redelta=s % 3 == 2, vals=(0x9e3779b97f4a7c15 * (s + 1)) & ((1 << 64) - 1), seed=s * 7919 + 1, steps=60 if th else 40, onlyand=s % 4 == 3, at=0),
                    models=pm, min_obl=20, weight=5))
    for k, at in enumerate((254, 65533, (1 << 31) - 5, (1 << 32) - 5, (1 << 48) - 3, (1 << 62) - 2)):
        cx.append(C("from gate index %#x" % at, bc, entry, dict(redelta=0, vals=(0x9e3779b97f4a7c15 * (k + 77)) & ((1 << 64) - 1), seed=k + 3, steps=10, onlyand=1, at=at), models=pm, min_obl=20, weight=5))
    for v in range(4):
        cx.append(C("chain, inputs %d" % v, bc, chain, dict(vals=v), models=pm, min_obl=1))
    return cx


def report():
    return run.Report("All label and offset values, for every listed gate sequence and assignment of wire values: generator and evaluator run over one modelled channel, labels are words of GF(2) polynomials over "
                      "random words, input labels and S-box outputs. After each AND gate its label is replaced by an arbitrary one satisfying the proven relation, so every step is decided for arbitrary input labels.",
                      "evaluator label == generator label ^ value*offset as polynomials; bytes sent == bytes read; counters exact",
                      ["hash state reached by at most 60 AND gates", "faithful channel", "PRG contract (C14, C15)"])


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/gc.cpp")
    r = report()
    r.add(run.run_ctxs(contexts(bc, "h_half", "h_half_chain", tier == "thorough")))
    return r.need("HalfGateGen<Chan>::and_gate", "HalfGateEva<Chan>::and_gate", "HalfGateGen<Chan>::not_gate", "HalfGateEva<Chan>::xor_gate", "HalfGateEva<Chan>::num_and")
