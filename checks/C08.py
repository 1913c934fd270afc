"""Obliviousness of the circuit library: every operation is extracted against opaque labels; any branch, address, gate or wiring that depends on a label, or on the value fed to or revealed from a wire, is reported."""
import importlib
from vsa import run, build, net


def collect(pid, tier):
    """the extraction contexts of another check, without its functional comparison"""
    got = []
    real = run.run_ctxs
    run.run_ctxs = lambda cx, *a, **k: (got.extend(cx), [])[1]
    try:
        importlib.import_module("checks." + pid).check(tier)
    finally:
        run.run_ctxs = real
    return got


def drop(mc, res):
    pass


def gates(mc, res):
    n = mc.__dict__.get("net")
    res.obl += len(n.g) - 2 if n else 0
    for t, w in (n.reveals if n else ()):
        res.failure("reveal", "an operation reveals %d wires to party %d" % (len(w), t))


def fed(mc, res):
    n = mc.net
    res.obl += len(n.g) - 2


def check(tier):
    th = tier == "thorough"
    cx = []
    for pid in ("C06", "C07", "C10", "C11", "C12", "C25"):
        for c in collect(pid, tier):
            if c.dom not in ("NET", "NETB") or c.entry in ("h_circ_null",):
                continue
            if pid == "C12":
                d = c.driver
                def drv(mc, res, d=d):
                    d(mc, run.Result("ignored"))
                    res.obl += 1
                c.driver = drv
                if c.params.get("how") == 3:
                    continue
            c.post = gates
            c.name = "%s: %s" % (pid, c.name)
            c.min_obl = 0
            cx.append(c)
    # values entering circuits: the wires and gates must not depend on the private value
    bc = build.compile_tu(build.VERIF + "/harness/conv.cpp")
    for party in (1, 2):
        for op, lens in (("BITB", (1,)), ("INUM", (1, 2, 7, 8, 31, 32, 33, 64, 65, 128)), ("IPTR", (1, 8, 31, 32, 64, 100)), ("IPTR1", (1,)), ("FLT", (32,)), ("IINIT", (1, 9, 64))):
            o = "BITB BITS INUM IPTR IPTR1 FLT FLTS DFLT IINIT".split().index(op)
            for ln in lens:
                cx.append(run.Ctx("feed %s of %d bits by party %d" % (op, ln, party), bc, "h_feed", dict(op=o, len=ln, party=party, back=party, conc=0, val=0), dom="NET", oblivious="labels", models=fmodels(), post=fed, min_obl=1))
    r = run.Report("Every operation of bits, integers, floats, selection, sorting, circuit files and in-circuit AES is analysed with wire labels as opaque words: the analysis reports any branch or memory address that depends on a label bit, any gate operand that is not a wire handed out by the backend, and any wire revealed on the way. Inputs fed from unknown private host values must give the same wires and gates for all values.",
                   "no label-dependent control flow, address or operand; no reveal inside an operation; gates and feeds unconditional in private values", ["widths, sizes and files of the extraction contexts of C06, C07, C10, C11, C12 and C25"])
    r.add(run.run_ctxs(cx))
    r.extra["operations"] = len(cx)
    return r.need("Integer::operator+", "Integer::operator/", "Integer::select", "Float::operator+", "Float::exp", "bitonic", "BristolFashion::compute", "BristolFormat::compute", "AES_128_CTR_Calculator::aes_128_ctr")


def fmodels():
    from checks import C09
    return C09.MODELS() if hasattr(C09, "MODELS") else net.models()
