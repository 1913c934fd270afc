"""GF(2^128) arithmetic: value analysis in the ANF domain against polynomial arithmetic."""
from vsa import run, build, spec
from vsa.dom import Sym, mk, bits
from vsa.machine import pack, lanes
from vsa.ir import AnalysisError


def post_mul(mc, res):
    a, b = spec.word(mc, "a", 16), spec.word(mc, "b", 16)
    full = spec.clmul_full(a, b)
    lo, hi = spec.word(mc, "lo", 16), spec.word(mc, "hi", 16)
    want = {"lo": mk(full[:128]), "hi": mk(full[128:]), "mul": mk(spec.gf_reduce(full)),
            "rmul": spec.rev(spec.gf_mul(spec.rev(a), spec.rev(b))),
            "red": mk(spec.gf_reduce(bits(lo, 128) + bits(hi, 128))),
            # reflected operands: the 255-bit product of the reflections sits one bit low
            "rred": spec.rev(mk(spec.gf_reduce((bits(lo, 128) + bits(hi, 128))[:255][::-1] + (0,))))}
    for o in mc.outs:
        spec.differ(mc, res, {"lo": "mul128 low half", "hi": "mul128 high half", "mul": "gfmul", "rmul": "gfmul_reflect",
                              "red": "reduce", "rred": "reduce_reflect"}[o[0]], spec.outword(o), want[o[0]], 128)


def post_inner(mc, res):
    n = mc.params["n"]
    full = [0] * 256
    X = mc.D.xor
    for i in range(n):
        a = pack([mc.word("a[%d]" % k, 8) for k in range(16 * i, 16 * i + 16)], 8)
        b = pack([mc.word("b[%d]" % k, 8) for k in range(16 * i, 16 * i + 16)], 8)
        full = [X(p, q) for p, q in zip(full, spec.clmul_full(a, b))]
    for o in mc.outs:
        if o[0] == "ip":
            spec.differ(mc, res, "vector_inn_prdt_sum_red", spec.outword(o), mk(spec.gf_reduce(full)), 128)
        else:
            spec.differ(mc, res, "vector_inn_prdt_sum_no_red", spec.outword(o), mk(tuple(full)), 256)


# powers: gfmul is decided above for all operands; here it is used by contract,
# on symbols P_k standing for seed^k
def powers_models():
    def power(mc, k):
        t = mc.__dict__.setdefault("pw", {})
        if k not in t:
            t[k] = spec.word(mc, "seed", 16) if k == 1 else mc.opaque("seed^%d" % k, (), 128)
            mc.__dict__.setdefault("pwi", {})[t[k]] = k
        return t[k]

    def exps(mc, a, b):
        power(mc, 1)
        i, j = mc.pwi.get(a), mc.pwi.get(b)
        return None if i is None or j is None else i + j

    def gfmul(mc, args):
        k = exps(mc, args[0], args[1])
        if k is None:
            return mc.run_fn(mc.mod.fns["_ZN3emp5gfmulEDv2_xS0_PS0_"], args)
        mc.store(args[2], power(mc, k), 16)

    def mul128(mc, args):
        k = exps(mc, args[0], args[1])
        if k is None:
            return mc.run_fn(mc.mod.fns["_ZN3emp6mul128EDv2_xS0_PS0_S1_"], args)
        lo, hi = mc.opaque("lo^%d" % k, (), 128), mc.opaque("hi^%d" % k, (), 128)
        mc.__dict__.setdefault("unred", {})[(lo, hi)] = k
        mc.store(args[2], lo, 16)
        mc.store(args[3], hi, 16)

    def reduce(mc, args):
        k = mc.__dict__.get("unred", {}).get((args[0], args[1]))
        if k is None:
            return mc.run_fn(mc.mod.fns["_ZN3emp6reduceEDv2_xS0_"], args)
        return power(mc, k)
    return {"_ZN3emp5gfmulEDv2_xS0_PS0_": gfmul, "_ZN3emp6mul128EDv2_xS0_PS0_S1_": mul128, "_ZN3emp6reduceEDv2_xS0_": reduce}, power


def post_pow(mc, res):
    power = powers_models()[1]
    for o in mc.outs:
        got, want = spec.outword(o), power(mc, o[1] + 1)
        res.obl += 1
        if got != want:
            k = mc.pwi.get(got)
            res.failure("uni_hash_coeff_gen", "coefficient %d of %d is %s, must be seed^%d" % (
                o[1], mc.params["n"], "seed^%d" % k if k else "not a power of the seed", o[1] + 1))


def post_pack(mc, res):
    acc = [0] * 256
    X = mc.D.xor
    for i in range(128):
        v = bits(pack([mc.word("v[%d]" % k, 8) for k in range(16 * i, 16 * i + 16)], 8), 128)
        for k in range(128):
            acc[i + k] = X(acc[i + k], v[k])
    spec.differ(mc, res, "GaloisFieldPacking", spec.outword(mc.outs[0]), mk(spec.gf_reduce(acc)), 128)


def post_xor(mc, res):
    acc = 0
    for i in range(mc.params["n"]):
        acc = acc ^ pack([mc.word("v[%d]" % k, 8) for k in range(16 * i, 16 * i + 16)], 8)
    for o in mc.outs:
        spec.differ(mc, res, "vector_self_xor", spec.outword(o), acc, 128)


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/f2k.cpp")
    th = tier == "thorough"
    C = run.Ctx
    cx = [C("gfmul", bc, "h_gfmul", post=post_mul, min_obl=0, weight=9)]
    for n in list(range(0, 34 if th else 18)):
        cx.append(C("inner product n=%d" % n, bc, "h_inner", dict(n=n), post=post_inner, min_obl=0, weight=n))
    pm, _ = powers_models()
    for n in [-1] + list(range(0, 140 if th else 70)) + [127, 128, 129, 255, 256, 257, 1000, 1001, 1002, 1003]:
        cx.append(C("powers n=%d" % n, bc, "h_powers", dict(n=n), post=post_pow, models=pm))
    cx.append(C("packing", bc, "h_packing", post=post_pack, min_obl=0, weight=9))
    for n in list(range(0, 140 if th else 70)) + [127, 128, 129, 1001]:
        cx.append(C("self xor n=%d" % n, bc, "h_xor", dict(n=n), post=post_xor, min_obl=0))
    r = run.Report("All values of all operands (128 unknown bits each) at the listed lengths: every output bit is computed as a polynomial over GF(2) "
                   "by forward value analysis of the LLVM IR compiled from the current tree and compared with the polynomial the definition gives; "
                   "every memory access is checked against the extent of the array it addresses.",
                   "out == definition, as polynomials; accesses within the stated entries", ["x86-64 instruction semantics of pclmulqdq/SSE2 as modelled", "clang 18 lowering at -O0 plus SROA"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::gfmul", "emp::reduce(", "emp::reduce_reflect", "emp::vector_inn_prdt_sum_red", "emp::vector_inn_prdt_sum_no_red",
                  "emp::uni_hash_coeff_gen", "emp::GaloisFieldPacking::packing", "emp::vector_self_xor")
