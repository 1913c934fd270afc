"""Seeding: where the bits of the key of an unseeded PRG come from."""
from vsa import run, build, machine as mx
from vsa.dom import Sym, mk, bits, eqbit
from vsa.machine import Dead


def keyhook():
    def setkey(mc, args, fn):
        if not mc.__dict__.get("inkey"):
            mc.__dict__.setdefault("keys", []).append(args[0])
        return mc.run_fn(fn, args)
    return setkey


def hook_ctx(bc):
    """models that record the user keys handed to the AES key expansion"""
    h = keyhook()
    return {"_ZN3emp19AES_set_encrypt_keyEDv2_xPNS_7AES_KEYE": (h,)}


def rank_independent(D, bs):
    """are the bits affine-independent functions of the entropy variables"""
    rows = []
    for b in bs:
        p = D.polys[b] if b > 1 else (frozenset() if b == 0 else D.one)
        v = 0
        for m in p:
            if len(m) > 1:
                return None
            for x in m:
                v |= 1 << x
        rows.append(v)
    basis = {}
    for v in rows:
        while v:
            h = v.bit_length()
            if h in basis:
                v ^= basis[h]
            else:
                basis[h] = v
                break
        if not v:
            return False
    return True


def post_dev(mc, res):
    D = mc.D
    keys = mc.__dict__.get("keys", [])
    res.obl += 1
    if len(keys) != 3:
        if len(keys) < 3:
            res.err = "expected 3 key expansions, saw %d" % len(keys)
            return
    seen = set()
    for n, k in enumerate(keys[-3:]):
        res.obl += 128
        bs = bits(k, 128)
        names = set()
        for i, b in enumerate(bs):
            if b < 2:
                return res.failure("seed bit fixed", "bit %d of the key of unseeded generator %d is the constant %d" % (i, n, b))
            for v in D.support(b):
                nm = D.names[v]
                if not nm.startswith("entropy"):
                    return res.failure("seed bit not from the entropy source", "bit %d depends on %s" % (i, nm))
                names.add(nm)
        if rank_independent(D, bs) is not True:
            return res.failure("seed bits dependent", "the 128 key bits of generator %d are not independent functions of the entropy readings" % n)
        if names & seen:
            return res.failure("entropy reused", "generator %d reuses entropy bits of an earlier one: %s" % (n, sorted(names & seen)[:3]))
        seen |= names
    for s in mc.__dict__.get("entropy_src", []):
        if s is not None and not (s in ("default", "hw", "rdseed", "rdrand", "rand_s", "getentropy") or s.startswith("/dev/")):
            return res.failure("entropy source", "random_device token '%s' is not an entropy source" % s)


def rdseed_models(bc, sched):
    """sched(i) -> outcome of the i-th reading: 'ok', 'fail', 'zero', 'ones'"""
    m = hook_ctx(bc)

    def rd(w):
        def f(mc, a):
            i = mc.__dict__.setdefault("nrd", 0)
            mc.nrd += 1
            if mc.nrd > 5000:
                raise Dead("retries for ever")
            o = sched(i)
            if o == "fail":
                return (0, 0)
            if o == "zero":
                return (0, 1)
            if o == "ones":
                return ((1 << w) - 1, 1)
            v = mc.word("entropy%d" % i, w)
            mc.assume = mc.D.and_(mc.assume, mc.D.not_(eqbit(v, 0, w)))
            mc.assume = mc.D.and_(mc.assume, mc.D.not_(eqbit(v, (1 << w) - 1, w)))
            return (v, 1)
        return f
    m["llvm.x86.rdseed.64"] = rd(64)
    m["llvm.x86.rdseed.32"] = rd(32)
    m["llvm.x86.rdrand.64"] = rd(64)
    return m


def post_rd(mc, res):
    D = mc.D
    keys = mc.__dict__.get("keys", [])
    if len(keys) < 3:
        res.err = "expected 3 key expansions, saw %d" % len(keys)
        return
    seen = {}
    idc = mc.params["id"] & ((1 << 64) - 1)
    lit = {}
    for nm, v in D.vars.items():
        if str(nm).startswith("entropy"):
            lit[v] = nm
            lit[D.not_(v)] = nm
    for n, k in enumerate(keys[-3:]):
        for i, b in enumerate(bits(k, 128)):
            res.obl += 1
            if b < 2:
                return res.failure("seed bit fixed", "bit %d of the key of unseeded generator %d is the constant %d (failed or rejected reading used)" % (i, n, b))
            if b not in lit:
                return res.failure("seed bit not from the entropy source", "bit %d of generator %d is %s" % (i, n, D.show(b)))
            if lit[b] in seen:
                return res.failure("entropy reused", "bit %d of generator %d and %s are the same entropy bit %s" % (i, n, seen[lit[b]], lit[b]))
            seen[lit[b]] = "bit %d of generator %d" % (i, n)


def run_driver(mc, res):
    """a source that fails for a while: stopping is allowed, a weak key is not"""
    res.obl += 1
    try:
        mc.call("h_seed")
    except Dead as e:
        mc.keys = "stopped"
        if "for ever" in str(e):
            raise


def post_run(mc, res):
    if mc.__dict__.get("keys") != "stopped":
        post_rd(mc, res)


def check(tier):
    src = build.VERIF + "/harness/crypto.cpp"
    b = run.parallel_compile([("dev", src, {}), ("rd", src, dict(defs=["ENABLE_RDSEED", "EMP_ENABLE_RDSEED"]))])
    C = run.Ctx
    cx = [C("random_device, stream id %d" % i, b["dev"], "h_seed", dict(id=i & ((1 << 64) - 1)), post=post_dev, models=hook_ctx(b["dev"]), min_obl=1) for i in (0, 1, 5)]
    kinds = ["fail", "zero", "ones"]
    for f0 in range(0, 5):
        for f1 in range(0, 5):
            for kd in kinds:
                # the generators read in turn: f0 rejected, ok, f1 rejected, ok, ...
                seq = ([kd] * f0 + ["ok"] + [kd] * f1 + ["ok"])
                cx.append(C("rdseed, %d and %d %s readings" % (f0, f1, kd), b["rd"], "h_seed", dict(id=0), dom="BDD", post=post_rd, min_obl=1,
                            models=rdseed_models(b["rd"], lambda i, s=tuple(seq): s[i % len(s)])))
    mixed = ["fail", "zero", "ok", "ones", "fail", "ok", "ok", "zero", "ok", "fail", "fail", "ones"]
    cx.append(C("rdseed, mixed", b["rd"], "h_seed", dict(id=0), dom="BDD", post=post_rd, min_obl=1, models=rdseed_models(b["rd"], lambda i: mixed[i % len(mixed)])))
    for kd in kinds:
        cx.append(C("rdseed, always %s" % kd, b["rd"], "h_seed", dict(id=0), dom="BDD", expect_abort=True, models=rdseed_models(b["rd"], lambda i, k=kd: k)))
        cx.append(C("rdseed, second word always %s" % kd, b["rd"], "h_seed", dict(id=0), dom="BDD", expect_abort=True,
                    models=rdseed_models(b["rd"], lambda i, k=kd: "ok" if i == 0 else k)))
        cx.append(C("rdseed, second generator always %s" % kd, b["rd"], "h_seed", dict(id=0), dom="BDD", expect_abort=True,
                    models=rdseed_models(b["rd"], lambda i, k=kd: "ok" if i < 2 else k)))
    for kd in kinds:
        for w in range(6):
            for n in (5, 9, 10, 11, 19, 20, 21, 50, 100, 101, 1000):
                cx.append(C("rdseed, word %d: %d %s readings in a row" % (w, n, kd), b["rd"], "h_seed", dict(id=0), dom="BDD", driver=run_driver, post=post_run, min_obl=1,
                            models=rdseed_models(b["rd"], lambda i, k=kd, w=w, n=n: k if w <= i < w + n else "ok")))
    r = run.Report("Provenance of each of the 128 bits handed to the AES key expansion when a generator is constructed without a seed: for std::random_device (every reading a fresh unknown word) "
                   "and for the RDSEED build under every listed pattern of failed, all-zero and all-one readings.",
                   "every key bit comes from an accepted reading, all 128 are independent, no reading is shared between generators, and a source that keeps failing leads to error()",
                   ["the entropy source itself", "RDSEED failure patterns: runs of up to 1000 rejected readings per word, and permanent failure"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::PRG::PRG(")
