"""SHA3-256 outside and inside circuits."""
from vsa import run, build, net, iomodel
from checks import C25

RATE = 1088


def addr(i):
    return 8 * (199 - i // 8) + i % 8


def perm(D, s):
    """the stand-in permutation, on the state as wires of the circuit"""
    return [D.and_(s[(3 * j + 5) % 1600], s[(7 * j + 11) % 1600]) for j in range(1600)]


def spec(D, m):
    """FIPS 202 sponge: message bits, 0x06 in the next byte, 0x80 in the last byte of the block"""
    m = list(m)
    n = len(m)
    pad = [0, 1, 1, 0, 0, 0, 0, 0]
    m += pad
    while len(m) % RATE:
        m.append(0)
    m[-1] = D.xor(m[-1], 1)
    s = [0] * 1600
    for k in range(0, len(m), RATE):
        for i in range(RATE):
            s[addr(i)] = D.xor(s[addr(i)], m[k + i])
        s = perm(D, s)
    return [s[addr(i)] for i in range(256)]


def post(p):
    def f(mc, res):
        D, N = mc.D, mc.net
        a = {}
        for k, w in N.inputs.items():
            a[w] = D.var("%s[%d]" % k)
        outs = {t: net.outwires(mc, t) for t in set(t for t, _, _ in mc.outs)}
        for r in range(p["rounds"]):
            n = sum(p["s%d%d" % (r, q)] for q in range(p["p%d" % r]))
            got = outs.get("o%d" % r, [])
            res.obl += 257 + n
            if len(got) != 256:
                res.failure("length", "hash %d: %d result wires, not 256" % (r, len(got)))
                return
            msg = [a[N.inputs[("m%d" % r, i)]] for i in range(n)]
            want = spec(D, msg)
            v = N.evalcone(D, dict(a), got)
            for i, w in enumerate(got):
                if v[w] != want[i]:
                    res.failure("digest", "hash %d of %d bits: result bit %d is not that of the padded sponge" % (r, n, i), witness=run.short_witness(D.witness(D.xor(v[w], want[i]))))
                    break
            back = outs.get("b%d" % r, [])
            for i, w in enumerate(back):
                if w != N.inputs[("m%d" % r, i)]:
                    res.failure("input changed", "hash %d: input wire %d is replaced" % (r, i))
                    break
        res.obl += 1
        if N.reveals or N.feeds:
            res.failure("reveal", "a wire is revealed or fed")
        op = [s for s in iomodel.streams(mc).values() if s is not None and s.open]
        if op:
            res.failure("stream", "a stream stays open")
    return f


def failpost(mc, res):
    res.obl += 1
    r = [v for t, i, v in mc.outs if t == "ret"]
    if not getattr(mc, "digfailed", None):
        return
    if r and not r[0] >> 63:
        res.failure("failure ignored", "%s fails, yet no negative number is returned" % mc.digfailed)


def contexts(th):
    bc = build.compile_tu(build.VERIF + "/harness/sha3.cpp")
    M = C25.models()
    C = []
    for t in (1, 2, 4, 8, 16):
        for n in (0, 1, 2, 31, 32, 33, 64, 135, 136, 137) if t == 1 else (0, 1, 3, 9, 17):
            C.append(run.Ctx("outside, %d elements of %d bytes" % (n, t), bc, "h_host", dict(t=t, n=n, **{"def": 0}), dom="BDD", models=M))
        C.append(run.Ctx("outside, default length, %d bytes" % t, bc, "h_host", dict(t=t, n=1, **{"def": 1}), dom="BDD", models=M))
    for k in range(5):
        C.append(run.Ctx("outside, library call %d fails" % k, bc, "h_host_fail", dict(dig_fail_at=k), dom="BDD", models=M, post=failpost, allow_abort=True))
    for n in ((1 << 31) + 8, 1 << 32, 5 << 32):
        for t in (1, 8):
            C.append(run.Ctx("outside, %d bytes in elements of %d" % (n, t), bc, "h_host_big", dict(n=n, t=t), dom="BDD", models=M))

    def circ(*rounds, **kw):
        """rounds: (form, [sizes])"""
        p = dict(rounds=len(rounds), outw=kw.get("outw", 0))
        nm = "inside"
        for r, (f, ss) in enumerate(rounds):
            p["f%d" % r], p["p%d" % r] = f, len(ss)
            for q, s in enumerate(ss):
                p["s%d%d" % (r, q)] = s
            nm += "%s form %d of %s bits" % (", then" if r else ",", f, "+".join(map(str, ss)))
        if p["outw"]:
            nm += ", result replaces %d bits" % p["outw"]
        C.append(run.Ctx(nm, bc, "h_circ", p, dom="NETB", oblivious="labels", models=M, post=post(p), weight=1000 + sum(sum(ss) for _, ss in rounds)))
    for f in range(6):
        for n in (0, 8, 16, 256, 1072, 1080, 1088, 1096, 2168, 2176, 2184):
            if f in (0, 1) or n in (0, 8, 1080, 1088):
                circ((f, [n]), outw=(0 if f < 3 else (0, 8, 256, 300)[n % 4 if n < 1000 else n // 8 % 4]))
    for f in (0, 1, 3, 4):
        circ((f, [8, 16]))
        circ((f, [1, 3, 4]))
        circ((f, [0, 1088, 0]))
        circ((f, [1087, 1]))
        circ((f, [1000, 80, 8]))
        circ((f, [1000, 176, 8]))
        circ((f, [8, 0, 64, 8]))
    circ((0, [8]), (0, [1088]), (0, [8]))
    circ((1, [1088]), (0, [16]), (1, [16]))
    circ((2, [1080]), (4, [8, 8]), (5, [24]))
    circ((3, [8]), (1, [0]))
    if th:
        for n in range(0, 2400, 8):
            circ((n // 8 % 6, [n]))
        for n in (3264, 4352, 4360):
            circ((0, [n]))
            circ((1, [n // 2, n // 2]))
    return C


def check(tier):
    r = run.Report("SHA3-256 outside and inside circuits. Message wires are unknown; Keccak-f is a stand-in circuit whose every output singles out two state wires, so the absorption, the padding, the order of permutations and the squeezing of every wire decide (gate lists extracted from the IR, evaluated over decision diagrams). The host-side function is analysed against an ownership and provenance model of libcrypto's digests, each call failing in turn.",
                   "256 result wires == squeeze(absorb(message || 0x06 0..0 0x80)) with state bit i on circuit wire 8*(199-i/8)+i%8; inputs unchanged; object reusable; host digest of exactly length*sizeof(T) bytes, negative result on every library failure, context released",
                   ["lengths and call sequences listed in this file", "whole-byte messages", "the Keccak-f circuit itself is not part of the tree", "libcrypto's SHA3"])
    r.add(run.run_ctxs(contexts(tier == "thorough")))
    return r.need("SHA3_256_Calculator::sha3_256(", "int emp::sha3_256<")
