"""Counter mode outside and inside circuits."""
from vsa import run, build, net, iomodel, ossl, osmodel
from vsa.dom import Sym, mk, bits, addc

HOSTVAL = "hostkey", "hostiv"


def ivconst(ones):
    return bytes(0xff if 15 - i < ones else (17 * i + 3) & 255 for i in range(16))


def tobig(b):
    """128 bits in memory order -> bits of the big-endian number, least significant first"""
    return [b[8 * (15 - i // 8) + i % 8] for i in range(128)]


def block(D, kb, pb):
    """the stand-in circuit on numbers (least significant bit first) -> memory-order bits of the output"""
    o = [D.and_(kb[(3 * j + 5) % 128], pb[(5 * j + 7) % 128]) for j in range(128)]
    r = [0] * 128
    for i in range(128):
        r[8 * (15 - i // 8) + i % 8] = o[i]
    return r


def post(p):
    def f(mc, res):
        D, N = mc.D, mc.net
        from vsa import machine as mx
        # values: one variable per input wire, host value for fed ones
        a = {}
        names = {w: k for k, w in N.inputs.items()}
        for i in range(128):                     # variable order: counter bits first, least significant first
            for nm in ("v0", "v1"):
                w = N.inputs.get((nm, tobig(list(range(128)))[i]))
                if w is not None:
                    a[w] = D.var("%s[%d]" % names[w])
        for w, k in names.items():
            if w not in a:
                a[w] = N.hostval[w] if w in N.hostval else D.var("%s[%d]" % k)
        outs = {t: net.outwires(mc, t) for t in set(t for t, _, _ in mc.outs)}
        for r in range(p["rounds"]):
            n, which, mode, start = p["n%d" % r], p["which%d" % r], p["mode%d" % r], p["start%d" % r]
            got = outs.get("o%d" % r, [])
            res.obl += n + 1
            if len(got) != n:
                res.failure("length", "round %d: %d result wires, not %d" % (r, len(got), n))
                return
            inw = lambda nm: [a[N.inputs[(nm, i)]] for i in range(128)]
            kb = tobig(inw("k1" if r and p["round1key"] else "k0")) if which != 2 else None
            want = []
            for c in range((n + 127) // 128):
                if which == 0:
                    ctr = addc(mk(tuple(tobig(inw("v%d" % r)))), (start + c) & ((1 << 128) - 1), 0)
                    ctr = bits(ctr, 128)
                    want += block(D, kb, ctr)
                else:
                    if which == 1 and p["ones"] != 99:
                        iv = int.from_bytes(ivconst(p["ones"]), "big")
                        ctr = (iv + start + c) & ((1 << 128) - 1)
                    else:
                        iv = mk(tuple(tobig([D.var("hostiv[%d].%d" % (i // 8, i % 8)) for i in range(128)])))
                        ctr = addc(iv, start + c, 0)
                    ctr = bits(ctr, 128)
                    if which == 1:
                        want += block(D, kb, ctr)
                    else:
                        mem = tobig(list(ctr))        # back to memory order (involution)
                        hk = tuple(D.var("hostkey[%d].%d" % (i // 8, i % 8)) for i in range(128))
                        want += list(bits(mc.opaque("aes", (hk, tuple(mem)), 128), 128))
            want = want[:n]
            if mode != 2:
                want = [D.xor(x, a[N.inputs[("d%d" % r, i)]]) for i, x in enumerate(want)]
            v = N.evalcone(D, dict(a, **{}), got)
            for i, w in enumerate(got):
                if v[w] != want[i]:
                    d = D.xor(v[w], want[i])
                    res.failure("keystream", "round %d: bit %d of %d is not data XOR AES of the counter" % (r, i, n), witness=run.short_witness(D.witness(d)))
                    break
            if mode == 0:
                for i, w in enumerate(outs.get("i%d" % r, [])):
                    if w != N.inputs[("d%d" % r, i)]:
                        res.failure("input changed", "round %d: input wire %d is replaced" % (r, i))
                        break
        bad = [q for q, _ in N.feeds if q & 0xffffffff != p["party"] & 0xffffffff]
        res.obl += 1
        if bad:
            res.failure("owner", "values are fed for party %s instead of %d" % (bad, p["party"]))
        if p["party"] and N.__dict__.get("choices"):
            res.failure("owner", "a key, IV or offset of party %d becomes public" % p["party"])
        if N.reveals:
            res.failure("reveal", "a wire is revealed")
        op = [s for s in iomodel.streams(mc).values() if s is not None and s.open]
        if op:
            res.failure("stream", "a stream stays open")
    return f


def models():
    M = osmodel.models()
    M.update(ossl.models())
    M.update(net.models())
    M.update(iomodel.stdio())
    M.update(iomodel.iostreams())
    return M


def failpost(mc, res):
    res.obl += 1
    r = [v for t, i, v in mc.outs if t == "ret"]
    if not getattr(mc, "evpfailed", None):
        return
    if r and r[0] == 0:
        res.failure("failure ignored", "%s fails, yet 0 is returned" % mc.evpfailed)


def bigpost(n, inplace):
    def f(mc, res):
        res.obl += 1
        pos = 0
        o0 = 0x7000000000000000 if inplace else 0x7100000000000000
        for o, i, m, q in sorted(mc.__dict__.get("ctrranges", []), key=lambda t: t[3]):
            if q != pos or o != o0 + pos or i != 0x7000000000000000 + pos:
                res.failure("coverage", "bytes from %d on: keystream position %d, output offset %d, input offset %d" % (pos, q, o - o0, i - 0x7000000000000000))
                return
            pos += m
        if pos != n:
            res.failure("coverage", "%d of %d bytes are encrypted" % (pos, n))
    return f


STARTS = [0, 1, 2, 255, 256, 257, 65535, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 8]


def contexts(th):
    bc = build.compile_tu(build.VERIF + "/harness/aesctr.cpp")
    M = models()
    C = []
    for t in (1, 4, 8, 16):
        for n in ((0, 1, 5, 15, 16, 17, 31, 32, 33, 48) if t == 1 else (1, 2, 3, 5)):
            for mode in (0, 1, 2, 3) if t == 1 else (0, 1):
                for st in STARTS if t == 1 and n in (17, 48) else (0, 7):
                    C.append(run.Ctx("outside, %d elements of %d bytes, mode %d, start %d" % (n, t, mode, st), bc, "h_host", dict(t=t, n=n, mode=mode, start=st, symstart=0), dom="BDD", models=M))
    for mode in (0, 1, 2):
        C.append(run.Ctx("outside, any start, mode %d" % mode, bc, "h_host", dict(t=1, n=33, mode=mode, start=0, symstart=1), dom="BDD", models=M))
    for c in range(5):
        C.append(run.Ctx("outside, tail from chunk %d" % c, bc, "h_host_part", dict(c=c), dom="BDD", models=M))
    for n in (0, 1, 40):
        C.append(run.Ctx("outside, both null, length %d" % n, bc, "h_host_null", dict(n=n), dom="BDD", models=M))
    for k in range(6):
        C.append(run.Ctx("outside, library call %d fails" % k, bc, "h_host_fail", dict(evp_fail_at=k), dom="BDD", models=M, post=failpost, allow_abort=True))
    for n in ((1 << 31) - 8, 1 << 31, (1 << 31) + 8, 1 << 32, (1 << 32) + 16, 5 << 31, (1 << 35) + 1024):
        for t in (1, 8):
            for ip in (0, 1):
                C.append(run.Ctx("outside, %d bytes in elements of %d, in place %d" % (n, t, ip), bc, "h_host_big", dict(n=n, t=t, inplace=ip), dom="BDD", models=M, post=bigpost(n, ip)))
    for w in (0, 1, 2):
        C.append(run.Ctx("inside, both null, variant %d" % w, bc, "h_circ_null", dict(which=w), dom="NETB", oblivious="labels", models=M))

    def circ(which0, mode0, n0, start0, party, ones=99, rounds=1, which1=0, mode1=0, n1=0, start1=0, round1key=0, dflt=0):
        p = dict(which0=which0, mode0=mode0, n0=n0, start0=start0, party=party, ones=ones, rounds=rounds, which1=which1, mode1=mode1, n1=n1, start1=start1, round1key=round1key, dflt=dflt)
        nm = "inside, variant %d, mode %d, %d bits, start %d, party %d" % (which0, mode0, n0, start0, party)
        if dflt:
            nm += ", default arguments"
        if ones != 99:
            nm += ", %d low bytes of ff" % ones
        if rounds == 2:
            nm += ", then variant %d mode %d %d bits start %d%s" % (which1, mode1, n1, start1, " new key" if round1key else "")
        C.append(run.Ctx(nm, bc, "h_circ", p, dom="NETB", oblivious="labels", models=M, post=post(p), weight=n0 + n1))
    for which in (0, 1, 2):
        for mode in (0, 1, 2, 3):
            for n in (1, 7, 127, 128, 129, 255, 256, 257, 300, 512):
                for st in (0, 1):
                    circ(which, mode, n, st, 0 if n % 2 else 1)
        for mode in (0, 1, 2, 3):
            circ(which, mode, 128, 0, 0, dflt=1)
        for st in STARTS:
            circ(which, 0, 130, st, 2)
            circ(which, 2, 128, st, 0)
        for party in (0, 1, 2, 5):
            circ(which, 1, 140, 3, party)
    for ones in (0, 1, 2, 4, 7, 8, 9, 15, 16):
        for st in (0, 1, 5, (1 << 64) - 9):
            circ(1, 0, 260, st, 1, ones=ones)
    for w0 in (0, 1):
        for w1 in (0, 1):
            for rk in (0, 1):
                for n0, n1 in ((128, 128), (200, 60), (60, 300)):
                    for m in (0, 1, 2):
                        circ(w0, m, n0, 3, 1, rounds=2, which1=w1, mode1=(m + 1) % 3, n1=n1, start1=rk * 7, round1key=rk)
    if th:
        for which in (0, 1, 2):
            for n in range(1, 131):
                circ(which, n % 4, n, n % 3, n % 3)
            for n in (1000, 1024, 2000):
                circ(which, 0, n, 77777, 0)
    return C


def check(tier):
    r = run.Report("Counter mode outside and inside circuits. Data, keys and IVs are unknown; AES is an uninterpreted function of key and counter (outside) or a stand-in block circuit whose output bits single out one key wire and one counter wire each (inside), so the routing of every wire and the counter arithmetic decide. The gates extracted for the counter adder are evaluated over decision diagrams for all IVs.",
                   "result == data XOR block(key, IV+start+i) bit by bit; exact length; inputs unchanged unless in place; library failure => non-zero result; contexts released", ["lengths, offsets and call pairs listed in this file", "chunk numbers below 2^64", "AES circuit file itself: separate property", "libcrypto's AES-CTR"])
    r.add(run.run_ctxs(contexts(tier == "thorough")))
    return r.need("emp::add_to_counter", "int emp::aes_128_ctr<", "AES_128_CTR_Calculator::aes_128_ctr(")
