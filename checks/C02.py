"""Garbling privacy: what the evaluator can derive by XOR from its view."""
from vsa import run, build, gcm
from vsa.dom import bits


class Span:
    """GF(2) span of bit vectors (Python ints) with elimination."""
    def __init__(self):
        self.p = {}

    def reduce(self, v):
        p = self.p
        while v:
            h = v.bit_length()
            q = p.get(h)
            if q is None:
                return v
            v ^= q
        return 0

    def full(self, v):
        """reduce all positions, not only the leading one"""
        r = 0
        p = self.p
        while v:
            h = v.bit_length()
            q = p.get(h)
            if q is None:
                r |= 1 << (h - 1)
                v ^= 1 << (h - 1)
            else:
                v ^= q
        return r

    def add(self, v):
        v = self.reduce(v)
        if v:
            self.p[v.bit_length()] = v
            return True
        return False

    def has(self, v):
        return self.reduce(v) == 0

    def dim(self):
        return len(self.p)


def post(mc, res):
    D = mc.D
    delta = None
    tables, outs, setup, active = [], [], [], []
    for o in mc.outs:
        {"delta": None}.get(o[0])
        if o[0] == "delta":
            delta = o[2]
        elif o[0] == "table":
            tables.append(o[2])
        elif o[0] == "out":
            outs.append(o[2])
        elif o[0] == "setup":
            setup.append(o[2])
        elif o[0] == "active":
            active.append(o[2])

    def form(b):
        """bit -> vector over variables (constants dropped)"""
        if b < 2:
            return 0
        v = 0
        for m in D.polys[b]:
            if len(m) > 1:
                raise run.AnalysisError("non-linear term in the view: %s" % D.show(b))
            for x in m:
                v |= 1 << x
        return v

    def bitsof(bs):
        return [x for b in bs for x in bits(b, 8)]

    # ---- fresh randomness of the setup: offset, constants, hash start point
    isrnd = [n.startswith("rnd:") for n in D.names]
    rndmask = sum(1 << i for i, t in enumerate(isrnd) if t)
    db = bitsof(delta)
    res.obl += 1
    fresh = Span()
    n = 0
    for b in db[1:]:
        v = form(b)
        if v & ~rndmask or not v:
            return res.failure("offset not random", "offset bit is %s" % D.show(b))
        fresh.add(v)
        n += 1
    if fresh.dim() != n:
        return res.failure("offset not random", "the 127 bits of the offset are not independent random bits")
    if db[0] != 1:
        return res.failure("offset", "lowest bit of the offset is not 1")
    free = 0
    for part in setup:
        for k, b in enumerate(bitsof(part)):
            v = form(b)
            res.obl += 1
            if b < 2:
                free += 1      # privacy-free constants have a fixed lowest bit
                if k % 128:
                    return res.failure("setup message not random", "bit %d of the setup message is the constant %d" % (k, b))
                continue
            if v & ~rndmask:
                return res.failure("setup message not random", "bit %d of the setup message depends on %s" % (k, D.show(b)))
            if not fresh.add(v):
                return res.failure("setup message not fresh", "bit %d of the setup message is a combination of the offset and bits drawn before" % k)
    # ---- knowledge
    K = Span()
    known = 0       # variables known outright
    for part in setup:
        for b in bitsof(part):
            K.add(form(b))
    for a in active:
        for b in bitsof(a):
            K.add(form(b))
    for t in tables:
        for b in bitsof(t):
            K.add(form(b))
    # S-box outputs follow from known inputs, in any order
    pend = []
    for (tag, args, w), r in mc.opq.items():
        ins = [form(b) for a in args if a.__class__ is not int for b in a.b]
        pend.append((ins, [form(b) for b in bits(r, w)], args))
    changed = True
    rounds = 0
    while changed:
        changed = False
        rounds += 1
        rest = []
        for ins, outv, a in pend:
            if all(K.has(v) for v in ins):
                for v in outv:
                    K.add(v)
                changed = True
            else:
                rest.append((ins, outv, a))
        pend = rest
    res.extra["sboxes unknown to the evaluator"] = len(pend)
    # ---- verdict: nothing about the offset
    J = Span()
    J.p = dict(K.p)
    for i, b in enumerate(db[1:], 1):
        res.obl += 1
        v = form(b)
        if K.has(v):
            return res.failure("offset derivable", "bit %d of the offset is an XOR of bits the evaluator knows" % i)
        if not J.add(v):
            return res.failure("offset derivable", "an XOR of offset bits (up to bit %d) is an XOR of bits the evaluator knows" % i)
    # the evaluator must be able to get the active labels (otherwise the analysis would be vacuous)
    for s, o in enumerate(outs):
        for b in bitsof(o):
            res.obl += 1
            if not K.has(form(b)):
                res.err = "the active output label of gate %d is not derivable: the model of the evaluator is incomplete" % s
                return
    # ---- hash instances are not shared between gates
    sup = []
    U = 0
    for ins, outv, a in pend:
        for v in outv:
            U |= v
    for s, t in enumerate(tables):
        m = 0
        for b in bitsof(t):
            m |= form(b)
        m &= U
        sup.append(m)
        res.obl += 1
        if not m:
            return res.failure("table without a secret", "the table of gate %d contains no hash value unknown to the evaluator" % s)
        for q in range(s):
            if sup[q] & m:
                return res.failure("hash reused", "gates %d and %d are masked with the same hash value (same label under the same key or tweak)" % (q, s))


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/gc.cpp")
    th = tier == "thorough"
    C = run.Ctx
    cx = []
    k = 0
    for ent in ("half", "pf"):
        for kind in range(7):
            for vals in range(0, 32, 1 if th else 3):
                k += 1
                cx.append(C("%s, gates %d, values %s" % (ent, kind, bin(vals)), bc, "h_%s_view" % ent,
                            dict(redelta=k % 5 == 0, vals=vals, lsb=(k * 11) % 32, kind=kind, steps=9, at=0, jump=0), models=gcm.prg_models(None if kind in (0, 3) else k * 5), post=post, min_obl=100))
        cx.append(C("%s, many gates on the same wires" % ent, bc, "h_%s_view" % ent, dict(redelta=0, vals=1, lsb=1, kind=0, steps=40 if th else 26, at=0, jump=0), models=gcm.prg_models(), post=post, min_obl=100, weight=9))
        for at in (254, (1 << 31) - 4, (1 << 32) - 4, (1 << 62) - 4, (1 << 63) - 4):
            cx.append(C("%s, from gate index %#x" % (ent, at), bc, "h_%s_view" % ent, dict(redelta=0, vals=2, lsb=1, kind=6, steps=9, at=at, jump=0), models=gcm.prg_models(5), post=post, min_obl=100, weight=3))
        for j in (1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 62):
            cx.append(C("%s, again %#x gates later" % (ent, j), bc, "h_%s_view" % ent, dict(redelta=0, vals=1, lsb=1, kind=0, steps=10, at=8, jump=j), models=gcm.prg_models(), post=post, min_obl=100, weight=4))
    r = run.Report("The evaluator's view (setup messages, active input labels, garbled tables) as GF(2)-linear forms over random words and S-box outputs, closed under computing every S-box whose input is already derivable; "
                   "all values of labels, offset and start point at once, for every listed pattern of gates, wire values and label colours.",
                   "span(view) meets span(offset bits) only in 0 (so neither the offset nor any inactive label is derivable); the masks of different AND gates are disjoint hash values; offset, constants and start point are jointly independent fresh random bits",
                   ["linear (XOR) derivations plus hashing only: the standard circular-correlation-robust idealisation of the hash", "9 to 40 AND gates over 5 input wires with chosen colours"])
    r.add(run.run_ctxs(cx))
    return r.need("HalfGateGen<Chan>::and_gate", "PrivacyFreeGen<Chan>::and_gate", "HalfGateGen<Chan>::set_delta", "PrivacyFreeGen<Chan>::set_delta")
