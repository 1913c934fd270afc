"""Float comparisons and bit-level operations: extracted gate lists against IEEE order and bit meaning."""
from vsa import run, net
from vsa.dom import BDD, Sym, mk, ult, eqbit
from checks import floats

OPS = "EQ LT LE NEG ABS XOR AND XORA IFM IFF SWAP IDX".split()


def decide(mc, res, op, alias):
    D = BDD()
    Sym.D = D
    A, B, Cc = (net.inwires(mc, x) for x in "abc")
    asg = {}
    c = D.var("c")
    if Cc:
        asg[Cc[0]] = c
    for i in reversed(range(32)):
        for X, n in ((A, "a"), (B, "b")):
            if len(X) != 32:
                raise floats.AnalysisError("operand %s has %d wires" % (n, len(X)))
            asg[X[i]] = D.var("%s%d" % (n, i))
    a = tuple(asg[x] for x in A)
    b = a if alias else tuple(asg[x] for x in B)
    out, out2 = net.outwires(mc, "r"), net.outwires(mc, "s")
    v = mc.net.evalcone(D, asg, out + out2)
    got = [v[x] for x in out + out2]
    ite = lambda k, x, y: [D.ite(k, p, q) for p, q in zip(x, y)]
    care = 1
    if op in ("EQ", "LT", "LE"):
        def orr(x):
            r = 0
            for y in x:
                r = D.or_(r, y)
            return r

        def nan(x):
            e = 1
            for y in reversed(x[23:31]):
                e = D.and_(e, y)
            return D.and_(e, orr(x[:23]))
        care = D.and_(D.not_(nan(a)), D.not_(nan(b)))
        # the float circuits treat subnormal operands as zero
        za, zb = D.not_(orr(a[23:31])), D.not_(orr(b[23:31]))
        bothz = D.and_(za, zb)
        eq = D.or_(eqbit(mk(a), mk(b), 32), bothz)
        m1, m2 = mk(a[:31]), mk(b[:31])
        ml, mg = ult(m1, m2, 31), ult(m2, m1, 31)
        # signs: (+,+) by magnitude, (-,-) reversed, (-,+) less
        lt = D.ite(a[31], D.ite(b[31], mg, 1), D.ite(b[31], 0, ml))
        lt = D.and_(lt, D.not_(bothz))
        want = [{"EQ": eq, "LT": lt, "LE": D.or_(lt, eq)}[op]]
    else:
        want = {"NEG": lambda: list(a[:31]) + [D.not_(a[31])], "ABS": lambda: list(a[:31]) + [0],
                "XOR": lambda: [D.xor(x, y) for x, y in zip(a, b)], "AND": lambda: [D.and_(x, y) for x, y in zip(a, b)],
                "XORA": lambda: [D.xor(x, y) for x, y in zip(a, b)] * 2, "IFM": lambda: ite(c, b, a), "IFF": lambda: ite(c, a, b),
                "SWAP": lambda: ite(c, b, a) + ite(c, a, b), "IDX": lambda: list(a[::-1])}[op]()
    res.obl += 1
    if len(got) != len(want):
        res.failure(op, "%d result bits, must be %d" % (len(got), len(want)))
        return
    for i, (p, q) in enumerate(zip(got, want)):
        res.obl += 1
        d = D.and_(care, D.xor(p, q))
        if d:
            wit = D.witness(d)
            res.failure(op, "result bit %d differs from its meaning, e.g. for a=%#010x b=%#010x" % (
                i, sum(1 << k for k in range(32) if wit.get("a%d" % k)), sum(1 << k for k in range(32) if wit.get("b%d" % k))))
            return
    if op != "SWAP":
        res.obl += 1
        if net.outwires(mc, "a") != A or net.outwires(mc, "b") != B:
            res.failure("operand", "an operand is changed")


def check(tier):
    bc = floats.compile()
    C = []
    for i, op in enumerate(OPS):
        for alias in ((0, 1) if op in ("EQ", "LT", "LE", "XOR", "AND", "XORA", "IFM") else (0,)):
            C.append(run.Ctx("%s%s" % (op, " same operand" if alias else ""), bc, "h_float", dict(op=i, alias=alias), dom="NET", models=net.models(),
                             post=lambda mc, res, op=op, alias=alias: decide(mc, res, op, alias), min_obl=2))
    r = run.Report("Gate list of every float comparison and bit-level operation extracted by abstract interpretation with opaque labels, each result bit turned into a decision diagram over all 64 operand bits (and the condition) and compared with its meaning: all operands, all bits.",
                   "diagram of each result bit equals the specification's on all non-NaN operands; operands unchanged", [])
    r.add(run.run_ctxs(C))
    return r.need("Float::equal", "Float::less_than", "Float::less_equal", "Float::operator-", "Float::abs", "Float::If", "Float::operator^", "Float::operator&")
