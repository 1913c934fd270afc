"""Integer arithmetic: the gate list of each operation and width is extracted from the source and compared with the arithmetic meaning."""
import random
from vsa import run, build, net
from vsa.dom import BDD, Sym, mk, bits, addc, inv, iteword
from vsa.tt import TT, signed

OPS = "ADD SUB MUL DIV MOD NEG ABS AND OR XOR XORA SHLP SHRP SHLS SHRS HAM LZ RESIZE MODEXP ADDSELF ADDIN SUBIN MULSQ DIVSELF CHAIN SHLIN IDX".split()
N = {n: i for i, n in enumerate(OPS)}


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


# meaning: function of unsigned operand values and width; None = input not covered by the property
def meaning(op, w, p):
    m = (1 << w) - 1
    s = lambda x: signed(x, w)
    n = p.get("n", 0)
    T = {
        "ADD": lambda a, b: (a + b) & m, "SUB": lambda a, b: (a - b) & m, "MUL": lambda a, b: (a * b) & m,
        "DIV": lambda a, b: tdiv(s(a), s(b)) & m if b else None,
        "MOD": lambda a, b: (s(a) - s(b) * tdiv(s(a), s(b))) & m if b else None,
        "NEG": lambda a: -a & m, "ABS": lambda a: abs(s(a)) & m,
        "AND": lambda a, b: a & b, "OR": lambda a, b: a | b, "XOR": lambda a, b: a ^ b, "XORA": lambda a, b: a ^ b,
        "SHLP": lambda a: (a << n) & m if n < 4096 else 0, "SHRP": lambda a: a >> n if n < 4096 else 0,
        "SHLS": lambda a, sh: (a << sh) & m if sh < w and not sh >> (p["ws"] - 1) else None,
        "SHRS": lambda a, sh: a >> sh if sh < w and not sh >> (p["ws"] - 1) else None,
        "HAM": lambda a: bin(a).count("1"), "LZ": lambda a: w - a.bit_length(),
        "RESIZE": lambda a: ((s(a) if p["sg"] else a) & ((1 << n) - 1)),
        "ADDSELF": lambda a: 2 * a & m, "ADDIN": lambda a, b: 2 * (a + b) & m, "SUBIN": lambda a, b: (a - 2 * b) & m,
        "MULSQ": lambda a: a * a & m, "DIVSELF": lambda a: 1 if a else None, "CHAIN": lambda a, b: ((a + b) - (a ^ b)) & m,
        "SHLIN": lambda a: ((a << n) & m) >> n if n < 4096 else 0,
        "IDX": lambda a: int(format(a, "0%db" % w)[::-1], 2),
    }
    return T[op]


ARGS = {"SHLS": ("a", "s"), "SHRS": ("a", "s")}
BIN = {"ADD", "SUB", "MUL", "DIV", "MOD", "AND", "OR", "XOR", "XORA", "ADDIN", "SUBIN", "CHAIN"}


def args_of(op):
    return ARGS.get(op) or (("a", "b") if op in BIN else ("a",))


def cubes(op, names, widths, rng, full, count, free):
    """sets of inputs: (free wires positions, constant values of the rest)"""
    tot = sum(widths)
    if tot <= full:
        yield [list(range(w)) for w in widths], [0] * len(widths)
        return
    w0 = widths[0]
    pats = [0, (1 << w0) - 1, 1 << (w0 - 1), (1 << (w0 - 1)) - 1, 1, 3]
    for c in range(count):
        fr, cv = [], []
        for j, w in enumerate(widths):
            k = min(w, free if j == 0 or len(widths) == 1 else free // 2)
            mode = rng.randrange(4)
            if mode == 0:
                pos = list(range(k))
            elif mode == 1:
                pos = list(range(w - k, w))
            elif mode == 2:
                pos = sorted(rng.sample(range(w), k))
            else:
                pos = sorted(set(list(range(k - k // 2)) + list(range(w - k // 2, w))))
            v = rng.choice(pats) & ((1 << w) - 1) if rng.random() < .5 else rng.getrandbits(w)
            if j == 1 and op in ("DIV", "MOD") and rng.random() < .6:
                v = rng.getrandbits(rng.randrange(1, w + 1))
            fr.append(pos)
            cv.append(v)
        if op in ("SHLS", "SHRS"):
            fr[1] = list(range(min(free, widths[1] - 1)))
            cv[1] = 0
        yield fr, cv


def decide(mc, res, op, w, p, full, count, free, rng):
    n = mc.net
    names = args_of(op)
    ins = [net.inwires(mc, x) for x in names]
    widths = [len(x) for x in ins]
    out = net.outwires(mc, "r")
    f = meaning(op, w, p)
    left = net.outwires(mc, "a")
    res.obl += 1
    if left != ins[0]:
        res.failure("operand", "the first operand is changed")
        return
    if op == "XORA" and net.outwires(mc, "d") != out:
        res.failure("value of ^=", "the value of ^= differs from its object")
        return
    want_w = p["n"] if op == "RESIZE" else None if op in ("HAM", "LZ") else w
    res.obl += 1
    if want_w is not None and len(out) != want_w:
        res.failure("width", "result has %d bits, must have %d" % (len(out), want_w))
        return
    for fr, cv in cubes(op, names, widths, rng, full, count, free):
        k = sum(len(x) for x in fr)
        tt = TT(k)
        asg, j = {}, 0
        vals = []
        for wires, pos, c in zip(ins, fr, cv):
            col = []
            for i, wr in enumerate(wires):
                if i in pos:
                    asg[wr] = tt.vars[j]
                    j += 1
                else:
                    asg[wr] = tt.const(c >> i & 1)
                col.append(asg[wr])
            vals.append(tt.ints(col))
        got = tt.ints(n.simulate(asg, out, tt.mask)) if out else [0] * tt.n
        res.obl += 1
        for i in range(tt.n):
            a = [v[i] for v in vals]
            e = f(*a)
            if e is not None and got[i] != e:
                res.failure("%s at width %d" % (op, w), "for %s the gates give %#x, must be %#x" % (
                    ", ".join("%s=%#x" % t for t in zip(names, a)), got[i], e), witness=dict(zip(names, a)))
                return


def linear(mc, res, op, w, p):
    """all inputs at once (BDD): operations whose diagrams stay small"""
    D = BDD()
    Sym.D = D
    n = mc.net
    names = args_of(op)
    ins = [net.inwires(mc, x) for x in names]
    asg = {}
    for i in range(w):
        for x in ins:
            if i < len(x):
                asg[x[i]] = D.var("%s%d" % (names[ins.index(x)], i))
    A = mk(tuple(asg[x] for x in ins[0]))
    B = mk(tuple(asg[x] for x in ins[1])) if len(ins) > 1 else 0
    out = net.outwires(mc, "r")
    v = n.evalcone(D, asg, out)
    got = [v[x] for x in out]
    zero = lambda k: mk((0,) * k)
    neg = lambda X: addc(inv(X, w), 0, 1, w)
    want = {
        "ADD": lambda: addc(A, B, 0, w), "SUB": lambda: addc(A, inv(B, w), 1, w), "NEG": lambda: neg(A),
        "ABS": lambda: iteword(bits(A, w)[-1], neg(A), A, w), "AND": lambda: A & B, "OR": lambda: A | B, "XOR": lambda: A ^ B, "XORA": lambda: A ^ B,
        "ADDSELF": lambda: mk((0,) + bits(A, w)[:-1]), "ADDIN": lambda: mk((0,) + bits(addc(A, B, 0, w), w)[:-1]),
        "SUBIN": lambda: addc(addc(A, inv(B, w), 1, w), inv(B, w), 1, w),
        "CHAIN": lambda: addc(addc(A, B, 0, w), inv(A ^ B, w), 1, w),
    }[op]()
    res.obl += 1
    wb = bits(want, w)
    for i in range(w):
        if i >= len(got) or got[i] != wb[i]:
            wit = D.witness(D.xor(got[i], wb[i])) if i < len(got) else None
            res.failure("%s at width %d" % (op, w), "result bit %d differs from the arithmetic meaning" % i, witness=run.short_witness(wit))
            return
    if len(got) != w:
        res.failure("width", "result has %d bits, must have %d" % (len(got), w))


LIN = {"ADD", "SUB", "NEG", "ABS", "AND", "OR", "XOR", "XORA", "ADDSELF", "ADDIN", "SUBIN", "CHAIN"}


def modexp(mc, res, w, ws, rng, th):
    n = mc.net
    A, P, Q = (net.inwires(mc, x) for x in "apq")
    out = net.outwires(mc, "r")
    res.obl += 1
    if len(out) != w:
        res.failure("width", "result has %d bits, must have %d" % (len(out), w))
        return
    import math
    qmax = math.isqrt((1 << (w - 1)) - 1) + 1
    qs = range(2, qmax + 1) if qmax <= 12 else sorted(set([2, 3, qmax, qmax - 1] + [rng.randrange(2, qmax + 1) for _ in range(6 if th else 2)]))
    for q in qs:
        if q < 2:
            continue
        ka = min((q - 1).bit_length(), 6)
        kp = min(ws, 5)
        tt = TT(ka + kp)
        top = rng.randrange(0, q) >> ka << ka if (q - 1).bit_length() > ka else 0
        ptop = 0 if ws <= kp else rng.getrandbits(ws - kp) << kp
        asg = {x: tt.const(q >> i & 1) for i, x in enumerate(Q)}
        for i, x in enumerate(A):
            asg[x] = tt.vars[i] if i < ka else tt.const(top >> i & 1)
        for i, x in enumerate(P):
            asg[x] = tt.vars[ka + i] if i < kp else tt.const(ptop >> i & 1)
        a = tt.ints([asg[x] for x in A])
        e = tt.ints([asg[x] for x in P])
        got = tt.ints(n.simulate(asg, out, tt.mask))
        res.obl += 1
        for i in range(tt.n):
            if a[i] < q and got[i] != pow(a[i], e[i], q):
                res.failure("modExp at width %d" % w, "%d^%d mod %d gives %d, must be %d" % (a[i], e[i], q, got[i], pow(a[i], e[i], q)))
                return


def contexts(bc, th):
    C = []
    M = net.models()

    def add(op, w, weight=1, full=16, count=6, free=10, **p):
        prm = dict(op=N[op], w=w, n=0, ws=1, sg=0)
        prm.update(p)
        seed = hash((op == "", w)) if False else w * 1000 + N[op]

        def post(mc, res):
            rng = random.Random(seed)
            if op == "MODEXP":
                modexp(mc, res, w, prm["ws"], rng, th)
                return
            decide(mc, res, op, w, prm, full, count * (4 if th else 1), free, rng)
            if op in LIN and w > 4 and not res.fail:
                linear(mc, res, op, w, prm)
        C.append(run.Ctx("%s w=%d%s" % (op, w, "".join(" %s=%d" % kv for kv in sorted(p.items()))), bc, "h_int", prm, dom="NET", models=M, post=post, min_obl=2, weight=weight))

    full = 18 if th else 16
    for op in sorted(LIN):
        for w in (list(range(1, 67)) + [127, 128, 129, 255, 256, 257, 512] if th else list(range(1, 9)) + [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256]):
            add(op, w, full=16)
    for op in ("MUL", "MULSQ"):
        for w in (list(range(1, 34)) + [63, 64, 65, 127, 128] if th else list(range(1, 10)) + [15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 128]):
            add(op, w, weight=1 + w * w // 100, full=full, count=6 if w < 100 else 3)
    for op in ("DIV", "MOD", "DIVSELF"):
        for w in (list(range(1, 34)) + [63, 64, 65, 127, 128] if th else list(range(1, 10)) + [15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 128]):
            add(op, w, weight=1 + w * w // 80, full=full, count=6 if w < 100 else 3)
    for op in ("HAM", "LZ"):
        for w in (list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 300] if th else list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]):
            add(op, w, full=16, count=4, free=12)
    for op in ("SHLP", "SHRP", "SHLIN"):
        for w in (1, 2, 3, 5, 7, 8, 32, 33, 64, 100):
            amts = sorted(set(list(range(min(w, 9) + 3)) + [w - 2, w - 1, w, w + 1, w + 5, 2 * w, 1 << 20, (1 << 31) - 1, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63), (1 << 64) - 1]))
            for n in amts:
                if n >= 0:
                    add(op, w, full=10, count=2, free=8, n=n)
    for op in ("SHLS", "SHRS"):
        for w in list(range(1, 10)) + [15, 16, 17, 31, 32, 33, 63, 64, 65] + ([100, 127, 128, 129] if th else []):
            for ws in sorted(set([1, 2, 3, 4, 6, 7, 8, 9, w])):
                if ws <= 32:
                    add(op, w, full=16, count=4, free=8, ws=ws)
    for w in (1, 2, 3, 5, 8, 32, 64):
        for n in (1, 2, 3, 4, 5, 8, 9, 31, 32, 33, 64, 100):
            for sg in (0, 1, 2):
                add("RESIZE", w, full=10, count=2, free=8, n=n, sg=sg)
    for w in (1, 2, 5, 8, 33):
        add("IDX", w, full=10, count=2, free=8)
    for w, ws in ((3, 2), (4, 3), (5, 4), (6, 3), (7, 5), (8, 3), (8, 8), (9, 1), (16, 4), (16, 7), (32, 3)) + (((12, 12), (32, 8), (64, 2)) if th else ()):
        add("MODEXP", w, weight=w * w * ws // 20, ws=ws)
    return C


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/intops.cpp")
    r = run.Report("For every operation and listed width the source is analysed with opaque wire labels, which yields the exact gate list issued for all operand values (a label-dependent branch or address is an error); "
                   "the gate list is then compared with the arithmetic meaning: as canonical decision diagrams over all operand bits (linear operations, all widths listed) or as truth tables over all operands (narrow widths) "
                   "and over sub-cubes of operands (wide multiplication, division, shifts, counts).",
                   "gate list computes the arithmetic function; operands unchanged; result width",
                   ["widths outside the list are not analysed", "wide MUL/DIV/MOD/modExp: sub-cubes of the operand space"])
    r.add(run.run_ctxs(contexts(bc, tier == "thorough")))
    return r.need("Integer::operator+", "Integer::operator-", "Integer::operator*", "Integer::operator/", "Integer::operator%", "Integer::abs", "Integer::modExp", "Integer::leading_zeros",
                  "Integer::hamming_weight", "Integer::resize", "Integer::operator<<", "Integer::operator>>")
