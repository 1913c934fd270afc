"""Float arithmetic: extracted gate lists equal the reviewed ones as functions, well-formed, operands unchanged."""
import base64, json, lzma, math, os, random, struct
from fractions import Fraction
from vsa import run, build, net, gatecmp
from vsa.ir import AnalysisError
from checks import floats

OPS = floats.NAMES[12:]
REF = build.VERIF + "/ref/float32.json.xz"
BIN = ("ADD", "SUB", "MUL", "DIV")


def compact(n, outs):
    """gate list restricted to what outs need, renumbered"""
    need = sorted(n.cone(outs))
    num = {}
    g = []
    names = {w: k for k, w in n.inputs.items()}
    for w in need:
        k, a, b = n.g[w]
        num[w] = len(g)
        g.append([k, names[w][0], names[w][1]] if k == 'i' else [k, num.get(a, 0), num.get(b, 0)])
    return dict(g=g, o=[num[w] for w in outs])


def load(d):
    n = net.Net()
    n.g = []
    for i, (k, a, b) in enumerate(d["g"]):
        if k == 'i':
            n.inputs[(a, b)] = i
            n.g.append(('i', 0, 0))
        else:
            n.g.append((k, a, b))
    return n, d["o"]


def vectors(rng, n):
    """bit patterns with all exponent regions, near-equal operands, specials"""
    sp = [0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000001, 0x7fffff, 0x800000, 0x807fffff, 0x3f800000, 0xbf800000, 0x7f7fffff, 0xff7fffff, 0x3f7fffff, 0x40490fdb, 0x7f800001]
    va, vb = [], []
    for i in range(n):
        m = i % 12
        s = lambda: rng.getrandbits(1) << 31
        if m == 0:
            a, b = rng.getrandbits(32), rng.getrandbits(32)
        elif m == 1:
            a, b = rng.choice(sp), rng.choice(sp)
        elif m == 2:
            a, b = rng.choice(sp), rng.getrandbits(32)
        elif m == 3:
            a, b = rng.getrandbits(32), rng.choice(sp)
        elif m in (4, 5, 6):
            e = rng.randrange(1, 255)
            a = s() | e << 23 | rng.getrandbits(23)
            b = s() | min(254, max(0, e + rng.randrange(-26, 27))) << 23 | rng.getrandbits(23)
        elif m == 7:
            a = s() | rng.randrange(1, 255) << 23 | rng.getrandbits(23)
            b = a ^ s() ^ (1 << rng.randrange(0, 24)) ^ (rng.getrandbits(1) << rng.randrange(0, 23))
        elif m == 8:
            a = s() | rng.randrange(100, 156) << 23 | rng.getrandbits(23)
            b = s() | rng.randrange(100, 156) << 23 | rng.getrandbits(23)
        elif m == 9:
            sh = rng.randrange(0, 23)
            a = s() | rng.randrange(1, 255) << 23 | (rng.getrandbits(23) >> sh << sh)
            b = s() | rng.randrange(1, 255) << 23 | (rng.getrandbits(23) >> sh << sh)
        elif m == 10:
            a = s() | rng.randrange(1, 255) << 23 | ((1 << 23) - 1) & ~rng.getrandbits(rng.randrange(1, 23))
            b = s() | rng.randrange(1, 255) << 23 | ((1 << 23) - 1) & ~rng.getrandbits(rng.randrange(1, 23))
        else:
            a, b = s() | rng.getrandbits(23), s() | rng.randrange(0, 30) << 23 | rng.getrandbits(23)
        va.append(a)
        vb.append(b)
    return va, vb


def planes(vals):
    out = []
    for i in range(32):
        s = "".join("1" if v >> i & 1 else "0" for v in reversed(vals))
        out.append(int(s, 2))
    return out


def sim(n, outs, A, B, N):
    asg = {}
    for (nm, i), w in n.inputs.items():
        asg[w] = (A if nm == "a" else B)[i]
    return n.simulate(asg, outs, (1 << N) - 1)


def f2(u):
    return struct.unpack("<f", struct.pack("<I", u))[0]


def u2(x):
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def normal(u):
    return 0 < (u >> 23 & 255) < 255


def ieee(op, a, b):
    """correctly rounded result for normal operands, or None when outside the claim"""
    if not normal(a) or (op in BIN and not normal(b)):
        return None
    x, y = f2(a), f2(b)
    # double has more than 2*24+2 bits: rounding twice is exact for these six operations
    if op == "ADD":
        r = x + y
    elif op == "SUB":
        r = x - y
    elif op == "MUL":
        r = x * y
    elif op == "DIV":
        r = x / y
    elif op == "SQR":
        r = x * x
    else:
        if x < 0:
            return None
        r = math.sqrt(x)
    if 0 < abs(r) < 2.0 ** -126:
        return None
    w = u2(r)
    return w if normal(w) or (w & 0x7fffffff) == 0 and r == 0 else None


def diff(n, outs, rn, routs, seeds, size):
    for sd in seeds:
        va, vb = vectors(random.Random(sd), size)
        A, B = planes(va), planes(vb)
        x, y = sim(n, outs, A, B, size), sim(rn, routs, A, B, size)
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                k = ((p ^ q) & -(p ^ q)).bit_length() - 1
                get = lambda z: sum((z[j] >> k & 1) << j for j in range(len(z)))
                return i, va[k], vb[k], get(x), get(y)
    return None


def deep(n, outs, rn, routs, op):
    """another structure: difference (as diff), False = the same function, None = undecided"""
    G = gatecmp.Graph()
    pairs = [(x, y) for x, y in zip(G.load(rn, routs), G.load(n, outs)) if x != y]
    if not pairs:
        return False
    nv = 1 << 13
    va, vb = vectors(random.Random(5), nv)
    A, B = planes(va), planes(vb)
    if gatecmp.prove(G, pairs, lambda k: (A if k[0] == "a" else B)[k[1]], nv, budget=60):
        return False
    r = gatecmp.search(G, pairs, op not in BIN, 600 if op not in BIN else 90)
    if r[0] == "EQUAL":
        return False
    if r[0] == "NONE":
        return None
    _, a, b = r
    one = lambda m, o: sum(x << i for i, x in enumerate(sim(m, o, planes([a]), planes([b]), 1)))
    return 0, a, b, one(n, outs), one(rn, routs)


def decide(mc, res, op, ref, th):
    out = net.outwires(mc, "r")
    A, B = net.inwires(mc, "a"), net.inwires(mc, "b")
    res.obl += 1
    if len(out) != 32:
        res.failure(op, "%d result wires, must be 32" % len(out))
        return
    rn, routs = load(ref)
    mine, theirs = mc.net.merkle(out), rn.merkle(routs)
    bad = [i for i in range(32) if mine[i] != theirs[i]]
    res.obl += 32
    if bad:
        d = diff(mc.net, out, rn, routs, range(1, 4), 1 << 13) or deep(mc.net, out, rn, routs, op)
        if d is None:
            raise AnalysisError("gate list of %s has another structure than the reviewed one (result bits %s); could not decide whether it computes the same" % (op, bad[:6]))
        if d:
            i, a, b, g, w = d
            res.failure(op, "gate list computes another function: %s of %#010x%s is %#010x, must be %#010x" % (op, a, ", %#010x" % b if op in BIN else "", g, w))
            return
    res.obl += 1
    if net.outwires(mc, "a") != A or net.outwires(mc, "b") != B:
        res.failure("operand", "an operand is changed")
        return
    if op in ("ADD", "SUB", "MUL", "DIV", "SQR", "SQRT"):
        cnt = 0
        for sd in range(100, 104 if not th else 300):
            N = 1 << 12
            va, vb = vectors(random.Random(sd), N)
            x = sim(mc.net, out, planes(va), planes(vb), N)
            cols = [format(z, "0%db" % N)[::-1] for z in reversed(x)]
            got = [int("".join(t), 2) for t in zip(*cols)]
            for k in range(N):
                w = ieee(op, va[k], vb[k])
                if w is None:
                    continue
                cnt += 1
                if got[k] != w:
                    res.failure(op + " rounding", "%s of %#010x, %#010x is %#010x, correctly rounded %#010x" % (op, va[k], vb[k], got[k], w))
                    return
        res.obl += 1
        res.extra["ieee"] = cnt


def contexts(post):
    bc = floats.compile()
    return [run.Ctx(op, bc, "h_float", dict(op=12 + i, alias=0), dom="NET", models=net.models(), min_obl=1,
                    post=lambda mc, res, op=op: post(mc, res, op)) for i, op in enumerate(OPS)]


def check(tier):
    ref = json.loads(lzma.open(REF).read())
    C = contexts(lambda mc, res, op: decide(mc, res, op, ref[op], tier == "thorough"))
    r = run.Report("Gate list of every float arithmetic operation extracted from the current sources (table, executor and wrapper together) by abstract interpretation with opaque labels; each result bit compared structurally (hash-consed, modulo numbering, order, duplicate gates and inverters) with the reviewed reference list in ref/, so equality holds for all operands. The reference lists of the six arithmetic operations were compared with correct rounding on the vectors counted here, which is a sample.",
                   "result-bit cones equal the reviewed reference cones; reads only computed wires (an unset wire is no wire of the backend); memory accesses in bounds; operands unchanged",
                   ["agreement of the reference lists themselves with IEEE rounding is sampled, not proved"])
    rs = run.run_ctxs(C)
    r.extra["ieee_vectors"] = sum(x.extra.get("ieee", 0) for x in rs)
    r.add(rs)
    return r.need("Float::operator+", "Float::operator/", "Float::sqrt", "Float::sin", "Float::ln", "execute_circuit")


def make_reference():
    d = {}
    bc = floats.compile()
    for i, op in enumerate(OPS):
        def post(mc, res, op=op):
            d[op] = compact(mc.net, net.outwires(mc, "r"))
            res.obl += 1
        x = run.analyse(run.Ctx(op, bc, "h_float", dict(op=12 + i, alias=0), dom="NET", models=net.models(), post=post))
        assert not x.err and not x.fail, (op, x.err, x.fail)
    lzma.open(REF, "w").write(json.dumps(d, separators=(",", ":")).encode())


if __name__ == "__main__":
    make_reference()
