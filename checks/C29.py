"""The shipped circuit files compute the functions they are named after."""
import hashlib, json, multiprocessing as mp, os, time
from vsa import run, build
from vsa.cutproof import Proof, V
from vsa.models import SBOX
from vsa.dom import Blowup

REF = build.VERIF + "/ref/circuits.json"
DIR = build.REPO + "/emp-tool/circuits/files/"


class Bad(Exception):
    pass


def ints(ts, line):
    try:
        return [int(t) for t in ts]
    except ValueError:
        raise Bad("line %d: a number is expected" % line)


def load(path, fashion):
    """gate list, with the line of every gate; well-formedness is decided here"""
    L = [(i + 1, l.split()) for i, l in enumerate(open(path)) if l.strip()]
    if len(L) < 3:
        raise Bad("no gates")
    h = ints(L[0][1], 1)
    if fashion:
        a, b = ints(L[1][1], L[1][0]), ints(L[2][1], L[2][0])
        if a[0] != len(a) - 1 or b[0] != len(b) - 1:
            raise Bad("header does not list its inputs and outputs")
        ins, outs, G = a[1:], b[1:], L[3:]
    else:
        a = ints(L[1][1], L[1][0])
        ins, outs, G = a[:2], a[2:], L[2:]
    if len(h) != 2:
        raise Bad("first line must give the numbers of gates and wires")
    ng, nw = h
    if len(G) != ng:
        raise Bad("header announces %d gates, the file has %d" % (ng, len(G)))
    have = set(range(sum(ins)))
    gates = []
    for ln, t in G:
        ar = {"AND": 2, "XOR": 2, "INV": 1}.get(t[-1])
        if ar is None or len(t) != 4 + ar:
            raise Bad("line %d: not an AND, XOR or INV gate" % ln)
        v = ints(t[:-1], ln)
        if v[0] != ar or v[1] != 1:
            raise Bad("line %d: wrong operand counts" % ln)
        src, o = v[2:-1], v[-1]
        for s in src:
            if s not in have:
                raise Bad("line %d: wire %d is read before it is set" % (ln, s))
        if o in have:
            raise Bad("line %d: wire %d is set twice" % (ln, o))
        if not 0 <= o < nw:
            raise Bad("line %d: wire %d is not below %d" % (ln, o, nw))
        have.add(o)
        gates.append(({"AND": "&", "XOR": "^", "INV": "!"}[t[-1]], src[0], src[-1], o))
    for w in range(nw - sum(outs), nw):
        if w not in have:
            raise Bad("output wire %d is never set" % w)
    return nw, ins, outs, gates


# ------------------------------------------------------------- specifications
def byte_tables():
    return [[SBOX[x] >> b & 1 for x in range(256)] for b in range(8)]


def aes(P, key, pt):
    """key, pt: lists of bytes, a byte = 8 values least significant first"""
    T = byte_tables()
    nk = len(key) // 4
    nr = nk + 6

    def sub(b, what):
        return [P.cut(P.lut(T[i], b), "%s S-box bit %d" % (what, i)) for i in range(8)]

    def x2(b):
        return [b[7]] + [P.xor(b[i - 1], b[7]) if i in (1, 3, 4) else b[i - 1] for i in range(1, 8)]

    def xb(*bs):
        return [P.xor(*[b[i] for b in bs]) for i in range(8)]

    def cb(b, what):
        return [P.cut(x, "%s bit %d" % (what, i)) for i, x in enumerate(b)]
    w = [key[4 * i:4 * i + 4] for i in range(nk)]
    rc = 1
    ks = {}

    def kw(i):
        nonlocal rc
        while len(w) <= i:
            j = len(w)
            t = w[j - 1]
            if j % nk == 0:
                t = [sub(b, "key word %d" % j) for b in t[1:] + t[:1]]
                t = [[P.not_(x) if rc >> q & 1 else x for q, x in enumerate(t[0])]] + t[1:]
                rc = (rc << 1) ^ (0x11b if rc & 128 else 0)
            elif nk > 6 and j % nk == 4:
                t = [sub(b, "key word %d" % j) for b in t]
            w.append([cb(xb(a, b), "key word %d byte %d" % (j, q)) for q, (a, b) in enumerate(zip(w[j - nk], t))])
        return w[i]
    s = [cb(xb(pt[4 * c + r], kw(c)[r]), "whitened byte %d" % (4 * c + r)) for c in range(4) for r in range(4)]
    for rnd in range(1, nr + 1):
        s = [sub(b, "round %d byte %d" % (rnd, i)) for i, b in enumerate(s)]
        s = [s[4 * ((c + r) % 4) + r] for c in range(4) for r in range(4)]
        if rnd < nr:
            t = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                for r in range(4):
                    t.append(cb(xb(x2(xb(a[r], a[(r + 1) % 4])), a[(r + 1) % 4], a[(r + 2) % 4], a[(r + 3) % 4]), "round %d mixed byte %d" % (rnd, 4 * c + r)))
            s = t
        k = [kw(4 * rnd + c) for c in range(4)]
        s = [cb(xb(s[4 * c + r], k[c][r]), "round %d state byte %d" % (rnd, 4 * c + r)) for c in range(4) for r in range(4)]
    return s


def add2(P, a, b, what, cut=True):
    """words least significant bit first, modulo 2^n"""
    c, r = P.zero, []
    for i in range(len(a)):
        x = P.xor(a[i], b[i], c)
        r.append(P.cut(x, "%s sum bit %d" % (what, i)) if cut else x)
        if i + 1 < len(a):
            c = P.maj(a[i], b[i], c)
            if cut:
                c = P.cut(c, "%s carry into bit %d" % (what, i + 1))
    return r


def sigadd(a, b):
    r, c = [], 0
    for x, y in zip(a, b):
        r.append(x ^ y ^ c)
        c = (x & y) | (x & c) | (y & c)
    return r


def addn(P, ws, what, usual=()):
    """sum of several words, in the association the gate list uses: a binary tree whose partial sums are all wires
    (usual: trees to prefer, nested pairs of positions)"""
    n, low = len(ws), 14
    full = (1 << n) - 1
    sg = {}
    for m in range(1, full + 1):
        b = m & -m
        one = [v.s for v in ws[b.bit_length() - 1][:low]]
        sg[m] = one if m == b else sigadd(sg[m ^ b], one)
    score = {m: sum(1 for s in sg[m][1:] if s in P.by or s ^ P.mask in P.by) for m in sg}

    def mask(t):
        return 1 << t if t.__class__ is int else mask(t[0]) | mask(t[1])

    def total(t):
        return (0, 0) if t.__class__ is int else (lambda a, b: (a[0] + b[0] + score[mask(t)], a[1] + b[1] + low - 1))(total(t[0]), total(t[1]))
    best = None
    for t in usual:
        if mask(t) == full:
            g, w = total(t)
            if g == w:
                best = t
                break
    if best is None:
        tree = {1 << i: (0, i) for i in range(n)}
        for m in sorted(sg, key=lambda m: bin(m).count("1")):
            if m in tree:
                continue
            k = (m - 1) & m
            while k:
                if k > m ^ k:
                    c = tree[k][0] + tree[m ^ k][0] + score[m]
                    if m not in tree or c > tree[m][0]:
                        tree[m] = (c, (tree[k][1], tree[m ^ k][1]))
                k = (k - 1) & m
        best = tree[full][1]

    def build_(t):
        return ws[t] if t.__class__ is int else add2(P, build_(t[0]), build_(t[1]), what)
    return build_(best)


def word(P, c):
    return [P.const(c >> i & 1) for i in range(32)]


def ror(w, n):
    return w[n:] + w[:n]


def shr(P, w, n):
    return w[n:] + [P.zero] * n


def cw(P, w, what):
    return [P.cut(x, what + " bit %d" % i) for i, x in enumerate(w)]


def primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % p for p in r):
            r.append(k)
        k += 1
    return r


def iroot(x, k):
    lo, hi = 0, 1 << (x.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= x:
            lo = m
        else:
            hi = m - 1
    return lo


K256 = [iroot(p << 96, 3) & 0xffffffff for p in primes(64)]
H256 = [iroot(p << 64, 2) & 0xffffffff for p in primes(8)]


def sha256(P, m, h):
    """m: 16 words, h: 8 words"""
    X = lambda *ws: [P.xor(*t) for t in zip(*ws)]
    w = list(m)
    for i in range(16, 64):
        a, b = w[i - 15], w[i - 2]
        s0 = cw(P, X(ror(a, 7), ror(a, 18), shr(P, a, 3)), "schedule %d s0" % i)
        s1 = cw(P, X(ror(b, 17), ror(b, 19), shr(P, b, 10)), "schedule %d s1" % i)
        w.append(addn(P, [w[i - 16], s0, w[i - 7], s1], "schedule word %d" % i, [((0, 1), (2, 3))]))
    a, b, c, d, e, f, g, hh = h
    for i in range(64):
        S1 = cw(P, X(ror(e, 6), ror(e, 11), ror(e, 25)), "round %d S1" % i)
        S0 = cw(P, X(ror(a, 2), ror(a, 13), ror(a, 22)), "round %d S0" % i)
        ch = cw(P, [P.ite(x, y, z) for x, y, z in zip(e, f, g)], "round %d ch" % i)
        mj = cw(P, [P.maj(x, y, z) for x, y, z in zip(a, b, c)], "round %d maj" % i)
        t1 = addn(P, [hh, S1, ch, word(P, K256[i]), w[i]], "round %d t1" % i, [((((0, 4), (1, 2))), 3), (((0, 1), (2, 3)), 4)])
        e2 = add2(P, d, t1, "round %d e" % i)
        a2 = addn(P, [t1, S0, mj], "round %d a" % i, [(0, (1, 2))])
        hh, g, f, e, d, c, b, a = g, f, e, e2, c, b, a, a2
    return [add2(P, x, y, "final word %d" % i) for i, (x, y) in enumerate(zip(h, (a, b, c, d, e, f, g, hh)))]


def sha1(P, m):
    X = lambda *ws: [P.xor(*t) for t in zip(*ws)]
    rol = lambda w, n: ror(w, 32 - n)
    w = list(m)
    for i in range(16, 80):
        w.append(cw(P, rol(X(w[i - 3], w[i - 8], w[i - 14], w[i - 16]), 1), "schedule word %d" % i))
    h = [word(P, x) for x in (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0)]
    a, b, c, d, e = h
    for i in range(80):
        if i < 20:
            f, k = [P.ite(x, y, z) for x, y, z in zip(b, c, d)], 0x5a827999
        elif i < 40:
            f, k = X(b, c, d), 0x6ed9eba1
        elif i < 60:
            f, k = [P.maj(x, y, z) for x, y, z in zip(b, c, d)], 0x8f1bbcdc
        else:
            f, k = X(b, c, d), 0xca62c1d6
        f = cw(P, f, "round %d f" % i)
        t = addn(P, [rol(a, 5), f, e, word(P, k), w[i]], "round %d" % i, [((((0, 1), 2), 3), 4)])
        a, b, c, d, e = t, a, rol(b, 30), c, d
    return [add2(P, x, y, "final word %d" % i) for i, (x, y) in enumerate(zip(h, (a, b, c, d, e)))]


# wires <-> bytes.  "rev": wire 0 is the last bit of the big-endian string; "msb": the first
def by(P, ws, conv, size=8):
    """wires -> words of size bits, each least significant first, in string order"""
    s = ws[::-1] if conv == "rev" else list(ws)        # string order, most significant bit first
    return [s[i:i + size][::-1] for i in range(0, len(s), size)]


def flat(words, conv):
    s = [b for w in words for b in w[::-1]]
    return s[::-1] if conv == "rev" else s


def s_aes(kfirst, conv):
    def f(P, ins):
        a, b = P.inputs[:ins[0]], P.inputs[ins[0]:]
        k, p = (a, b) if kfirst else (b, a)
        return flat(aes(P, by(P, k, conv), by(P, p, conv)), conv)
    return f


def s_sha256(chained, conv):
    def f(P, ins):
        m = by(P, P.inputs[:512], conv, 32)
        h = by(P, P.inputs[512:], conv, 32) if chained else [word(P, x) for x in H256]
        return flat(sha256(P, m, h), conv)
    return f


def s_sha1(P, ins):
    return flat(sha1(P, by(P, P.inputs[:512], "msb", 32)), "msb")


def s_add(P, ins):
    a, b = P.inputs[:32], P.inputs[32:]
    c, r = P.zero, []
    for i in range(32):
        r.append(P.xor(a[i], b[i], c))
        c = P.cut(P.maj(a[i], b[i], c), "carry into bit %d" % (i + 1))
    return r + [c]


FILES = [
    ("bristol_fashion/aes_128.txt", True, [128, 128], [128], s_aes(True, "rev")),
    ("bristol_fashion/aes_192.txt", True, [192, 128], [128], s_aes(True, "rev")),
    ("bristol_fashion/aes_256.txt", True, [256, 128], [128], s_aes(True, "rev")),
    ("bristol_fashion/sha256.txt", True, [512, 256], [256], s_sha256(True, "rev")),
    ("bristol_format/AES-non-expanded.txt", False, [128, 128], [128], s_aes(False, "msb")),
    ("bristol_format/adder_32bit.txt", False, [32, 32], [33], s_add),
    ("bristol_format/sha-1.txt", False, [512, 0], [160], s_sha1, False),
    ("bristol_format/sha-256.txt", False, [512, 0], [256], s_sha256(False, "msb")),
]


def shape(n_in, gates, outs):
    """hash of the output functions as a graph, modulo numbering, order, duplicate gates and inverters"""
    memo = {}
    H = lambda *a: hashlib.sha256(repr(a).encode()).digest()[:16]
    neg = {}                                        # wire -> (hash, complemented)
    for i in range(n_in):
        neg[i] = (H("i", i), 0)
    for op, a, b, o in gates:
        x, y = neg[a], neg[b]
        if op == "!":
            neg[o] = (x[0], x[1] ^ 1)
        elif op == "^":
            neg[o] = (H("^", *sorted((x[0], y[0]))), x[1] ^ y[1])
        else:
            neg[o] = (H("&", *sorted((x, y))), 0)
    return hashlib.sha256(repr([neg[w] for w in outs]).encode()).hexdigest()


def parse(name, fashion, ins, outs):
    if not os.path.exists(DIR + name):
        raise Bad("the file is missing")
    nw, i2, o2, gates = load(DIR + name, fashion)
    if [x for x in i2 if x] != [x for x in ins if x] or o2 != outs:
        raise Bad("inputs %s and outputs %s are announced, not %s and %s" % (i2, o2, ins, outs))
    return nw, gates


def decide(name, fashion, ins, outs, spec, prove=True):
    """(verdict, text, statistics)"""
    try:
        nw, gates = parse(name, fashion, ins, outs)
    except Bad as e:
        return "fail", str(e), {}
    n = sum(outs)
    st = dict(gates=len(gates), outputs=n)
    for seed in range(1, 5):                        # a difference on tried inputs is reported at once
        P = Proof(sum(ins), gates, seed=seed, prove=False)
        want = spec(P, ins)
        for k, v in enumerate(want):
            wit = P.differs(nw - n + k, v)
            if wit:
                q, parts = 0, []
                for sz in ins:
                    parts.append("%#x" % sum(b << i for i, b in enumerate(wit[q:q + sz])))
                    q += sz
                return "fail", "output %d differs from the specification for inputs %s (wire i = bit i); first intermediate value without a wire: %s" % (k, ", ".join(parts), (P.missed or ["none"])[0]), st
    if not prove:
        ref = json.load(open(REF)).get(name)
        if shape(sum(ins), gates, range(nw - n, nw)) == ref:
            st["rule"] = "graph equals the reviewed one"
            return "ok", "", st
        return "undecided", "the gate list has another structure than the reviewed one and agrees with the specification on all tried inputs", st
    P = Proof(sum(ins), gates)
    want = spec(P, ins)
    st.update(cuts=P.cuts, proved=P.proved, rule="cut-point proof")
    und = [k for k, v in enumerate(want) if not P.equal(nw - n + k, v)]
    if und:
        if shape(sum(ins), gates, range(nw - n, nw)) == json.load(open(REF)).get(name):
            return "ok", "", dict(st, rule="graph equals the reviewed one")
        return "undecided", "outputs %s could not be matched; intermediate values without a wire: %s" % (und[:5], P.missed[:5]), st
    return "ok", "", st


def work(f):
    r = run.Result(f[0])
    t = time.time()
    try:
        v, msg, st = decide(*f)
    except Blowup as e:
        v, msg, st = "undecided", str(e), {}
    r.obl = st.get("outputs", 0) + st.get("cuts", 0) + st.get("gates", 0)
    r.extra = st
    if v == "fail":
        r.failure("circuit file", msg, where=["emp-tool/circuits/files/" + f[0]])
    elif v == "undecided":
        r.err = msg
    r.wall = time.time() - t
    return r


def _idx(i):
    return work(FILES[i])


def check(tier):
    r = run.Report("The shipped circuit files, read as gate lists (well-formedness: counts, single assignment, operands set before use, declared sizes) and compared with their specification written at word level (FIPS-197, FIPS-180, addition). Cut-point proof: every S-box output, key word, round state, carry and sum bit of the specification is matched with wires of the file, the cone of each matched wire down to earlier cuts being evaluated as a decision diagram that must be the specification's. sha-1.txt is a synthesised netlist without such wires: its graph is compared with the reviewed one.",
                   "for every input, the output wires of each file equal the named function (bit orders as documented by the files); each file well-formed",
                   ["sha-1.txt relative to the reviewed graph, which was compared with FIPS-180 on sampled messages"])
    with mp.get_context("fork").Pool(8) as p:
        rs = p.map(_idx, range(len(FILES)), chunksize=1)
    r.add(rs)
    r.extra["files"] = {x.name: {k: v for k, v in x.extra.items()} for x in rs}
    return r


def make_reference():
    json.dump({f[0]: (lambda nw, g: shape(sum(f[2]), g, range(nw - sum(f[3]), nw)))(*parse(*f[:4])) for f in FILES}, open(REF, "w"), indent=1)


if __name__ == "__main__":
    import sys
    if sys.argv[1:] == ["ref"]:
        make_reference()
    else:
        for f in FILES:
            if len(sys.argv) == 1 or sys.argv[1] in f[0]:
                t = time.time()
                print(f[0], decide(*f), "%.1f s" % (time.time() - t), flush=True)
