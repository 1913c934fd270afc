"""PRG: outputs matched byte by byte with the AES counter stream."""
from vsa import run, build, spec
from vsa.dom import Sym, mk, bits
from vsa.machine import lanes
from vsa.models import fips_encrypt

M64 = (1 << 64) - 1


class Stream:
    """Tracks which part of the stream AES(key, 0), AES(key, 1), ... was handed out."""
    def __init__(self, mc, key, start):
        self.mc, self.key, self.next, self.exact = mc, key, start, True
        self.tab, self.bit, self.have = {}, {}, start
        self.used = set()
        self.wbuf = []

    def upto(self, c):
        while self.have < c:
            v = fips_encrypt(self.mc, self.key, self.have & M64)
            for o, b in enumerate(lanes(v, 16, 8)):
                self.tab[b] = (self.have, o)
                self.bit[bits(b, 8)[0]] = (self.have, o)
            self.have += 1

    def find(self, b, isbit=False):
        """position (counter, byte) of an output byte, or None"""
        t = self.bit if isbit else self.tab
        k = bits(b, 8)[0] if isbit else b
        lim = self.next + 48
        while k not in t and self.have < lim:
            self.upto(self.have + 4)
        return t.get(k)


def post(mc, res):
    p = mc.params
    seed = spec.word(mc, "seed", 16)
    start = p["ctr"] if p["jump"] else 0
    idv = p["id"]
    if p["ctor"]:
        idv = ((idv & 0xffffffff) ^ 0x80000000) - 0x80000000 & M64
    st = Stream(mc, seed ^ (idv & M64), start)
    words = []

    def bad(lab, msg):
        res.failure(lab, msg)

    for o in mc.outs:
        tag = o[0]
        if tag == "reseed":
            st = Stream(mc, seed ^ ((p["id"] + 5) & M64), 0)
            continue
        by = o[2]
        if tag in ("block", "data"):
            lab = "random_" + tag
            n = len(by)
            res.obl += 1
            if not n:
                continue
            first = st.find(by[0])
            if first is None or first[1] != 0:
                return bad(lab, "byte 0 of the output is not a byte of the seed's stream: %s" % mc.D.show(bits(by[0], 8)[0]))
            c = first[0]
            if c < st.next:
                return bad(lab, "stream block %d is handed out although blocks up to %d were used before" % (c, st.next - 1))
            if st.exact and c != st.next:
                return bad(lab, "output starts at stream block %d, the next unused one is %d" % (c, st.next))
            st.upto(c + n // 16 + 2)
            for k in range(n):
                q = st.find(by[k])
                if q != (c + k // 16, k % 16):
                    return bad(lab, "byte %d of %d is %s, must be byte %d of stream block %d" % (
                        k, n, "byte %d of block %d" % (q[1], q[0]) if q else "not from the stream", k % 16, c + k // 16))
            st.next = c + (n + 15) // 16
            if len(by) % 16 == 0 and tag == "block":
                st.exact = True
        elif tag in ("unaligned", "bool"):
            lab = "random_" + ("bool" if tag == "bool" else "data_unaligned")
            res.obl += 1
            seen, mxc = set(), st.next - 1
            for k, b in enumerate(by):
                if tag == "bool" and any(x != 0 for x in bits(b, 8)[1:]):
                    return bad(lab, "entry %d is not 0 or 1" % k)
                q = st.find(b, tag == "bool")
                if q is None:
                    return bad(lab, "byte %d of %d is not from the seed's stream: %s" % (k, len(by), mc.D.show(bits(b, 8)[0])))
                if q[0] < st.next:
                    return bad(lab, "byte %d of %d repeats stream block %d" % (k, len(by), q[0]))
                if q in seen:
                    return bad(lab, "byte %d of %d repeats byte %d of stream block %d" % (k, len(by), q[1], q[0]))
                seen.add(q)
                mxc = max(mxc, q[0])
            st.next = mxc + 1
            st.exact = False
        elif tag == "word":
            res.obl += 1
            q = [st.find(b) for b in by]
            if any(x is None for x in q):
                return bad("operator()", "not from the seed's stream")
            c, off = q[0]
            if any(x != (c, off + i) for i, x in enumerate(q)) or off % 8:
                return bad("operator()", "mixes positions of the stream: %s" % q)
            if (c, off) in st.used:
                return bad("operator()", "repeats 64-bit word %d of stream block %d" % (off // 8, c))
            st.used.add((c, off))
            if st.wbuf and (c, off) == st.wbuf[0]:
                st.wbuf.pop(0)
            else:
                if c < st.next:
                    return bad("operator()", "word from stream block %d, which was already used" % c)
                if st.exact and c != st.next:
                    return bad("operator()", "skips to stream block %d, next is %d" % (c, st.next))
                if off:
                    return bad("operator()", "skips half a block")
                # words are served from a prefetched run of blocks
                st.wbuf = [(c + i // 2, 8 * (i % 2)) for i in range(1, 32)]
                st.next = c + 16
            # a word sequence may be prefetched in any number of blocks


def code(seq, base):
    r = 0
    for s in reversed(seq):
        r = r * base + s
    return r


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/crypto.cpp")
    th = tier == "thorough"
    cx = []

    def add(name, reqs, ctor=1, id=0, before=0, skew=0, sskew=0, jump=0, ctr=0, dflt=0):
        cx.append(run.Ctx("%s: %s" % (name, " ".join("%d/%d" % q for q in reqs)), bc, "h_prg", dict(
            id=id & M64, ctor=ctor, before=before, skew=skew, sskew=sskew, jump=jump, ctr=ctr, dflt=dflt,
            prog=code([q[0] for q in reqs], 16), sizes=code([q[1] for q in reqs], 512)),
            post=post, weight=sum(q[1] for q in reqs if q[0] != 6)))

    for n in list(range(0, 34)) + ([63, 64, 65, 127, 128, 129] if th else [64, 65]):
        add("blocks", [(1, n)])
    for n in list(range(0, 50)) + ([127, 128, 129, 255, 256, 257, 500] if th else [127, 128, 129, 257]):
        add("bytes", [(2, n)], skew=n % 3)
        add("bytes then block", [(2, n), (1, 3)])
    for n in list(range(0, 50 if th else 36)):
        for sk in range(0, 16) if th else (0, 1, 4, 7, 8, 9, 15):
            add("unaligned +%d" % sk, [(3, n)], skew=sk)
    for n in (47, 48, 49, 63, 64, 65, 129, 150):
        for sk in range(0, 16):
            add("unaligned +%d" % sk, [(3, n), (1, 1)], skew=sk)
    for n in list(range(0, 20)) + [31, 32, 33, 64, 100]:
        for sk in (0, 3, 8, 15):
            add("bools +%d" % sk, [(4, n), (4, 5)], skew=sk)
    for a in (1, 2, 3, 7, 8, 9, 15, 16, 17):
        for b in (1, 5, 8, 9):
            add("split", [(1, a), (1, b), (2, 16 * a + b), (1, b)])
    add("words", [(5, 1)])
    add("words", [(5, 33)])
    add("words", [(5, 70)])
    add("mixed", [(5, 3), (1, 4), (5, 30), (2, 21), (5, 1)])
    add("mixed", [(1, 5), (5, 31), (5, 2), (1, 1)])
    for i in (0, 1, 2, 7, 0x7fffffff, -1):
        add("stream id %d" % i, [(1, 9)], id=i, sskew=5)
        add("reseed, stream id %d" % i, [(1, 9), (2, 7)], ctor=0, before=2, id=i)
    add("default stream id", [(7, 1), (1, 2)], ctor=2)
    add("reseed, default stream id", [(1, 3), (7, 1), (5, 1)], ctor=0, dflt=1, before=2)
    add("reseed, wide stream id", [(1, 3)], ctor=0, id=0x123456789abcdef0)
    for b in range(6):
        for reqs in ([(5, 3)], [(1, 2), (5, 2)], [(4, 9), (1, 1)], [(2, 5), (5, 33)], [(3, 40), (1, 1)]):
            add("reseed after history %d" % b, reqs, ctor=0, before=b, id=b)
    add("reseed twice", [(1, 3), (6, 0), (5, 2), (1, 1), (6, 0), (1, 9)])
    add("reseed with words pending", [(5, 5), (6, 0), (5, 33), (6, 0), (5, 1), (2, 3)])
    for c in (0xff, 0xfffd, (1 << 24) - 2, (1 << 31) - 3, (1 << 32) - 3, (1 << 32) - 11, (1 << 48) - 2, (1 << 63) - 5):
        add("from block %#x" % c, [(1, 13), (2, 70)], jump=1, ctr=c)
    r = run.Report("All seeds, for every listed history of requests (sizes, alignments, stream ids, reseeds, counter positions). Each output byte is computed by forward value analysis of the LLVM IR as a "
                   "GF(2) form over seed bits and S-box atoms and located in the table of stream bytes AES(seed ^ id, 0), AES(seed ^ id, 1), ...",
                   "outputs of random_block/random_data are the next stream bytes in order; unaligned/bool/word outputs take each stream byte at most once and never from blocks used earlier; exactly the requested bytes are written",
                   ["histories of the listed lengths", "request sizes up to 500 bytes"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::PRG::random_block", "emp::PRG::random_data", "emp::PRG::random_data_unaligned", "emp::PRG::random_bool", "emp::PRG::reseed", "emp::PRG::operator()")
