"""Bit-level definitions used as oracles (independent of the code under analysis)."""
from .dom import Sym, mk, bits
from .machine import pack, lanes


def word(mc, name, nbytes):
    return pack([mc.word("%s[%d]" % (name, k), 8) for k in range(nbytes)], 8)


def outword(o):
    return pack(o[2], 8)


def outs(mc, tag):
    return [o for o in mc.outs if o[0] == tag]


def clmul_full(a, b, n=128):
    """255-bit carry-less product of two n-bit words (2n bits returned)"""
    D = Sym.D
    A, B = bits(a, n), bits(b, n)
    r = [0] * (2 * n)
    if D.name == "ANF":
        sets = [set() for _ in range(2 * n)]
        for i in range(n):
            if A[i]:
                for j in range(n):
                    if B[j]:
                        sets[i + j] ^= D.polys[D.and_(A[i], B[j])]
        return tuple(D._id(frozenset(s)) for s in sets)
    for i in range(n):
        for j in range(n):
            if A[i] and B[j]:
                r[i + j] = D.xor(r[i + j], D.and_(A[i], B[j]))
    return tuple(r)


def gf_reduce(p):
    """256 bits modulo x^128 + x^7 + x^2 + x + 1"""
    X = Sym.D.xor
    p = list(p)
    for i in range(len(p) - 1, 127, -1):
        t = p[i]
        if t:
            for s in (0, 1, 2, 7):
                p[i - 128 + s] = X(p[i - 128 + s], t)
        p[i] = 0
    return tuple(p[:128])


def gf_mul(a, b):
    return mk(gf_reduce(clmul_full(a, b)))


def rev(x):
    return mk(bits(x, 128)[::-1])


def differ(mc, res, label, got, want, w, where=None):
    """obligation got == want"""
    res.obl += 1
    g, s = bits(got, w), bits(want, w)
    if g == s:
        return True
    for i in range(w):
        if g[i] != s[i]:
            D = mc.D
            bad = D.xor(g[i], s[i])
            if mc.assume != 1:
                bad = D.and_(bad, mc.assume)
                if bad == 0:
                    continue
            wit = D.witness(bad)
            from .run import short_witness
            res.failure(label, "bit %d is %s, must be %s" % (i, D.show(g[i]), D.show(s[i])), where, short_witness(wit))
            return False
    return True
