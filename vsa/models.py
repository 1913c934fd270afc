"""Transfer functions of external functions, intrinsics and specification calls."""
from . import machine as mx
from .machine import (model, prefix_model, Dead, Bug, trunc, zext, sext, lanes, pack, icmp, select, shl, lshr)
from .ir import M, BASE, AnalysisError
from .dom import Sym, mk, bits, inv, iteword, eqbit, addc

# ------------------------------------------------------------------ AES
def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def _mksbox():
    s = []
    for x in range(256):
        i = 0
        if x:
            for y in range(1, 256):
                if _gmul(x, y) == 1:
                    i = y
                    break
        r = 0
        for k in range(8):
            bit = ((i >> k) ^ (i >> ((k + 4) % 8)) ^ (i >> ((k + 5) % 8)) ^ (i >> ((k + 6) % 8)) ^ (i >> ((k + 7) % 8)) ^ (0x63 >> k)) & 1
            r |= bit << k
        s.append(r)
    return s


SBOX = _mksbox()
ISBOX = [0] * 256
for _i, _v in enumerate(SBOX):
    ISBOX[_v] = _i


def sb(mc, x, inverse=False):
    if x.__class__ is int:
        return (ISBOX if inverse else SBOX)[x]
    tab = mc.__dict__.setdefault("sbtab", {})
    r = tab.get((x.b, inverse))
    if r is None:
        r = mc.opaque("InvS" if inverse else "S", (x,), 8)
        tab[(x.b, inverse)] = r
        tab[(r.b, not inverse)] = x
    return r


def xt(x):
    """multiply a GF(2^8) byte by x"""
    if x.__class__ is int:
        return ((x << 1) ^ (0x11b if x & 0x80 else 0)) & 0xff
    b = x.b
    X = Sym.D.xor
    h = b[7]
    return mk((h, X(b[0], h), b[1], X(b[2], h), X(b[3], h), b[4], b[5], b[6]))


def _mulc(x, c):
    r = 0
    while c:
        if c & 1:
            r = r ^ x
        x = xt(x)
        c >>= 1
    return r


def by(v):
    return lanes(v, 16, 8)


def subbytes(mc, s, inverse=False):
    return [sb(mc, x, inverse) for x in s]


def shiftrows(s):
    return [s[(i + 4 * (i % 4)) % 16] for i in range(16)]


def invshiftrows(s):
    return [s[(i - 4 * (i % 4)) % 16] for i in range(16)]


def mixcol(s, m=(2, 3, 1, 1)):
    r = []
    for c in range(4):
        col = s[4 * c:4 * c + 4]
        for i in range(4):
            acc = 0
            for j in range(4):
                acc = acc ^ _mulc(col[j], m[(j - i) % 4])
            r.append(acc)
    return r


def memo(f):
    def g(mc, *a):
        t = mc.__dict__.setdefault("memo_" + f.__name__, {})
        r = t.get(a)
        if r is None:
            r = t[a] = f(mc, *a)
        return r
    return g


@memo
def aesenc(mc, s, k):
    return pack(mixcol(shiftrows(subbytes(mc, by(s)))), 8) ^ k


@memo
def aesenclast(mc, s, k):
    return pack(shiftrows(subbytes(mc, by(s))), 8) ^ k


@memo
def aesdec(mc, s, k):
    return pack(mixcol(subbytes(mc, invshiftrows(by(s)), True), (14, 11, 13, 9)), 8) ^ k


@memo
def aesdeclast(mc, s, k):
    return pack(subbytes(mc, invshiftrows(by(s)), True), 8) ^ k


@memo
def aesimc(mc, s):
    return pack(mixcol(by(s), (14, 11, 13, 9)), 8)


@memo
def keygenassist(mc, s, imm):
    w = lanes(s, 4, 32)
    def sw(x):
        return pack([sb(mc, y) for y in lanes(x, 4, 8)], 8)
    def rot(x):
        l = lanes(x, 4, 8)
        return pack(l[1:] + l[:1], 8)
    a, b = sw(w[1]), sw(w[3])
    return pack([a, rot(a) ^ imm, b, rot(b) ^ imm], 32)


# FIPS-197 reference, independent of the instructions above
@memo
def fips_keys(mc, key):
    w = [lanes(x, 4, 8) for x in lanes(key, 4, 32)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = t[1:] + t[:1]
            t = [sb(mc, x) for x in t]
            t[0] = t[0] ^ rc
            rc = _gmul(rc, 2)
        w.append([x ^ y for x, y in zip(w[i - 4], t)])
    return [pack(sum(w[4 * r:4 * r + 4], []), 8) for r in range(11)]


@memo
def fips_encrypt(mc, key, x):
    ks = fips_keys(mc, key)
    s = by(x ^ ks[0])
    for r in range(1, 11):
        s = [sb(mc, y) for y in s]
        # row r of the state is shifted left by r
        st = [[s[4 * c + row] for c in range(4)] for row in range(4)]
        st = [st[row][row:] + st[row][:row] for row in range(4)]
        s = [st[row][c] for c in range(4) for row in range(4)]
        if r < 10:
            o = []
            for c in range(4):
                a0, a1, a2, a3 = s[4 * c:4 * c + 4]
                o += [xt(a0) ^ xt(a1) ^ a1 ^ a2 ^ a3, a0 ^ xt(a1) ^ xt(a2) ^ a2 ^ a3,
                      a0 ^ a1 ^ xt(a2) ^ xt(a3) ^ a3, xt(a0) ^ a0 ^ a1 ^ a2 ^ xt(a3)]
            s = o
        s = by(pack(s, 8) ^ ks[r])
    return pack(s, 8)


model("llvm.x86.aesni.aesenc")(lambda mc, a: aesenc(mc, a[0], a[1]))
model("llvm.x86.aesni.aesenclast")(lambda mc, a: aesenclast(mc, a[0], a[1]))
model("llvm.x86.aesni.aesdec")(lambda mc, a: aesdec(mc, a[0], a[1]))
model("llvm.x86.aesni.aesdeclast")(lambda mc, a: aesdeclast(mc, a[0], a[1]))
model("llvm.x86.aesni.aesimc")(lambda mc, a: aesimc(mc, a[0]))
model("llvm.x86.aesni.aeskeygenassist")(lambda mc, a: keygenassist(mc, a[0], a[1]))


def clmul(a, b, n=64):
    """carry-less product, 2n bits"""
    if a.__class__ is int and b.__class__ is int:
        r = 0
        while b:
            if b & 1:
                r ^= a
            a <<= 1
            b >>= 1
        return r
    D = Sym.D
    A, B = bits(a, n), bits(b, n)
    if D.name == "ANF":
        acc = [None] * (2 * n)
        polys = D.polys
        sets = [set() for _ in range(2 * n)]
        for i, x in enumerate(A):
            if x == 0:
                continue
            for j, y in enumerate(B):
                if y == 0:
                    continue
                sets[i + j] ^= polys[D.and_(x, y)]
        return mk(tuple(D._id(frozenset(s)) for s in sets))
    r = [0] * (2 * n)
    for i, x in enumerate(A):
        if x:
            for j, y in enumerate(B):
                if y:
                    r[i + j] = D.xor(r[i + j], D.and_(x, y))
    return mk(tuple(r))


@model("llvm.x86.pclmulqdq")
def _(mc, a):
    x, y, imm = a
    lx, ly = lanes(x, 2, 64), lanes(y, 2, 64)
    return clmul(lx[imm & 1], ly[(imm >> 4) & 1])


# ------------------------------------------------------------------ vector intrinsics
def _vshift(n, w, f):
    def g(mc, a):
        c = a[1]
        return pack([f(x, c, w) if c < w else 0 for x in lanes(a[0], n, w)], w)
    return g


for _suf, _n, _w in (("w", 8, 16), ("d", 4, 32), ("q", 2, 64)):
    model("llvm.x86.sse2.pslli." + _suf)(_vshift(_n, _w, shl))
    model("llvm.x86.sse2.psrli." + _suf)(_vshift(_n, _w, lshr))


def _vshiftv(n, w, f):
    def g(mc, a):
        c = trunc(a[1], 64)
        if c.__class__ is not int:
            raise AnalysisError("vector shift by abstract amount")
        return pack([f(x, c, w) if c < w else 0 for x in lanes(a[0], n, w)], w)
    return g


for _suf, _n, _w in (("w", 8, 16), ("d", 4, 32), ("q", 2, 64)):
    model("llvm.x86.sse2.psll." + _suf)(_vshiftv(_n, _w, shl))
    model("llvm.x86.sse2.psrl." + _suf)(_vshiftv(_n, _w, lshr))


@model("llvm.x86.sse2.pmovmskb.128")
def _(mc, a):
    b = bits(a[0], 128)
    return mk(tuple(b[8 * i + 7] for i in range(16)) + (0,) * 16)


@model("llvm.x86.avx2.pmovmskb")
def _(mc, a):
    b = bits(a[0], 256)
    return mk(tuple(b[8 * i + 7] for i in range(32)))


@model("llvm.x86.sse2.movmsk.pd")
def _(mc, a):
    b = bits(a[0], 128)
    return mk((b[63], b[127]) + (0,) * 30)


@model("llvm.x86.sse.movmsk.ps")
def _(mc, a):
    b = bits(a[0], 128)
    return mk((b[31], b[63], b[95], b[127]) + (0,) * 28)


@model("llvm.x86.ssse3.pshuf.b.128")
def _(mc, a):
    s, m = lanes(a[0], 16, 8), lanes(a[1], 16, 8)
    r = []
    for x in m:
        if x.__class__ is not int:
            raise AnalysisError("abstract shuffle mask")
        r.append(0 if x & 0x80 else s[x & 15])
    return pack(r, 8)


def _zero(v, w):
    return zext(icmp('eq', v, 0, w), 1, 32)


@model("llvm.x86.sse41.ptestz")
def _(mc, a):
    return _zero(a[0] & a[1], 128)


@model("llvm.x86.sse41.ptestc")
def _(mc, a):
    return _zero(inv(a[0], 128) & a[1], 128)


@model("llvm.x86.avx.ptestz.256")
def _(mc, a):
    return _zero(a[0] & a[1], 256)


@model("llvm.x86.bmi.pext.64", "llvm.x86.bmi.pext.32")
def _(mc, a):
    w = 64
    if a[1].__class__ is not int:
        raise AnalysisError("abstract pext mask")
    b = bits(a[0], 64 if a[0].__class__ is int else len(a[0].b))
    r = [b[i] for i in range(len(b)) if (a[1] >> i) & 1]
    return mk(tuple(r) + (0,) * (len(b) - len(r)))


@model("llvm.x86.bmi.pdep.64", "llvm.x86.bmi.pdep.32")
def _(mc, a):
    if a[1].__class__ is not int:
        raise AnalysisError("abstract pdep mask")
    b = bits(a[0], 64 if a[0].__class__ is int else len(a[0].b))
    r, k = [], 0
    for i in range(len(b)):
        if (a[1] >> i) & 1:
            r.append(b[k])
            k += 1
        else:
            r.append(0)
    return mk(tuple(r))


def _w(v, d):
    return d if v.__class__ is int else len(v.b)


def _suffix_w(fn):
    return int(fn.name.rsplit('.i', 1)[1])


def fmodel(prefix):
    def deco(f):
        mx.PREFIX_MODELS.append((prefix, (f,)))
        return f
    return deco


@fmodel("llvm.bswap.")
def _(mc, a, fn):
    w = _suffix_w(fn)
    return pack(lanes(a[0], w // 8, 8)[::-1], 8)


@fmodel("llvm.ctpop.i")
def _(mc, a, fn):
    w = _suffix_w(fn)
    r = 0
    for x in bits(a[0], w):
        r = _add(r, mk((x,) + (0,) * (w - 1)), w)
    return r


def _add(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & M[w]
    return addc(a, b, 0, w)


@fmodel("llvm.ctlz.i")
def _(mc, a, fn):
    w = _suffix_w(fn)
    r = w
    for i, x in enumerate(bits(a[0], w)):
        r = iteword(x, w - 1 - i, r, w)
    return r


@fmodel("llvm.cttz.i")
def _(mc, a, fn):
    w = _suffix_w(fn)
    r = w
    for i, x in reversed(list(enumerate(bits(a[0], w)))):
        r = iteword(x, i, r, w)
    return r


@fmodel("llvm.fshl.i")
def _(mc, a, fn):
    w = _suffix_w(fn)
    s = a[2]
    if s.__class__ is not int:
        raise AnalysisError("abstract funnel shift")
    s %= w
    v = bits(a[1], w) + bits(a[0], w)
    return mk(v[w - s:2 * w - s])


@fmodel("llvm.fshr.i")
def _(mc, a, fn):
    w = _suffix_w(fn)
    s = a[2] % w
    v = bits(a[1], w) + bits(a[0], w)
    return mk(v[s:s + w])


for _p in ("umin", "umax", "smin", "smax"):
    def _mm(mc, a, fn, p=_p):
        w = _suffix_w(fn)
        c = icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[p], a[0], a[1], w)
        return select(c, a[0], a[1], w)
    mx.PREFIX_MODELS.append(("llvm.%s.i" % _p, (_mm,)))


@fmodel("llvm.abs.i")
def _(mc, a, fn):
    return mx._absw(a[0], _suffix_w(fn))


def _ovf(kind):
    def f(mc, a, fn):
        w = _suffix_w(fn)
        x, y = a
        if x.__class__ is int and y.__class__ is int:
            if kind[0] == 's':
                X, Y = mx._s(x, w), mx._s(y, w)
            else:
                X, Y = x, y
            r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[kind[1:]]
            t = r & M[w]
            tt = mx._s(t, w) if kind[0] == 's' else t
            return (t, 1 if tt != r else 0)
        if kind == 'umul' and (x.__class__ is int or y.__class__ is int):
            p = zext(x, w, 2 * w) * zext(y, w, 2 * w)
            hi = mk(bits(p, 2 * w)[w:])
            return (trunc(p, w), icmp('ne', hi, 0, w))
        if kind == 'uadd':
            p = addc(zext(x, w, w + 1), zext(y, w, w + 1), 0, w + 1)
            return (trunc(p, w), mk((bits(p, w + 1)[w],)))
        raise AnalysisError("abstract overflow arithmetic")
    return f


for _k in ("uadd", "sadd", "usub", "ssub", "umul", "smul"):
    mx.PREFIX_MODELS.append(("llvm.%s.with.overflow.i" % _k, (_ovf(_k),)))

model("llvm.threadlocal.address.p0")(lambda mc, a: a[0])
model("llvm.stacksave.p0", "llvm.stacksave")(lambda mc, a: 0)
model("llvm.stackrestore.p0", "llvm.stackrestore")(lambda mc, a: None)
model("llvm.trap")(lambda mc, a: _dead("trap"))
model("llvm.expect.i64", "llvm.expect.i1", "llvm.expect.i32")(lambda mc, a: a[0])
fmodel("llvm.is.constant")(lambda mc, a, fn: 0)
fmodel("llvm.objectsize")(lambda mc, a, fn: M[64])
fmodel("llvm.va_")(lambda mc, a, fn: None)


def _dead(msg):
    raise Dead(msg)


# ------------------------------------------------------------------ memory
@model("memcpy", "__memcpy_chk")
@model("llvm.memcpy.p0.p0.i64", "llvm.memcpy.p0.p0.i32", "llvm.memcpy.inline.p0.p0.i64")
def _(mc, a):
    mc.memcpy(a[0], a[1], a[2])
    return a[0]


@model("llvm.memmove.p0.p0.i64", "memmove")
def _(mc, a):
    mc.memcpy(a[0], a[1], a[2], move=True)
    return a[0]


@model("llvm.memset.p0.i64", "memset")
def _(mc, a):
    mc.memset(a[0], a[1], a[2])
    return a[0]


@model("memcmp", "bcmp")
def _(mc, a):
    n = a[2]
    if n == 0:
        return 0
    r = 0
    D = Sym.D
    # sign of first differing byte
    for k in range(n - 1, -1, -1):
        x, y = mc.load(a[0] + k, 1), mc.load(a[1] + k, 1)
        ne = icmp('ne', x, y, 8)
        lt = icmp('ult', x, y, 8)
        r = select(ne, select(lt, M[32], 1, 32), r, 32)
    return r


@model("strlen")
def _(mc, a):
    return len(mc.cstr(a[0]))


@model("strcmp")
def _(mc, a):
    x, y = mc.cstr(a[0]), mc.cstr(a[1])
    return 0 if x == y else (1 if x > y else M[32])


# ------------------------------------------------------------------ C strings (concrete text)
def _cmp(x, y):
    return 0 if x == y else (1 if x > y else M[32])


@model("strncmp")
def _(mc, a):
    n = a[2]
    if n.__class__ is not int:
        raise AnalysisError("abstract length")
    for i in range(n):
        x, y = mc.load(a[0] + i, 1), mc.load(a[1] + i, 1)
        if x.__class__ is not int or y.__class__ is not int:
            raise AnalysisError("abstract string")
        if x != y:
            return _cmp(x, y)
        if x == 0:
            break
    return 0


@model("strcasecmp")
def _(mc, a):
    return _cmp(mc.cstr(a[0]).lower(), mc.cstr(a[1]).lower())


def putstr(mc, p, t):
    for k, c in enumerate(t.encode("latin1") + b"\0"):
        mc.store(p + k, c, 1)


@model("strcpy")
def _(mc, a):
    putstr(mc, a[0], mc.cstr(a[1]))
    return a[0]


@model("stpcpy")
def _(mc, a):
    t = mc.cstr(a[1])
    putstr(mc, a[0], t)
    return a[0] + len(t)


@model("strncpy")
def _(mc, a):
    t = b""
    for i in range(a[2]):
        b = mc.load(a[1] + i, 1)
        if b.__class__ is not int:
            raise AnalysisError("abstract string")
        if b == 0:
            break
        t += bytes([b])
    for k, c in enumerate(t.ljust(a[2], b"\0")):
        mc.store(a[0] + k, c, 1)
    return a[0]


@model("strcat")
def _(mc, a):
    putstr(mc, a[0] + len(mc.cstr(a[0])), mc.cstr(a[1]))
    return a[0]


@model("strchr", "_Z6strchrPci", "_Z6strchrPKci")
def _(mc, a):
    t = mc.cstr(a[0]) + "\0"
    i = t.find(chr(a[1] & 255))
    return 0 if i < 0 else a[0] + i


@model("strrchr")
def _(mc, a):
    t = mc.cstr(a[0]) + "\0"
    i = t.rfind(chr(a[1] & 255))
    return 0 if i < 0 else a[0] + i


@model("strstr")
def _(mc, a):
    i = mc.cstr(a[0]).find(mc.cstr(a[1]))
    return 0 if i < 0 else a[0] + i


@model("strspn")
def _(mc, a):
    t, u = mc.cstr(a[0]), mc.cstr(a[1])
    return next((i for i, c in enumerate(t) if c not in u), len(t))


@model("strcspn")
def _(mc, a):
    t, u = mc.cstr(a[0]), mc.cstr(a[1])
    return next((i for i, c in enumerate(t) if c in u), len(t))


def _strto(signed, bits_):
    def f(mc, a):
        import re
        t = mc.cstr(a[0])
        base = a[2] if len(a) > 2 else 10
        pat = r"\s*[+-]?(0[xX][0-9a-fA-F]+|[0-9a-zA-Z]+)"
        if base == 10:
            pat = r"\s*[+-]?[0-9]+"
        elif base == 16:
            pat = r"\s*[+-]?(0[xX])?[0-9a-fA-F]+"
        elif base == 8:
            pat = r"\s*[+-]?[0-7]+"
        elif base == 2:
            pat = r"\s*[+-]?[01]+"
        elif base == 0:
            pat = r"\s*[+-]?(0[xX][0-9a-fA-F]+|[0-9]+)"
        m = re.match(pat, t)
        if len(a) > 1 and a[1]:
            mc.store(a[1], a[0] + (m.end() if m else 0), 8)
        if not m:
            return 0
        tok = m.group(0).strip()
        if base == 0:
            v = int(tok, 16) if "x" in tok.lower() else (int(tok, 8) if len(tok.lstrip("+-")) > 1 and tok.lstrip("+-")[0] == "0" else int(tok))
        else:
            v = int(tok, base)
        lo, hi = (-(1 << 63), (1 << 63) - 1) if signed else (-(1 << 64) + 1, (1 << 64) - 1)
        return max(lo, min(hi, v)) & M[bits_]
    return f


model("strtol", "strtoll", "__isoc23_strtol", "__isoc23_strtoll")(_strto(True, 64))
model("strtoul", "strtoull", "__isoc23_strtoul", "__isoc23_strtoull")(_strto(False, 64))
model("atoi")(lambda mc, a: _strto(True, 32)(mc, (a[0],)))
model("atol", "atoll")(lambda mc, a: _strto(True, 64)(mc, (a[0],)))


def _ctype(f):
    def g(mc, a):
        if a[0].__class__ is not int:
            raise AnalysisError("abstract character")
        c = a[0] & M[32]
        return 1 if c < 128 and f(chr(c)) else 0
    return g


for _n, _f in (("isspace", lambda c: c in " \t\n\v\f\r"), ("isdigit", lambda c: c in "0123456789"), ("isalpha", str.isalpha), ("isalnum", str.isalnum), ("isupper", str.isupper),
               ("islower", str.islower), ("isxdigit", lambda c: c in "0123456789abcdefABCDEF"), ("isprint", lambda c: 32 <= ord(c) < 127), ("ispunct", lambda c: 32 < ord(c) < 127 and not c.isalnum())):
    model(_n)(_ctype(_f))
model("toupper")(lambda mc, a: ord(chr(a[0]).upper()) if a[0].__class__ is int and a[0] < 128 else a[0])
model("tolower")(lambda mc, a: ord(chr(a[0]).lower()) if a[0].__class__ is int and a[0] < 128 else a[0])
model("abs")(lambda mc, a: (-a[0] & M[32]) if a[0] >> 31 else a[0])
model("labs", "llabs")(lambda mc, a: (-a[0] & M[64]) if a[0] >> 63 else a[0])


def cformat(mc, fmt, args):
    """printf-style formatting of concrete arguments"""
    import re
    out, k, pos = "", 0, 0
    for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diuxXcsp%])", fmt):
        if "%" in fmt[pos:m.start()]:
            raise AnalysisError("printf format %r" % fmt)
        out += fmt[pos:m.start()]
        pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == "%":
            out += "%"
            continue
        if w == "*":
            w = str(args[k])
            k += 1
        if pr == "*":
            pr = str(args[k])
            k += 1
        v = args[k]
        k += 1
        if v.__class__ is not int:
            raise AnalysisError("abstract value formatted")
        if cv == "s":
            out += ("%" + fl + (w or "") + ("." + pr if pr else "") + "s") % mc.cstr(v)
            continue
        n = {"hh": 8, "h": 16, None: 32}.get(ln, 64)
        v &= M[n]
        if cv == "c":
            out += ("%" + fl.replace("0", "") + (w or "") + "s") % chr(v & 255)
            continue
        if cv in "di" and v >> (n - 1):
            v -= 1 << n
        out += ("%" + fl + (w or "") + ("." + pr if pr else "") + {"u": "d", "i": "d", "p": "x"}.get(cv, cv)) % v
    if "%" in fmt[pos:]:
        raise AnalysisError("printf format %r" % fmt)
    return out + fmt[pos:]


@model("snprintf")
def _(mc, a):
    t = cformat(mc, mc.cstr(a[2]), a[3:])
    if a[1]:
        putstr(mc, a[0], t[:a[1] - 1])
    return len(t)


@model("sprintf")
def _(mc, a):
    t = cformat(mc, mc.cstr(a[1]), a[2:])
    putstr(mc, a[0], t)
    return len(t)



@model("memchr")
def _(mc, a):
    for k in range(a[2]):
        if mc.load(a[0] + k, 1) == (a[1] & 255):
            return a[0] + k
    return 0


def _alloc(kind):
    def f(mc, a):
        n = a[0]
        if n.__class__ is not int:
            raise AnalysisError("allocation of abstract size")
        if n >= 1 << 31:
            raise Bug("absurd allocation", "%d bytes" % n)
        st = mc.stack()[:1]
        return mc.new_obj(n, "%s@%s:%d" % (kind, st[0][1].split('/')[-1], st[0][2]) if st else kind, kind)
    return f


model("_Znwm", "_ZnwmSt11align_val_t")(_alloc("heap"))
model("_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t")(_alloc("array"))
model("malloc")(_alloc("malloc"))
model("aligned_alloc")(lambda mc, a: _alloc("malloc")(mc, (a[1],)))


@model("_ZnwmRKSt9nothrow_t")
def _(mc, a):
    return _alloc("heap")(mc, a)


@model("calloc")
def _(mc, a):
    p = _alloc("malloc")(mc, (a[0] * a[1],))
    mc.objs[p >> 32].default = 0
    return p


model("_ZdlPv", "_ZdlPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t")(lambda mc, a: mc.free(a[0], 'delete'))
model("_ZdaPv", "_ZdaPvm", "_ZdaPvmSt11align_val_t", "_ZdaPvSt11align_val_t")(lambda mc, a: mc.free(a[0], 'delete[]'))
model("free")(lambda mc, a: mc.free(a[0], 'free'))


@model("posix_memalign")
def _(mc, a):
    p = _alloc("malloc")(mc, (a[2],))
    mc.store(a[0], p, 8)
    return 0


# ------------------------------------------------------------------ runtime
model("__cxa_atexit", "__cxa_thread_atexit")(lambda mc, a: 0)


@model("__cxa_guard_acquire")
def _(mc, a):
    return 1 if mc.load(a[0], 1) == 0 else 0


model("__cxa_guard_release")(lambda mc, a: mc.store(a[0], 1, 1))
model("__cxa_allocate_exception")(lambda mc, a: mc.new_obj(a[0], "exception", "global", default=0))


@model("__cxa_throw")
def _(mc, a):
    raise mx.Throw(a[0], a[1], mc.gvname(a[1]) or "")


@model("__cxa_begin_catch")
def _(mc, a):
    mc.__dict__.setdefault("_catching", []).append(a[0])
    return a[0]


@model("__cxa_end_catch")
def _(mc, a):
    c = mc.__dict__.get("_catching")
    if c:
        c.pop()


@model("__cxa_rethrow")
def _(mc, a):
    c = mc.__dict__.get("_catching")
    ex = mc.excs.get(c[-1]) if c else None
    if ex is None:
        _dead("exception")
    raise mx.Throw(ex.ptr, ex.ti, str(ex))


@model("_ZSt17current_exceptionv")
def _(mc, a):
    c = mc.__dict__.get("_catching")
    mc.store(a[0], c[-1] if c else 0, 8)


@model("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")
def _(mc, a):
    ex = mc.excs.get(mc.load(a[0], 8))
    if ex is None:
        _dead("exception")
    raise mx.Throw(ex.ptr, ex.ti, str(ex))


model("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", "_ZNSt15__exception_ptr13exception_ptrD1Ev")(lambda mc, a: None)
model("_ZNSt15__exception_ptr13exception_ptrC1ERKS0_")(lambda mc, a: mc.store(a[0], mc.load(a[1], 8), 8))


@model("_ZNSt15__exception_ptr13exception_ptraSERKS0_", "_ZNSt15__exception_ptr13exception_ptraSEOS0_")
def _(mc, a):
    mc.store(a[0], mc.load(a[1], 8), 8)
    return a[0]


model("llvm.eh.typeid.for", "llvm.eh.typeid.for.p0")(lambda mc, a: mc.typeid(a[0]))
model("__cxa_free_exception")(lambda mc, a: None)
model("_ZSt9terminatev", "__clang_call_terminate", "__cxa_bad_cast", "__cxa_pure_virtual", "__cxa_throw_bad_array_new_length")(lambda mc, a: _dead("exception"))
prefix_model("_ZSt20__throw", "_ZSt19__throw", "_ZSt17__throw", "_ZSt21__throw", "_ZSt24__throw", "_ZSt28__throw", "_ZSt25__throw", "_ZSt16__throw", "_ZSt18__throw", "_ZSt22__throw", "_ZSt23__throw", "_ZSt26__throw")(lambda mc, a: _dead("exception"))
model("_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")(lambda mc, a: None)


@model("__assert_fail")
def _(mc, a):
    _dead("assertion %s failed" % mc.cstr(a[0]))


@model("exit", "_exit", "_Exit", "quick_exit")
def _(mc, a):
    if a[0].__class__ is not int:
        raise AnalysisError("exit with an abstract status")
    if not a[0] & 255:
        raise Bug("stop looks like success", "the program ends with exit status 0 although it could not do what was asked")
    _dead("exit")


@model("abort")
def _(mc, a):
    _dead("exit")


model("perror", "puts", "putchar", "fputs", "fputc", "printf", "fprintf", "vfprintf", "usleep", "sleep", "srand")(lambda mc, a: 0)
prefix_model("_ZNSo", "_ZStls", "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_insert", "_ZN3empls")(lambda mc, a: a[0] if a else 0)
prefix_model("_ZNSt8ios_base4InitC", "_ZNSt8ios_base4InitD")(lambda mc, a: None)


# ------------------------------------------------------------------ randomness
@model("_ZNSt13random_device9_M_getvalEv")
def _(mc, a):
    n = mc.__dict__.setdefault("entropy", [])
    w = mc.word("entropy%d" % len(n), 32)
    n.append(w)
    return w


@model("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")
def _(mc, a):
    src = None
    try:
        p = mc.load(a[1], 8)
        n = mc.load(a[1] + 8, 8)
        src = bytes(mc.load(p + i, 1) for i in range(n)).decode()
    except Exception:
        pass
    mc.__dict__.setdefault("entropy_src", []).append(src)


model("_ZNSt13random_device7_M_finiEv")(lambda mc, a: None)
# ------------------------------------------------------------------ specification calls
@model("vx_param")
def _(mc, a):
    n = mc.cstr(a[0])
    if n not in mc.params:
        raise AnalysisError("unset context parameter %s" % n)
    return mc.params[n] & M[64]


@model("vx_sym")
def _(mc, a):
    """fresh (named) word: vx_sym(name, index, width) -> u64"""
    w = a[2]
    return zext(mc.word("%s%d" % (mc.cstr(a[0]), a[1]), w), w, 64)


@model("vx_fill")
def _(mc, a):
    """fill memory with named symbols: vx_fill(ptr, nbytes, name)"""
    n = mc.cstr(a[2])
    for k in range(a[1]):
        mc.store(a[0] + k, mc.word("%s[%d]" % (n, k), 8), 1)


@model("vx_fill2")
def _(mc, a):
    """fill two buffers with interleaved symbols (variable order)"""
    n, m = mc.cstr(a[3]), mc.cstr(a[4])
    for k in range(a[2]):
        x, y = [], []
        for i in range(8):
            x.append(mc.D.var("%s[%d].%d" % (n, k, i)))
            y.append(mc.D.var("%s[%d].%d" % (m, k, i)))
        mc.store(a[0] + k, mk(tuple(x)), 1)
        mc.store(a[1] + k, mk(tuple(y)), 1)


@model("vx_check_eq")
def _(mc, a):
    """obligation: two memory areas are equal.  vx_check_eq(p, q, n, label)"""
    lab = mc.cstr(a[3])
    n = a[2]
    bad = None
    for k in range(n):
        x, y = mc.load(a[0] + k, 1), mc.load(a[1] + k, 1)
        if x.__class__ is y.__class__ and x == y:
            continue
        for i, (p, q) in enumerate(zip(bits(x, 8), bits(y, 8))):
            if p != q:
                e = mc.D.not_(mc.D.xor(p, q))
                t = mc.D.and_(mc.D.and_(mc.assume, mc.pc), mc.D.not_(e)) if (mc.assume != 1 or mc.pc != 1) else 2
                if t != 0:
                    bad = (k, i, p, q, e)
                    break
        if bad:
            break
    if bad is None:
        mc.obl.append((lab, True, None, None))
    else:
        k, i, p, q, e = bad
        D = mc.D
        mc.obligation(lab, e, lambda: "byte %d bit %d is %s, specification says %s" % (k, i, D.show(p), D.show(q)))
    return 0


@model("vx_check")
def _(mc, a):
    lab = mc.cstr(a[1])
    c = a[0]
    b = bits(c, 1 if c.__class__ is int else len(c.b))[0]
    mc.obligation(lab, b, "condition is %s" % mc.D.show(b))
    return 0


@model("vx_assume")
def _(mc, a):
    c = a[0]
    b = bits(c, 1 if c.__class__ is int else len(c.b))[0]
    mc.assume = mc.D.and_(mc.assume, b)
    if mc.assume == 0:
        raise AnalysisError("contradictory assumption in harness")


@model("vx_out")
def _(mc, a):
    """hand an area to the checker: vx_out(tag, index, ptr, n)"""
    mc.outs.append((mc.cstr(a[0]), a[1], [mc.load(a[2] + k, 1) for k in range(a[3])]))


@model("vx_note")
def _(mc, a):
    mc.outs.append((mc.cstr(a[0]), a[1], a[2]))


@model("vx_aes")
def _(mc, a):
    """FIPS-197: vx_aes(out, key, in)"""
    mc.store(a[0], fips_encrypt(mc, mc.load(a[1], 16), mc.load(a[2], 16)), 16)


@model("vx_aes_keys")
def _(mc, a):
    for i, k in enumerate(fips_keys(mc, mc.load(a[1], 16))):
        mc.store(a[0] + 16 * i, k, 16)


@model("vx_buf")
def _(mc, a):
    """vx_buf(n, skew): n usable bytes at an address = skew mod 64, nothing beyond"""
    n, skew = a
    p = mc.new_obj(n + skew, "buffer", "harness")
    mc.guard = mc.__dict__.setdefault("guard", {})
    mc.guard[p >> 32] = skew
    return p + skew


@model("vx_writable")
def _(mc, a):
    """seal every object except those listed? not used"""
    return 0


# ------------------------------------------------------------------ libm on constants
def _libm(name, f, n=1):
    import struct
    @model(name)
    def _(mc, a):
        if any(x.__class__ is not int for x in a[:n]):
            return mc.opaque(name, tuple(a[:n]), 64)
        v = [struct.unpack("<d", struct.pack("<Q", x & M[64]))[0] for x in a[:n]]
        try:
            r = f(*v)
        except (ValueError, ZeroDivisionError):
            r = float("nan") if not (name.startswith("log") and v[0] == 0) else float("-inf")
        except OverflowError:
            r = float("inf")
        return struct.unpack("<Q", struct.pack("<d", float(r)))[0]


import math as _math
for _n, _f in (("log2", _math.log2), ("log", _math.log), ("log10", _math.log10), ("ceil", lambda x: float(_math.ceil(x)) if _math.isfinite(x) else x),
               ("floor", lambda x: float(_math.floor(x)) if _math.isfinite(x) else x), ("sqrt", _math.sqrt), ("exp2", lambda x: 2.0 ** x),
               ("round", lambda x: float(_math.floor(x + 0.5)) if x >= 0 else -float(_math.floor(0.5 - x))), ("trunc", lambda x: float(_math.trunc(x))), ("fabs", abs), ("exp", _math.exp)):
    _libm(_n, _f)
    _libm("llvm.%s.f64" % _n, _f)
_libm("pow", lambda x, y: x ** y, 2)
_libm("llvm.pow.f64", lambda x, y: x ** y, 2)
_libm("fmod", _math.fmod, 2)
_libm("fmin", min, 2)
_libm("fmax", max, 2)


def _hook(mc, a):
    n, pos = a[0], a[1]
    pv = mc.load(pos + 8, 8)
    mc.store(n, pos, 8)
    mc.store(n + 8, pv, 8)
    mc.store(pv, n, 8)
    mc.store(pos + 8, n, 8)


def _unhook(mc, a):
    nx, pv = mc.load(a[0], 8), mc.load(a[0] + 8, 8)
    mc.store(pv, nx, 8)
    mc.store(nx + 8, pv, 8)


model("_ZNSt8__detail15_List_node_base7_M_hookEPS0_")(_hook)
model("_ZNSt8__detail15_List_node_base9_M_unhookEv")(_unhook)


@model("vx_heap_mark")
def _(mc, a):
    mc.heap_mark = set(o.oid for o in mc.objs.values() if o.kind in ("heap", "array", "malloc") and not o.dead)


@model("vx_heap_same")
def _(mc, a):
    """no allocation made since the mark is left"""
    lab = mc.cstr(a[0])
    left = [o for o in mc.objs.values() if o.kind in ("heap", "array", "malloc") and not o.dead and o.oid not in mc.heap_mark]
    mc.obl.append((lab, not left, ("never released: %s" % ", ".join("%s (%d bytes)" % (o.name, o.size) for o in left[:3]), None), mc.stack()[:6]))
