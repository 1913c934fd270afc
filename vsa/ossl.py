"""libcrypto as the library sees it: ownership of contexts, digests and ciphers as
uninterpreted functions of the bytes given, curve points and integers as terms."""
from .machine import Bug, Dead
from . import machine as mx, models as bm
from .ir import AnalysisError, M
from .dom import Sym, mk, bits


class Res:
    def __init__(self, kind):
        self.kind = kind
        self.live = True
        self.v = None
        self.alg = None
        self.data = None


def table(mc):
    return mc.__dict__.setdefault("ossl", {})


def new(mc, kind, v=None):
    p = mc.new_obj(64, kind, "ossl")
    r = table(mc)[p] = Res(kind)
    r.v = v
    st = [x for x in mc.stack() if not x[1].startswith("/usr/")][:1]
    r.where = "%s:%d" % (st[0][1].split("/")[-1], st[0][2]) if st else "?"
    return p


def get(mc, p, kind, what):
    if p.__class__ is not int:
        raise AnalysisError("abstract library object")
    r = table(mc).get(p)
    if p == 0:
        raise Bug("null object", "%s on a null pointer" % what)
    if r is None or r.kind != kind:
        raise Bug("invalid object", "%s on something that is not a %s" % (what, kind))
    if not r.live:
        raise Bug("use after release", "%s on a released %s" % (what, kind))
    return r


def free(kind, owned=True):
    def f(mc, a):
        if a[0] == 0:
            return None
        r = table(mc).get(a[0])
        if r is None or r.kind != kind:
            raise Bug("invalid release", "release of something that is not a %s" % kind)
        if not r.live:
            raise Bug("released twice", "a %s is released twice" % kind)
        if getattr(r, "borrowed", False):
            raise Bug("invalid release", "release of a %s owned by the library" % kind)
        r.live = False
        return None
    return f


def rd(mc, p, n):
    if n.__class__ is not int:
        raise Bug("data-dependent length", "the number of bytes handed to the library depends on the contents of memory the caller provides")
    if n:
        mc.check(p, n, "read")
    return [mc.load(p + i, 1) for i in range(n)]


def key(x):
    return x.b if x.__class__ is Sym else x


def models():
    R = {}

    def reg(*names):
        def d(f):
            for n in names:
                R[n] = f
            return f
        return d

    # ------------------------------------------------------------ digests
    def digfails(mc, what):
        k = mc.__dict__.setdefault("digcalls", 0)
        mc.digcalls += 1
        if mc.params.get("dig_fail_at") == k:
            mc.digfailed = what
            return True
        return False
    R["EVP_MD_CTX_new"] = R["EVP_MD_CTX_create"] = lambda mc, a: 0 if digfails(mc, "EVP_MD_CTX_new") else new(mc, "digest context")
    R["EVP_MD_CTX_free"] = R["EVP_MD_CTX_destroy"] = free("digest context")
    for n in ("sha256", "sha3_256", "sha1", "sha512", "sha384", "md5"):
        R["EVP_" + n] = lambda mc, a, n=n: alg(mc, n)

    def alg(mc, n):
        t = mc.__dict__.setdefault("algs", {})
        if n not in t:
            t[n] = new(mc, "algorithm", n)
            table(mc)[t[n]].borrowed = True
        return t[n]
    SIZE = dict(sha256=32, sha3_256=32, sha1=20, sha512=64, sha384=48, md5=16)

    @reg("EVP_DigestInit_ex", "EVP_DigestInit", "EVP_DigestInit_ex2")
    def _(mc, a):
        r = get(mc, a[0], "digest context", "EVP_DigestInit")
        if digfails(mc, "EVP_DigestInit"):
            return 0
        if a[1]:
            r.alg = get(mc, a[1], "algorithm", "EVP_DigestInit").v
        if r.alg is None:
            return 0
        r.data = []
        return 1

    def giant(mc, r, p, n):
        r.data.append((p, n))

    @reg("EVP_DigestUpdate")
    def _(mc, a):
        r = get(mc, a[0], "digest context", "EVP_DigestUpdate")
        if digfails(mc, "EVP_DigestUpdate"):
            return 0
        if r.data is None:
            raise Bug("digest state", "data added to a digest that is finished or not initialised")
        if a[1] >= 1 << 60 and a[2]:
            r.data.append(("range", a[1], a[2]))
            return 1
        r.data += [key(x) for x in rd(mc, a[1], a[2])]
        return 1

    def digest(mc, alg, data):
        n = SIZE[alg]
        # consecutive ranges of the huge area are one range
        d = []
        for x in data:
            if d and x.__class__ is tuple and x and x[0] == "range" and d[-1].__class__ is tuple and d[-1] and d[-1][0] == "range" and d[-1][1] + d[-1][2] == x[1]:
                d[-1] = ("range", d[-1][1], d[-1][2] + x[2])
            else:
                d.append(x)
        return mc.opaque(alg, tuple(d), 8 * n)

    @reg("EVP_DigestFinal_ex", "EVP_DigestFinal")
    def _(mc, a):
        r = get(mc, a[0], "digest context", "EVP_DigestFinal")
        if digfails(mc, "EVP_DigestFinal"):
            return 0
        if r.data is None:
            raise Bug("digest state", "EVP_DigestFinal on a digest that is finished or not initialised")
        v = digest(mc, r.alg, r.data)
        r.data = None
        n = SIZE[r.alg]
        mc.check(a[1], n, "write")
        mc.store(a[1], v, n)
        if len(a) > 2 and a[2]:
            mc.store(a[2], n, 4)
        return 1

    @reg("EVP_Digest")
    def _(mc, a):
        al = get(mc, a[4], "algorithm", "EVP_Digest").v
        v = digest(mc, al, [key(x) for x in rd(mc, a[0], a[1])])
        mc.check(a[2], SIZE[al], "write")
        mc.store(a[2], v, SIZE[al])
        if a[3]:
            mc.store(a[3], SIZE[al], 4)
        return 1

    @reg("EVP_MD_CTX_reset", "EVP_MD_CTX_init")
    def _(mc, a):
        r = get(mc, a[0], "digest context", "EVP_MD_CTX_reset")
        r.data = r.alg = None
        return 1
    R["EVP_MD_get_size"] = R["EVP_MD_size"] = lambda mc, a: SIZE[get(mc, a[0], "algorithm", "EVP_MD_size").v]

    @reg("SHA256")
    def _(mc, a):
        v = digest(mc, "sha256", [key(x) for x in rd(mc, a[0], a[1])])
        mc.store(a[2], v, 32)
        return a[2]

    @reg("vx_digest")
    def _(mc, a):
        """vx_digest(out, alg, data, n): specification"""
        al = mc.cstr(a[1])
        d = [key(x) for x in rd(mc, a[2], a[3])] if a[2] < 1 << 60 else [("range", a[2], a[3])]
        mc.store(a[0], digest(mc, al, d), SIZE[al])

    @reg("vx_digest_range")
    def _(mc, a):
        """vx_digest_range(out, alg, pre, npre, base, n): bytes followed by a huge range"""
        al = mc.cstr(a[1])
        mc.store(a[0], digest(mc, al, [key(x) for x in rd(mc, a[2], a[3])] + [("range", a[4], a[5])]), SIZE[al])

    # ------------------------------------------------------------ ciphers
    R["EVP_CIPHER_CTX_new"] = lambda mc, a: new(mc, "cipher context")
    R["EVP_CIPHER_CTX_free"] = free("cipher context")
    R["EVP_CIPHER_CTX_reset"] = lambda mc, a: (setattr(get(mc, a[0], "cipher context", "reset"), "data", None), 1)[1]
    for n in ("aes_128_ctr", "aes_128_ecb", "aes_128_cbc", "aes_256_ctr", "aes_192_ctr", "aes_128_ofb", "aes_128_cfb128"):
        R["EVP_" + n] = lambda mc, a, n=n: alg(mc, n)

    def fails(mc, what):
        k = mc.__dict__.setdefault("evpcalls", 0)
        mc.evpcalls += 1
        if mc.params.get("evp_fail_at") == k:
            mc.evpfailed = what
            return True
        return False

    @reg("EVP_EncryptInit_ex", "EVP_EncryptInit_ex2", "EVP_CipherInit_ex")
    def _(mc, a):
        r = get(mc, a[0], "cipher context", "EVP_EncryptInit_ex")
        if fails(mc, "EVP_EncryptInit_ex"):
            return 0
        if a[1]:
            r.alg = get(mc, a[1], "algorithm", "EVP_EncryptInit_ex").v
        if r.alg != "aes_128_ctr":
            raise AnalysisError("no model for cipher %s" % r.alg)
        if a[3]:
            r.key = mc.load(a[3], 16)
        if a[4]:
            iv = [mc.load(a[4] + i, 1) for i in range(16)]
            # big-endian counter as a 128-bit word
            r.ctr = mx.pack(iv[::-1], 8)
            r.pos = 0
        r.data = True
        return 1

    def stream(mc, r, pos):
        """keystream byte"""
        return ctrbyte(mc, r.key, r.ctr, pos)

    def ctrbyte(mc, k, ctr, pos):
        cache = mc.__dict__.setdefault("ctrcache", {})
        q = (key(k), key(ctr), pos // 16)
        blk = cache.get(q)
        if blk is None:
            c = ctr
            if pos // 16:
                c = (ctr + pos // 16) & M[128] if ctr.__class__ is int else ctr + pos // 16
            inb = mx.pack(mx.lanes(c, 16, 8)[::-1], 8)
            if k.__class__ is int and inb.__class__ is int:
                blk = bm.fips_encrypt(mc, k, inb)
            else:
                blk = mc.opaque("aes", (key(k), key(inb)), 128)
            cache[q] = blk
        return mx.lanes(blk, 16, 8)[pos % 16]

    @reg("EVP_EncryptUpdate", "EVP_CipherUpdate")
    def _(mc, a):
        r = get(mc, a[0], "cipher context", "EVP_EncryptUpdate")
        if not r.data:
            raise Bug("cipher state", "EVP_EncryptUpdate without initialisation")
        n = a[4] & M[32]
        if n >= 1 << 31:
            mc.evpfailed = "negative length"
            return 0
        if fails(mc, "EVP_EncryptUpdate"):
            return 0
        if a[1] >= 1 << 60:
            mc.__dict__.setdefault("ctrranges", []).append((a[1], a[3], n, r.pos))
            r.pos += n
            mc.store(a[2], n, 4)
            return 1
        if n:
            mc.check(a[3], n, "read")
            mc.check(a[1], n, "write")
        out, inp = a[1], a[3]
        if n and (out >> 32) == (inp >> 32) and out != inp and abs(out - inp) < n:
            raise Bug("overlap", "EVP_EncryptUpdate with partially overlapping buffers")
        for i in range(n):
            x = mc.load(inp + i, 1) ^ stream(mc, r, r.pos + i)
            mc.store(out + i, x, 1)
        r.pos += n
        mc.store(a[2], n, 4)
        return 1

    @reg("EVP_EncryptFinal_ex", "EVP_EncryptFinal", "EVP_CipherFinal_ex")
    def _(mc, a):
        r = get(mc, a[0], "cipher context", "EVP_EncryptFinal")
        if not r.data:
            raise Bug("cipher state", "EVP_EncryptFinal without initialisation")
        if fails(mc, "EVP_EncryptFinal_ex"):
            return 0
        mc.store(a[2], 0, 4)
        return 1

    @reg("vx_ctr")
    def _(mc, a):
        """vx_ctr(out, key, iv, firstbyte, n, &plus): keystream bytes of AES-CTR from byte position 16*plus+firstbyte"""
        k = mc.load(a[1], 16)
        iv = [mc.load(a[2] + i, 1) for i in range(16)]
        ctr = mx.pack(iv[::-1], 8)
        plus = mc.load(a[5], 8)
        if plus.__class__ is not int:
            plus = Sym(plus.b + (0,) * 64)
        if plus != 0:
            ctr = ctr + plus
            if ctr.__class__ is int:
                ctr &= M[128]
        for i in range(a[4]):
            mc.store(a[0] + i, ctrbyte(mc, k, ctr, a[3] + i), 1)

    # ------------------------------------------------------------ big integers
    def bn(mc, p, what):
        return get(mc, p, "big integer", what)
    R["BN_new"] = R["BN_secure_new"] = lambda mc, a: new(mc, "big integer", ("0",))
    R["BN_free"] = R["BN_clear_free"] = free("big integer")
    R["BN_CTX_new"] = R["BN_CTX_secure_new"] = lambda mc, a: new(mc, "BN context", 0)
    R["BN_CTX_free"] = free("BN context")

    @reg("BN_copy")
    def _(mc, a):
        d, s = bn(mc, a[0], "BN_copy"), bn(mc, a[1], "BN_copy")
        d.v = s.v
        return a[0]

    @reg("BN_dup")
    def _(mc, a):
        return 0 if a[0] == 0 else new(mc, "big integer", bn(mc, a[0], "BN_dup").v)

    @reg("BN_swap")
    def _(mc, a):
        x, y = bn(mc, a[0], "BN_swap"), bn(mc, a[1], "BN_swap")
        x.v, y.v = y.v, x.v

    def ctxok(mc, p, what, null=False):
        if p == 0 and null:
            return
        get(mc, p, "BN context", what)

    def bnop(name, nin, ctx, comm):
        def f(mc, a):
            r = bn(mc, a[0], name)
            xs = [bn(mc, p, name).v for p in a[1:1 + nin]]
            if ctx:
                ctxok(mc, a[1 + nin], name)
            if comm:
                xs[:2] = sorted(xs[:2], key=repr)
            r.v = (name,) + tuple(xs)
            return 1
        R[name] = f
    bnop("BN_add", 2, False, True)
    bnop("BN_sub", 2, False, False)
    bnop("BN_mul", 2, True, True)
    bnop("BN_mod_add", 3, True, True)
    bnop("BN_mod_sub", 3, True, False)
    bnop("BN_mod_mul", 3, True, True)
    bnop("BN_mod_exp", 3, True, False)
    bnop("BN_nnmod", 2, True, False)
    bnop("BN_mod_add_quick", 3, False, True)

    @reg("BN_div")
    def _(mc, a):
        x, y = bn(mc, a[2], "BN_div").v, bn(mc, a[3], "BN_div").v
        ctxok(mc, a[4], "BN_div")
        if a[0]:
            bn(mc, a[0], "BN_div").v = ("BN_quot", x, y)
        if a[1]:
            bn(mc, a[1], "BN_div").v = ("BN_mod", x, y)
        return 1

    @reg("BN_cmp", "BN_ucmp")
    def _(mc, a):
        return 0 if bn(mc, a[0], "BN_cmp").v == bn(mc, a[1], "BN_cmp").v else 1

    def bnsize(mc, v):
        return 0 if v == ("0",) else v[1] if v[0] == "bytes" else mc.params.get("bn_bits", 255)

    def nbits(mc, v):
        if v == ("0",):
            return 0
        if v[0] == "bytes":
            return 8 * len(v[1])
        return mc.params.get("bn_bits", 255)

    R["BN_num_bits"] = lambda mc, a: nbits(mc, bn(mc, a[0], "BN_num_bits").v)

    @reg("BN_bn2bin", "BN_bn2binpad")
    def _(mc, a):
        v = bn(mc, a[0], "BN_bn2bin").v
        n = (nbits(mc, v) + 7) // 8
        if v[0] == "bytes":
            bs = list(v[1])
        else:
            w = mc.opaque("bn", v, 8 * n) if n else 0
            bs = mx.lanes(w, n, 8) if n else []
            mc.__dict__.setdefault("bnenc", {})[tuple(key(x) for x in bs)] = v
        if n:
            mc.check(a[1], n, "write")
        for i, x in enumerate(bs):
            mc.store(a[1] + i, x if not (x.__class__ is tuple) else Sym(x), 1)
        return n

    @reg("BN_bin2bn")
    def _(mc, a):
        n = a[1]
        bs = tuple(key(x) for x in rd(mc, a[0], n))
        v = mc.__dict__.get("bnenc", {}).get(bs)
        if v is None:
            v = ("bytes", bs) if n else ("0",)
        if a[2]:
            bn(mc, a[2], "BN_bin2bn").v = v
            return a[2]
        return new(mc, "big integer", v)

    @reg("BN_rand_range", "BN_priv_rand_range", "BN_pseudo_rand_range")
    def _(mc, a):
        o = bn(mc, a[1], "BN_rand_range").v
        k = mc.__dict__.setdefault("bnrand", 0)
        mc.bnrand += 1
        bn(mc, a[0], "BN_rand_range").v = ("rand", k, o)
        return 1

    @reg("BN_set_word")
    def _(mc, a):
        bn(mc, a[0], "BN_set_word").v = ("word", a[1]) if a[1] else ("0",)
        return 1

    # ------------------------------------------------------------ curves
    def pt(mc, p, what):
        return get(mc, p, "curve point", what)

    def grp(mc, p, what):
        return get(mc, p, "curve", what)

    @reg("EC_GROUP_new_by_curve_name")
    def _(mc, a):
        g = new(mc, "curve", a[0])
        r = table(mc)[g]
        r.gen = new(mc, "curve point", ("G",))
        table(mc)[r.gen].borrowed = True
        return g

    @reg("EC_GROUP_free", "EC_GROUP_clear_free")
    def _(mc, a):
        if a[0]:
            r = table(mc).get(a[0])
            free("curve")(mc, a)
            table(mc)[r.gen].live = False

    @reg("EC_GROUP_get_order")
    def _(mc, a):
        grp(mc, a[0], "EC_GROUP_get_order")
        bn(mc, a[1], "EC_GROUP_get_order").v = ("order",)
        return 1
    R["EC_GROUP_get0_generator"] = lambda mc, a: grp(mc, a[0], "EC_GROUP_get0_generator").gen
    R["EC_GROUP_precompute_mult"] = lambda mc, a: (grp(mc, a[0], "EC_GROUP_precompute_mult"), 1)[1]

    @reg("EC_POINT_new")
    def _(mc, a):
        grp(mc, a[0], "EC_POINT_new")
        return new(mc, "curve point", ("O",))
    R["EC_POINT_free"] = R["EC_POINT_clear_free"] = free("curve point")

    def ecfails(mc, what):
        k = mc.__dict__.setdefault("eccalls", 0)
        mc.eccalls += 1
        if mc.__dict__.get("ecfailed"):
            raise Bug("failure ignored", "%s failed, but the program goes on to call %s" % (mc.ecfailed, what))
        if mc.params.get("ec_fail_at") == k:
            mc.ecfailed = what
            return True
        return False

    @reg("EC_POINT_copy")
    def _(mc, a):
        d, s = pt(mc, a[0], "EC_POINT_copy"), pt(mc, a[1], "EC_POINT_copy")
        if getattr(d, "borrowed", False):
            raise Bug("shared object", "a point owned by the library is overwritten")
        if ecfails(mc, "EC_POINT_copy"):
            return 0
        d.v = s.v
        return 1

    @reg("EC_POINT_dup")
    def _(mc, a):
        if a[0] == 0:
            return 0
        s = pt(mc, a[0], "EC_POINT_dup")
        grp(mc, a[1], "EC_POINT_dup")
        if ecfails(mc, "EC_POINT_dup"):
            return 0
        return new(mc, "curve point", s.v)

    def padd(x, y):
        if x == ("O",):
            return y
        if y == ("O",):
            return x
        if x == pinv(y):
            return ("O",)
        l = []
        for z in (x, y):
            l += list(z[1]) if z[0] == "sum" else [z]
        return ("sum", tuple(sorted(l, key=repr)))

    def pinv(x):
        if x == ("O",):
            return x
        if x[0] == "neg":
            return x[1]
        if x[0] == "sum":
            return ("sum", tuple(sorted([pinv(z) for z in x[1]], key=repr)))
        return ("neg", x)

    def pmul(k, x):
        if x == ("O",) or k == ("0",):
            return ("O",)
        return ("mul", k, x)

    @reg("EC_POINT_add")
    def _(mc, a):
        grp(mc, a[0], "EC_POINT_add")
        r, x, y = (pt(mc, p, "EC_POINT_add") for p in a[1:4])
        ctxok(mc, a[4], "EC_POINT_add", True)
        if ecfails(mc, "EC_POINT_add"):
            return 0
        r.v = padd(x.v, y.v)
        return 1

    @reg("EC_POINT_dbl")
    def _(mc, a):
        grp(mc, a[0], "EC_POINT_dbl")
        r, x = (pt(mc, p, "EC_POINT_dbl") for p in a[1:3])
        if ecfails(mc, "EC_POINT_dbl"):
            return 0
        r.v = padd(x.v, x.v)
        return 1

    @reg("EC_POINT_mul")
    def _(mc, a):
        grp(mc, a[0], "EC_POINT_mul")
        r = pt(mc, a[1], "EC_POINT_mul")
        v = ("O",)
        if a[2]:
            v = padd(v, pmul(bn(mc, a[2], "EC_POINT_mul").v, ("G",)))
        if a[3]:
            q = pt(mc, a[3], "EC_POINT_mul").v
            v = padd(v, pmul(bn(mc, a[4], "EC_POINT_mul").v, q))
        ctxok(mc, a[5], "EC_POINT_mul", True)
        if ecfails(mc, "EC_POINT_mul"):
            return 0
        r.v = v
        return 1

    @reg("EC_POINT_invert")
    def _(mc, a):
        grp(mc, a[0], "EC_POINT_invert")
        r = pt(mc, a[1], "EC_POINT_invert")
        ctxok(mc, a[2], "EC_POINT_invert", True)
        if ecfails(mc, "EC_POINT_invert"):
            return 0
        r.v = pinv(r.v)
        return 1

    @reg("EC_POINT_cmp")
    def _(mc, a):
        grp(mc, a[0], "EC_POINT_cmp")
        x, y = (pt(mc, p, "EC_POINT_cmp") for p in a[1:3])
        ctxok(mc, a[3], "EC_POINT_cmp", True)
        if ecfails(mc, "EC_POINT_cmp"):
            return M[32]
        return 0 if x.v == y.v else 1

    R["EC_POINT_set_to_infinity"] = lambda mc, a: (grp(mc, a[0], "EC_POINT_set_to_infinity"), setattr(pt(mc, a[1], "EC_POINT_set_to_infinity"), "v", ("O",)), 1)[2]
    R["EC_POINT_is_at_infinity"] = lambda mc, a: 1 if pt(mc, a[1], "EC_POINT_is_at_infinity").v == ("O",) else 0
    R["EC_POINT_is_on_curve"] = lambda mc, a: (pt(mc, a[1], "EC_POINT_is_on_curve"), 1)[1]

    def encode(mc, v, form):
        if v == ("O",):
            return [0]
        n = 65 if form == 4 else 33
        w = mc.opaque("pt%d" % form, v, 8 * (n - 1))
        bs = [form] + mx.lanes(w, n - 1, 8)
        mc.__dict__.setdefault("ptenc", {})[tuple(key(x) for x in bs)] = v
        return bs

    @reg("EC_POINT_point2oct")
    def _(mc, a):
        grp(mc, a[0], "EC_POINT_point2oct")
        v = pt(mc, a[1], "EC_POINT_point2oct").v
        ctxok(mc, a[5], "EC_POINT_point2oct", True)
        bs = encode(mc, v, a[2])
        if ecfails(mc, "EC_POINT_point2oct"):
            return 0
        if a[3] == 0:
            return len(bs)
        if a[4] < len(bs):
            mc.ecfailed = "EC_POINT_point2oct (buffer too small)"
            return 0
        mc.check(a[3], a[4], "write")       # the announced size must be there
        for i, x in enumerate(bs):
            mc.store(a[3] + i, x, 1)
        return len(bs)

    @reg("EC_POINT_oct2point")
    def _(mc, a):
        grp(mc, a[0], "EC_POINT_oct2point")
        r = pt(mc, a[1], "EC_POINT_oct2point")
        ctxok(mc, a[4], "EC_POINT_oct2point", True)
        bs = tuple(key(x) for x in rd(mc, a[2], a[3]))
        if ecfails(mc, "EC_POINT_oct2point"):
            return 0
        v = ("O",) if bs == (0,) else mc.__dict__.get("ptenc", {}).get(bs)
        if v is None:
            mc.ecfailed = "EC_POINT_oct2point (not a point of the curve)"
            return 0
        r.v = v
        return 1

    # ------------------------------------------------------------ specification
    def term(mc, a):
        return mc.__dict__.setdefault("terms", {})

    @reg("vx_pt_atom")
    def _(mc, a):
        """an arbitrary point"""
        pt(mc, a[0], "harness").v = ("atom", a[1])

    @reg("vx_bn_atom")
    def _(mc, a):
        bn(mc, a[0], "harness").v = ("atom", a[1]) if a[1] else ("0",)

    def parse(mc, s):
        """terms: P0.. atoms, G, O, +(x,y) -(x) *(k,x); scalars k0.. atoms and operation names"""
        pos = [0]

        def ident():
            i = pos[0]
            while pos[0] < len(s) and s[pos[0]] not in "(),":
                pos[0] += 1
            return s[i:pos[0]]

        def expr():
            n = ident()
            args = []
            if pos[0] < len(s) and s[pos[0]] == "(":
                pos[0] += 1
                while True:
                    args.append(expr())
                    c = s[pos[0]]
                    pos[0] += 1
                    if c == ")":
                        break
            if n == "+":
                return padd(*args)
            if n == "-":
                return pinv(*args)
            if n == "*":
                return pmul(*args)
            if n in ("G", "O", "0", "order"):
                return (n,)
            if not args:
                return ("atom", int(n[1:]))
            if n in ("BN_add", "BN_mul", "BN_mod_add", "BN_mod_mul"):
                args[:2] = sorted(args[:2], key=repr)
            return (n,) + tuple(args)
        return expr()

    def vcheck(kind):
        def f(mc, a):
            v = get(mc, a[0], kind, "harness").v
            w = parse(mc, mc.cstr(a[1]))
            mc.obl.append(("value of %s" % mc.cstr(a[1]), v == w, ("the object holds %s, must be %s" % (v, w), None), mc.stack()[:6]))
        return f
    R["vx_pt_is"] = vcheck("curve point")
    R["vx_bn_is"] = vcheck("big integer")

    @reg("vx_live")
    def _(mc, a):
        """number of live library objects"""
        return sum(1 for r in table(mc).values() if r.live and not getattr(r, "borrowed", False))

    @reg("vx_noleak")
    def _(mc, a):
        left = [r for r in table(mc).values() if r.live and not getattr(r, "borrowed", False)]
        mc.obl.append((mc.cstr(a[0]), not left, ("never released: %s" % ", ".join("%s from %s" % (r.kind, r.where) for r in left[:4]), None), mc.stack()[:6]))
    return R
