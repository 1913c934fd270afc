"""Error reporting and host helpers."""
import re
from vsa import run, build, osmodel, iomodel, machine as mx
from vsa.machine import Bug, Dead, Sym
from vsa.ir import AnalysisError, M, BASE
from vsa.models import cformat


def byts(mc, p, n=None):
    """the bytes of a string (n = length, or up to the terminating zero)"""
    out = []
    while n is None or len(out) < n:
        b = mc.load(p + len(out), 1)
        if n is None and b.__class__ is int and b == 0:
            break
        out.append(b)
        if len(out) > 1 << 16:
            raise AnalysisError("endless string")
    return out


def lit(t):
    return list(t.encode("latin1"))


def hexchar(v):
    """character of a hexadecimal digit (lower case) with unknown bits"""
    v = mx.mk(tuple(v[:4]) + (0,) * 4)
    if v.__class__ is int:
        return ord("%x" % v)
    return mx.select(mx.icmp("ult", v, 10, 8), v + 48, v + 87, 8)


def hexdigits(v, bits_):
    return [hexchar(v.b[4 * k:4 * k + 4]) for k in range(bits_ // 4 - 1, -1, -1)]


def models():
    R = dict(osmodel.models())
    R.update({k: v for k, v in iomodel.iostreams().items() if k not in R})

    def reg(*n):
        def d(f):
            for x in n:
                R[x] = f
            return f
        return d

    def emit(mc, f, bs):
        mc.__dict__.setdefault("shown", []).append((f, list(bs)))

    def fmt(mc, f, fm, args):
        for x in form(mc, fm, args):
            emit(mc, f, x)
        return 1

    def form(mc, fm, args):
        """printf: the pieces of the text"""
        bs = byts(mc, fm)
        if any(b.__class__ is not int for b in bs):
            raise Bug("message used as a format", "the caller's text is interpreted as a printf format: a '%' in it makes printf read arguments that do not exist")
        t = bytes(bs).decode("latin1")
        k = pos = 0
        for m in re.finditer(r"%([-+ #0]*)(\d+)?(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diuxXcsp%])", t):
            yield lit(t[pos:m.start()])
            pos = m.end()
            if m.group(5) == "%":
                yield lit("%")
                continue
            if k >= len(args):
                raise Bug("format", "too few arguments for the format %r" % t)
            v = args[k]
            k += 1
            if m.group(0) == "%s":
                yield byts(mc, v)
            elif v.__class__ is int:
                yield lit(cformat(mc, m.group(0), [v]))
            else:
                n = {"hh": 8, "h": 16, None: 32}.get(m.group(4), 64)
                if m.group(5) != "x" or m.group(1) != "0" or int(m.group(2) or 0) < n // 4 or m.group(3):
                    raise Bug("printed form depends on the value", "an unknown number is printed as %s: leading zeros get lost or the digits are not hexadecimal" % m.group(0))
                yield [48] * (int(m.group(2)) - n // 4) + hexdigits(mx.trunc(mx.zext(v, len(v.b), 64), n) if n < 64 else Sym(v.b + (0,) * (64 - len(v.b))), n)
        yield lit(t[pos:])

    def toarr(mc, p, cap, bs):
        if cap is not None:
            if not cap:
                return len(bs)
            k = bs[:cap - 1]
        else:
            k = bs
        for i, b in enumerate(k + [0]):
            mc.store(p + i, b, 1)
        return len(bs)
    R["snprintf"] = lambda mc, a: toarr(mc, a[0], a[1], sum(form(mc, a[2], a[3:]), []))
    R["sprintf"] = lambda mc, a: toarr(mc, a[0], None, sum(form(mc, a[1], a[2:]), []))
    R["fprintf"] = lambda mc, a: fmt(mc, a[0], a[1], a[2:])
    R["printf"] = lambda mc, a: fmt(mc, "stdout", a[0], a[1:])
    R["dprintf"] = lambda mc, a: fmt(mc, {1: "stdout", 2: "err2"}.get(a[0]), a[1], a[2:])

    @reg("fputs", "fputs_unlocked")
    def _(mc, a):
        emit(mc, a[1], byts(mc, a[0]))
        return 1

    @reg("fputc", "putc", "_IO_putc")
    def _(mc, a):
        emit(mc, a[1], [a[0] & 255 if a[0].__class__ is int else mx.trunc(a[0], 8)])
        return 1

    @reg("puts")
    def _(mc, a):
        emit(mc, "stdout", byts(mc, a[0]) + [10])
        return 1

    oldw = R["fwrite"]

    @reg("fwrite")
    def _(mc, a):
        if a[3] in osmodel.world(mc).files:
            return oldw(mc, a)
        emit(mc, a[3], byts(mc, a[0], a[1] * a[2]))
        return a[2]

    @reg("write")
    def _(mc, a):
        emit(mc, {1: "stdout", 2: "err2"}.get(a[0]), byts(mc, a[1], a[2]))
        return a[2]

    R["perror"] = lambda mc, a: emit(mc, "err2", byts(mc, a[0]) + lit(": system message\n"))
    oldf = R["fflush"]
    R["fflush"] = lambda mc, a: oldf(mc, a) if a[0] in osmodel.world(mc).files else 0

    # ---- output streams: the formatting state lives in the ios part of the object, as in libstdc++
    def ios(mc, o):
        if o.__class__ is not int or o not in mc.__dict__.get("ostr", {}):
            return None
        return o + mc.load(mc.load(o, 8) - 24, 8)

    def target(mc, o):
        if o in mc.__dict__.get("ostr", {}):
            return o
        g = mc.gvname(o)
        return {"_ZSt4cerr": "err2", "_ZSt4clog": "err2", "_ZSt4cout": "stdout"}.get(g, o)

    def put(mc, o, bs):
        i = ios(mc, o)
        if i is not None:
            w = mc.load(i + 16, 8)
            if w:
                mc.store(i + 16, 0, 8)
                pad = [mc.load(i + 224, 1)] * max(0, w - len(bs))
                bs = bs + pad if (mc.load(i + 24, 4) & 0xb0) == 0x20 else pad + bs
        emit(mc, target(mc, o), bs)
        return o

    def number(bits_, sg):
        def f(mc, a):
            o, v = a[0], a[1]
            i = ios(mc, o)
            if i is None:
                if v.__class__ is not int:
                    raise AnalysisError("abstract number printed")
                v &= M[bits_]
                return put(mc, o, lit(str(v - (1 << bits_) if sg and v >> bits_ - 1 else v)))
            fl, w, fill = mc.load(i + 24, 4), mc.load(i + 16, 8), mc.load(i + 224, 1)
            hexa = fl & 0x4a == 0x08
            if v.__class__ is int:
                v &= M[bits_]
                t = ("%X" if fl & 0x4000 else "%x") % v if hexa else "%o" % v if fl & 0x4a == 0x40 else str(v - (1 << bits_) if sg and v >> bits_ - 1 else v)
                if fl & 0x200 and hexa and v:
                    t = "0x" + t
                return put(mc, o, lit(t))
            if not hexa or fl & 0x200 or fill != 48 or (fl & 0xb0) == 0x20 or w < bits_ // 4:
                raise Bug("printed form depends on the value", "an unknown number is printed %s, width %d, fill %r: leading zeros get lost or the digits are not hexadecimal" % ("in hexadecimal" if hexa else "not in hexadecimal", w, chr(fill)))
            mc.store(i + 16, 0, 8)
            if fl & 0x4000:
                raise Bug("printed form", "upper-case digits")
            emit(mc, target(mc, o), [48] * (w - bits_ // 4) + hexdigits(v, bits_))
            return o
        return f
    for t, n, s in (("i", 32, 1), ("j", 32, 0), ("l", 64, 1), ("m", 64, 0), ("x", 64, 1), ("y", 64, 0), ("s", 16, 1), ("t", 16, 0), ("b", 1, 0)):
        R["_ZNSolsE" + t] = number(n, s)
    for nm in ("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc",):
        R[nm] = lambda mc, a: put(mc, a[0], byts(mc, a[1]))
    R["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c"] = lambda mc, a: put(mc, a[0], [a[1] & 255 if a[1].__class__ is int else mx.trunc(a[1], 8)])
    R["_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE"] = lambda mc, a: put(mc, a[0], byts(mc, mc.load(a[1], 8), mc.load(a[1] + 8, 8)))
    R["_ZNSo5writeEPKcl"] = lambda mc, a: (emit(mc, target(mc, a[0]), byts(mc, a[1], a[2])), a[0])[1]
    R["_ZNSo3putEc"] = lambda mc, a: (emit(mc, target(mc, a[0]), [a[1] & 255 if a[1].__class__ is int else mx.trunc(a[1], 8)]), a[0])[1]
    R["_ZNSo5flushEv"] = lambda mc, a: a[0]
    R["_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"] = lambda mc, a: (emit(mc, target(mc, a[0]), [10]), a[0])[1]
    R["_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"] = lambda mc, a: a[0]
    R["_ZNSolsEPFRSoS_E"] = lambda mc, a: mc.do_icall(a[1], (a[0],))
    R["_ZNSolsEPFRSt8ios_baseS0_E"] = lambda mc, a: (mc.do_icall(a[1], (a[0] + mc.load(mc.load(a[0], 8) - 24, 8),)), a[0])[1]

    def setio(off, n):
        def f(mc, a):
            i = ios(mc, a[0])
            if i is not None:
                mc.store(i + off, mx.sext(a[1], 32, 64) if n == 8 and a[1].__class__ is not int else (a[1] if n == 1 or not a[1] >> 31 & 1 else a[1] | M[64] ^ M[32]), n)
            return a[0]
        return f
    P = "_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St"
    R[P + "5_Setw"] = setio(16, 8)
    R[P + "8_SetfillIS3_E"] = setio(224, 1)

    @reg("vx_ostream")
    def _(mc, a):
        v = mc.new_obj(512, "vtable of a stream", "global", default=0)
        o = mc.new_obj(1024, "ostream", "global", default=0)
        mc.store(v + 256 - 24, iomodel.IOSOFF, 8)
        mc.store(o, v + 256, 8)
        i = o + iomodel.IOSOFF
        mc.store(i + 8, 6, 8)
        mc.store(i + 24, 0x1002, 4)      # skipws | dec
        mc.store(i + 224, 32, 1)
        mc.store(i + 225, 1, 1)
        mc.__dict__.setdefault("ostr", {})[o] = i
        mc.out = o
        return o

    Q = "St9basic_iosIcSt11char_traitsIcEE"
    R["_ZNK%s4fillEv" % Q] = lambda mc, a: mc.load(a[0] + 224, 1)

    def setfill(mc, a):
        v = mc.load(a[0] + 224, 1)
        mc.store(a[0] + 224, a[1] & 255, 1)
        return v
    R["_ZN%s4fillEc" % Q] = setfill
    R["strlen"] = R["_ZNSt11char_traitsIcE6lengthEPKc"] = lambda mc, a: len(byts(mc, a[0]))

    # string streams
    def sctor(off, base):
        def f(mc, a):
            v = mc.new_obj(512, "vtable of a stream", "global", default=0)
            o = a[0] + base
            if base:
                mc.store(v + 32 - 24, off, 8)
                mc.store(a[0], v + 32, 8)
            mc.store(v + 256 - 24, off - base, 8)
            mc.store(o, v + 256, 8)
            i = a[0] + off
            for k in range(0, 232, 8):
                mc.store(i + k, 0, 8)
            mc.store(i + 8, 6, 8)
            mc.store(i + 24, 0x1002, 4)
            mc.store(i + 224, 32, 1)
            mc.store(i + 225, 1, 1)
            mc.__dict__.setdefault("ostr", {})[o] = i
            mc.__dict__.setdefault("sstr", {})[a[0]] = o
        return f

    def sstr(mc, a):
        o = mc.sstr[a[1]]
        bs = [b for f, x in mc.__dict__.get("shown", []) if f == o for b in x]
        p = a[0]
        d = p + 16
        if len(bs) > 15:
            d = R["_Znwm"](mc, (len(bs) + 1,))
            mc.store(p + 16, len(bs), 8)
        mc.store(p, d, 8)
        mc.store(p + 8, len(bs), 8)
        for i, b in enumerate(bs + [0]):
            mc.store(d + i, b, 1)
    for nm, off, base in (("19basic_ostringstream", 112, 0), ("18basic_stringstream", 128, 16)):
        q = "St7__cxx11%sIcSt11char_traitsIcESaIcEE" % nm
        R["_ZN%sC1Ev" % q] = sctor(off, base)
        R["_ZN%sD1Ev" % q] = lambda mc, a: mc.__dict__["shown"].append((mc.sstr.pop(a[0]), [])) if mc.__dict__.get("shown") is not None else None
        R["_ZNK%s3strEv" % q] = sstr

    @reg("__errno_location")
    def _(mc, a):
        if "errno_" not in mc.__dict__:
            mc.errno_ = mc.new_obj(4, "errno", "global", default=0)
        return mc.errno_

    R["#noprefix"] = ("_ZNSo", "_ZStls", "_ZN3empls")

    # ---- time
    def clock(mc, a):
        mc.now = a[0]
    R["vx_clock"] = clock
    for c in ("12system_clock", "12steady_clock"):
        R["_ZNSt6chrono3_V2%s3nowEv" % c] = lambda mc, a: mc.now

    # ---- other ways to ask for a file
    def there(mc, p):
        return mc.cstr(p) in osmodel.world(mc).fs
    R["access"] = lambda mc, a: 0 if there(mc, a[0]) else M[32]
    R["stat"] = R["lstat"] = R["stat64"] = lambda mc, a: 0 if there(mc, a[0]) else M[32]

    def opn(mc, a):
        if a[1] & 0o3 or a[1] & 0o1100:
            osmodel.world(mc).fs.setdefault(mc.cstr(a[0]), [])
        return osmodel.world(mc).newfd("file").n if there(mc, a[0]) else M[32]
    R["open"] = R["open64"] = opn
    return R


def shown(mc, errs):
    """bytes that reached standard error"""
    return [b for f, bs in mc.__dict__.get("shown", []) if f in errs for b in bs]


def same(x, y):
    return (x == y) if x.__class__ is int or y.__class__ is int else (x.__class__ is Sym and y.__class__ is Sym and x.b == y.b)


def findseq(hay, needle, at=0):
    for i in range(at, len(hay) - len(needle) + 1):
        if all(same(hay[i + k], needle[k]) for k in range(len(needle))):
            return i
    return -1


def symbols(mc, name, n):
    """the bytes vx_fill gave this name"""
    o = mc.new_obj(max(1, n), "expected", "global")
    mx.MODELS["vx_fill"](mc, (o, n, mc_string(mc, name)))
    return byts(mc, o, n)


def mc_string(mc, t):
    o = mc.new_obj(len(t) + 1, "name", "global", default=0)
    for i, c in enumerate(t.encode()):
        mc.store(o + i, c, 1)
    return o


def standard(mc):
    """the standard streams"""
    for nm in ("stderr", "stdout", "stdin"):
        p = mc.new_obj(216, nm, "global", default=0)
        setattr(mc, nm + "_", p)
        for oid, g in mc.mod.gvs.items():
            if g.name == nm:
                mc.store((oid << 32) + BASE, p, 8)


def err(form, n, line, nf):
    def d(mc, res):
        standard(mc)
        try:
            mc.call("h_error")
        except Dead as e:
            pass
        res.obl += 1
        if any(not ok for _, ok, _, _ in mc.obl):
            return
        errs = {"err2", mc.stderr_}
        out = shown(mc, errs)
        want = symbols(mc, "msg", n)
        i = findseq(out, want)
        res.obl += 1
        if i < 0:
            res.failure("message lost", "the message of %d characters does not appear on standard error as given" % n)
            return
        if form == 2:
            res.obl += 2
            if findseq(out, symbols(mc, "file", nf), i + n) < 0:
                res.failure("location lost", "the file name does not appear after the message")
            if findseq(out, lit(str(line)), i + n) < 0:
                res.failure("location lost", "the line number %d does not appear after the message" % line)
    return d


def exists(fs):
    def d(mc, res):
        w = osmodel.world(mc)
        for f in fs:
            w.fs[f] = lit("content of " + f)
            iomodel.fs(mc)[f] = bytearray(b"content of " + f.encode())
        mc.call("h_exists")
        res.obl += 1
        now = {k: bytes(v) for k, v in w.fs.items()}
        if now != {f: b"content of " + f.encode() for f in fs} or set(iomodel.fs(mc)) != set(fs):
            res.failure("file changed", "asking whether a file exists creates or changes a file")
    return d


def printed(n):
    def d(mc, res):
        mc.call("h_print")
        res.obl += 1
        out = [b for f, bs in mc.__dict__.get("shown", []) if f == mc.out for b in bs]
        want = []
        for k, nm in enumerate("bc"[:n]):
            if k:
                want += lit(",")
            bs = symbols(mc, nm, 16)
            for half in (1, 0):
                for i in range(7, -1, -1):
                    v = bs[8 * half + i].b
                    want += [hexchar(v[4:]), hexchar(v[:4])]
                if half:
                    want += lit(" ")
        want += lit("|1234")
        if len(out) != len(want) or not all(same(x, y) for x, y in zip(out, want)):
            i = next((i for i in range(min(len(out), len(want))) if not same(out[i], want[i])), min(len(out), len(want)))
            res.failure("printed block", "a block is not printed as 16 hexadecimal digits of the upper, a blank and 16 of the lower half, followed by ordinary decimal output (first difference at character %d of %d)" % (i, len(want)))
    return d


def check(tier):
    th = tier == "thorough"
    bc = build.compile_tu(build.VERIF + "/harness/host.cpp")
    cx = []

    def ctx(name, entry, params, **kw):
        kw.setdefault("models", models())
        cx.append(run.Ctx(name, bc, entry, params, **kw))
    for n in (0, 1, 2, 15, 64, 300) + ((5000,) if th else ()):
        for form in (0, 1, 2):
            for line, nf in (((0, 0),) if form == 0 else ((1, 0), (77, 1), (123456, 40), (0, 9))):
                ctx("error, message of %d characters, form %d, line %d, file name of %d" % (n, form, line, nf), "h_error", dict(n=n, form=form, line=line, nf=nf), driver=err(form, n, line, nf))
    names = {0: "here.txt", 1: "some/rather/long/directory/name/of/a/file.txt"}
    for lg in (0, 1):
        for th_ in (0, 1):
            for ot in (0, 1):
                fs = [x for x, y in ((names[lg], th_), ("other.bin", ot)) if y] + ["unrelated"]
                ctx("file_exists, name %d, present %d, other %d" % (lg, th_, ot), "h_exists", dict(long=lg, there=th_, other=ot), driver=exists(fs))
    arg = [1, 2, 12345, 0, 65535, 3, 10, 7]
    for i in range(8):
        for j in range(8):
            ctx("arguments %d %d" % (arg[i], arg[j]), "h_args", dict(i=i, j=j, vi=arg[i], vj=arg[j]))
    ctx("run_function", "h_run", {})
    ctx("delete_array_null", "h_delete", {})
    for t0 in (0, 1, 999, 10 ** 18 + 1):
        for dt in (0, 1, 999, 1000, 1001, 10 ** 6, 10 ** 9, 10 ** 12 + 7, (1 << 31) * 1000, (1 << 32) * 1000 + 999, 10 ** 16):
            ctx("clock, %d ns after %d" % (dt, t0), "h_time", dict(t0=t0, t1=t0 + dt, us=dt // 1000))
    for n in (1, 2):
        ctx("printing %d blocks" % n, "h_print", dict(n=n), driver=printed(n))
    r = run.Report("The fatal-error function over messages of unknown characters in each calling form, and every host helper (file existence, arguments, timing, function calls, array release, block printing) over unknown data; text output is followed character by character.",
                   "error: the message appears verbatim on standard error, followed by line and file if given; the program ends with a failure status and never continues. Helpers: exact results, nothing else read, written, created or left open",
                   ["message lengths, file sets, arguments and times listed in this file", "characters of the message other than the terminating zero are unknown"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::error", "emp::file_exists", "emp::parse_party_and_port", "emp::time_from", "emp::operator<<")
