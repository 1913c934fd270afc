"""Files, stdio and iostreams of the analysed program (contents held by the analyser)."""
from .machine import Bug, Dead
from .ir import AnalysisError, M
from .dom import Sym, mk
from . import machine as mx
from .models import cformat


class Stream:
    def __init__(self, data, pos=0, path=None, writable=False):
        self.data, self.pos, self.path, self.writable = data, pos, path, writable
        self.open = True
        self.eof = False


def fs(mc):
    return mc.__dict__.setdefault("fs", {})


def streams(mc):
    return mc.__dict__.setdefault("streams", {})


def newfile(mc, st):
    a = mc.new_obj(216, "FILE", "file")
    streams(mc)[a] = st
    return a


def get(mc, a):
    st = streams(mc).get(a)
    if st is None or not st.open:
        raise Bug("invalid stream", "operation on a stream that is not open")
    return st


def stdio():
    R = {}

    def fopen(mc, a):
        p, mode = mc.cstr(a[0]), mc.cstr(a[1])
        F = fs(mc)
        if 'r' in mode and p not in F:
            return 0
        if 'w' in mode:
            F[p] = bytearray()
        elif 'a' in mode:
            F.setdefault(p, bytearray())
        mc.__dict__.setdefault("opened", []).append(p)
        return newfile(mc, Stream(F[p], len(F[p]) if 'a' in mode else 0, p, 'r' not in mode or '+' in mode))

    def fmemopen(mc, a):
        p, n, mode = a[0], a[1], mc.cstr(a[2])
        if n.__class__ is not int:
            raise AnalysisError("fmemopen of abstract size")
        mc.check(p, n, "read")
        data = bytearray()
        for i in range(n):
            b = mc.load(p + i, 1)
            if b.__class__ is not int:
                raise AnalysisError("abstract file contents")
            data.append(b)
        return newfile(mc, Stream(data))

    def fclose(mc, a):
        st = streams(mc).get(a[0])
        if a[0] == 0 or st is None:
            raise Bug("invalid stream", "fclose of something that is not a stream")
        if not st.open:
            raise Bug("released twice", "fclose of a stream that is already closed")
        st.open = False
        return 0

    def scan(mc, st, fmt, args):
        d = st.data
        i = 0
        n = 0
        ai = 0
        if st.pos >= len(d):
            # input failure before the first conversion
            pass
        while i < len(fmt):
            c = fmt[i]
            if c.isspace():
                while st.pos < len(d) and chr(d[st.pos]).isspace():
                    st.pos += 1
                i += 1
                continue
            if c != '%':
                if st.pos < len(d) and chr(d[st.pos]) == c:
                    st.pos += 1
                    i += 1
                    continue
                return n if n or st.pos < len(d) else M[32]
            i += 1
            sup = False
            if i < len(fmt) and fmt[i] == '*':
                sup = True
                i += 1
            wd = ''
            while fmt[i].isdigit():
                wd += fmt[i]
                i += 1
            ln = ''
            while fmt[i] in 'hlzjt':
                ln += fmt[i]
                i += 1
            cv = fmt[i]
            i += 1
            width = int(wd) if wd else 1 << 60
            if cv == '%':
                if st.pos < len(d) and d[st.pos] == 37:
                    st.pos += 1
                    continue
                return n
            if cv != 'c' and cv != '[':
                while st.pos < len(d) and chr(d[st.pos]).isspace():
                    st.pos += 1
            if st.pos >= len(d):
                st.eof = True
                return n if n else M[32]
            if cv in 'di u'.replace(' ', ''):
                p = st.pos
                q = p
                if chr(d[q]) in '+-' and width > 1:
                    q += 1
                while q < len(d) and chr(d[q]).isdigit() and q - p < width:
                    q += 1
                tok = d[p:q].decode()
                if not tok.lstrip('+-'):
                    return n
                st.pos = q
                size = {'': 4, 'h': 2, 'hh': 1}.get(ln, 8)
                if not sup:
                    mc.store(args[ai], int(tok) & M[8 * size], size)
                    ai += 1
                    n += 1
            elif cv == 's':
                p = st.pos
                q = p
                while q < len(d) and not chr(d[q]).isspace() and q - p < width:
                    q += 1
                st.pos = q
                if not sup:
                    tok = bytes(d[p:q])
                    for k, b in enumerate(tok + b"\0"):
                        mc.store(args[ai] + k, b, 1)
                    ai += 1
                    n += 1
            elif cv == 'c':
                w = int(wd) if wd else 1
                for k in range(w):
                    if st.pos >= len(d):
                        break
                    if not sup:
                        mc.store(args[ai] + k, d[st.pos], 1)
                    st.pos += 1
                if not sup:
                    ai += 1
                    n += 1
            else:
                raise AnalysisError("fscanf conversion %%%s" % cv)
        return n

    def fscanf(mc, a):
        return scan(mc, get(mc, a[0]), mc.cstr(a[1]), a[2:])

    def sscanf(mc, a):
        s = mc.cstr(a[0])
        return scan(mc, Stream(bytearray(s.encode('latin1'))), mc.cstr(a[1]), a[2:])

    def fgets(mc, a):
        st = get(mc, a[2])
        n = a[1]
        out = bytearray()
        while len(out) < n - 1 and st.pos < len(st.data):
            out.append(st.data[st.pos])
            st.pos += 1
            if out[-1] == 10:
                break
        if not out:
            st.eof = True
            return 0
        for k, b in enumerate(bytes(out) + b"\0"):
            mc.store(a[0] + k, b, 1)
        return a[0]

    def fgetc(mc, a):
        st = get(mc, a[0])
        if st.pos >= len(st.data):
            st.eof = True
            return M[32]
        st.pos += 1
        return st.data[st.pos - 1]

    def ungetc(mc, a):
        st = get(mc, a[1])
        st.pos -= 1
        return a[0]

    def fread(mc, a):
        st = get(mc, a[3])
        n = a[1] * a[2]
        k = min(n, len(st.data) - st.pos)
        for i in range(k):
            mc.store(a[0] + i, st.data[st.pos + i], 1)
        st.pos += k
        st.eof = k < n
        return k // a[1] if a[1] else 0

    def fwrite(mc, a):
        st = get(mc, a[3])
        n = a[1] * a[2]
        for i in range(n):
            b = mc.load(a[0] + i, 1)
            put(mc, st, b)
        return a[2]

    def put(mc, st, b):
        if b.__class__ is not int:
            raise AnalysisError("abstract byte written to a file")
        if st.pos < len(st.data):
            st.data[st.pos] = b
        else:
            while len(st.data) < st.pos:
                st.data.append(0)
            st.data.append(b)
        st.pos += 1

    def fseek(mc, a):
        st = get(mc, a[0])
        off = a[1] - (1 << 64) if a[1] >> 63 else a[1]
        st.pos = off + (0, st.pos, len(st.data))[a[2]]
        st.eof = False
        return 0

    def rewind(mc, a):
        get(mc, a[0]).pos = 0

    R.update(fopen=fopen, fopen64=fopen, fmemopen=fmemopen, fclose=fclose, fscanf=fscanf, __isoc99_fscanf=fscanf, __isoc23_fscanf=fscanf,
             sscanf=sscanf, __isoc99_sscanf=sscanf, __isoc23_sscanf=sscanf, fgets=fgets, fgetc=fgetc, getc=fgetc, ungetc=ungetc, fread=fread, fwrite=fwrite,
             fseek=fseek, rewind=rewind)
    R["feof"] = lambda mc, a: 1 if get(mc, a[0]).eof else 0
    R["ferror"] = lambda mc, a: 0
    R["fflush"] = lambda mc, a: 0
    R["ftell"] = lambda mc, a: get(mc, a[0]).pos

    def fprintf(mc, a):
        st = streams(mc).get(a[0])
        if st is None:
            return 0
        t = cformat(mc, mc.cstr(a[1]), a[2:])
        st = get(mc, a[0])
        for c in t.encode("latin1"):
            put(mc, st, c)
        return len(t)
    R["fprintf"] = fprintf

    def fputs(mc, a):
        if a[1] in streams(mc):
            st = get(mc, a[1])
            for c in mc.cstr(a[0]).encode("latin1"):
                put(mc, st, c)
        return 1
    R["fputs"] = R["fputs_unlocked"] = fputs

    def fputc(mc, a):
        if a[1] in streams(mc):
            put(mc, get(mc, a[1]), a[0] & 255)
        return a[0] & 255
    R["fputc"] = R["putc"] = fputc
    return R


def stdstring(mc, a):
    p, n = mc.load(a, 8), mc.load(a + 8, 8)
    out = bytearray()
    for i in range(n):
        b = mc.load(p + i, 1)
        if b.__class__ is not int:
            raise AnalysisError("abstract string")
        out.append(b)
    return out.decode('latin1')


IOSOFF = 512      # offset of the ios part in the modelled stream objects (past every real member)


def iostreams():
    """std::ofstream / std::fstream / std::ifstream used for text"""
    R = {}
    T = "IcSt11char_traitsIcEE"
    STR = "RKNSt7__cxx1112basic_stringIcS1_SaIcEEE"

    def vptr(mc):
        v = mc.__dict__.get("fake_vt")
        if v is None:
            v = mc.new_obj(512, "vtable of a stream", "global", default=0)
            mc.fake_vt = v
        return v

    def mkst(mc, this, iosoff):
        v = vptr(mc)
        mc.store(v + 256 - 24, iosoff, 8)
        mc.store(this, v + 256, 8)
        streams(mc)[this] = None

    OFF = {"St14basic_ofstream": 248, "St13basic_fstream": 264, "St14basic_ifstream": 256}

    def opn(mc, this, path, mode):
        F = fs(mc)
        S = streams(mc)
        if S.get(this) is not None and S[this].open:
            return
        out, inn, trunc, app, ate = mode & 16, mode & 8, mode & 32, mode & 1, mode & 2
        mc.__dict__.setdefault("openfail", set()).discard(this)
        if inn and path not in F and not trunc:
            mc.openfail.add(this)
            return                              # open fails, stream stays closed
        if (out and not inn and not app) or trunc:
            F[path] = bytearray()
        F.setdefault(path, bytearray())
        S[this] = Stream(F[path], len(F[path]) if app or ate else 0, path, bool(out))
        mc.__dict__.setdefault("opened", []).append(path)

    for cls, base in (("St14basic_ofstream", 16), ("St13basic_fstream", 24), ("St14basic_ifstream", 8)):
        n = len(cls[2:]) - 2
        q = "_ZN%s%s" % (cls, T)

        def ctor0(mc, a, cls=cls):
            mkst(mc, a[0], OFF[cls])
        R[q + "C1Ev"] = ctor0

        def ctorS(mc, a, cls=cls, base=base):
            mkst(mc, a[0], OFF[cls])
            opn(mc, a[0], stdstring(mc, a[1]), a[2] | (base if cls != "St13basic_fstream" else 0))
        R[q + "C1E%sSt13_Ios_Openmode" % STR] = ctorS

        def ctorC(mc, a, cls=cls, base=base):
            mkst(mc, a[0], OFF[cls])
            opn(mc, a[0], mc.cstr(a[1]), a[2] | (base if cls != "St13basic_fstream" else 0))
        R[q + "C1EPKcSt13_Ios_Openmode"] = ctorC

        def openS(mc, a, cls=cls, base=base):
            opn(mc, a[0], stdstring(mc, a[1]), a[2] | (base if cls != "St13basic_fstream" else 0))
        R[q + "4openE%sSt13_Ios_Openmode" % STR] = openS

        def openC(mc, a, cls=cls, base=base):
            opn(mc, a[0], mc.cstr(a[1]), a[2] | (base if cls != "St13basic_fstream" else 0))
        R[q + "4openEPKcSt13_Ios_Openmode"] = openC

        def close(mc, a):
            st = streams(mc).get(a[0])
            if st is not None:
                st.open = False
        R[q + "5closeEv"] = close
        R[q + "D1Ev"] = close
        R[q + "D2Ev"] = close
        R["_ZNK%s%s7is_openEv" % (cls, T)] = lambda mc, a: 1 if streams(mc).get(a[0]) is not None and streams(mc)[a[0]].open else 0
        R["_ZN%s%s7is_openEv" % (cls, T)] = R["_ZNK%s%s7is_openEv" % (cls, T)]
    def owner(mc, a):
        """the modelled stream whose ios part is at a"""
        S = streams(mc)
        for off in (0, 16) + tuple(OFF.values()):
            if a - off in S:
                return a - off
        return None

    def failed(mc, a):
        o = owner(mc, a)
        if o is None:
            return 0
        st = streams(mc)[o]
        if st is None:
            return 1 if o in mc.__dict__.get("openfail", ()) else 0
        return 1 if getattr(st, "fail", False) or o in mc.__dict__.get("openfail", ()) else 0

    def clear(mc, a):
        o = owner(mc, a[0])
        if o is not None:
            mc.__dict__.setdefault("openfail", set()).discard(o)
            if streams(mc)[o] is not None:
                streams(mc)[o].fail = bool(len(a) > 1 and a[1] & 5)
                streams(mc)[o].eof = bool(len(a) > 1 and a[1] & 2)
    B = "St9basic_iosIcSt11char_traitsIcEE"
    R["_ZN%s5clearESt12_Ios_Iostate" % B] = clear
    R["_ZNK%s4goodEv" % B] = lambda mc, a: 1 - (failed(mc, a[0]) or (1 if owner(mc, a[0]) is not None and streams(mc)[owner(mc, a[0])] and streams(mc)[owner(mc, a[0])].eof else 0))
    R["_ZNK%s4failEv" % B] = lambda mc, a: failed(mc, a[0])
    R["_ZNK%s3badEv" % B] = lambda mc, a: 0
    R["_ZNK%s3eofEv" % B] = lambda mc, a: 1 if owner(mc, a[0]) is not None and streams(mc)[owner(mc, a[0])] and streams(mc)[owner(mc, a[0])].eof else 0
    R["_ZNK%sntEv" % B] = lambda mc, a: failed(mc, a[0])
    R["_ZNK%scvbEv" % B] = lambda mc, a: 1 - failed(mc, a[0])

    def istr(mc, a):
        o = owner(mc, a)
        st = streams(mc).get(o)
        if st is None or not st.open or getattr(st, "fail", False):
            return None
        return st

    def skipws(st):
        while st.pos < len(st.data) and chr(st.data[st.pos]).isspace():
            st.pos += 1
        if st.pos >= len(st.data):
            st.eof = True
            st.fail = True
            return False
        return True

    def inum(nbytes):
        def f(mc, a):
            st = istr(mc, a[0])
            if st is None:
                return a[0]
            if not skipws(st):
                return a[0]
            q = st.pos
            if chr(st.data[q]) in "+-":
                q += 1
            while q < len(st.data) and chr(st.data[q]).isdigit():
                q += 1
            tok = st.data[st.pos:q].decode()
            if not tok.lstrip("+-"):
                st.fail = True
                mc.store(a[1], 0, nbytes)
                return a[0]
            st.pos = q
            st.eof = q >= len(st.data)
            mc.store(a[1], int(tok) & M[8 * nbytes], nbytes)
            return a[0]
        return f
    for t, n in (("i", 4), ("j", 4), ("l", 8), ("m", 8), ("x", 8), ("y", 8), ("s", 2), ("t", 2)):
        R["_ZNSirsER" + t] = inum(n)

    def iword(mc, a, put_):
        st = istr(mc, a[0])
        if st is None or not skipws(st):
            return a[0]
        q = st.pos
        while q < len(st.data) and not chr(st.data[q]).isspace():
            q += 1
        tok = bytes(st.data[st.pos:q])
        st.pos = q
        st.eof = q >= len(st.data)
        put_(tok)
        return a[0]

    def setstring(mc, p, tok):
        cap_local = mc.load(p, 8) == p + 16
        cap = 15 if cap_local else mc.load(p + 16, 8)
        if len(tok) > cap:
            nb = mc.new_obj(len(tok) + 1, "string", "heap")
            mc.store(p, nb, 8)
            mc.store(p + 16, len(tok), 8)
        d = mc.load(p, 8)
        for k, b in enumerate(tok + b"\0"):
            mc.store(d + k, b, 1)
        mc.store(p + 8, len(tok), 8)
    R["_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"] = lambda mc, a: iword(mc, a, lambda t: setstring(mc, a[1], t))

    def ichar(mc, a):
        st = istr(mc, a[0])
        if st is not None and skipws(st):
            mc.store(a[1], st.data[st.pos], 1)
            st.pos += 1
        return a[0]
    R["_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_"] = ichar

    def getline(mc, a):
        st = istr(mc, a[0])
        if st is None:
            return a[0]
        delim = a[2] & 255 if len(a) > 2 else 10
        if st.pos >= len(st.data):
            st.eof = st.fail = True
            setstring(mc, a[1], b"")
            return a[0]
        q = st.data.find(bytes([delim]), st.pos)
        if q < 0:
            tok, st.pos, st.eof = bytes(st.data[st.pos:]), len(st.data), True
        else:
            tok, st.pos = bytes(st.data[st.pos:q]), q + 1
        setstring(mc, a[1], tok)
        return a[0]
    for sfx in ("", "S4_"):
        R["_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE" + sfx] = getline

    def find(mc, a):
        S = streams(mc)
        if a in S:
            return S[a]
        if a - 16 in S:          # ostream part of an fstream
            return S[a - 16]
        return False

    def w(mc, a, text):
        st = find(mc, a)
        if st is False:
            return a
        if st is None or not st.open or not st.writable:
            mc.__dict__.setdefault("lost", []).append(text)
            return a
        for c in text.encode('latin1'):
            if st.pos < len(st.data):
                st.data[st.pos] = c
            else:
                st.data.append(c)
            st.pos += 1
        return a

    def num(bits_, sg):
        def f(mc, a):
            v = a[1]
            if v.__class__ is not int:
                if find(mc, a[0]) is False:
                    return a[0]
                raise AnalysisError("abstract number written to a stream")
            v &= M[bits_]
            if sg and v >> (bits_ - 1):
                v -= 1 << bits_
            return w(mc, a[0], str(v))
        return f
    for t, n, s in (("i", 32, 1), ("j", 32, 0), ("l", 64, 1), ("m", 64, 0), ("x", 64, 1), ("y", 64, 0), ("s", 16, 1), ("t", 16, 0), ("b", 1, 0)):
        R["_ZNSolsE" + t] = num(n, s)
    R["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"] = lambda mc, a: w(mc, a[0], mc.cstr(a[1])) if find(mc, a[0]) is not False else a[0]
    R["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c"] = lambda mc, a: w(mc, a[0], chr(a[1] & 255)) if find(mc, a[0]) is not False else a[0]
    R["_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE"] = lambda mc, a: w(mc, a[0], stdstring(mc, a[1])) if find(mc, a[0]) is not False else a[0]
    R["_ZNSo3putEc"] = lambda mc, a: w(mc, a[0], chr(a[1] & 255))
    R["_ZNSo5writeEPKcl"] = lambda mc, a: w(mc, a[0], "".join(chr(mc.load(a[1] + i, 1)) for i in range(a[2]))) if find(mc, a[0]) is not False else a[0]
    R["_ZNSo5flushEv"] = lambda mc, a: a[0]
    R["_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"] = lambda mc, a: w(mc, a[0], "\n")
    R["_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"] = lambda mc, a: a[0]

    def manip(mc, a):
        return mc.do_icall(a[1], (a[0],))
    R["_ZNSolsEPFRSoS_E"] = manip

    def seekp(mc, a):
        st = find(mc, a[0])
        if st:
            st.pos = a[1]
        return a[0]
    R["_ZNSo5seekpESt4fposI11__mbstate_tE"] = seekp

    def seekp2(mc, a):
        st = find(mc, a[0])
        if st:
            off = a[1] - (1 << 64) if a[1] >> 63 else a[1]
            st.pos = off + (0, st.pos, len(st.data))[a[2]]
        return a[0]
    R["_ZNSo5seekpElSt12_Ios_Seekdir"] = seekp2
    return R
