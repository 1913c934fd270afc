"""Forward abstract interpreter over the transfer functions of ir.py.

Abstract state: registers and byte-addressed memory holding words whose bits
are constants or elements of a canonical bit domain (dom.py).  A branch whose
condition is not constant is analysed on both sides up to the immediate
post-dominator, where the two states are joined bit by bit with the branch
condition (gated join).  Paths are never enumerated and nothing is handed to a
solver.  Loops are followed while their exit condition is constant."""
import sys, struct
from . import ir
from .ir import M, BASE, AnalysisError, Module
from .dom import Sym, mk, bits, inv, addc, ult, eqbit, iteword, udivrem, ANF, BDD, Blowup

sys.setrecursionlimit(1000000)


class Dead(Exception):
    """control does not continue (error exit, abort, exception)"""


class Throw(Dead):
    """a C++ exception in flight"""
    def __init__(self, ptr, ti, what=""):
        Dead.__init__(self, "exception " + what)
        self.ptr, self.ti = ptr, ti


class Bug(Exception):
    """definite or conditional memory-safety / contract violation"""
    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ": " + msg)
        self.kind, self.msg = kind, msg


class Obj:
    __slots__ = ("size", "mem", "init", "default", "name", "kind", "dead", "ro", "oid")

    def __init__(self, oid, size, name, kind, init=None, default=None, ro=False):
        self.oid, self.size, self.name, self.kind = oid, size, name, kind
        self.mem = {}
        self.init, self.default, self.ro = init, default, ro
        self.dead = False


# ------------------------------------------------------------------ words
def trunc(a, w):
    if a.__class__ is int:
        return a & M[w]
    return mk(a.b[:w])


def zext(a, w0, w):
    if a.__class__ is int:
        return a
    return Sym(a.b + (0,) * (w - len(a.b)))


def sext(a, w0, w):
    if a.__class__ is int:
        h = 1 << (w0 - 1)
        return ((a ^ h) - h) & M[w]
    return Sym(a.b + (a.b[-1],) * (w - len(a.b)))


def _shift_sym(a, b, w, f):
    """barrel shift by an abstract amount; amounts >= w do not occur in valid code"""
    D = Sym.D
    bb = bits(b, w)
    k = 0
    r = a
    for i, s in enumerate(bb):
        if s == 0:
            continue
        amt = 1 << i
        sh = f(r, amt, w) if amt < w else (f(f(r, w - 1, w), 1, w))
        r = iteword(s, sh, r, w)
    return r


def shl(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return 0
        if a.__class__ is int:
            return (a << b) & M[w]
        return mk((0,) * b + a.b[:w - b])
    return _shift_sym(a, b, w, shl)


def lshr(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return 0
        if a.__class__ is int:
            return a >> b
        return mk(a.b[b:] + (0,) * b)
    return _shift_sym(a, b, w, lshr)


def ashr(a, b, w):
    if b.__class__ is int:
        b = min(b, w - 1)
        if a.__class__ is int:
            h = 1 << (w - 1)
            return (((a ^ h) - h) >> b) & M[w]
        return mk(a.b[b:] + (a.b[-1],) * b)
    return _shift_sym(a, b, w, ashr)


def _s(a, w):
    h = 1 << (w - 1)
    return (a ^ h) - h


def udiv(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            raise Bug("division by zero", "udiv")
        return a // b
    return udivrem(a, b, w)[0]


def urem(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            raise Bug("division by zero", "urem")
        return a % b
    return udivrem(a, b, w)[1]


def _absw(a, w):
    if a.__class__ is int:
        return abs(_s(a, w)) & M[w]
    n = addc(inv(a, w), 0, 1, w)
    return iteword(a.b[-1], n, a, w)


def _neg(a, w):
    return addc(inv(a, w), 0, 1, w) if a.__class__ is Sym else (-a) & M[w]


def _sgn(a, w):
    return (a >> (w - 1)) & 1 if a.__class__ is int else a.b[-1]


def sdiv(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = _s(a, w), _s(b, w)
        if y == 0:
            raise Bug("division by zero", "sdiv")
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & M[w]
    q, r = udivrem(_absw(a, w), _absw(b, w), w)
    s = Sym.D.xor(_sgn(a, w), _sgn(b, w))
    return iteword(s, _neg(q, w), q, w)


def srem(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = _s(a, w), _s(b, w)
        if y == 0:
            raise Bug("division by zero", "srem")
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & M[w]
    q, r = udivrem(_absw(a, w), _absw(b, w), w)
    return iteword(_sgn(a, w), _neg(r, w), r, w)


def icmp(p, a, b, w):
    D = Sym.D
    if a.__class__ is int and b.__class__ is int:
        if p[0] == 's':
            a, b = _s(a, w), _s(b, w)
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]] + 0
    if p == 'eq':
        r = eqbit(a, b, w)
    elif p == 'ne':
        r = D.not_(eqbit(a, b, w))
    else:
        if p[0] == 's':
            a = a ^ (1 << (w - 1))
            b = b ^ (1 << (w - 1))
        q = p[1:]
        if q == 'lt':
            r = ult(a, b, w)
        elif q == 'gt':
            r = ult(b, a, w)
        elif q == 'le':
            r = D.not_(ult(b, a, w))
        else:
            r = D.not_(ult(a, b, w))
    return mk((r,))


def select(c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    if a.__class__ is tuple:
        return tuple(select(c, x, y, None) for x, y in zip(a, b))
    return iteword(c.b[0], a, b, w)


def lanes(a, n, w):
    if a.__class__ is int:
        return [(a >> (i * w)) & M[w] for i in range(n)]
    return [mk(a.b[i * w:(i + 1) * w]) for i in range(n)]


def pack(ls, w):
    if all(x.__class__ is int for x in ls):
        r = 0
        for i, x in enumerate(ls):
            r |= x << (i * w)
        return r
    b = ()
    for x in ls:
        b += bits(x, w)
    return Sym(b)


_BIN = {'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem,
        'add': lambda a, b, w: (a + b) & M[w], 'sub': lambda a, b, w: (a - b) & M[w], 'mul': lambda a, b, w: (a * b) & M[w]}


def vecbin(op, a, b, n, w):
    f = _BIN[op]
    return pack([f(x, y, w) for x, y in zip(lanes(a, n, w), lanes(b, n, w))], w)


def vecicmp(p, a, b, n, w):
    return pack([icmp(p, x, y, w) for x, y in zip(lanes(a, n, w), lanes(b, n, w))], 1)


def vectrunc(a, n, w0, w):
    return pack([trunc(x, w) for x in lanes(a, n, w0)], w)


def vecext(a, n, w0, w, s):
    return pack([(sext if s else zext)(x, w0, w) for x in lanes(a, n, w0)], w)


def vecselect(c, a, b, n, w):
    return pack([select(k, x, y, w) for k, x, y in zip(lanes(c, n, 1), lanes(a, n, w), lanes(b, n, w))], w)


def shuffle(a, b, mask, n, w):
    if a.__class__ is int and b.__class__ is int:
        r = 0
        m = M[w]
        for i, k in enumerate(mask):
            if k < 0:
                continue
            r |= (((a >> (k * w)) if k < n else (b >> ((k - n) * w))) & m) << (i * w)
        return r
    la = lanes(a, n, w)
    if any(k >= n for k in mask):
        la = la + lanes(b, n, w)
    return pack([la[k] if k >= 0 else 0 for k in mask], w)


def extractelement(a, i, n, w):
    if i.__class__ is not int:
        i = trunc(i, 6)
        r = 0
        ls = lanes(a, n, w)
        for k, x in enumerate(ls):
            r = select(icmp('eq', i, k, 6), x, r, w)
        return r
    if a.__class__ is int:
        return (a >> (i * w)) & M[w]
    return mk(a.b[i * w:(i + 1) * w])


def insertelement(a, x, i, n, w):
    ls = lanes(a, n, w)
    ls[i] = x
    return pack(ls, w)


def insertvalue(a, x, ix):
    l = list(a)
    if len(ix) == 1:
        l[ix[0]] = x
    else:
        l[ix[0]] = insertvalue(l[ix[0]], x, ix[1:])
    return tuple(l)


def fl(v, w):
    return struct.unpack("<f", struct.pack("<I", v))[0] if w == 32 else struct.unpack("<d", struct.pack("<Q", v))[0]


def unfl(x, w):
    return struct.unpack("<I", struct.pack("<f", x))[0] if w == 32 else struct.unpack("<Q", struct.pack("<d", x))[0]


def fpop(op, pred, w0, w, a, b=None):
    if a.__class__ is int and (b is None or b.__class__ is int):
        if w > 64 or w0 > 64:
            raise AnalysisError("x87 arithmetic")
        if op == 'sitofp':
            return unfl(float(_s(a, w0)), w)
        if op == 'uitofp':
            return unfl(float(a), w)
        x = fl(a, w0)
        if op == 'fneg':
            return a ^ (1 << (w - 1))
        if op in ('fpext', 'fptrunc'):
            return unfl(x, w)
        if op in ('fptoui', 'fptosi'):
            return int(x) & M[w]
        y = fl(b, w0)
        if op == 'fcmp':
            import math
            un = math.isnan(x) or math.isnan(y)
            r = 0
            if x == y:
                r = 1
            elif x > y:
                r = 2
            elif x < y:
                r = 4
            return 1 if (pred & 8 and un) or (pred & r and not un) else 0
        if op == 'fadd':
            return unfl(x + y, w)
        if op == 'fsub':
            return unfl(x - y, w)
        if op == 'fmul':
            return unfl(x * y, w)
        if op == 'fdiv':
            return unfl(x / y if y else float('nan'), w)
    if op == 'fneg':
        return a ^ (1 << (w - 1))
    return CUR.opaque(op + str(pred), (a, b), w)


CUR = None      # the running machine


class Machine:
    def __init__(self, mod, dom=None, params=None, models=None, budget=40_000_000):
        global CUR
        CUR = self
        self.mod = mod
        self.D = dom or ANF()
        Sym.D = self.D
        self.objs = {}
        self.next_oid = mod.next_oid + 1000
        self.journal = None
        self.params = params or {}
        self.obl = []            # (label, ok, detail, stack)
        self.outs = []
        self.events = []         # symbolic branches / addresses
        self.aborts = []
        self.allow_abort = False
        self.reached = set()
        self.pc = 1
        self.undef_n = 0
        self.opq = {}
        self.depth = 0
        self.atomic = 0
        self.blocks_run = 0
        self.budget = budget
        self.assume = 1
        self.heap_live = 0
        self.track_events = True
        self.models = dict(MODELS)
        self.noprefix = (models or {}).get("#noprefix", ())
        if models:
            self.models.update(models)
        self.fnmodel = {}
        self.bind()

    def bind(self):
        global CUR
        CUR = self
        Sym.D = self.D

    # ---------------------------------------------------------- symbols
    def word(self, name, w):
        return mk(tuple([self.D.var("%s.%d" % (name, i)) for i in range(w)]))

    def opaque(self, tag, args, w):
        k = (tag, args, w)
        r = self.opq.get(k)
        if r is None:
            n = len(self.opq)
            r = self.opq[k] = mk(tuple([self.D.var("%s#%d.%d" % (tag, n, i)) for i in range(w)]))
        return r

    # ---------------------------------------------------------- stack
    def stack(self, tb=None):
        """source positions of the abstract call stack, innermost first"""
        res = []
        if tb is not None:
            frames = []
            while tb is not None:
                frames.append((tb.tb_frame, tb.tb_lineno))
                tb = tb.tb_next
            frames = frames[::-1]
        else:
            frames = []
            f = sys._getframe(1)
            while f is not None:
                frames.append((f, f.f_lineno))
                f = f.f_back
        for f, ln in frames:
            fn = ir.FNBYFILE.get(f.f_code.co_filename)
            if fn is not None:
                loc = ir.srcloc(fn, ln)
                res.append((fn.name, loc[0] if loc else "?", loc[1] if loc else 0))
        return res

    # ---------------------------------------------------------- objects
    def new_obj(self, size, name, kind, default=None, skew=0):
        oid = self.next_oid
        self.next_oid += 1
        o = Obj(oid, size, name, kind, default=default)
        self.objs[oid] = o
        return (oid << 32) + BASE

    def get_obj(self, a):
        oid = a >> 32
        o = self.objs.get(oid)
        if o is None:
            g = self.mod.gvs.get(oid)
            if g is not None:
                if g.decl:
                    o = Obj(oid, max(g.size, 4096), g.name, 'global', default=0)
                else:
                    b, rel = g.image()
                    o = Obj(oid, g.size, g.name, 'global', init=b, ro=g.const)
                    for off, v in rel.items():
                        t = (v, 8, off)
                        for k in range(off, off + 8):
                            o.mem[k] = t
                self.objs[oid] = o
        return o

    def check(self, a, n, what):
        if a.__class__ is not int:
            for i in set().union(*[self.D.support(x) for x in a.b if x > 1]):
                nm = self.D.names[i]
                if str(nm).startswith("undef:"):
                    raise Bug("uninitialised", "%s of %d bytes at an address that depends on uninitialised memory (%s)" % (what, n, str(nm)[6:]))
            raise AnalysisError("%s at an abstract address" % what)
        o = self.objs.get(a >> 32)
        if o is None:
            o = self.get_obj(a)
            if o is None:
                raise Bug("invalid pointer", "%s of %d bytes at %#x" % (what, n, a))
        off = (a & 0xffffffff) - BASE
        if o.dead:
            raise Bug("use after release", "%s of %d bytes of %s object %s" % (what, n, o.kind, o.name))
        if off < 0 or off + n > o.size:
            raise Bug("out of bounds", "%s of %d bytes at offset %d of %s object %s with %d bytes" % (what, n, off, o.kind, o.name, o.size))
        return o, off

    def byte(self, o, k):
        t = o.mem.get(k)
        if t is not None:
            v, n, off = t
            if n == 1:
                return v
            s = (k - off) * 8
            if v.__class__ is int:
                return (v >> s) & 255
            return mk(v.b[s:s + 8])
        if o.init is not None:
            return o.init[k]
        if o.default is not None:
            return o.default
        self.undef_n += 1
        v = mk(tuple([self.D.var("undef:%s+%d#%d.%d" % (o.name, k, self.undef_n, i)) for i in range(8)]))
        o.mem[k] = (v, 1, k)
        return v

    def load(self, a, n):
        if a.__class__ is not int:
            return self.load_sym(a, n)
        o = self.objs.get(a >> 32)
        off = (a & 0xffffffff) - BASE
        if o is None or o.dead or off < 0 or off + n > o.size:
            o, off = self.check(a, n, "read")
        mem = o.mem
        t = mem.get(off)
        if t is not None:
            if t[1] == n and t[2] == off:
                for k in range(off + 1, off + n):
                    if mem.get(k) is not t:
                        break
                else:
                    return t[0]
        elif o.init is not None:
            for k in range(off + 1, off + n):
                if k in mem:
                    break
            else:
                return int.from_bytes(o.init[off:off + n], 'little')
        bs = [self.byte(o, off + k) for k in range(n)]
        return pack(bs, 8) if n > 1 else bs[0]

    def values(self, a, limit=512):
        """possible values of an abstract word with the bit condition of each"""
        D = self.D
        free = []
        for x in a.b:
            if x > 1 and x not in free and D.not_(x) not in free:
                free.append(x)
        out = [(0, 1)]
        conds = [({}, self.pc if self.pc > 1 else 1)]
        for x in free:
            nx = D.not_(x)
            new = []
            for asg, c in conds:
                for val, lit in ((0, nx), (1, x)):
                    c2 = D.and_(c, lit)
                    if c2 != 0:
                        d = dict(asg)
                        d[x] = val
                        d[nx] = 1 - val
                        new.append((d, c2))
            conds = new
            if len(conds) > limit:
                raise AnalysisError("address with too many possible values")
        res = []
        for asg, c in conds:
            v = 0
            for i, x in enumerate(a.b):
                if (x if x < 2 else asg[x]):
                    v |= 1 << i
            # condition without the path condition: conjunction of literals
            cc = 1
            for x in free:
                cc = D.and_(cc, x if asg[x] else D.not_(x))
            res.append((v, cc))
        return res

    def load_sym(self, a, n):
        self.event("address", a)
        r = None
        for v, c in self.values(a):
            x = self.load(v, n)
            r = x if r is None else iteword(c, x, r, 8 * n)
        return r

    def store(self, a, v, n):
        if a.__class__ is not int:
            self.event("address", a)
            for av, c in self.values(a):
                old = self.load(av, n)
                self.store(av, iteword(c, v, old, 8 * n), n)
            return
        o = self.objs.get(a >> 32)
        off = (a & 0xffffffff) - BASE
        if o is None or o.dead or o.ro or off < 0 or off + n > o.size:
            o, off = self.check(a, n, "write")
            if o.ro and not self.initing:
                raise Bug("write to constant", o.name)
        self.put(o, off, v, n)
    initing = False

    def put(self, o, off, v, n):
        t = (v, n, off)
        mem = o.mem
        j = self.journal
        if j is not None:
            oid = o.oid
            for k in range(off, off + n):
                if (oid, k) not in j:
                    j[(oid, k)] = mem.get(k)
                mem[k] = t
        else:
            for k in range(off, off + n):
                mem[k] = t

    def loadagg(self, a, t):
        if t.k == 's':
            return tuple(self.loadagg(a + t.offs[i], t.elts[i]) for i in range(t.n))
        if t.k == 'a':
            return tuple(self.loadagg(a + i * t.el.size, t.el) for i in range(t.n))
        v = self.load(a, t.store)
        return v if t.w == t.store * 8 else trunc(v, t.w)

    def storeagg(self, a, v, t):
        if t.k == 's':
            for i in range(t.n):
                self.storeagg(a + t.offs[i], v[i], t.elts[i])
        elif t.k == 'a':
            for i in range(t.n):
                self.storeagg(a + i * t.el.size, v[i], t.el)
        else:
            self.store(a, v if t.w == t.store * 8 else zext(v, t.w, 8 * t.store), t.store)

    def alloca(self, size, name):
        if size.__class__ is not int:
            raise AnalysisError("alloca of abstract size in %s" % name)
        a = self.new_obj(size, name, 'local')
        self.frames[-1].append(a >> 32)
        return a
    frames = [[]]

    def memcpy(self, d, s, n, move=False):
        if n.__class__ is not int:
            raise AnalysisError("copy of abstract length")
        if n == 0:
            return
        if s.__class__ is not int:
            vals = self.values(s)
            self.event("address", s)
            if n <= 64:
                self.store(d, self.load_sym(s, n), n)
                return
            raise AnalysisError("copy from abstract address")
        if d.__class__ is not int:
            if n <= 64:
                self.store(d, self.load(s, n), n)
                return
            raise AnalysisError("copy to abstract address")
        so, soff = self.check(s, n, "read")
        do, doff = self.check(d, n, "write")
        if do.ro and not self.initing:
            raise Bug("write to constant", do.name)
        if so is do and not move and soff != doff and abs(soff - doff) < n:
            raise Bug("overlapping memcpy", "%d bytes in %s" % (n, so.name))
        if so is do and soff == doff:
            return
        items = []
        k = soff
        end = soff + n
        mem = so.mem
        sparse_ok = n > 4096 and so.init is None
        if sparse_ok:
            # only the bytes present in the source map carry information
            if so.default is not None or True:
                keys = [q for q in mem if soff <= q < end] if len(mem) < n else None
                if keys is not None and so.default is None and do.default is None and self.journal is None:
                    for q in [q for q in do.mem if doff <= q < doff + n]:
                        del do.mem[q]
                    cells = {}
                    for q in keys:
                        t = mem[q]
                        if t[1] == 1:
                            items.append((q, t[0], 1))
                        else:
                            items.append((q, self.byte(so, q), 1))
                    for off, v, m in items:
                        self.put(do, off - soff + doff, v, m)
                    return
        while k < end:
            t = mem.get(k)
            if t is not None and t[2] == k and k + t[1] <= end:
                m = t[1]
                for q in range(k + 1, k + m):
                    if mem.get(q) is not t:
                        break
                else:
                    items.append((k, t[0], m))
                    k += m
                    continue
            items.append((k, self.byte(so, k), 1))
            k += 1
        for off, v, m in items:
            self.put(do, off - soff + doff, v, m)

    def memset(self, d, v, n):
        if n.__class__ is not int:
            raise AnalysisError("memset of abstract length")
        if n == 0:
            return
        o, off = self.check(d, n, "write")
        v = trunc(v, 8)
        if n > 4096 and off == 0 and n == o.size and self.journal is None and v.__class__ is int:
            o.mem.clear()
            o.init = None
            o.default = v
            return
        for k in range(n):
            self.put(o, off + k, v, 1)

    def free(self, a, how):
        if a.__class__ is int and a == 0:
            return
        if a.__class__ is not int:
            raise AnalysisError("release of abstract pointer")
        o = self.get_obj(a)
        if o is None:
            raise Bug("invalid release", "%#x" % a)
        if o.dead:
            raise Bug("double release", "%s object %s" % (o.kind, o.name))
        if (a & 0xffffffff) != BASE or o.kind not in ('heap', 'array', 'malloc'):
            raise Bug("invalid release", "pointer into %s object %s" % (o.kind, o.name))
        want = {'delete': 'heap', 'delete[]': 'array', 'free': 'malloc'}[how]
        if o.kind != want:
            raise Bug("mismatched release", "%s of object from %s" % (how, o.kind))
        if self.journal is not None:
            if (o.oid, 'dead') not in self.journal:
                self.journal[(o.oid, 'dead')] = False
        o.dead = True

    # ---------------------------------------------------------- exceptions
    unwind = False
    curexc = None

    @property
    def excs(self):
        return self.__dict__.setdefault("_excs", {})

    def typeid(self, ti):
        t = self.__dict__.setdefault("_tid", {})
        return t.setdefault(ti, len(t) + 1)

    def gvname(self, a):
        g = self.mod.gvs.get(a >> 32) if a.__class__ is int else None
        return g.name if g else None

    def is_base(self, base, ti):
        """is base a (single-inheritance) base class of ti?"""
        for _ in range(8):
            g = self.mod.gvs.get(ti >> 32)
            if g is None or g.decl:
                return self.gvname(base) == "_ZTISt9exception" and (self.gvname(ti) or "").startswith("_ZTISt")
            if g.size < 24:
                return False
            ti = self.load(ti + 16, 8)
            if ti == base:
                return True
        return False

    # ---------------------------------------------------------- events
    oblivious = False

    def event(self, kind, v):
        b = v.b if v.__class__ is Sym else (v,)
        if self.oblivious == "labels":
            if any(x >> 40 for x in b):
                raise Bug("value-dependent " + kind, "a %s depends on a wire label" % kind)
        elif self.oblivious:
            raise Bug("value-dependent " + kind, "a %s depends on %s" % (kind, "; ".join(self.D.show(x) for x in b if x > 1)[:200]))
        if self.track_events:
            self.events.append((kind, v, self.stack()[:12]))

    # ---------------------------------------------------------- calls
    def resolve(self, fn):
        m = self.fnmodel.get(fn.name, False)
        if m is False:
            m = self.models.get(fn.name)
            if m is None:
                for pre, mm in PREFIX_MODELS:
                    if fn.name.startswith(pre) and not (pre in self.noprefix and not fn.decl):
                        m = mm
                        break
            if m is None and fn.decl:
                m = self.unknown(fn)
            self.fnmodel[fn.name] = m
        return m

    def unknown(self, fn):
        def f(mc, args, fn=fn):
            raise AnalysisError("no model for external function %s" % fn.name)
        return f

    def do_call(self, fn, args):
        m = self.fnmodel.get(fn.name, False)
        if m is False:
            m = self.resolve(fn)
        if m is not None:
            if m.__class__ is tuple:
                return m[0](self, args, fn)
            return m(self, args)
        return self.run_fn(fn, args)

    def do_icall(self, a, args):
        if a.__class__ is not int:
            raise AnalysisError("call through abstract pointer")
        fn = self.mod.addr2fn.get(a)
        if fn is None:
            raise Bug("invalid call", "call through pointer %#x" % a)
        return self.do_call(fn, args)

    def run_fn(self, fn, args):
        code = fn.code
        if code is None:
            code = fn.compile()
        self.reached.add(fn)
        R = [None] * fn.nslots
        R[:len(args)] = args
        if len(args) > fn.nslots:
            R = R[:fn.nslots]
        for i, size in fn.byval.items():
            a = self.new_obj(size, fn.name + ":byval", 'local')
            self.memcpy(a, args[i], size)
            R[i] = a
        self.frames.append([])
        if len(self.frames) > 700:
            raise Bug("no termination", "unbounded recursion in %s" % fn.name)
        try:
            r = self.run(fn, R, 0, None)
        finally:
            for oid in self.frames.pop():
                o = self.objs[oid]
                o.dead = True
                if self.journal is None:
                    o.mem = {}
                    del self.objs[oid]
                    DEADOBJ[oid] = None
        return r[1]

    def run(self, fn, R, blk, stop):
        code = fn.code
        n = 0
        while True:
            if blk == stop:
                return None
            r = code[blk](R)
            if r.__class__ is int:
                blk = r
                n += 1
                if n > 3000000:
                    raise Bug("no termination", "a loop in %s is still running after %d steps" % (fn.name, n))
                continue
            if r[0] == 'ret':
                return r
            r = self.branch(fn, R, blk, r)
            if r.__class__ is not int:
                return r
            blk = r

    def tick(self):
        pass

    def branch(self, fn, R, blk, alts):
        D = self.D
        J = fn.ipdom[blk]
        self.event("branch", alts[0][0])
        self.blocks_run += 1
        if self.blocks_run > 200000:
            raise AnalysisError("too many abstract branches")
        self.depth += 1
        if self.depth > 400:
            raise AnalysisError("abstract branch nesting too deep in %s (loop with non-constant exit?)" % fn.name)
        try:
            rem = 1
            pc0 = self.pc
            surv = []
            for c, edge, target in alts:
                if c is None:
                    cb = rem
                else:
                    cb = D.and_(rem, c if c.__class__ is int else c.b[0])
                    rem = D.and_(rem, D.not_(c if c.__class__ is int else c.b[0]))
                if cb == 0:
                    continue
                npc = D.and_(pc0, cb)
                if D.and_(npc, self.assume) == 0:
                    continue
                R2 = list(R)
                oldj = self.journal
                self.journal = {}
                self.pc = npc
                nf = len(self.frames)
                try:
                    if edge is not None:
                        edge(R2)
                    res = self.run(fn, R2, target, J)
                    ok = True
                except Dead as e:
                    ok = False
                    del self.frames[nf:]
                    self.aborts.append((npc, str(e), self.stack(sys.exc_info()[2])[:10]))
                finally:
                    delta = {}
                    for key, old in self.journal.items():
                        oid, k = key
                        o = self.objs[oid]
                        if k == 'dead':
                            delta[key] = o.dead
                            o.dead = old
                            continue
                        delta[key] = o.mem.get(k)
                        if old is None:
                            o.mem.pop(k, None)
                        else:
                            o.mem[k] = old
                    self.journal = oldj
                    self.pc = pc0
                if ok:
                    surv.append((cb, R2, res, delta))
                elif not self.allow_abort:
                    pass
            if not surv:
                raise Dead("all alternatives end")
            return self.join(fn, R, J, surv)
        finally:
            self.depth -= 1

    def join(self, fn, R, J, surv):
        if len(surv) == 1:
            cb, R2, res, delta = surv[0]
            R[:] = R2
            self.apply(delta)
            return res if res is not None else J
        # memory
        keys = {}
        for s in surv:
            keys.update(s[3])
        done = set()
        for key in keys:
            if key in done:
                continue
            oid, k = key
            o = self.objs[oid]
            if k == 'dead':
                ds = [s[3].get(key, o.dead) for s in surv]
                if all(ds):
                    if self.journal is not None and key not in self.journal:
                        self.journal[key] = o.dead
                    o.dead = True
                elif any(ds):
                    self.events.append(("conditional release", o.name, self.stack()[:8]))
                continue
            ts = []
            for s in surv:
                t = s[3].get(key)
                if t is None:
                    t = o.mem.get(k)
                ts.append(t)
            t0 = ts[0]
            if all(t is t0 for t in ts):
                if t0 is not None and o.mem.get(k) is not t0:
                    self.putbyte(o, k, t0)
                continue
            # try a whole-cell merge
            if t0 is not None and all(t is not None and t[1] == t0[1] and t[2] == t0[2] for t in ts):
                n, off = t0[1], t0[2]
                whole = True
                for q in range(off, off + n):
                    for s, t in zip(surv, ts):
                        x = s[3].get((oid, q))
                        if x is None:
                            x = o.mem.get(q)
                        if x is not t:
                            whole = False
                            break
                    if not whole:
                        break
                if whole:
                    v = ts[-1][0]
                    for s, t in list(zip(surv, ts))[-2::-1]:
                        v = iteword(s[0], t[0], v, 8 * n)
                    self.put(o, off, v, n)
                    for q in range(off, off + n):
                        done.add((oid, q))
                    continue
            vs = []
            for t in ts:
                if t is None:
                    vs.append(self.byte(o, k))
                else:
                    sft = (k - t[2]) * 8
                    vs.append((t[0] >> sft) & 255 if t[0].__class__ is int else mk(t[0].b[sft:sft + 8]))
            v = vs[-1]
            for s, x in list(zip(surv, vs))[-2::-1]:
                v = iteword(s[0], x, v, 8)
            self.put(o, k, v, 1)
        # registers / return value
        if surv[0][2] is not None:
            r = surv[-1][2][1]
            for s in surv[-2::-1]:
                if s[2] is None:
                    raise AnalysisError("join of return and fallthrough in " + fn.name)
                r = self.merge(s[0], s[2][1], r, fn.retty)
            return ('ret', r)
        if J is None:
            raise AnalysisError("no join point in " + fn.name)
        n = len(R)
        live = fn.livejoin(J)
        for i in range(n):
            if not live[i]:
                R[i] = None
                continue
            v = surv[-1][1][i]
            for s in surv[-2::-1]:
                x = s[1][i]
                if x is v:
                    continue
                if x is None:
                    continue
                if v is None:
                    v = x
                    continue
                v = self.merge(s[0], x, v, fn.tys[i])
            R[i] = v
        return J

    def putbyte(self, o, k, t):
        if self.journal is not None and (o.oid, k) not in self.journal:
            self.journal[(o.oid, k)] = o.mem.get(k)
        o.mem[k] = t

    def apply(self, delta):
        for (oid, k), t in delta.items():
            o = self.objs[oid]
            if k == 'dead':
                if self.journal is not None and (oid, k) not in self.journal:
                    self.journal[(oid, k)] = o.dead
                o.dead = t
                continue
            self.putbyte(o, k, t)

    def merge(self, c, a, b, ty):
        if a is b:
            return a
        if a.__class__ is tuple:
            if ty is not None and ty.k == 's':
                return tuple(self.merge(c, x, y, t) for x, y, t in zip(a, b, ty.elts))
            return tuple(self.merge(c, x, y, ty.el if ty else None) for x, y in zip(a, b))
        if a is None or b is None:
            return a if b is None else b
        if a.__class__ is int and b.__class__ is int:
            if a == b:
                return a
        return iteword(c, a, b, ty.w)

    # ---------------------------------------------------------- driving
    def run_ctors(self, only=None):
        self.initing = True
        g = self.mod.gvname.get("llvm.global_ctors")
        if g is not None:
            o = self.get_obj((g << 32) + BASE)
            n = o.size // 24
            for i in range(n):
                f = self.load((g << 32) + BASE + 24 * i + 8, 8)
                if f:
                    self.do_icall(f, ())
        self.initing = False

    def call(self, name, *args):
        fn = self.mod.fns.get(name)
        if fn is None:
            raise AnalysisError("no function %s" % name)
        self.bind()
        return self.do_call(fn, args)

    def cstr(self, a):
        o, off = self.check(a, 1, "read")
        s = bytearray()
        while True:
            if off >= o.size:
                raise Bug("out of bounds", "unterminated string in %s" % o.name)
            b = self.byte(o, off)
            if b.__class__ is not int:
                raise AnalysisError("abstract string")
            if b == 0:
                return s.decode('latin1')
            s.append(b)
            off += 1

    def obligation(self, label, bit, detail=None):
        """bit: domain bit that must be 1 (modulo assumptions)"""
        D = self.D
        if bit != 1:
            if self.assume != 1 or self.pc != 1:
                bad = D.and_(D.and_(self.assume, self.pc), D.not_(bit))
                ok = bad == 0
            else:
                bad = D.not_(bit)
                ok = False
        else:
            ok = True
        if not ok:
            w = None
            try:
                w = D.witness(bad)
            except Exception:
                pass
            self.obl.append((label, False, (detail() if callable(detail) else detail, w), self.stack()[:10]))
        else:
            self.obl.append((label, True, None, None))
        return ok


DEADOBJ = {}
MODELS = {}
PREFIX_MODELS = []


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def prefix_model(*names):
    def deco(f):
        for n in names:
            PREFIX_MODELS.append((n, f))
        return f
    return deco


def _bound(meth):
    def f(*a):
        return getattr(CUR, meth)(*a)
    return f


def _install():
    N = ir.MACH
    for k, v in dict(trunc=trunc, zext=zext, sext=sext, shl=shl, lshr=lshr, ashr=ashr, udiv=udiv, sdiv=sdiv,
                     urem=urem, srem=srem, icmp=icmp, select=select, vecbin=vecbin, vecicmp=vecicmp,
                     vectrunc=vectrunc, vecext=vecext, vecselect=vecselect, shuffle=shuffle,
                     extractelement=extractelement, insertelement=insertelement, insertvalue=insertvalue,
                     fpop=fpop, Dead=Dead, Throw=Throw, AnalysisError=AnalysisError).items():
        N[k] = v

    def load(a, n):
        return CUR.load(a, n)

    def store(a, v, n):
        return CUR.store(a, v, n)

    def atomic(x):
        CUR.atomic = x

    def loadagg(a, t):
        return CUR.loadagg(a, t)

    def storeagg(a, v, t):
        return CUR.storeagg(a, v, t)

    def alloca(s, nm):
        return CUR.alloca(s, nm)

    def do_call(f, a):
        return CUR.do_call(f, a)

    def do_icall(f, a):
        return CUR.do_icall(f, a)

    def atomicrmw(op, a, v, n):
        old = CUR.load(a, n)
        if op == 0:
            new = v
        elif op == 1:
            new = (old + v) & M[8 * n]
        elif op == 2:
            new = (old - v) & M[8 * n]
        elif op in (3, 5, 6) and old.__class__ is int and v.__class__ is int:
            new = old & v if op == 3 else old | v if op == 5 else old ^ v
        else:
            raise AnalysisError("atomicrmw %d" % op)
        CUR.store(a, new, n)
        return old

    def cmpxchg(a, e, v, n):
        old = CUR.load(a, n)
        if old.__class__ is not int or e.__class__ is not int:
            raise AnalysisError("abstract cmpxchg")
        if old == e:
            CUR.store(a, v, n)
        return (old, 1 if old == e else 0)
    def chkalign(a, n):
        if a.__class__ is int and a & (n - 1):
            o = CUR.get_obj(a)
            raise Bug("misaligned vector access", "%d-byte aligned access at offset %d of %s" % (n, (a & 0xffffffff) - BASE, o.name if o else "?"))

    def caught(ex):
        """an exception reaches a frame with a landing pad"""
        if not CUR.unwind or CUR.depth:
            raise ex
        CUR.excs[ex.ptr] = ex
        CUR.curexc = ex

    def landing(clauses):
        ex = CUR.curexc
        for c in clauses:
            if c is None:
                continue
            if c == 0 or c == ex.ti or CUR.is_base(c, ex.ti):
                return (ex.ptr, CUR.typeid(c))
        return (ex.ptr, 0)

    def resume(v):
        ex = CUR.excs.get(v[0])
        if ex is None:
            raise Dead("exception")
        raise Throw(ex.ptr, ex.ti, str(ex))
    for f in (caught, landing, resume, chkalign, load, store, loadagg, storeagg, alloca, do_call, do_icall, atomic, atomicrmw, cmpxchg):
        N[f.__name__] = f


_install()
from . import models  # noqa: E402,F401
