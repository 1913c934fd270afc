"""Environment of the channel classes: sockets, stdio streams, files, two communicating tasks.

Both parties are analysed together as two tasks that only communicate through
FIFO byte pipes with blocking reads.  Such a network is determinate (Kahn): the
bytes each party sees do not depend on how the two are scheduled, so following
one schedule decides all of them.  Byte values stay abstract."""
import threading
from .machine import Bug, Dead
from . import machine as mx
from .ir import AnalysisError, M
from .dom import Sym

threading.stack_size(512 * 1024 * 1024)


class End:
    """one end of a connection"""
    def __init__(self):
        self.rx = []
        self.eof = False          # peer closed
        self.peer = None
        self.sent = 0
        self.rpos = 0


class FD:
    def __init__(self, n, kind):
        self.n, self.kind = n, kind
        self.open = True
        self.end = None
        self.port = None
        self.data = None          # file
        self.pos = 0
        self.owner = None


class FILE_:
    def __init__(self, addr, fd):
        self.addr, self.fd = addr, fd
        self.open = True
        self.wbuf = []
        self.bufsize = 4096
        self.buf = None
        self.zero = 0
        self.last, self.gpos = None, 0


class World:
    def __init__(self, mc):
        self.mc = mc
        self.fds = {}
        self.files = {}
        self.fs = {}
        self.nextfd = 3
        self.ports = {}
        self.log = []
        p = mc.params
        self.piece = [p["piece%d" % i] for i in range(8) if "piece%d" % i in p]
        self.pk = 0
        self.gone = p.get("gone_after")          # bytes a writer may push before the peer is gone
        self.rgone = p.get("read_gone_after")
        self.cfail = p.get("connect_fails", 0)
        self.nwritten = 0
        self.nread = 0
        self.task = 0
        self.tasks = None
        self.acc = 0
        self.pushed = [0, 0]
        self.accepted = {}
        self.out = {}             # stream of unknowns -> how far it reached the system
        self.giant = None
        self.ends = []            # addresses bound and connected to, in order

    def fd(self, n, what):
        if n.__class__ is not int:
            raise AnalysisError("%s on an abstract descriptor" % what)
        n &= M[32]
        f = self.fds.get(n)
        if f is None:
            raise Bug("invalid descriptor", "%s on descriptor %d, which was never opened" % (what, n if n < 1 << 31 else n - (1 << 32)))
        if not f.open:
            raise Bug("use after close", "%s on a descriptor that is already closed" % what)
        return f

    def file(self, a, what):
        f = self.files.get(a)
        if f is None:
            raise Bug("invalid stream", "%s on something that is not a stream" % what)
        if not f.open:
            raise Bug("use after close", "%s on a stream that is already closed" % what)
        if not f.fd.open:
            raise Bug("use after close", "%s on a stream whose descriptor was closed underneath" % what)
        if f.buf is not None:
            o = self.mc.get_obj(f.buf)
            if o is None or o.dead:
                raise Bug("buffer released early", "%s on a stream whose buffer was already released" % what)
        return f

    def newfd(self, kind):
        n = self.nextfd
        self.nextfd += 1
        f = self.fds[n] = FD(n, kind)
        f.owner = self.task
        return f

    # -------------------------------------------------- transport
    def limit(self, n):
        if not self.piece:
            return n
        k = self.piece[self.pk % len(self.piece)]
        self.pk += 1
        return min(n, k)

    def push(self, fd, data):
        """bytes reach the operating system"""
        e = fd.end
        e.sent += len(data)
        e.peer.rx += data
        self.pushed[fd.side] += len(data)
        tk = self.mc.__dict__.get("tokpos", {})
        for x in data:
            if x.__class__ is Sym:
                t = tk.get(x.b)
                if t is not None and t[1] >= self.out.get(t[0], 0):
                    self.out[t[0]] = t[1] + 1

    def blocking(self, fd):
        """fd's party is about to wait for its peer"""
        n = self.accepted.get(fd.side, 0)
        if self.out.get(fd.side, 0) < n:
            raise Bug("receives with unsent data", "a receive may block while byte %d of the %d bytes accepted by send has not been handed to the system" % (self.out.get(fd.side, 0), n))

    def drain(self, f):
        if f.fd.kind == "conn":
            self.push(f.fd, f.wbuf)
            f.wbuf = []

    def readable(self, fd):
        e = fd.end
        return len(e.rx) - e.rpos

    def wait(self, fd, n, what):
        """block until n bytes are there or the peer closed"""
        while self.readable(fd) < n and not fd.end.eof:
            if not self.switch():
                unsent = sum(len(x.wbuf) for x in self.files.values() if x.open)
                raise Bug("waits for ever", "%s blocks for %d bytes, %d arrived, and the peer cannot go on (%s)" % (
                    what, n, self.readable(fd), "%d bytes are still in stream buffers" % unsent if unsent else "nothing is buffered in streams"))

    def switch(self):
        return self.tasks is not None and self.tasks.switch()


class Tasks:
    """two entry functions of the analysed program, run as coroutines"""
    def __init__(self, mc, world, entries):
        self.mc, self.w = mc, world
        self.entries = entries
        self.n = len(entries)
        self.sem = [threading.Semaphore(0) for _ in entries]
        self.main = threading.Semaphore(0)
        self.done = [False] * self.n
        self.blocked = [0] * self.n
        self.exc = None
        self.tb = None
        self.frames = [[[]] for _ in entries]
        self.dead = [None] * self.n
        self.stop = False
        self.progress = 0

    def run(self):
        self.w.tasks = self
        th = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in th:
            t.start()
        self.give(0)
        self.main.acquire()
        self.w.tasks = None
        if self.exc is not None:
            self.stop = True
            for s in self.sem:
                s.release()
            e = self.exc
            raise e.with_traceback(self.tb)

    def give(self, i):
        self.mc.frames = self.frames[i]
        self.w.task = i
        self.sem[i].release()

    def body(self, i):
        self.sem[i].acquire()
        if self.stop:
            return
        try:
            try:
                self.mc.call(self.entries[i])
            except Dead as e:
                self.dead[i] = str(e)
                self.exited(i)
            self.done[i] = True
            for j in range(self.n):
                if not self.done[j]:
                    self.w.idle = 0
                    self.give(j)
                    return
            self.main.release()
        except BaseException as e:
            import sys
            self.exc, self.tb = e, sys.exc_info()[2]
            self.main.release()

    def exited(self, i):
        """process i ended: its descriptors are closed by the system, buffered data may be lost"""
        for f in self.w.fds.values():
            if f.open and f.owner == i and f.end is not None:
                f.end.peer.eof = True

    def switch(self):
        """called by the running task when it cannot go on; True if something may have changed"""
        i = self.w.task
        st = self.state()
        if getattr(self, "last", {}).get(i) == st:
            return False
        self.__dict__.setdefault("last", {})[i] = st
        for d in range(1, self.n):
            j = (i + d) % self.n
            if not self.done[j]:
                self.give(j)
                self.sem[i].acquire()
                if self.stop:
                    raise SystemExit
                return True
        return False

    def state(self):
        return (self.w.nwritten, self.w.nread, tuple(self.done), tuple(self.w.readable(f) for f in self.w.fds.values() if f.end is not None), sum(f.end.eof for f in self.w.fds.values() if f.end is not None))


def token(mc, st, pos):
    """byte pos of a stream of unknown bytes"""
    T = mc.__dict__.setdefault("toks", {})
    t = T.get((st, pos))
    if t is None:
        v = mc.D.var("t%d.%d" % (st, pos))
        h = (pos * 2654435761 >> 7) ^ st * 91
        b = tuple(v if i == pos % 8 else h >> i & 1 for i in range(8))
        t = T[(st, pos)] = Sym(b)
        mc.__dict__.setdefault("tokpos", {})[b] = (st, pos)
    return t


def world(mc):
    w = mc.__dict__.get("world")
    if w is None:
        w = mc.world = World(mc)
    return w


def models():
    R = {}

    def reg(*names):
        def d(f):
            for n in names:
                R[n] = f
            return f
        return d

    @reg("socket")
    def _(mc, a):
        f = world(mc).newfd("socket")
        f.sock = (a[0], a[1] & 15, a[2])
        return f.n

    R["setsockopt"] = lambda mc, a: (world(mc).fd(a[0], "setsockopt"), 0)[1]
    R["htons"] = R["ntohs"] = lambda mc, a: ((a[0] & 255) << 8) | (a[0] >> 8 & 255)
    R["htonl"] = R["ntohl"] = lambda mc, a: int.from_bytes(a[0].to_bytes(4, "little"), "big")
    def quad(t):
        q = t.split(".")
        if len(q) != 4 or not all(x.isdigit() and len(x) < 4 and int(x) < 256 for x in q):
            return None
        return sum(int(x) << 8 * i for i, x in enumerate(q))

    @reg("inet_addr")
    def _(mc, a):
        v = quad(mc.cstr(a[0]))
        return M[32] if v is None else v

    @reg("inet_pton")
    def _(mc, a):
        v = quad(mc.cstr(a[1]))
        if a[0] != 2 or v is None:
            return 0
        mc.store(a[2], v, 4)
        return 1

    @reg("inet_aton")
    def _(mc, a):
        v = quad(mc.cstr(a[0]))
        if v is None:
            return 0
        mc.store(a[1], v, 4)
        return 1

    def endpoint(mc, f, a, what):
        """(socket kind, family, address, port) handed to bind or connect"""
        if a[2].__class__ is int and a[2] < 16:
            raise Bug("uninitialised address", "%s with an address of %d bytes" % (what, a[2]))
        v = mc.load(a[1], 2), mc.load(a[1] + 4, 4)
        if any(x.__class__ is not int for x in v):
            raise Bug("uninitialised address", "the address given to %s is not set" % what)
        return (what, getattr(f, "sock", None), v[0], ".".join(str(v[1] >> 8 * i & 255) for i in range(4)), port(mc, a[1]))
    # a clock that only sleeping moves
    def slept(mc, ns):
        w = world(mc)
        w.ns = w.__dict__.get("ns", 10 ** 18) + (ns if ns.__class__ is int else 0)
        return 0

    def now(mc):
        slept(mc, 0)
        return world(mc).ns
    R["usleep"] = lambda mc, a: slept(mc, a[0] * 1000)
    R["sleep"] = lambda mc, a: slept(mc, a[0] * 10 ** 9)
    R["nanosleep"] = lambda mc, a: slept(mc, mc.load(a[0], 8) * 10 ** 9 + mc.load(a[0] + 8, 8))
    R["clock_nanosleep"] = lambda mc, a: slept(mc, mc.load(a[2], 8) * 10 ** 9 + mc.load(a[2] + 8, 8))
    R["sched_yield"] = lambda mc, a: 0

    @reg("time")
    def _(mc, a):
        t = now(mc) // 10 ** 9
        if a[0]:
            mc.store(a[0], t, 8)
        return t

    @reg("clock_gettime")
    def _(mc, a):
        t = now(mc)
        mc.store(a[1], t // 10 ** 9, 8)
        mc.store(a[1] + 8, t % 10 ** 9, 8)
        return 0

    @reg("gettimeofday")
    def _(mc, a):
        t = now(mc)
        mc.store(a[0], t // 10 ** 9, 8)
        mc.store(a[0] + 8, t % 10 ** 9 // 1000, 8)
        return 0
    for c in ("12system_clock", "12steady_clock"):
        R["_ZNSt6chrono3_V2%s3nowEv" % c] = lambda mc, a: now(mc)

    def port(mc, p):
        v = mc.load(p + 2, 2)
        if v.__class__ is not int:
            raise Bug("uninitialised address", "the port of a socket address is not set")
        return (v & 255) << 8 | v >> 8

    @reg("bind")
    def _(mc, a):
        f = world(mc).fd(a[0], "bind")
        f.port = port(mc, a[1])
        world(mc).ends.append(endpoint(mc, f, a, "bind"))
        return M[32] if mc.params.get("bind_fails") else 0

    @reg("listen")
    def _(mc, a):
        f = world(mc).fd(a[0], "listen")
        f.kind = "listen"
        return M[32] if mc.params.get("listen_fails") else 0

    def pair(w, p, side):
        if p not in w.ports:
            x, y = End(), End()
            x.peer, y.peer = y, x
            w.ports[p] = [x, y, False, False]
        return w.ports[p]

    @reg("accept", "accept4")
    def _(mc, a):
        w = world(mc)
        l = w.fd(a[0], "accept")
        if l.kind != "listen" or l.port is None:
            raise Bug("accept on a socket that does not listen", "accept")
        if mc.params.get("accept_fails"):
            return M[32]
        pr = pair(w, l.port, 0)
        c = w.newfd("conn")
        c.end = pr[0]
        c.side = 0
        c.port = l.port
        pr[2] = True
        return c.n

    @reg("connect")
    def _(mc, a):
        w = world(mc)
        f = w.fd(a[0], "connect")
        p = port(mc, a[1])
        w.ends.append(endpoint(mc, f, a, "connect"))
        w.acc += 1
        if w.acc <= w.cfail:
            f.kind = "failed"
            return M[32]
        if f.kind != "socket":
            raise Bug("connect twice", "connect on a socket that already failed or is connected")
        pr = pair(w, p, 1)
        f.kind, f.end, f.port = "conn", pr[1], p
        f.side = 1
        pr[3] = True
        return 0

    @reg("close")
    def _(mc, a):
        w = world(mc)
        n = a[0] & M[32]
        if n >= 1 << 31:
            return M[32]
        f = w.fds.get(n)
        if f is None:
            raise Bug("invalid descriptor", "close of descriptor %d, which was never opened" % n)
        if not f.open:
            raise Bug("released twice", "close of a descriptor that is already closed")
        if any(x.fd is f and x.open for x in w.files.values()):
            raise Bug("released twice", "close of a descriptor that an open stream owns (the stream closes it again)")
        f.open = False
        if f.end is not None:
            f.end.peer.eof = True
        return 0

    @reg("shutdown")
    def _(mc, a):
        f = world(mc).fd(a[0], "shutdown")
        if f.end is not None and a[1] != 0:
            f.end.peer.eof = True
        return 0

    @reg("fdopen")
    def _(mc, a):
        w = world(mc)
        f = w.fd(a[0], "fdopen")
        if any(x.fd is f and x.open for x in w.files.values()):
            raise Bug("descriptor shared", "two streams on one descriptor")
        p = mc.new_obj(216, "FILE", "file")
        w.files[p] = FILE_(p, f)
        return p

    @reg("fopen", "fopen64")
    def _(mc, a):
        w = world(mc)
        path, mode = mc.cstr(a[0]), mc.cstr(a[1])
        if 'r' in mode and path not in w.fs:
            return 0
        if 'w' in mode:
            w.fs[path] = []
        d = w.fs.setdefault(path, [])
        f = w.newfd("file")
        f.data = d
        f.pos = len(d) if 'a' in mode else 0
        p = mc.new_obj(216, "FILE", "file")
        w.files[p] = x = FILE_(p, f)
        x.mode = mode
        return p

    @reg("setvbuf")
    def _(mc, a):
        w = world(mc)
        f = w.file(a[0], "setvbuf")
        if a[1]:
            mc.check(a[1], a[3], "stream buffer")
            f.buf = a[1]
        f.bufsize = 1 if a[2] == 2 else max(a[3], 1)
        return 0

    @reg("fflush")
    def _(mc, a):
        w = world(mc)
        if a[0] == 0:
            for f in w.files.values():
                if f.open and f.fd.owner == w.task:
                    w.drain(f)
            return 0
        f = w.file(a[0], "fflush")
        w.drain(f)
        f.last = None
        return 0

    @reg("fclose")
    def _(mc, a):
        w = world(mc)
        f = w.files.get(a[0])
        if f is None:
            raise Bug("invalid stream", "fclose of something that is not a stream")
        if not f.open:
            raise Bug("released twice", "fclose of a stream that is already closed")
        w.file(a[0], "fclose")
        w.drain(f)
        f.open = False
        f.fd.open = False
        if f.fd.end is not None:
            f.fd.end.peer.eof = True
        return 0

    @reg("rewind")
    def _(mc, a):
        f = world(mc).file(a[0], "rewind")
        f.fd.pos = 0
        f.last = None

    @reg("fseek", "fseeko")
    def _(mc, a):
        f = world(mc).file(a[0], "fseek")
        base = {0: 0, 1: f.fd.pos, 2: len(f.fd.data or [])}[a[2]]
        f.fd.pos = base + (a[1] if a[1] < 1 << 63 else a[1] - (1 << 64))
        f.last = None
        return 0

    R["fileno"] = lambda mc, a: world(mc).file(a[0], "fileno").fd.n
    R["feof"] = lambda mc, a: 1 if getattr(world(mc).file(a[0], "feof"), "eof", False) else 0
    R["ferror"] = lambda mc, a: 1 if getattr(world(mc).file(a[0], "ferror"), "err", False) else 0
    R["clearerr"] = lambda mc, a: None

    def get(mc, p, n):
        if n.__class__ is not int:
            raise AnalysisError("transfer of abstract length")
        if n:
            mc.check(p, n, "read")
        return [mc.load(p + i, 1) for i in range(n)]

    def zero(mc, f, what):
        f.zero += 1
        if f.zero > 40:
            raise Bug("retries for ever", "%s keeps being called although it makes no progress any more" % what)
        return 0

    GB, GO = 0x7000000000000000, 0x6000000000000000

    def gmove(mc, w, p, n, kind, what):
        """transfer of a part of the huge range"""
        g = w.giant
        if g is None or g["recv"] != kind:
            raise Bug("wrong range", "%s touches the caller's data in the wrong direction" % what)
        if p != g["base"] + g["pos"]:
            raise Bug("wrong range", "%s at offset %d of the data, but the next byte to transfer is %d" % (what, p - g["base"], g["pos"]))
        if g["pos"] + n > g["len"]:
            raise Bug("wrong range", "%s of %d bytes at offset %d, only %d were requested" % (what, n, g["pos"], g["len"]))
        g["pos"] += n
        g["n"] += 1

    @reg("vx_giant_begin")
    def _(mc, a):
        world(mc).giant = dict(base=a[0], len=a[1], recv=a[2] & 1, pos=0, n=0)

    @reg("vx_giant_end")
    def _(mc, a):
        w = world(mc)
        g = w.giant
        w.giant = None
        mc.obl.append((mc.cstr(a[0]), g["pos"] == g["len"], ("%d of %d bytes were transferred" % (g["pos"], g["len"]), None), mc.stack()[:6]))

    def gfind(mc, p, n, what):
        """the huge buffer [p, p+n) lies in"""
        for q, o in mc.__dict__.get("gobj", {}).items():
            if q <= p < q + max(1, o["len"]):
                if p + n > q + o["len"]:
                    raise Bug("out of bounds", "%s of %d bytes at offset %d of a buffer of %d bytes" % (what, n, p - q, o["len"]))
                return q, o
        raise Bug("out of bounds", "%s of %d bytes outside every buffer" % (what, n))

    def gput(o, off, n, segs):
        """bytes [off, off+n) of a huge buffer are replaced; a segment (off, n, src) holds bytes src.. of the data"""
        r = []
        for (x, k, s) in o["seg"]:
            if x + k <= off or x >= off + n:
                r.append((x, k, s))
                continue
            if x < off:
                r.append((x, off - x, s))
            if x + k > off + n:
                r.append((off + n, x + k - off - n, None if s is None else s + off + n - x))
        o["seg"] = sorted(r + segs, key=lambda t: t[0])

    def gget(o, off, n):
        r = []
        for (x, k, s) in o["seg"]:
            lo, hi = max(x, off), min(x + k, off + n)
            if lo < hi:
                r.append((lo - off, hi - lo, None if s is None else s + lo - x))
        return r

    def gcopy(mc, d, s, n):
        w = world(mc)
        segs = None
        if s >= GB:
            p0 = s - GB
            gmove(mc, w, s, n, 0, "copy")
            segs = [(0, n, p0)]
        elif s >= GO:
            q, o = gfind(mc, s, n, "read")
            segs = gget(o, s - q, n)
        else:
            mc.check(s, n, "read")
            segs = [(0, n, None)]
        if d >= GB:
            p0 = d - GB
            gmove(mc, w, d, n, 1, "copy")
            x = 0 if s >= GO else n    # an ordinary buffer: only the ranges are followed
            for (off, k, src) in segs if s >= GO else ():
                if off != x or src is None or src != p0 + off:
                    raise Bug("wrong range", "byte %d of the data is delivered as byte %d" % (-1 if src is None or off != x else src, p0 + x))
                x += k
            if x != n:
                raise Bug("wrong range", "byte %d of the data was never stored" % (p0 + x))
        elif d >= GO:
            q, o = gfind(mc, d, n, "copy")
            gput(o, d - q, n, [(off + d - q, k, src) for (off, k, src) in segs])
        else:
            mc.check(d, n, "write")
            if s < GB:
                raise AnalysisError("part of a huge buffer copied to an ordinary one")

    def wrapcopy(old):
        def f(mc, a):
            d, s, n = a[:3]
            if n.__class__ is int and n and d.__class__ is int and s.__class__ is int and (d >= GO or s >= GO):
                gcopy(mc, d, s, n)
                return d
            return old(mc, a)
        return f
    for nm in ("memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64"):
        R[nm] = wrapcopy(mx.MODELS[nm])

    def wrapset(old):
        def f(mc, a):
            if a[0].__class__ is int and a[0] >= GO and a[2].__class__ is int and a[2]:
                if a[0] >= GB:
                    raise Bug("wrong range", "the caller's data is overwritten")
                q, o = gfind(mc, a[0], a[2], "fill")
                gput(o, a[0] - q, a[2], [(a[0] - q, a[2], None)])
                return a[0]
            return old(mc, a)
        return f
    for nm in ("memset", "llvm.memset.p0.i64"):
        if nm in mx.MODELS:
            R[nm] = wrapset(mx.MODELS[nm])

    def gnew(old):
        def f(mc, a):
            if a[0].__class__ is int and (1 << 28) <= a[0] < (1 << 40) and mc.__dict__.get("world") is not None and mc.world.giant:
                g = mc.__dict__.setdefault("gobj", {})
                mc.gseq = mc.__dict__.get("gseq", 0) + 1
                p = GO + (mc.gseq << 44)
                g[p] = dict(len=a[0], seg=[])
                return p
            return old(mc, a)
        return f

    def gdel(old):
        def f(mc, a):
            if a[0].__class__ is int and a[0] >= GO:
                if mc.__dict__.get("gobj", {}).pop(a[0], None) is None:
                    raise Bug("double release", "buffer")
                return None
            return old(mc, a)
        return f
    for nm in ("_Znam", "_Znwm", "malloc"):
        R[nm] = gnew(mx.MODELS[nm])
    for nm in ("_ZdaPv", "_ZdaPvm", "_ZdlPv", "_ZdlPvm", "free"):
        R[nm] = gdel(mx.MODELS[nm])

    @reg("vx_tok")
    def _(mc, a):
        p, n, st, pos = a
        for k in range(n):
            mc.store(p + k, token(mc, st, pos + k), 1)

    @reg("vx_tokcheck")
    def _(mc, a):
        p, n, st, pos, lab = a
        bad = None
        for k in range(n):
            v, t = mc.load(p + k, 1), token(mc, st, pos + k)
            if v.__class__ is not Sym or v.b != t.b:
                q = mc.tokpos.get(v.b) if v.__class__ is Sym else None
                bad = "byte %d of %d is %s, must be byte %d of the stream" % (k, n, "byte %d of stream %d" % (q[1], q[0]) if q else "not a byte of the stream", pos + k)
                break
        mc.obl.append((mc.cstr(lab), bad is None, (bad, None), mc.stack()[:8]))

    @reg("vx_scramble")
    def _(mc, a):
        """the caller reuses its memory"""
        if a[1]:
            mc.memset(a[0], 0xEE, a[1])

    @reg("vx_accepted")
    def _(mc, a):
        world(mc).accepted[a[0]] = a[1]

    @reg("vx_pushed")
    def _(mc, a):
        return world(mc).pushed[a[0]]

    @reg("fwrite", "fwrite_unlocked")
    def _(mc, a):
        w = world(mc)
        f = w.file(a[3], "fwrite")
        n = a[1] * a[2]
        if n == 0:
            return 0
        if a[0] >= GB:
            k = w.limit(n)
            gmove(mc, w, a[0], k, 0, "fwrite")
            return k // a[1]
        if w.giant:
            return a[2]
        if f.fd.kind == "file":
            k = w.limit(n)
            if w.gone is not None:
                k = min(k, max(0, w.gone - w.nwritten))
            if k == 0:
                f.err = True
                return zero(mc, f, "fwrite")
            if f.last == "r":
                raise Bug("stream direction", "write on a stream straight after a read")
            f.last = "w"
            mc.check(a[0], n, "read")
            d = get(mc, a[0], k)
            q = f.fd.pos
            if len(f.fd.data) < q:
                f.fd.data += [0] * (q - len(f.fd.data))
            f.fd.data[q:q + k] = d
            f.fd.pos += k
            w.nwritten += k
            return k // a[1]
        if f.fd.kind != "conn":
            raise Bug("not connected", "write on a socket that is not connected")
        mc.check(a[0], n, "read")
        k = w.limit(n)
        if w.gone is not None:
            k = min(k, max(0, w.gone - w.nwritten))
        if k == 0:
            f.err = True
            return zero(mc, f, "fwrite")
        f.wbuf += get(mc, a[0], k)
        w.nwritten += k
        if len(f.wbuf) >= f.bufsize:
            w.drain(f)
        return k // a[1]

    @reg("fread", "fread_unlocked")
    def _(mc, a):
        w = world(mc)
        f = w.file(a[3], "fread")
        n = a[1] * a[2]
        if n == 0:
            return 0
        if a[0] >= GB:
            k = w.limit(n)
            gmove(mc, w, a[0], k, 1, "fread")
            return k // a[1]
        if a[0] >= GO:
            q, o = gfind(mc, a[0], n, "fread")
            k = w.limit(n)
            gput(o, a[0] - q, k, [(a[0] - q, k, f.gpos)])
            f.gpos += k
            return k // a[1]
        mc.check(a[0], n, "write")
        if w.giant:
            return a[2]
        k = w.limit(n)
        if f.fd.kind == "file":
            if f.last == "w":
                raise Bug("stream direction", "read on a stream straight after a write")
            f.last = "r"
            k = min(k, len(f.fd.data) - f.fd.pos)
            if k <= 0:
                f.eof = True
                return zero(mc, f, "fread")
            for i in range(k):
                mc.store(a[0] + i, f.fd.data[f.fd.pos + i], 1)
            f.fd.pos += k
            w.nread += k
            return k // a[1]
        if f.fd.kind != "conn":
            raise Bug("not connected", "read on a socket that is not connected")
        if f.wbuf:
            raise Bug("receives with unsent data", "a receive may block while %d bytes of earlier sends are still in the stream's buffer" % len(f.wbuf))
        if w.rgone is not None:
            k = min(k, max(0, w.rgone - w.nread))
            if k == 0:
                f.eof = True
                return zero(mc, f, "fread")
        w.blocking(f.fd)
        w.wait(f.fd, k, "fread")
        k = min(k, w.readable(f.fd))
        if k == 0:
            f.eof = True
            return zero(mc, f, "fread")
        e = f.fd.end
        for i in range(k):
            mc.store(a[0] + i, e.rx[e.rpos + i], 1)
        e.rpos += k
        w.nread += k
        return k // a[1]

    @reg("write", "send")
    def _(mc, a):
        w = world(mc)
        f = w.fd(a[0], "write")
        n = a[2]
        if f.kind != "conn":
            raise Bug("not connected", "write on a socket that is not connected")
        if n:
            mc.check(a[1], n, "read")
        k = w.limit(n)
        if w.gone is not None:
            k = min(k, max(0, w.gone - w.nwritten))
        if k == 0 and n:
            f.zero = getattr(f, "zero", 0) + 1
            if f.zero > 40:
                raise Bug("retries for ever", "write keeps being called although it makes no progress any more")
            return M[64]
        w.push(f, get(mc, a[1], k))
        w.nwritten += k
        return k

    @reg("read", "recv")
    def _(mc, a):
        w = world(mc)
        f = w.fd(a[0], "read")
        n = a[2]
        if f.kind != "conn":
            raise Bug("not connected", "read on a socket that is not connected")
        if n == 0:
            return 0
        mc.check(a[1], n, "write")
        k = w.limit(n)
        if w.rgone is not None:
            k = min(k, max(0, w.rgone - w.nread))
        else:
            w.blocking(f)
            w.wait(f, 1, "read")
        k = min(k, w.readable(f))
        if k == 0:
            f.zero = getattr(f, "zero", 0) + 1
            if f.zero > 40:
                raise Bug("retries for ever", "read keeps being called although it makes no progress any more")
            return 0
        e = f.end
        for i in range(k):
            mc.store(a[1] + i, e.rx[e.rpos + i], 1)
        e.rpos += k
        w.nread += k
        return k

    @reg("vx_run2")
    def _(mc, a):
        """run two entry functions as communicating tasks"""
        w = world(mc)
        fr = mc.frames
        t = Tasks(mc, w, [mc.cstr(a[0]), mc.cstr(a[1])])
        try:
            t.run()
        finally:
            mc.frames = fr
        mc.tasks_dead = t.dead
        for i, d in enumerate(t.dead):
            if d and not mc.params.get("may_stop"):
                raise Dead("party %d: %s" % (i, d))
        return 0

    INIT = "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"

    def rinit(mc, a):
        mc.__dict__.setdefault("rdev", set()).add(a[0])
        return mx.MODELS[INIT](mc, a)

    def rfini(mc, a):
        if a[0] not in mc.__dict__.setdefault("rdev", set()):
            raise Bug("released twice", "a random_device is released that is not open")
        mc.rdev.discard(a[0])
    R[INIT] = rinit
    R["_ZNSt13random_device7_M_finiEv"] = rfini

    @reg("vx_released")
    def _(mc, a):
        """everything acquired has been released"""
        w = world(mc)
        lab = mc.cstr(a[0])
        bad = None
        if mc.__dict__.get("rdev"):
            bad = "a random_device is never released"
        for f in w.files.values():
            if f.open:
                bad = "a stream is never closed"
        for f in w.fds.values():
            if f.open and not bad:
                bad = "descriptor %d (%s) is never closed" % (f.n, f.kind)
        mc.obl.append((lab, bad is None, (bad, None), mc.stack()[:6]))
        return 0

    @reg("vx_bytes_left")
    def _(mc, a):
        """unread bytes on the connection of a port, either direction"""
        w = world(mc)
        n = 0
        for p, e in w.ports.items():
            for x in e[:2]:
                n += len(x.rx) - x.rpos
        return n
    return R
