"""Execution backends: which backend the gates of each thread reach."""
from vsa import run, build, iomodel
from vsa.machine import Bug, Obj
from vsa.dom import Sym, bits
from vsa.net import LBL, DER
from checks import floats

STRIDE = 1 << 44


def label(mc, id):
    n = mc.__dict__.setdefault("bcount", {})
    w = n[id] = n.get(id, 0) + 1
    b = LBL + STRIDE * id + 128 * w
    return Sym(tuple(range(b, b + 128)))


def wire(mc, id, p, what):
    v = mc.load(p, 16)
    b = v.b[0] if v.__class__ is Sym else -1
    if LBL <= b < DER and (b - LBL) % 128 == 0 and v.b == tuple(range(b, b + 128)):
        k = (b - LBL) // STRIDE
        if id is not None and k != id:
            raise Bug("foreign wire", "%s of backend %d is a wire of backend %d" % (what, id, k))
        return k
    raise Bug("not a wire", "%s is not a wire" % what)


def expect(mc, id, what):
    mc.obl.append(("backend", True, None, None))
    if mc.expected != id:
        raise Bug("wrong backend", "%s reaches backend %d, but backend %d is installed" % (what, id, mc.expected))


def models():
    M = {}

    def bgate(mc, a):
        id = a[0]
        expect(mc, id, "a gate")
        wire(mc, id, a[3], "operand of a gate")
        if chr(a[2]) != '!':
            wire(mc, id, a[4], "operand of a gate")
        mc.store(a[1], label(mc, id), 16)

    def bpub(mc, a):
        expect(mc, a[0], "a public constant")
        mc.store(a[1], label(mc, a[0]), 16)

    def bfeed(mc, a):
        expect(mc, a[0], "an input")
        for i in range(a[4]):
            mc.store(a[1] + 16 * i, label(mc, a[0]), 16)

    def breveal(mc, a):
        expect(mc, a[0], "an output")
        for i in range(a[4]):
            wire(mc, a[0], a[3] + 16 * i, "revealed label")
            mc.store(a[1] + i, 0, 1)

    def bwire(mc, a):
        mc.obl.append(("result", True, None, None))
        wire(mc, mc.expected, a[0], "result")

    def thread(mc, a):
        """switch the thread-local variables to those of thread a[0]"""
        cur = mc.__dict__.get("thread", None)
        st = mc.__dict__.setdefault("tls", {})
        save = {}
        for oid, g in mc.mod.gvs.items():
            if g.tls and oid in mc.objs:
                save[oid] = mc.objs.pop(oid)
        if cur is not None:
            st[cur] = save
        mc.thread = a[0]
        for oid, o in st.get(a[0], {}).items():
            mc.objs[oid] = o

    def shared(mc, a):
        cur = {}
        for oid, g in mc.mod.gvs.items():
            o = mc.objs.get(oid)
            if o is None or g.tls or g.const or not repo_global(g.name):
                continue
            cur[g.name] = dict(o.mem)
        if a[0] == 0:
            mc.snap = cur
            return
        for n, m in cur.items():
            mc.obl.append(("shared state", True, None, None))
            if n in mc.snap and mc.snap[n] != m:
                raise Bug("shared state", "%s is written by threads without being per-thread" % run.demangle(n))
    M.update(vx_bgate=bgate, vx_bpub=bpub, vx_bfeed=bfeed, vx_breveal=breveal, vx_bwire=bwire, vx_thread=thread, vx_shared=shared,
             vx_expect=lambda mc, a: setattr(mc, "expected", a[0]))
    return M


def repo_global(n):
    return "3emp" in n


def check(tier):
    th = tier == "thorough"
    bcs = {}
    jobs = []
    fl = floats.define()
    for v, d in (("one backend per process", ()), ("one backend per thread", ("THREADING",))):
        jobs.append([((v, "h"), build.VERIF + "/harness/backend.cpp", dict(defs=list(d) + fl)),
                     ((v, "l"), build.REPO + "/emp-tool/emp-tool.cpp", dict(defs=list(d)))])
    b = run.parallel_compile(jobs[0])
    broken = None
    try:
        b.update(run.parallel_compile(jobs[1]))
    except build.BuildError as e:
        broken = str(e)         # the default configuration builds, the multi-threaded one does not
    M = dict(iomodel.stdio())
    M.update(iomodel.iostreams())
    M.update(models())
    cx = []
    for k, v in enumerate(("one backend per process", "one backend per thread")):
        if k and broken:
            continue
        bc = build.link([b[(v, "h")], b[(v, "l")]], "backend%d.bc" % k)
        N = 9
        for w in range(N):
            for w2 in (range(N) if th else sorted({w, (w + 1) % N, 1})):
                if not th and 2 < max(w, w2) < 8 and (min(w, w2) > 2 or w2 != 1):
                    continue
                cx.append(run.Ctx("%s, replaced while running, operations %d and %d" % (v, w, w2), bc, "h_switch", dict(what=w, what2=w2), dom="NET", models=M, weight=20 if 2 < max(w, w2) < 8 else 1))
                if k:
                    cx.append(run.Ctx("%s, three threads, operations %d and %d" % (v, w, w2), bc, "h_threads", dict(what=w, what2=w2), dom="NET", models=M, weight=40 if 2 < max(w, w2) < 8 else 1))
        if k:
            cx.append(run.Ctx("%s, plaintext backend set up and finished in another thread" % v, bc, "h_plain_threads", {}, dom="NET", models=M))
    r = run.Report("All circuit types issue gates against recording backends while backends are installed, replaced and (with THREADING) used from interleaved threads, each with its own copy of the thread-local variables; every gate, constant, input, output and result wire is attributed to the backend that produced it.",
                   "a gate reaches the backend last installed in its own thread; no wire of one backend reaches another; no other mutable library state is shared between threads",
                   ["operation mixes and interleavings listed in harness/backend.cpp; switching is at operation boundaries (the per-thread variables make finer interleavings equivalent)"])
    r.add(run.run_ctxs(cx))
    if broken:
        f = run.Result("one backend per thread")
        f.failure("does not build", "the multi-threaded configuration does not compile: " + " ".join(l for l in broken.splitlines() if "error" in l)[:400])
        r.add([f])
    return r.need("emp::Bit::operator&", "emp::Integer::operator+", "emp::Float::operator+", "BristolFormat::compute", "setup_plain_prot")
