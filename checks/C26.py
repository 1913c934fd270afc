"""Resources are released exactly once."""
from vsa import run, build, net, osmodel, iomodel
from checks.io import *
from checks.C24 import ecmodels
from checks.C21 import net_scripts, hs_scripts
from checks.C20 import pieces


def check(tier):
    th = tier == "thorough"
    b = run.parallel_compile([("io", build.VERIF + "/harness/io.cpp", {}), ("ec", build.VERIF + "/harness/ec.cpp", {}), ("hash", build.VERIF + "/harness/hash.cpp", {}), ("rel", build.VERIF + "/harness/release.cpp", {})])
    bc = b["io"]
    cx = []
    mix = [op(SA, 11), op(SB, 6), op(SYNC), op(SA, 70), op(FLUSH), op(SB, 33)]
    for q in (0, 1):
        for cf in (0, 1, 2, 5):
            for first in (0, 1):
                cx.append(ctx("socket, %d failed connection attempts, quiet %d, party %d first" % (cf, q, first), bc, "h_net", script(mix, quiet=q, first=first, delay=1, connect_fails=cf)))
                cx.append(ctx("dual socket, %d failed connection attempts, quiet %d, party %d first" % (cf, q, first), bc, "h_hs", script(mix, quiet=q, first=first, syncs=0, connect_fails=cf)))
    for nm, ops in net_scripts(th)[2:]:
        cx.append(ctx("socket, %s" % nm, bc, "h_net", script(ops, first=len(cx) % 2)))
    for nm, ops in hs_scripts(th)[2:]:
        cx.append(ctx("dual socket, %s" % nm, bc, "h_hs", script(ops, first=len(cx) % 2, syncs=0)))
    for st in ([], [1], [3, 0, 5], [20000, 1]):
        d = dict(k=len(st), flush=len(st) % 2, same=0, over=0)
        d.update({"s%d" % i: v for i, v in enumerate(st)})
        cx.append(ctx("file, sizes %s" % st, bc, "h_file", d))
        cx.append(ctx("file, sizes %s, both directions" % st, bc, "h_file", dict(d, same=1)))
    W, Rd, CL = 0, 1, 2
    for q in ([], [(W, 5)], [(W, 100), (Rd, 50), (W, 200), (Rd, 250)], [(W, 10), (CL, 0), (W, 2000), (CL, 0)]):
        for cap in (0, 1, 64):
            d = dict(nop=len(q), cap=cap)
            d.update({"op%d" % i: k | n << 8 for i, (k, n) in enumerate(q)})
            cx.append(ctx("memory, capacity %d, %s" % (cap, q), bc, "h_mem", d))
    for n, m in ((20, 20), (20, 7), (5000, 4999)):
        cx.append(ctx("memory, load %d of %d bytes" % (m, n), bc, "h_load", dict(n=n, m=m, cap=64, over=0)))
    em = ecmodels()
    cx.append(ctx("hash and generator objects", bc, "h_hash_release", {}, models=em))
    for s in range(3):
        cx.append(ctx("curve objects %d" % s, b["ec"], "h_own", dict(s=s, bn_bits=255), models=em))
    for s in ([(0, 5), (2, 0)], [(0, 9000), (3, 0), (0, 1), (2, 0)], []):
        d = dict(nop=len(s), total=sum(n for k, n in s))
        d.update({"op%d" % i: k | n << 8 for i, (k, n) in enumerate(s)})
        cx.append(ctx("hash %s" % s, b["hash"], "h_hash", d, models=em))
    NM = net.models()
    for g in range(15):
        for w in (1, 2, 7, 32, 65):
            if g == 8 and w > 7 or g in (11, 12) and w > 64:
                continue
            cx.append(run.Ctx("integer operation group %d, width %d" % (g, w), b["rel"], "h_rel_int", dict(w=w, op=g), dom="NET", oblivious=False, models=NM, weight=w))
    for g in range(4):
        for n in (0, 1, 8, 9):
            cx.append(run.Ctx("hash function %d on %d blocks" % (g, n), b["rel"], "h_rel_hash", dict(n=n, op=g), weight=n))
    pm = dict(osmodel.models())
    pm.update(iomodel.iostreams())
    cx.append(run.Ctx("plaintext backend", b["rel"], "h_rel_plain", {}, models=pm))
    r = run.Report("Typestate of every stream, descriptor, heap buffer, digest context, curve object and random device from acquisition to release along construction, use and destruction of each class, including failed connection attempts.",
                   "acquired -> used* -> released exactly once; nothing used after release; a stream's buffer is alive whenever the stream is used; a descriptor owned by a stream is closed by the stream only; nothing left at the end",
                   ["operation sequences listed in this file", "system calls other than connect succeed"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::NetIO::~NetIO", "emp::SubChannel::~SubChannel", "emp::FileIO::~FileIO", "emp::MemIO::~MemIO", "emp::Hash::~Hash", "emp::HighSpeedNetIO::client_connect", "emp::HighSpeedNetIO::server_listen")
