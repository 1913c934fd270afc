"""Channels deliver exactly the bytes sent or stop."""
from vsa import run, build
from checks.io import *

S2 = 32 * 1024


def sizes_scripts(th):
    """operation sequences around the internal buffer sizes"""
    o = []
    o.append(("below, at and above the buffer size", [op(SA, S2 - 1), op(SA, 1), op(SA, 1), op(SB, 1), op(SA, S2), op(SA, 1), op(SB, 2), op(SA, S2 + 1), op(SB, 3)]))
    o.append(("filling the buffer exactly, then more", [op(SB, 100), op(SB, S2 - 100), op(SB, 7), op(SA, 1), op(SB, S2 - 7), op(SB, 8), op(SA, 3)]))
    o.append(("several buffers in one message", [op(SA, 10), op(SA, 2 * S2), op(SA, 5), op(SB, 1), op(SB, 2 * S2 + 1), op(SB, 4), op(SA, 1)]))
    o.append(("receive ends at a buffer boundary", [op(SA, S2), op(SA, S2), op(SB, 1), op(SA, S2 // 2), op(SA, S2 // 2), op(SA, 1), op(SB, 1), op(SA, 1), op(SA, S2 - 1), op(SA, 2)]))
    o.append(("flushes between", [op(SA, 5), op(FLUSH), op(SA, S2), op(FLUSH), op(SB, S2 - 3), op(FLUSH), op(SB, 10), op(SA, 5)]))
    o.append(("empty messages", [op(SA, 0), op(SA, 9), op(SA, 0), op(SB, 0), op(SA, 4), op(SB, 6), op(SB, 0), op(SA, S2 - 1), op(SA, 0), op(SA, 2)]))
    if th:
        for i in range(6):
            o.append(("offset %d" % i, [op(SA, 1 + i), op(SA, S2 - 2), op(SA, i), op(SA, S2 - i), op(SB, S2 + i), op(SB, S2 - i), op(SA, 3 * S2 - 2 * i)]))
    return o


PIECES = [[1], [1, 3], [2, 7, 1], [5, 1, 1, 64], [4000, 1, 17]]


def pieces(p):
    return {"piece%d" % i: v for i, v in enumerate(p)}


def check(tier):
    th = tier == "thorough"
    bc = build.compile_tu(build.VERIF + "/harness/io.cpp")
    cx = []
    from checks.C21 import net_scripts, hs_scripts
    for i, (nm, ops) in enumerate(sizes_scripts(th)):
        for fl in ("net", "hs"):
            cx.append(ctx("%s, %s" % ("socket" if fl == "net" else "dual socket", nm), bc, "h_" + fl, script(ops, first=i % 2, syncs=fl == "net"), weight=1000))
    for nm, ops in net_scripts(th):
        cx.append(ctx("socket, %s" % nm, bc, "h_net", script(ops), weight=len(ops)))
    for nm, ops in hs_scripts(th):
        cx.append(ctx("dual socket, %s" % nm, bc, "h_hs", script(ops, syncs=0), weight=len(ops) * 8))
    mix = [op(SA, 11), op(SB, 6), op(SA, 1), op(SA, 70), op(SB, 33), op(SYNC), op(SB, 5), op(SA, 9)]
    for p in PIECES:
        cx.append(ctx("socket, in pieces %s" % p, bc, "h_net", dict(script(mix), **pieces(p)), driver=either("h_net")))
        if p[0] > 1000 or th:
            cx.append(ctx("dual socket, in pieces %s" % p, bc, "h_hs", dict(script([op(SA, 11), op(SB, S2 + 5), op(SA, 3)], syncs=0), **pieces(p)), driver=either("h_hs"), weight=900))
    # the peer is gone
    for n in (1, 5, 100):
        for k in sorted({0, 1, n - 1}):
            if k < n:
                cx.append(ctx("socket, peer gone after %d of %d bytes sent to it" % (k, n), bc, "h_gone", dict(n=n, recv=0, some=0, gone_after=k, may_stop=1), driver=stops("h_gone", "a send whose bytes were not accepted returns"), min_obl=1))
                cx.append(ctx("socket, peer gone after sending %d of %d bytes" % (k, n), bc, "h_gone", dict(n=n, recv=1, some=k, may_stop=1), driver=stops("h_gone", "a receive returns with part of the data missing"), min_obl=1))
                cx.append(ctx("dual socket, peer gone after %d of %d bytes sent to it" % (k, n), bc, "h_hsgone", dict(n=n, recv=0, some=0, gone_after=k, may_stop=1), driver=stops("h_hsgone", "a send whose bytes were not accepted returns"), min_obl=1))
    cx.append(ctx("dual socket, peer closes without sending", bc, "h_hsgone", dict(n=5, recv=1, some=0, may_stop=1), driver=stops("h_hsgone", "a receive returns with part of the data missing"), min_obl=1))
    cx.append(ctx("dual socket, peer closes after 50 bytes", bc, "h_hsgone", dict(n=S2 + 1, recv=1, some=50, may_stop=1), driver=stops("h_hsgone", "a receive returns with part of the data missing"), min_obl=1))
    # files
    F = 16 * 1024
    sets = [[1], [0], [3, 0, 5], [F - 1, 1, 1], [F, F + 1], [7, 2 * F + 3, 1], [1, 2, 3, 4, 5, 6, 7, 8]]
    for st in sets:
        d = dict(k=len(st), flush=len(st) % 2, same=0, over=0)
        d.update({"s%d" % i: v for i, v in enumerate(st)})
        cx.append(ctx("file, sizes %s" % st, bc, "h_file", d, weight=sum(st) // 100))
        cx.append(ctx("file, sizes %s, read back through the same channel" % st, bc, "h_file", dict(d, same=1), weight=sum(st) // 100))
        if sum(st) < 100:
            cx.append(ctx("file, sizes %s, one byte too many" % st, bc, "h_file", dict(d, over=1), driver=stops("h_file", "reading beyond the end of the file returns")))
            for p in PIECES[:3]:
                cx.append(ctx("file, sizes %s, in pieces %s" % (st, p), bc, "h_file", dict(d, **pieces(p)), driver=either("h_file")))
            if sum(st):
                cx.append(ctx("file, sizes %s, disk full" % st, bc, "h_file", dict(d, gone_after=sum(st) - 1), driver=stops("h_file", "a write that was not accepted returns")))
    # memory
    W, Rd, CL = 0, 1, 2
    seqs = [[(W, 5), (Rd, 2), (W, 3), (Rd, 6)], [(W, 1)] * 12 + [(Rd, 12)], [(W, 7), (CL, 0), (W, 4), (Rd, 4)], [(W, 0), (Rd, 0), (W, 9), (Rd, 9), (W, 8), (Rd, 8)],
            [(W, 16), (W, 16), (Rd, 32), (W, 100), (Rd, 100)], [(W, 3), (Rd, 1), (CL, 0), (W, 30), (Rd, 30)], [(W, 15), (W, 1), (W, 1), (Rd, 17)], [(W, 200), (Rd, 199), (W, 1), (Rd, 2)]]
    for q in seqs:
        for cap in (0, 1, 4, 15, 16, 17, 64, 1024):
            d = dict(nop=len(q), cap=cap)
            d.update({"op%d" % i: k | n << 8 for i, (k, n) in enumerate(q)})
            cx.append(ctx("memory, capacity %d, %s" % (cap, q), bc, "h_mem", d))
        q2 = q + [(Rd, 1)]
        d = dict(nop=len(q2), cap=16)
        d.update({"op%d" % i: k | n << 8 for i, (k, n) in enumerate(q2)})
        cx.append(ctx("memory, %s, too little data" % q, bc, "h_mem", d, driver=stops("h_mem", "receiving more than was sent returns")))
    for n in (2, 5):
        q = [(W, 10), (Rd, 10), (CL, 0), (W, n), (Rd, n + 1)]
        d = dict(nop=len(q), cap=32)
        d.update({"op%d" % i: k | m << 8 for i, (k, m) in enumerate(q)})
        cx.append(ctx("memory, too little data after clear (%d)" % n, bc, "h_mem", d, driver=stops("h_mem", "receiving more than was sent returns")))
    for n, m in ((20, 20), (20, 7), (1, 1), (5000, 4999)):
        for cap in (8, 64, 9000):
            d = dict(n=n, m=m, cap=cap, over=0)
            cx.append(ctx("memory, load %d of %d bytes of a file, capacity %d" % (m, n, cap), bc, "h_load", d))
            cx.append(ctx("memory, load %d of %d bytes of a file, capacity %d, too little data" % (m, n, cap), bc, "h_load", dict(d, over=1), driver=stops("h_load", "receiving more than was sent returns")))
    cx.append(ctx("memory, load more than the file has", bc, "h_load", dict(n=5, m=6, cap=8, over=0), driver=stops("h_load", "loading beyond the end of the file returns")))
    # huge
    G = 1 << 30
    for n in (2 * G - 1, 2 * G, 2 * G + 5, 4 * G - 1, 4 * G, 4 * G + 3, 9 * G + 1):
        for p in ([], [G + 1], [2 * G + 3], [4 * G + 1, 7]):
            for rv in (0, 1):
                cx.append(ctx("socket, %s %d bytes, pieces %s" % ("receive" if rv else "send", n, p), bc, "h_big_net", dict(n=n, recv=rv, blk=0, **pieces(p))))
                cx.append(ctx("file, %s %d bytes, pieces %s" % ("receive" if rv else "send", n, p), bc, "h_big_file", dict(n=n, recv=rv, blk=0, **pieces(p))))
            cx.append(ctx("dual socket, send %d bytes, pieces %s" % (n, p), bc, "h_big_hs", dict(n=n, recv=0, blk=0, **pieces(p))))
        cx.append(ctx("memory, send %d bytes" % n, bc, "h_big_mem", dict(n=n, recv=0, blk=0)))
        for k in (0, 1, n - 1, 2 * G - 2):
            cx.append(ctx("memory, send %d bytes, then receive them, cut at %d" % (n, k), bc, "h_big_mem_recv", dict(n=n, k=k, sk=0 if k < 2 else k, load=0, over=0)))
            cx.append(ctx("memory, load %d bytes, receive them, cut at %d" % (n, k), bc, "h_big_mem_recv", dict(n=n, k=k, sk=0, load=1, over=0)))
            cx.append(ctx("memory, load %d bytes, send 5 more, receive them, cut at %d" % (n, k), bc, "h_big_mem_recv", dict(n=n, k=k, sk=5, load=1, over=0)))
        for ov in (1, 4 * G, 4 * G + 1):
            cx.append(ctx("memory, load %d bytes, receive them and %d more" % (n, ov), bc, "h_big_mem_recv", dict(n=n, k=0, sk=0, load=1, over=ov), expect_abort=True))
    cx.append(ctx("dual socket, receive %d bytes" % (2 * G + 5), bc, "h_big_hs", dict(n=2 * G + 5, recv=1, blk=0), weight=2000))
    if th:
        cx.append(ctx("dual socket, receive %d bytes" % (4 * G + 3), bc, "h_big_hs", dict(n=4 * G + 3, recv=1, blk=0), weight=3000))
    r = run.Report("Both ends of socket and dual-socket connections, files and memory channels over scripts of operations with sizes around every internal buffer size; every byte is an unknown, traced from the sender's memory to the receiver's. "
                   "Transport limits (short counts, closed peer, end of file, full disk) are contexts of their own; transfers of 2 GiB and more are followed as ranges.",
                   "bytes received == next bytes sent, each exactly once; data missing => error(); all accesses within the exact sizes of caller and internal buffers; no truncation of lengths",
                   ["operation sequences and sizes listed in this file", "standard C streams and sockets as specified; a short count is either continued or reported, never ignored"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::NetIO::recv_data_internal", "emp::NetIO::send_data_internal", "emp::HighSpeedNetIO::recv_data_internal", "emp::HighSpeedNetIO::send_data_internal", "emp::FileIO::send_data_internal", "emp::FileIO::recv_data_internal", "emp::MemIO::send_data_internal", "emp::MemIO::recv_data_internal", "emp::MemIO::load_from_file")
