"""Flush before blocking, synchronisation."""
from vsa import run, build
from checks.io import *


def net_scripts(th):
    out = []
    kinds = [lambda i: op(SA, 1 + i % 3), lambda i: op(SB, 2 + i % 2), lambda i: op(SYNC), lambda i: op(FLUSH)]
    db = debruijn(4, 4 if th else 3)
    out.append(("every 3 consecutive operations", [kinds[k](i) for i, k in enumerate(db)]))
    kinds2 = [lambda i: op(SA, 2), lambda i: op(SB, 3), lambda i: op(FA), lambda i: op(FB), lambda i: op(SA, 0), lambda i: op(SB, 0)]
    out.append(("empty messages and one-sided flushes", [kinds2[k](i) for i, k in enumerate(debruijn(6, 2))]))
    for k in range(6):
        for j in range(6):
            out.append(("ends with operations %d, %d" % (j, k), [op(SA, 5), op(SB, 5), op(j, 3 if j < 2 else 0), op(k, 4 if k < 2 else 0)]))
    out.append(("nothing", []))
    return out


def hs_scripts(th):
    out = []
    kinds = [lambda i: op(SA, 3 + i % 3), lambda i: op(SB, 2 + i % 2), lambda i: op(FLUSH)]
    out.append(("every 3 consecutive operations", [kinds[k](i) for i, k in enumerate(debruijn(3, 3))]))
    kinds2 = [lambda i: op(SA, 3), lambda i: op(SB, 5), lambda i: op(SA, 0), lambda i: op(SB, 0), lambda i: op(SYNC)]
    out.append(("empty messages and syncs", [kinds2[k](i) for i, k in enumerate(debruijn(5, 2))]))
    for k in range(4):
        for j in range(4):
            out.append(("ends with operations %d, %d" % (j, k), [op(SA, 5), op(SB, 5), op(j, 3 if j < 2 else 0), op(k, 4 if k < 2 else 0)]))
    out.append(("nothing", []))
    S2 = 32 * 1024
    out.append(("messages longer than the buffer", [op(SA, S2 + 1), op(SB, 2), op(SA, 5), op(SA, 2 * S2), op(SB, S2 + 7), op(SA, 1)]))
    out.append(("messages that fill the buffer", [op(SB, S2), op(SA, 2), op(SB, S2 - 2), op(SB, 2), op(SA, 1), op(SB, 9), op(SB, S2), op(SA, 1)]))
    return out


def check(tier):
    th = tier == "thorough"
    bc = build.compile_tu(build.VERIF + "/harness/io.cpp")
    cx = []
    for first in (0, 1):
        for nm, ops in net_scripts(th):
            cx.append(ctx("socket, %s, party %d first" % (nm, first), bc, "h_net", script(ops, first=first), weight=len(ops)))
        for nm, ops in hs_scripts(th):
            cx.append(ctx("dual socket, %s, party %d first" % (nm, first), bc, "h_hs", script(ops, first=first, syncs=0), weight=len(ops) * 8))
        cx.append(ctx("one sync, party %d first" % first, bc, "h_sync", dict(first=first)))
    r = run.Report("Both ends of a connection are analysed together over scripts of sends, receives, syncs and flushes containing every short combination of operations; the connection is a pair of FIFO byte pipes with blocking reads, "
                   "so the result does not depend on the schedule (Kahn). At each read of a socket the bytes accepted by send so far are compared with those handed to the system.",
                   "no blocking read with accepted bytes still buffered; no script deadlocks; destruction hands over pending bytes before closing; sync sends one byte and returns after the peer reached it",
                   ["operation sequences: all windows of 3 operations (4 in the thorough run) and all endings of 2", "the standard C stream functions as specified (a stream keeps written bytes until its buffer is full or it is flushed or closed)"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::NetIO::recv_data_internal", "emp::NetIO::~NetIO", "emp::NetIO::sync", "emp::HighSpeedNetIO::recv_data_internal", "emp::HighSpeedNetIO::~HighSpeedNetIO", "emp::HighSpeedNetIO::flush")
