"""Endpoints of socket channels."""
from vsa import run, build
from checks.io import *

ADDR = ["127.0.0.1", "10.1.2.3", "192.168.255.1", "255.0.254.7"]
AF_INET, SOCK_STREAM = 2, 1


def post(binds, conns, fails):
    """binds, conns: the ports in the order both sides must use them"""
    def f(mc, res):
        w = mc.world
        b = [e for e in w.ends if e[0] == "bind"]
        c = [e for e in w.ends if e[0] == "connect"]

        def need(ok, what):
            res.obl += 1
            if not ok:
                res.failure("wrong endpoint", what)
        for e in b + c:
            need(e[1] is not None and e[1][0] == AF_INET and e[1][1] == SOCK_STREAM and e[2] == AF_INET, "%s uses %s, not an IPv4 stream socket" % (e[0], e[1:3]))
        need([e[4] for e in b] == binds, "the server binds ports %s, must be %s in this order" % ([e[4] for e in b], binds))
        need(all(e[3] == "0.0.0.0" for e in b), "the server binds address %s, must accept on every interface" % sorted(set(e[3] for e in b)))
        ad = ADDR[mc.params["addr"]]
        need(all(e[3] == ad for e in c), "the client connects to %s, the caller asked for %s" % (sorted(set(e[3] for e in c)), ad))
        want = [conns[0]] * (fails + 1) + conns[1:]
        need([e[4] for e in c] == want, "the client connects to ports %s, must be %s (%d attempts fail)" % ([e[4] for e in c], want, fails))
    return f


def unwinding(entry):
    def d(mc, res):
        mc.unwind = True
        mc.call(entry)
    return d


def nothing(mc, res):
    res.obl += 1
    w = mc.__dict__.get("world")
    if w and w.ends:
        res.failure("wrong endpoint", "%s to port %d before the port was refused" % (w.ends[0][0], w.ends[0][4]))


def check(tier):
    th = tier == "thorough"
    bc = build.compile_tu(build.VERIF + "/harness/conn.cpp")
    cx = []
    ports = [0, 1, 80, 255, 256, 1024, 12345, 32767, 32768, 65534, 65535] + (list(range(2, 65536, 997)) + [1 << k for k in range(16)] if th else [])
    for i, p in enumerate(ports):
        for cf in (0, 1, 4):
            for first in (0, 1):
                for ad in range(4):
                    if not th and (i + cf + first + ad) % 2:
                        continue
                    d = dict(port=p, addr=ad, connect_fails=cf, first=first, quiet=(i + ad) & 1)
                    cx.append(ctx("port %d at %s, %d failed attempts, party %d first" % (p, ADDR[ad], cf, first), bc, "h_conn", d, post=post([p], [p], cf)))
                    p2 = p + 1 if p < 65535 else 7
                    for a, b in ((p, p2), (p2, p)):
                        cx.append(ctx("dual, ports %d and %d at %s, %d failed attempts, party %d first" % (a, b, ADDR[ad], cf, first), bc, "h_conn_hs", dict(d, port=a, port2=b), post=post([a, b], [a, b], cf)))
    for cf in (100, 1100, 70000, 300000) + ((3000000,) if th else ()):
        d = dict(port=4321, port2=4322, addr=1, connect_fails=cf, first=1, quiet=1)
        cx.append(ctx("%d failed attempts" % cf, bc, "h_conn", d, post=post([4321], [4321], cf)))
        cx.append(ctx("dual, %d failed attempts" % cf, bc, "h_conn_hs", d, post=post([4321, 4322], [4321, 4322], cf)))
    bad = [-1, -2, 65536, 65537, 65536 + 80, 1 << 17, 0x7fffffff, -65536, -0x80000000]
    for p in bad:
        for cl in (0, 1):
            P = p & 0xffffffff
            cx.append(ctx("port %d refused, client %d" % (p, cl), bc, "h_refuse", dict(hs=0, client=cl, addr=0, port=P, port2=0), driver=unwinding("h_refuse"), post=nothing))
            for a, b in ((P, 5), (5, P), (P, P)):
                cx.append(ctx("dual, ports %d and %d refused, client %d" % (a, b, cl), bc, "h_refuse", dict(hs=1, client=cl, addr=0, port=a, port2=b), driver=unwinding("h_refuse"), post=nothing))
    for hs in (0, 1):
        for what in ("bind_fails", "listen_fails"):
            cx.append(ctx("%s, dual %d" % (what.replace("_", " "), hs), bc, "h_server", {"hs": hs, what: 1}, expect_abort=True))
    r = run.Report("Construction of socket and dual-socket channels on both sides: every address handed to bind and connect is compared with the constructor's arguments, for ports over the whole range, several addresses and repeated refusals of the connection; ports outside the range, and refusals of the port by the system.",
                   "server: IPv4 stream socket, any interface, exactly the given port(s), in order; client: exactly the given address and port(s), in the same order, repeated until accepted; invalid port => exception before any socket address is used and nothing held; bind or listen refused => program ends with failure status",
                   ["ports, addresses and numbers of failed attempts listed in this file"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::NetIO::NetIO", "emp::HighSpeedNetIO::HighSpeedNetIO", "emp::HighSpeedNetIO::client_connect", "emp::HighSpeedNetIO::server_listen")
