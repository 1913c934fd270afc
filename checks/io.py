"""Shared contexts of the channel checks (C20, C21, C26)."""
from vsa import run, build, osmodel
from vsa.machine import Dead

SA, SB, SYNC, FLUSH, FA, FB = range(6)


def op(kind, n=0):
    return kind | n << 8


def script(ops, **kw):
    d = dict(nop=len(ops), quiet=1, first=0, syncs=1, delay=0)
    for i, o in enumerate(ops):
        d["op%d" % i] = o
    d.update(kw)
    return d


def debruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def ctx(name, bc, entry, params, **kw):
    kw.setdefault("models", osmodel.models())
    return run.Ctx(name, bc, entry, params, **kw)


def stops(entry, what):
    """driver: the program must stop with an error"""
    def d(mc, res):
        res.obl += 1
        try:
            mc.call(entry)
        except Dead:
            return
        dead = [x for x in mc.__dict__.get("tasks_dead", []) if x]
        if not dead:
            res.failure("missing stop", what)
    return d


def either(entry):
    """driver: complete correctly or stop with an error"""
    def d(mc, res):
        res.obl += 1
        try:
            mc.call(entry)
        except Dead:
            res.extra["stopped"] = True
    return d
