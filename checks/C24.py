"""Curve and big-integer wrappers: ownership and failures."""
from vsa import run, build, ossl, osmodel
from vsa.machine import Dead


def ecmodels():
    m = osmodel.models()
    m.update(ossl.models())
    return m


def fail_driver(s, k):
    def d(mc, res):
        mc.params = dict(s=s, bn_bits=255)
        if k is not None:
            mc.params["ec_fail_at"] = k
        res.obl += 1
        died = False
        try:
            mc.call("h_fail")
        except Dead:
            died = True
        failed = mc.__dict__.get("ecfailed")
        res.extra["calls"] = mc.__dict__.get("eccalls", 0)
        if failed and not died:
            res.failure("failure ignored", "%s failed and the program went on" % failed)
        elif died and not failed:
            res.failure("unexpected stop", "the program stops although no operation failed")
    return d


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/ec.cpp")
    C = run.Ctx
    cx = []
    for s, nm in enumerate(("points", "integers", "scratch space", "points of two groups")):
        for nb in (1, 8, 255, 256) if s == 1 else (255,):
            cx.append(C("%s, %d-bit integers" % (nm, nb), bc, "h_own", dict(s=s, bn_bits=nb), models=ecmodels()))
    for s in range(16):
        for k in [None] + list(range(8)):
            cx.append(C("operation %d, %s" % (s, "no failure injected" if k is None else "call %d fails" % k), bc, "h_fail", dict(s=s), models=ecmodels(), driver=fail_driver(s, k)))
    cx.append(C("key derivation from points", bc, "h_kdf", dict(bn_bits=255), models=ecmodels()))
    r = run.Report("Ownership analysis of the point, integer and group classes: library objects are tracked from creation to release through copies, assignments, containers, arithmetic and decoding; values are terms, compared with the operation's meaning. "
                   "For every operation each of its fallible curve calls is made to fail in a context of its own.",
                   "each object released exactly once, never used afterwards, never shared; failed EC_POINT operation => error() before anything else is done; encodings fit the announced size",
                   ["allocation (EC_POINT_new, BN_new) does not fail", "operation sequences listed in harness/ec.cpp", "curve arithmetic itself (OpenSSL)"])
    r.add(run.run_ctxs(cx))
    return r.need("emp::Point::operator=", "emp::Point::add", "emp::Point::from_bin", "emp::BigInt::from_bin", "emp::Group::~Group", "emp::Point::operator==", "emp::Hash::KDF")
