"""Host values to bools to wires and back, for all values."""
from vsa import run, build, net
from vsa.dom import bits


def check(tier):
    th = tier == "thorough"
    bc = build.compile_tu(build.VERIF + "/harness/conv.cpp")
    M = net.models()
    C = []

    def add(name, entry, mono=True, post=None, min_obl=1, **p):
        prm = dict(conc=0, val=0, party=1, back=0, len=1, rev=0, skew=0, ty=0)
        prm.update(p)
        C.append(run.Ctx(name, bc, entry, prm, dom="NETB" if entry == "h_feed" else "NET", oblivious="labels" if entry == "h_feed" else False, models=mm, post=post, min_obl=min_obl))
    mm = dict(M)

    def tostr(mc, a):
        sret, f = a[0], a[1]
        mc.__dict__.setdefault("tostr", []).append(f)
        mc.store(sret, sret + 16, 8)
        mc.store(sret + 8, 0, 8)
        mc.store(sret + 16, 0, 1)
    mm["_ZNSt7__cxx119to_stringEf"] = tostr
    for ty in range(8):
        for ln in (0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64) + ((65, 100) if ty in (1, 3, 6, 7) else ()):
            add("int conversions type %d length %d" % (ty, ln), "h_conv", ty=ty, len=ln)
    for ty in range(4):
        for rev in (0, 1):
            for ln in ((0, 1, 3, 7, 8, 9, 12, 16, 17, 31, 63, 64, 65, 127, 128, 129, 200) if not th else range(0, 270)):
                for skew in ((0, 1) if ty != 2 else (0,)):
                    add("memory conversions type %d length %d rev=%d skew=%d" % (ty, ln, rev, skew), "h_mem", ty=ty, rev=rev, len=ln, skew=skew, min_obl=0 if ln == 0 else 1)
    add("blocks", "h_block")

    def own(party, back):
        def post(mc, res):
            n = mc.net
            res.obl += 1
            for p, ws in n.feeds:
                if p != party:
                    res.failure("owner", "value is fed for party %d instead of %d" % (p, party))
                    return
            for p, ws in n.reveals:
                if p != back & 0xffffffff:
                    res.failure("receiver", "value is revealed to party %d instead of %d" % (p, back))
                    return
            if party == 0 and n.feeds:
                res.failure("owner", "a public value is fed as private")
            if party != 0 and not n.feeds:
                res.failure("owner", "a private value is not fed")
        return post
    PAT = [0, 1, (1 << 64) - 1, 0x8000000000000000, 0x8000000080000000, 0x123456789abcdef, 0xfedcba9876543210, 0x7fffffff, 0xffffffff]
    add("default owners and receivers", "h_feed", op=9, party=0, back=0, post=own(0, 0))
    add("bool of a bit", "h_feed", op=1000, party=0, back=0, conc=False, val=0)
    for party in (0, 1, 2):
        for back in (0, 1, 2):
            vals = [None] + (PAT if party == 0 else [0x123456789abcdef])
            for v in vals:
                p = dict(party=party, back=back, conc=v is not None, val=v or 0, post=own(party, back))
                nm = " party %d to %d%s" % (party, back, "" if v is None else " value %#x" % v)
                add("bit" + nm, "h_feed", op=0, **p)
                if v is not None:
                    add("bit text" + nm, "h_feed", op=1, **p)
                for ln in (1, 2, 5, 8, 31, 32, 33, 63, 64, 65, 128) if back == 0 or th else (7, 40):
                    add("integer %d" % ln + nm, "h_feed", op=2, len=ln, **p)
                    add("integer memory %d" % ln + nm, "h_feed", op=3, len=ln, **p)
                    add("integer bools %d" % ln + nm, "h_feed", op=8, len=ln, **p)
                add("integer object" + nm, "h_feed", op=4, **p)
            for u in ([None] + ([0, 0x80000000, 0x3f800000, 0xc2f6e979, 0x7f7fffff, 0x00000001, 0x7f800000, 0xff800000] if party == 0 else [])):
                p = dict(party=party, back=back, conc=u is not None, val=u or 0)
                nm = " party %d to %d%s" % (party, back, "" if u is None else " value %#x" % u)
                add("float" + nm, "h_feed", op=5, post=own(party, back), **p)

                def fpost(mc, res, u=u):
                    res.obl += 1
                    t = mc.__dict__.get("tostr")
                    w = u if u is not None else mc.word("x0", 32)
                    if not t:
                        from vsa.ir import AnalysisError
                        raise AnalysisError("float text is not produced by std::to_string(float)")
                    if bits(t[0], 32) != bits(w, 32):
                        res.failure("float revealed as text", "the value turned into text is not the value fed")
                add("float text" + nm, "h_feed", op=6, post=fpost, **p)
            add("defaults to %d" % back, "h_feed", op=7, party=party, back=back)
    r = run.Report("All values (canonical bit domains over opaque labels), private and public; every conversion for each listed type, length, reversal and alignment, in exactly sized buffers.",
                   "values and owners out equal values and owners in; nothing outside the requested entries is touched", ["listed lengths"])
    r.add(run.run_ctxs(C))
    return r.need("int_to_bool", "bool_to_int", "to_bool", "from_bool", "block_to_bool", "bool_to_block", "Integer::Integer", "Float::Float", "Integer::reveal", "Float::reveal", "Bit::reveal")
