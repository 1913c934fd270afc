"""Contract of an unseeded PRG for the garbling analyses: every block it returns is a
fresh unknown (decided by C14 and C15).  Seeded generators are analysed as they are."""
from . import machine as mx


def prg_models(colour=None):
    """colour: if given, lowest bits of the 16-byte blocks are these constants (context split)"""
    st = {}

    def ctor(mc, a, fn):
        un = mc.__dict__.setdefault("unseeded", set())
        un.discard(a[0])
        if a[1].__class__ is int and a[1] == 0:
            un.add(a[0])
            return None
        return mc.run_fn(fn, a)

    def reseed(mc, a, fn):
        mc.__dict__.setdefault("unseeded", set()).discard(a[0])
        return mc.run_fn(fn, a)

    def out(unit):
        def f(mc, a, fn):
            if a[0] not in mc.__dict__.get("unseeded", ()):
                return mc.run_fn(fn, a)
            n = a[2] * unit
            for k in range(n):
                c = mc.__dict__.setdefault("nrnd", 0)
                mc.nrnd += 1
                v = mc.word("rnd:%d" % c, 8)
                if colour is not None and c % 16 == 0:
                    v = mx.mk(((colour >> (c // 16)) & 1,) + v.b[1:])
                mc.store(a[1] + k, v, 1)
        return f

    def bools(mc, a, fn):
        if a[0] not in mc.__dict__.get("unseeded", ()):
            return mc.run_fn(fn, a)
        for k in range(a[2]):
            c = mc.__dict__.setdefault("nrnd", 0)
            mc.nrnd += 1
            mc.store(a[1] + k, mx.zext(mc.word("rnd:%d" % c, 1), 1, 8), 1)

    def word(mc, a, fn):
        if a[0] not in mc.__dict__.get("unseeded", ()):
            return mc.run_fn(fn, a)
        c = mc.__dict__.setdefault("nrnd", 0)
        mc.nrnd += 1
        return mc.word("rnd:%d" % c, 64)
    return {"_ZN3emp3PRGC2EPKvi": (ctor,), "_ZN3emp3PRGC1EPKvi": (ctor,), "_ZN3emp3PRG6reseedEPKDv2_xm": (reseed,),
            "_ZN3emp3PRG12random_blockEPDv2_xi": (out(16),), "_ZN3emp3PRG11random_dataEPvi": (out(1),),
            "_ZN3emp3PRG21random_data_unalignedEPvi": (out(1),), "_ZN3emp3PRG11random_boolEPbi": (bools,), "_ZN3emp3PRGclEv": (word,)}
