"""Equality of a gate list with a word-level specification, by cut points.

The specification is computed over values that carry a decision diagram and a
signature (their value on pseudo-random inputs). At a cut the wires of the gate
list with the same signature are candidates; a candidate's cone, down to wires
already proved equal to earlier cut points, is evaluated as a decision diagram and
must be the very diagram of the specification. Then wire and value become one
fresh variable. Signatures only choose candidates; equality is decided by the
canonical diagrams, by induction over the cuts."""
import random, sys, weakref
from .dom import BDD, Blowup


live = weakref.WeakSet()


class V:
    __hash__ = object.__hash__
    __slots__ = ("s", "f", "__weakref__")

    def __init__(self, s, f):
        self.s = s
        self.f = f
        live.add(self)


class Nil:
    """no diagrams: signatures only"""
    V = ()

    def var(self, *a):
        return 0
    xor = and_ = or_ = ite = not_ = var


class Proof:
    def __init__(self, n_in, gates, seed=1, nv=768, limit=3000000, prove=True):
        """gates: list of (op, a, b, out), op in &^!; topological order"""
        sys.setrecursionlimit(100000)
        self.D = BDD(limit) if prove else Nil()
        self.prove = prove
        self.nv = nv
        self.limit = limit
        self.high = 400000
        self.mask = (1 << nv) - 1
        rng = random.Random(seed)
        self.gate = {}
        sig = {}
        self.inputs = []
        self.cutw = {}                       # wire -> diagram
        for i in range(n_in):
            # a mixture of dense and sparse columns
            s = rng.getrandbits(nv)
            f = self.D.var("in%d" % i)
            sig[i] = s
            self.cutw[i] = f
            self.inputs.append(V(s, f))
        m = self.mask
        for op, a, b, o in gates:
            self.gate[o] = (op, a, b)
            x = sig[a]
            sig[o] = x & sig[b] if op == '&' else x ^ sig[b] if op == '^' else x ^ m
        self.sig = sig
        self.by = {}
        for w, s in sig.items():
            self.by.setdefault(s, []).append(w)
        self.k = 0
        self.defs = {}                       # number of a cut variable -> its definition over earlier variables
        self.cuts = self.proved = 0
        self.missed = []
        self.zero, self.one = V(0, 0), V(m, 1)

    # ---- specification operations
    def xor(self, *a):
        s, f = 0, 0
        for x in a:
            s ^= x.s
            f = self.D.xor(f, x.f)
        return V(s, f)

    def and_(self, a, b):
        return V(a.s & b.s, self.D.and_(a.f, b.f))

    def not_(self, a):
        return V(a.s ^ self.mask, self.D.not_(a.f))

    def ite(self, c, a, b):
        return V((c.s & a.s) | (b.s & ~c.s & self.mask), self.D.ite(c.f, a.f, b.f))

    def maj(self, a, b, c):
        return V((a.s & b.s) | (a.s & c.s) | (b.s & c.s), self.D.ite(a.f, self.D.or_(b.f, c.f), self.D.and_(b.f, c.f)))

    def const(self, b):
        return self.one if b else self.zero

    def lut(self, table, xs):
        """table: list of 2^n bits; xs least significant first"""
        def go(k, base, part):
            if k < 0:
                return self.const(table[base])
            lo, hi = go(k - 1, base, part), go(k - 1, base | 1 << k, part)
            return self.ite(xs[k], hi, lo)
        return go(len(xs) - 1, 0, None)

    # ---- cut points
    def present(self, v):
        return v.s in self.by or (v.s ^ self.mask) in self.by

    def cone(self, w, lim=20000):
        """diagram of a wire over cut variables (None: too large)"""
        memo, D = {}, self.D
        st = [w]
        cnt = 0
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            f = self.cutw.get(x)
            if f is not None:
                memo[x] = f
                st.pop()
                continue
            cnt += 1
            if cnt > lim:
                return None
            op, a, b = self.gate[x]
            need = [y for y in ((a,) if op == '!' else (a, b)) if y not in memo]
            if need:
                st += need
                continue
            st.pop()
            p = memo[a]
            memo[x] = D.not_(p) if op == '!' else D.and_(p, memo[b]) if op == '&' else D.xor(p, memo[b])
        return memo[w]

    def collect(self):
        """drop diagrams nothing refers to any more"""
        old, new = self.D, BDD(self.D.limit)
        for n in old.names:
            new.var(n)
        memo = {0: 0, 1: 1}

        def go(x):
            r = memo.get(x)
            if r is None:
                r = memo[x] = new.mk(old.V[x], go(old.LO[x]), go(old.HI[x]))
            return r
        self.cutw = {w: go(f) for w, f in self.cutw.items()}
        self.defs = {k: go(f) for k, f in self.defs.items()}
        for v in live:
            v.f = go(v.f)
        self.D = new

    def compose(self, d, k, f):
        """diagram d with variable number k replaced by f"""
        D, memo = self.D, {}

        def go(x):
            if D.V[x] > k:
                return x
            r = memo.get(x)
            if r is None:
                v = D.V[x]
                if v == k:
                    r = D.ite(f, D.HI[x], D.LO[x])
                else:
                    r = D.ite(D.mk(v, 0, 1), go(D.HI[x]), go(D.LO[x]))
                memo[x] = r
            return r
        return go(d)

    def never(self, d, steps, grow=60000):
        """d is 0 for all inputs: replacing the latest cut variables by their definitions makes it the constant 0"""
        self.D.limit = len(self.D.V) + grow
        try:
            while d > 1 and steps:
                k = max((x for x in self.D.support(d) if x in self.defs), default=None)
                if k is None:
                    return False
                d = self.compose(d, k, self.defs[k])
                steps -= 1
            return d == 0
        except Blowup:
            return False
        finally:
            self.D.limit = self.limit

    def exists(self, d, ge):
        """all variables numbered ge and above quantified away"""
        D, memo = self.D, {}

        def go(x):
            if x < 2:
                return x
            if D.V[x] >= ge:
                return 1
            r = memo.get(x)
            if r is None:
                r = memo[x] = D.mk(D.V[x], go(D.LO[x]), go(D.HI[x]))
            return r
        return go(d)

    def same(self, g, f):
        """g == f as functions of the inputs: equal diagrams; or their difference vanishes once cut variables are replaced by
        their definitions, possibly after dropping what it says about the latest variables (a weaker condition that never holds either)"""
        d = self.D.xor(g, f)
        if d == 0 or self.never(d, 24, 20000) or self.never(d, 160):
            return True
        for t in sorted((x for x in self.D.support(d) if x in self.defs), reverse=True)[:12]:
            e = self.exists(d, t)
            if e == 1:
                break
            if self.never(e, 160):
                return True
        return False

    def cut(self, v, what):
        self.cuts += 1
        if not self.prove:
            if not self.present(v) and v.s not in (0, self.mask) and len(self.missed) < 8:
                self.missed.append(what)
            return v
        if len(self.D.V) > self.high:
            self.collect()
            self.high = len(self.D.V) + 400000
        if v.f < 2:
            return v
        done = 0
        var = None
        for s, neg in ((v.s, 0), (v.s ^ self.mask, 1)):
            for w in self.by.get(s, ()):
                if w in self.cutw:
                    g = self.cutw[w]
                else:
                    self.D.limit = len(self.D.V) + 60000
                    try:
                        g = self.cone(w)
                    except Blowup:
                        g = None
                    self.D.limit = self.limit
                if g is None:
                    continue
                ok = self.same(g, self.D.not_(v.f) if neg else v.f)
                if ok:
                    done = 1
                    if w in self.cutw:
                        if var is None:
                            var = self.D.not_(g) if neg else g          # an earlier cut of the same value
                        continue
                    if var is None and self.D.LO[v.f] < 2 and self.D.HI[v.f] < 2:
                        var = v.f                                       # a variable or its complement
                    if var is None:
                        var = self.D.var("cut%d" % self.k)
                        self.defs[len(self.D.names) - 1] = v.f
                        self.k += 1
                    self.cutw[w] = self.D.not_(var) if neg else var
        if done:
            self.proved += 1
        else:
            self.missed.append(what)
        return V(v.s, var) if var is not None else v

    def differs(self, w, v):
        """inputs on which the wire is not the value (found by signature), or None"""
        d = self.sig[w] ^ v.s
        if not d:
            return None
        k = (d & -d).bit_length() - 1
        return [x.s >> k & 1 for x in self.inputs]

    def equal(self, w, v):
        try:
            g = self.cone(w)
            return g is not None and self.same(g, v.f)
        except Blowup:
            return False
