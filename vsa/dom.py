"""Canonical bit domains of the value analysis.

A bit is a Python int: 0 and 1 are the constants, larger ints are interned
elements.  Both domains are canonical, so two bits are the same function of
the symbols exactly when the ints are equal."""


class Blowup(Exception):
    undef = None       # the name of memory nobody wrote that the value depends on


class ANF:
    """Polynomials over GF(2) (algebraic normal form), hash-consed."""
    name = "ANF"

    def __init__(self, limit=200000):
        self.one = frozenset([frozenset()])
        self.polys = [frozenset(), self.one]
        self.ids = {frozenset(): 0, self.one: 1}
        self.names = []
        self.vars = {}
        self.mx = {}
        self.ma = {}
        self.limit = limit

    def _id(self, s):
        i = self.ids.get(s)
        if i is None:
            if len(s) > self.limit:
                e = Blowup("polynomial with %d terms" % len(s))
                e.undef = self.undef(s)
                raise e
            i = len(self.polys)
            self.polys.append(s)
            self.ids[s] = i
        return i

    def undef(self, s):
        for i in set().union(*s):
            if str(self.names[i]).startswith("undef:"):
                return str(self.names[i])[6:].split("#")[0]

    def var(self, name):
        v = self.vars.get(name)
        if v is None:
            k = len(self.names)
            self.names.append(name)
            v = self.vars[name] = self._id(frozenset([frozenset([k])]))
        return v

    def xor(self, a, b):
        if a == 0:
            return b
        if b == 0:
            return a
        if a == b:
            return 0
        k = (a, b) if a < b else (b, a)
        r = self.mx.get(k)
        if r is None:
            r = self.mx[k] = self._id(self.polys[a] ^ self.polys[b])
        return r

    def not_(self, a):
        return self.xor(a, 1)

    def and_(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1 or a == b:
            return b
        if b == 1:
            return a
        k = (a, b) if a < b else (b, a)
        r = self.ma.get(k)
        if r is None:
            p, q = self.polys[a], self.polys[b]
            if len(p) * len(q) > self.limit * 20:
                e = Blowup("product of %d x %d terms" % (len(p), len(q)))
                e.undef = self.undef(p) or self.undef(q)
                raise e
            s = set()
            for x in p:
                for y in q:
                    m = x | y
                    if m in s:
                        s.discard(m)
                    else:
                        s.add(m)
            r = self.ma[k] = self._id(frozenset(s))
        return r

    def or_(self, a, b):
        return self.xor(self.xor(a, b), self.and_(a, b))

    def ite(self, c, a, b):
        if a == b:
            return a
        if c == 1:
            return a
        if c == 0:
            return b
        return self.xor(b, self.and_(c, self.xor(a, b)))

    def show(self, a, maxt=6):
        p = self.polys[a]
        if not p:
            return "0"
        t = []
        for m in sorted(p, key=lambda m: (len(m), sorted(m)))[:maxt]:
            t.append("*".join(str(self.names[v]) for v in sorted(m)) or "1")
        return " + ".join(t) + (" + ... (%d terms)" % len(p) if len(p) > maxt else "")

    def support(self, a):
        s = set()
        for m in self.polys[a]:
            s |= m
        return s

    def linear_terms(self, a):
        """monomials of a as frozenset of names tuples"""
        return self.polys[a]

    def witness(self, a):
        """An assignment (dict name->0/1) under which a is 1, or None."""
        if a == 0:
            return None
        p = self.polys[a]
        # a minimal monomial: set exactly its variables to 1
        m = min(p, key=len)
        return {self.names[v]: 1 for v in m}


class BDD:
    """Reduced ordered binary decision diagrams; order = order of creation."""
    name = "BDD"

    def __init__(self, limit=6000000):
        self.V = [1 << 30, 1 << 30]
        self.LO = [0, 1]
        self.HI = [0, 1]
        self.u = {}
        self.names = []
        self.vars = {}
        self.mi = {}
        self.ma = {}
        self.mx = {}
        self.limit = limit

    def mk(self, v, l, h):
        if l == h:
            return l
        k = (v, l, h)
        r = self.u.get(k)
        if r is None:
            r = len(self.V)
            if r > self.limit:
                raise Blowup("BDD with %d nodes" % r)
            self.V.append(v)
            self.LO.append(l)
            self.HI.append(h)
            self.u[k] = r
        return r

    def var(self, name):
        v = self.vars.get(name)
        if v is None:
            k = len(self.names)
            self.names.append(name)
            v = self.vars[name] = self.mk(k, 0, 1)
        return v

    def not_(self, a):
        return self.xor(a, 1)

    def xor(self, a, b):
        if a == 0:
            return b
        if b == 0:
            return a
        if a == b:
            return 0
        k = (a, b) if a < b else (b, a)
        r = self.mx.get(k)
        if r is None:
            V = self.V
            va, vb = V[a], V[b]
            if va < vb:
                r = self.mk(va, self.xor(self.LO[a], b), self.xor(self.HI[a], b))
            elif vb < va:
                r = self.mk(vb, self.xor(a, self.LO[b]), self.xor(a, self.HI[b]))
            elif va == 1 << 30:
                r = a ^ b
            else:
                r = self.mk(va, self.xor(self.LO[a], self.LO[b]), self.xor(self.HI[a], self.HI[b]))
            self.mx[k] = r
        return r

    def and_(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1 or a == b:
            return b
        if b == 1:
            return a
        k = (a, b) if a < b else (b, a)
        r = self.ma.get(k)
        if r is None:
            V = self.V
            va, vb = V[a], V[b]
            if va < vb:
                r = self.mk(va, self.and_(self.LO[a], b), self.and_(self.HI[a], b))
            elif vb < va:
                r = self.mk(vb, self.and_(a, self.LO[b]), self.and_(a, self.HI[b]))
            else:
                r = self.mk(va, self.and_(self.LO[a], self.LO[b]), self.and_(self.HI[a], self.HI[b]))
            self.ma[k] = r
        return r

    def or_(self, a, b):
        return self.xor(self.and_(self.xor(a, 1), self.xor(b, 1)), 1)

    def ite(self, c, a, b):
        if c == 1 or a == b:
            return a
        if c == 0:
            return b
        if a == 1 and b == 0:
            return c
        k = (c, a, b)
        r = self.mi.get(k)
        if r is None:
            V = self.V
            v = min(V[c], V[a], V[b])
            c0, c1 = (self.LO[c], self.HI[c]) if V[c] == v else (c, c)
            a0, a1 = (self.LO[a], self.HI[a]) if V[a] == v else (a, a)
            b0, b1 = (self.LO[b], self.HI[b]) if V[b] == v else (b, b)
            r = self.mi[k] = self.mk(v, self.ite(c0, a0, b0), self.ite(c1, a1, b1))
        return r

    def support(self, a):
        s, seen, st = set(), set(), [a]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            s.add(self.V[n])
            st.append(self.LO[n])
            st.append(self.HI[n])
        return s

    def show(self, a, maxt=8):
        if a < 2:
            return str(a)
        s = [str(self.names[v]) for v in sorted(self.support(a))]
        return "f(%s%s)" % (", ".join(s[:maxt]), ", ..." if len(s) > maxt else "")

    def witness(self, a):
        if a == 0:
            return None
        w = {}
        while a != 1:
            if self.LO[a] != 0:
                w[self.names[self.V[a]]] = 0
                a = self.LO[a]
            else:
                w[self.names[self.V[a]]] = 1
                a = self.HI[a]
        return w


class Sym:
    """A word with at least one non-constant bit, least significant first."""
    __slots__ = ("b", "_h")
    D = None

    def __init__(self, b):
        self.b = b
        self._h = None

    @property
    def w(self):
        return len(self.b)

    def __repr__(self):
        return "Sym%d" % len(self.b)

    def __xor__(self, o):
        x = Sym.D.xor
        if o.__class__ is int:
            if o == 0:
                return self
            ob = [(o >> i) & 1 for i in range(len(self.b))]
        else:
            ob = o.b
        return mk(tuple([x(p, q) for p, q in zip(self.b, ob)]))
    __rxor__ = __xor__

    def __and__(self, o):
        b = self.b
        if o.__class__ is int:
            if o == (1 << len(b)) - 1:
                return self
            return mk(tuple([p if (o >> i) & 1 else 0 for i, p in enumerate(b)]))
        a = Sym.D.and_
        return mk(tuple([a(p, q) for p, q in zip(b, o.b)]))
    __rand__ = __and__

    def __or__(self, o):
        b = self.b
        if o.__class__ is int:
            if o == 0:
                return self
            return mk(tuple([1 if (o >> i) & 1 else p for i, p in enumerate(b)]))
        a = Sym.D.or_
        return mk(tuple([a(p, q) for p, q in zip(b, o.b)]))
    __ror__ = __or__

    def __add__(self, o):
        return addc(self, o, 0)
    __radd__ = __add__

    def __sub__(self, o):
        return addc(self, inv(o, len(self.b)), 1)

    def __rsub__(self, o):
        return addc(o, inv(self, len(self.b)), 1)

    def __mul__(self, o):
        n = len(self.b)
        if o.__class__ is not int:
            a, c = self, o
            # shift-add, skipping constant-zero bits of the multiplier
            if sum(1 for x in a.b if x) < sum(1 for x in c.b if x):
                a, c = c, a
            acc = 0
            D = Sym.D
            for i, m in enumerate(c.b):
                if m == 0:
                    continue
                row = (0,) * i + tuple([D.and_(m, x) for x in a.b[:n - i]])
                row = mk(row)
                acc = row if acc.__class__ is int and acc == 0 else addw(acc, row, n)
            return acc
        acc = 0
        o &= (1 << n) - 1
        # signed digit: use negation for long runs of ones
        if bin(o).count("1") > n // 2:
            return addc(0, inv(self * ((-o) & ((1 << n) - 1)), n), 1) if n else 0
        i = 0
        while o:
            if o & 1:
                acc = addw(acc, mk((0,) * i + self.b[:n - i]), n)
            o >>= 1
            i += 1
        return acc
    __rmul__ = __mul__

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.b)
        return self._h

    def __eq__(self, o):      # identity of abstract values, not an IR comparison
        return o.__class__ is Sym and self.b == o.b

    def __ne__(self, o):
        return not (o.__class__ is Sym and self.b == o.b)

    def __bool__(self):
        raise TypeError("truth value of an abstract word")

    def __index__(self):
        raise TypeError("abstract word used as index")


def mk(bits):
    if max(bits, default=0) < 2:
        r = 0
        for i, x in enumerate(bits):
            if x:
                r |= 1 << i
        return r
    return Sym(bits)


def bits(v, w):
    if v.__class__ is int:
        return tuple([(v >> i) & 1 for i in range(w)])
    assert len(v.b) == w, (len(v.b), w)
    return v.b


def inv(v, w):
    if v.__class__ is int:
        return ~v & ((1 << w) - 1)
    n = Sym.D.not_
    return mk(tuple([n(x) for x in v.b]))


def addw(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & ((1 << w) - 1)
    if a.__class__ is int and a == 0:
        return b
    if b.__class__ is int and b == 0:
        return a
    return addc(a, b, 0)


def addc(a, b, c, w=None):
    if w is None:
        w = len(a.b) if a.__class__ is Sym else (len(b.b) if b.__class__ is Sym else None)
    if w is None:
        raise TypeError
    if c == 0:
        if a.__class__ is int and a == 0:
            return b
        if b.__class__ is int and b == 0:
            return a
    D = Sym.D
    x, an = D.xor, D.and_
    r = []
    for p, q in zip(bits(a, w), bits(b, w)):
        t = x(p, q)
        r.append(x(t, c))
        if len(r) == w:
            break
        # carry = maj(p,q,c) = pq ^ c(p^q)
        c = D.or_(an(p, q), an(c, t)) if D.name == "BDD" else x(an(p, q), an(c, t))
    return mk(tuple(r))


def ult(a, b, w):
    """bit of a < b unsigned"""
    D = Sym.D
    r = 0
    for p, q in zip(bits(a, w), bits(b, w)):
        d = D.xor(p, q)
        r = D.ite(d, q, r)
    return r


def eqbit(a, b, w):
    D = Sym.D
    r = 1
    for p, q in zip(bits(a, w), bits(b, w)):
        if p == q:
            continue
        if p < 2 and q < 2:
            return 0
        r = D.and_(r, D.not_(D.xor(p, q)))
        if r == 0:
            return 0
    return r


def iteword(c, a, b, w):
    """c: bit"""
    if c == 1:
        return a
    if c == 0:
        return b
    if a.__class__ is b.__class__ and a == b:
        return a
    D = Sym.D
    return mk(tuple([D.ite(c, p, q) for p, q in zip(bits(a, w), bits(b, w))]))


def udivrem(a, b, w):
    """long division; result for b = 0 is (all ones, a), callers exclude it"""
    D = Sym.D
    if b.__class__ is int and b and b & (b - 1) == 0:
        k = b.bit_length() - 1
        ab = bits(a, w)
        return mk(ab[k:] + (0,) * k), mk(ab[:k] + (0,) * (w - k))
    ab = bits(a, w)
    r = 0
    q = [0] * w
    b1 = mk(bits(b, w) + (0,))
    for i in range(w - 1, -1, -1):
        rb = bits(r, w + 1)
        r = mk((ab[i],) + rb[:w])
        lt = ult(r, b1, w + 1)
        ge = D.not_(lt)
        q[i] = ge
        d = addc(r, inv(b1, w + 1), 1, w + 1) if (r.__class__ is Sym or b1.__class__ is Sym) else (r - b1) & ((1 << (w + 1)) - 1)
        r = iteword(ge, d, r, w + 1)
    return mk(tuple(q)), mk(bits(r, w + 1)[:w])
