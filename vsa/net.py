"""Gate-list extraction.

The circuit library is analysed against a backend whose labels are opaque: a
label is a word of 128 unknown bits that only the backend can interpret.  Every
gate call appends one gate to the extracted list.  Any branch or address that
depends on a label (or on a fed or revealed private value) is reported at once,
so the extracted list is the list issued for all wire values."""
from . import machine as mx
from .machine import Bug
from .ir import AnalysisError
from .dom import ANF, BDD, Sym, mk, bits

LBL = 1 << 40
DER = 1 << 56


class _Labels:
    """host values in the base domain plus uninterpreted label bits"""

    def __init__(self, *a):
        self.base.__init__(self, *a)
        self.der = {}
        self.mux = {}

    def _d(self, op, a, b):
        k = (op, a, b) if a < b else (op, b, a)
        r = self.der.get(k)
        if r is None:
            r = self.der[k] = DER + len(self.der)
        return r

    def xor(self, a, b):
        if a < LBL and b < LBL:
            return self.base.xor(self, a, b)
        if a == b:
            return 0
        if a == 0:
            return b
        if b == 0:
            return a
        return self._d("^", a, b)

    def and_(self, a, b):
        if a < LBL and b < LBL:
            return self.base.and_(self, a, b)
        if a == b or b == 1:
            return a
        if a == 1:
            return b
        if a == 0 or b == 0:
            return 0
        return self._d("&", a, b)

    def ite(self, c, a, b):
        if c < LBL and a < LBL and b < LBL:
            return self.base.ite(self, c, a, b)
        if a == b or c == 1:
            return a
        if c == 0:
            return b
        if c < LBL:
            # a host value chooses between labels
            k = ("?", c, a, b)
            r = self.der.get(k)
            if r is None:
                r = self.der[k] = DER + len(self.der)
                self.mux[r] = (c, a, b)
            return r
        return self.xor(b, self.and_(c, self.xor(a, b)))

    def show(self, a, maxt=6):
        if a >= DER:
            return "a function of wire labels"
        if a >= LBL:
            return "bit %d of the label of wire %d" % ((a - LBL) % 128, (a - LBL) // 128)
        return self.base.show(self, a, maxt)

    def support(self, a):
        return set() if a >= LBL else self.base.support(self, a)

    def witness(self, a):
        return {} if a >= LBL else self.base.witness(self, a)


class NetDom(_Labels, ANF):
    name = "ANF"
    base = ANF


class NetBDD(_Labels, BDD):
    name = "BDD"
    base = BDD


class Net:
    def __init__(self):
        # kind, a, b, name;   kinds: 0 1 const, 'i' input, '&' '^' '!'
        self.g = [('0', 0, 0), ('1', 0, 0)]
        self.inputs = {}
        self.ands = 0
        self.feeds = []      # (party, [wire])
        self.reveals = []
        self.hostval = {0: 0, 1: 1}

    def label(self, w):
        b = LBL + 128 * w
        return Sym(tuple(range(b, b + 128)))

    def new(self, k, a=0, b=0):
        self.g.append((k, a, b))
        return len(self.g) - 1

    def wire(self, mc, v, what):
        if v.__class__ is Sym and v.b[0] >= LBL and v.b[0] < DER and (v.b[0] - LBL) % 128 == 0:
            b = v.b[0]
            if v.b == tuple(range(b, b + 128)):
                return (b - LBL) // 128
        if v.__class__ is Sym and v.b[0] >= DER and v.b[0] in mc.D.mux:
            m = [mc.D.mux.get(x) for x in v.b]
            if None not in m and len(set(x[0] for x in m)) == 1:
                return self.choice(mc, m[0][0], self.wire(mc, Sym(tuple(x[1] for x in m)), what), self.wire(mc, Sym(tuple(x[2] for x in m)), what))
        raise Bug("not a wire", "%s is not a wire handed out by the backend (%s)" % (
            what, "uninitialised memory" if v.__class__ is Sym and v.b[0] < LBL and "undef" in str(mc.D.show(v.b[0])) else "a value made up of something else"))

    def choice(self, mc, c, u, v):
        """wire u or v, chosen by a host value known to all parties"""
        k = (c, u, v)
        w = self.__dict__.setdefault("choices", {}).get(k)
        if w is None:
            pub = self.__dict__.setdefault("public", {0, 1})
            if u not in pub or v not in pub:
                raise Bug("value-dependent wiring", "a host value chooses between two wires")
            w = self.choices[k] = self.new('i')
            pub.add(w)
            self.inputs[("public", len(self.choices))] = w
            self.hostval[w] = mc.D.ite(c, self.hostval[u], self.hostval[v])
        return w

    def eval(self, D, assign, upto=None, default=None):
        """values of all wires; assign: input wire -> bit of D"""
        v = []
        xo, an = D.xor, D.and_
        for i, (k, a, b) in enumerate(self.g):
            if k == '&':
                v.append(an(v[a], v[b]))
            elif k == '^':
                v.append(xo(v[a], v[b]))
            elif k == '!':
                v.append(xo(v[a], 1))
            elif k == 'i':
                x = assign.get(i, default)
                if x is None:
                    raise AnalysisError("unassigned input wire %d" % i)
                v.append(x)
            elif k == '0':
                v.append(0)
            else:
                v.append(1)
        return v

    def cone(self, outs):
        """wires needed for outs"""
        need = set()
        st = list(outs)
        while st:
            w = st.pop()
            if w in need:
                continue
            need.add(w)
            k, a, b = self.g[w]
            if k in '&^':
                st += [a, b]
            elif k == '!':
                st.append(a)
        return need

    def evalcone(self, D, assign, outs):
        need = self.cone(outs)
        v = {}
        xo, an = D.xor, D.and_
        for i in sorted(need):
            k, a, b = self.g[i]
            if k == '&':
                v[i] = an(v[a], v[b])
            elif k == '^':
                v[i] = xo(v[a], v[b])
            elif k == '!':
                v[i] = xo(v[a], 1)
            elif k == 'i':
                if i not in assign:
                    raise AnalysisError("unassigned input wire %d" % i)
                v[i] = assign[i]
            else:
                v[i] = 0 if k == '0' else 1
        return v

    def merkle(self, outs):
        """structural hash of the function of each output, independent of numbering,
        operand order, duplicated gates and placement of inverters on XOR"""
        import hashlib
        need = self.cone(outs)
        H = {}
        def h(*p):
            return hashlib.blake2b(b"|".join(p), digest_size=12).digest()
        names = {w: n for n, w in self.inputs.items()}
        for i in sorted(need):
            k, a, b = self.g[i]
            if k == '0':
                H[i] = (b"F", 0)
            elif k == '1':
                H[i] = (b"F", 1)
            elif k == 'i':
                H[i] = (h(b"i", str(names[i]).encode()), 0)
            elif k == '!':
                H[i] = (H[a][0], H[a][1] ^ 1)
            elif k == '^':
                (x, s), (y, t) = H[a], H[b]
                if x == y:
                    H[i] = (b"F", s ^ t)
                elif x == b"F":
                    H[i] = (y, s ^ t)
                elif y == b"F":
                    H[i] = (x, s ^ t)
                else:
                    x, y = sorted((x, y))
                    H[i] = (h(b"^", x, y), s ^ t)
            else:
                (x, s), (y, t) = H[a], H[b]
                if x == b"F":
                    H[i] = (y, t) if s else (b"F", 0)
                elif y == b"F":
                    H[i] = (x, s) if t else (b"F", 0)
                elif x == y:
                    H[i] = (x, s) if s == t else (b"F", 0)
                else:
                    p = sorted((x + bytes([48 + s]), y + bytes([48 + t])))
                    H[i] = (h(b"&", *p), 0)
        return [H[w] for w in outs]

    def simulate(self, assign, outs, mask):
        """bit-parallel: assign input wire -> int (one bit per vector)"""
        need = self.cone(outs)
        v = {}
        for i in sorted(need):
            k, a, b = self.g[i]
            if k == '&':
                v[i] = v[a] & v[b]
            elif k == '^':
                v[i] = v[a] ^ v[b]
            elif k == '!':
                v[i] = v[a] ^ mask
            elif k == 'i':
                v[i] = assign[i]
            else:
                v[i] = 0 if k == '0' else mask
        return [v[w] for w in outs]


def net(mc):
    n = mc.__dict__.get("net")
    if n is None:
        n = mc.net = Net()
    return n


def always(mc, what):
    if mc.oblivious == "labels" and mc.pc != 1:
        raise Bug("value-dependent gate", "%s only when %s" % (what, mc.D.show(mc.pc)))


def models():
    M = {}

    def input_(mc, a):
        """vx_input(block *out, name, idx)"""
        n = net(mc)
        key = (mc.cstr(a[1]), a[2])
        w = n.inputs.get(key)
        if w is None:
            w = n.inputs[key] = n.new('i')
        mc.store(a[0], n.label(w), 16)

    def gate(mc, a):
        """vx_gate(out, op, in1, in2)"""
        n = net(mc)
        always(mc, "a gate is issued")
        op = chr(a[1])
        x = n.wire(mc, mc.load(a[2], 16), "first operand of a gate")
        y = x if op == '!' else n.wire(mc, mc.load(a[3], 16), "second operand of a gate")
        w = n.new(op, x, y)
        if op == '&':
            n.ands += 1
        mc.store(a[0], n.label(w), 16)

    def pub(mc, a):
        n = net(mc)
        b = a[1]
        if b.__class__ is not int:
            if mc.oblivious == "labels":
                mc.store(a[0], n.label(n.choice(mc, b.b[0], 1, 0)), 16)
                return
            raise Bug("value-dependent gate", "a public constant depends on a private value")
        mc.store(a[0], n.label(b & 1), 16)

    def feed(mc, a):
        """vx_feed(labels, party, bools, n)"""
        n = net(mc)
        always(mc, "an input is fed")
        lbl, party, p, cnt = a
        ws = []
        for i in range(cnt):
            v = mc.load(p + i, 1)
            vb = bits(v, 8)
            if any(vb[1:]):
                raise Bug("not a bool", "fed value %d of %d is not 0 or 1: bits %s" % (i, cnt, [mc.D.show(x) for x in vb]))
            w = n.new('i')
            n.inputs[("feed%d" % len(n.feeds), i)] = w
            n.hostval[w] = vb[0]
            ws.append(w)
        for i, w in enumerate(ws):
            mc.store(lbl + 16 * i, n.label(w), 16)
        n.feeds.append((party, ws))

    def reveal(mc, a):
        """vx_reveal(bools, party, labels, n)"""
        n = net(mc)
        always(mc, "a wire is revealed")
        p, party, lbl, cnt = a
        ws = [n.wire(mc, mc.load(lbl + 16 * i, 16), "revealed label %d" % i) for i in range(cnt)]
        for i, w in enumerate(ws):
            x = n.hostval.get(w)
            if x is None:
                x = n.hostval[w] = mc.D.var("value of wire %d" % w)
            mc.store(p + i, mk((x,) + (0,) * 7), 1)
        n.reveals.append((party, ws))

    def wire(mc, a):
        """vx_wire(tag, idx, block*): output wire"""
        n = net(mc)
        tag = mc.cstr(a[0])
        mc.outs.append((tag, a[1], n.wire(mc, mc.load(a[2], 16), "%s[%d]" % (tag, a[1]))))

    M.update(vx_input=input_, vx_gate=gate, vx_pub=pub, vx_feed=feed, vx_reveal=reveal, vx_wire=wire)
    return M


def outwires(mc, tag):
    o = sorted((i, w) for t, i, w in mc.outs if t == tag)
    assert [i for i, _ in o] == list(range(len(o))), "output indices of %s" % tag
    return [w for _, w in o]


def inwires(mc, name):
    r = []
    i = 0
    n = mc.net
    while (name, i) in n.inputs:
        r.append(n.inputs[(name, i)])
        i += 1
    return r
