"""Functional comparison of two gate lists over the same named inputs (used when their structure differs).

Both lists go into one hash-consed graph with inverters on the edges. Operations of one operand are then
compared on all 2^32 operands (complete); operations of two operands are searched for a difference, and
proved equal by merging nodes whose local cones are the same decision diagram."""
import os, struct, subprocess, tempfile
from . import build
from .dom import BDD, Blowup


class Graph:
    def __init__(self):
        self.n = []                     # ('i', name) / ('&', lit, lit) / ('^', node, node); lit = 2*node + sign; node 0 is constant 0
        self.h = {}
        self.node(('0',))

    def node(self, k):
        i = self.h.get(k)
        if i is None:
            i = self.h[k] = len(self.n)
            self.n.append(k)
        return i

    def xor(self, a, b):
        s = (a ^ b) & 1
        a, b = sorted((a >> 1, b >> 1))
        if a == b:
            return s
        if a == 0:
            return 2 * b + s
        return 2 * self.node(('^', a, b)) + s

    def and_(self, a, b):
        a, b = sorted((a, b))
        if a == 0:
            return 0
        if a == 1:
            return b
        if a >> 1 == b >> 1:
            return a if a == b else 0
        return 2 * self.node(('&', a, b))

    def load(self, net, outs):
        names = {w: k for k, w in net.inputs.items()}
        L = {}
        for i in sorted(net.cone(outs)):
            k, a, b = net.g[i]
            L[i] = (0 if k == '0' else 1 if k == '1' else 2 * self.node(('i', names[i])) if k == 'i' else L[a] ^ 1 if k == '!' else self.xor(L[a], L[b]) if k == '^' else self.and_(L[a], L[b]))
        return [L[w] for w in outs]

    def ops(self, i):
        k = self.n[i]
        return (k[1] >> 1, k[2] >> 1) if k[0] == '&' else k[1:] if k[0] == '^' else ()

    def cone(self, lits):
        need, st = set(), [x >> 1 for x in lits]
        while st:
            w = st.pop()
            if w not in need:
                need.add(w)
                st += self.ops(w)
        return need


def program(G, pairs):
    """(bytes for gatesim)"""
    need = sorted(G.cone([x for p in pairs for x in p]))
    last = {}
    for i in need:
        for o in G.ops(i):
            last[o] = i
    for p in pairs:
        for x in p:
            last[x >> 1] = 1 << 60
    slot, free, ns, out = {}, [], 0, []
    for i in need:
        k = G.n[i]
        a = [slot[o] for o in G.ops(i)]
        for o in set(G.ops(i)):
            if last[o] == i:
                free.append(slot[o])
        if free:
            d = free.pop()
        else:
            d = ns
            ns += 1
        slot[i] = d
        if k[0] == '&':
            out.append(((k[1] & 1) | (k[2] & 1) << 1, d, a[0], a[1]))
        elif k[0] == '^':
            out.append((4, d, a[0], a[1]))
        elif k[0] == 'i':
            out.append((5, d, k[1][1] + (32 if k[1][0] == "b" else 0), 0))
        else:
            out.append((6, d, 0, 0))
    b = struct.pack("<3i", len(out), ns, len(pairs))
    b += b"".join(struct.pack("<4i", *o) for o in out)
    return b + b"".join(struct.pack("<3i", slot[x >> 1], slot[y >> 1], (x ^ y) & 1) for x, y in pairs)


def search(G, pairs, unary, seconds, threads=0):
    """-> ("DIFF", a, b) | ("EQUAL",) | ("NONE", vectors)"""
    d = tempfile.mkdtemp(prefix="vsa-gs-")
    try:
        exe = d + "/gatesim"
        subprocess.run(["gcc", "-O2", "-march=native", "-pthread", build.VERIF + "/vsa/gatesim.c", "-o", exe], check=True, stderr=subprocess.PIPE)
        open(d + "/p", "wb").write(program(G, pairs))
        r = subprocess.run([exe, d + "/p", "1" if unary else "2", str(threads or os.cpu_count() or 4), str(seconds)], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
        return tuple([r[0]] + [int(x) for x in r[1:]])
    finally:
        for f in ("gatesim", "p"):
            if os.path.exists(d + "/" + f):
                os.remove(d + "/" + f)
        os.rmdir(d)


def sigs(G, nodes, assign, mask):
    v = {}
    for i in sorted(nodes):
        k = G.n[i]
        if k[0] == '&':
            x, y = v[k[1] >> 1], v[k[2] >> 1]
            v[i] = (x ^ mask if k[1] & 1 else x) & (y ^ mask if k[2] & 1 else y)
        elif k[0] == '^':
            v[i] = v[k[1]] ^ v[k[2]]
        else:
            v[i] = 0 if k[0] == '0' else assign(k[1])
    return v


def prove(G, pairs, assign, nv, steps=60, limit=200000, budget=None, width=40):
    """every pair of literals equal? Nodes of the second list are merged, in topological order, with nodes of the first that
    compute the same diagram over a common set of inner nodes. False = not shown."""
    import time
    t0 = time.time()
    mask = (1 << nv) - 1
    A = G.cone([p[0] for p in pairs])
    B = G.cone([p[1] for p in pairs])
    sg = sigs(G, A | B, assign, mask)
    by = {}
    for i in sorted(A):
        by.setdefault(min(sg[i], sg[i] ^ mask), []).append(i)
    rep = {}                                       # node -> literal of an earlier node

    def lit(x):
        while x >> 1 in rep:
            x = rep[x >> 1] ^ (x & 1)
        return x

    def diagrams(roots, leaves):
        """diagrams of the roots over leaves; leaves cut every path"""
        D = BDD(limit)
        val = {0: 0}
        for l in sorted(leaves):
            val[l] = D.var("n%d" % l)

        def ev(r):
            st = [r]
            while st:
                w = st[-1]
                if w in val:
                    st.pop()
                    continue
                k = G.n[w]
                ls = [lit(x) for x in (k[1:] if k[0] == '&' else (2 * k[1], 2 * k[2]))]
                todo = [x >> 1 for x in ls if x >> 1 not in val]
                if todo:
                    st += todo
                    continue
                f = [D.not_(val[x >> 1]) if x & 1 else val[x >> 1] for x in ls]
                val[w] = D.and_(*f) if k[0] == '&' else D.xor(*f)
                st.pop()
            return val[r]
        return [ev(r) for r in roots]

    def same(a, b):
        """nodes a, b: 0 equal, 1 complementary, None unknown"""
        leaves = {a, b}
        for s in range(steps):
            # replace the topologically last leaf by its operands
            m = max(leaves)
            if G.n[m][0] == 'i' or m == 0:
                return None
            leaves.discard(m)
            k = G.n[m]
            for x in (k[1:] if k[0] == '&' else (2 * k[1], 2 * k[2])):
                leaves.add(lit(x) >> 1)
            leaves.discard(0)
            if len(leaves) > width:
                return None
            if s % 3 == 2 or len(leaves) < 4:
                try:
                    f, g = diagrams([a, b], leaves - {a, b}) if not ({a, b} & leaves) else (None, None)
                except Blowup:
                    return None
                if f is None:
                    continue
                if f == g:
                    return 0
        return None

    for i in sorted(B - A):
        if budget and time.time() - t0 > budget:
            return False
        s = sg[i]
        c = by.get(min(s, s ^ mask), [])
        for j in c[:6]:
            if j == i:
                continue
            hi, lo = max(i, j), min(i, j)
            if hi in rep:
                continue
            if s == sg[j] and same(hi, lo) == 0:
                rep[hi] = 2 * lo
                break
    return all(lit(x) == lit(y) for x, y in pairs)
