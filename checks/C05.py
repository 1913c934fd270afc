"""Plaintext backend: values for all inputs, and the recorded circuit re-evaluated."""
import random
from vsa import run, build, net, iomodel
from vsa.dom import Sym, bits


def program(rng, n, nin, patt):
    """list of (op, x, y, z); inputs first, first party's before the second's"""
    P = []
    nw = 0
    na = rng.randrange(0, nin + 1) if patt != 1 else nin
    i = 0
    while i < nin:
        party = 1 if i < na else 2
        if nin - i >= 3 and (i + 3 <= na or i >= na) and rng.random() < .3:
            P.append((9, party, 0, 0))
            nw += 3
            i += 3
        else:
            P.append((0, party, 0, 0))
            nw += 1
            i += 1
    for v in (0, 1):
        P.append((1, v, 0, 0))
        nw += 1
    P.append((8, rng.randrange(2) * 2, 0, 0))
    nw += 1
    out = 0
    while len(P) < n:
        op = rng.choice((2, 2, 3, 3, 4, 6, 7, 1, 11))
        x, y, z = rng.randrange(nw), rng.randrange(nw), rng.randrange(nw)
        if rng.random() < .5:
            x = rng.randrange(max(0, nw - 4), nw)
        if op == 1:
            P.append((1, rng.randrange(2), 0, 0))
        else:
            P.append((op, x, y, z))
        nw += 1
        if rng.random() < .15:
            P.append((5, rng.randrange(nw), rng.choice((0, 1, 2)), 0))
    for _ in range(3):
        P.append((5, rng.randrange(nw), rng.choice((0, 1, 2)), 0))
    P.append((10, rng.randrange(nw), rng.randrange(nw), rng.choice((0, 1, 2))))
    return P


def meaning(mc, P):
    D = mc.D
    w, pub, rv = [], [], []
    ins = {1: [], 2: []}
    for i, (op, x, y, z) in enumerate(P):
        p = None
        if op == 0:
            v = mc.word("in%d" % i, 1)
            v = bits(v, 1)[0]
            ins[x].append(v)
            p = False
        elif op == 9:
            for j in range(3):
                v = bits(mc.word("in%d" % (1000 + 3 * i + j), 1), 1)[0]
                ins[x].append(v)
                w.append(v)
                pub.append(False)
            continue
        elif op == 1:
            v, p = x, True
        elif op == 8:
            v, p = (x >> 1) & 1, True
        elif op == 2:
            v = D.and_(w[x], w[y])
        elif op in (3, 11):
            v = D.xor(w[x], w[y])
        elif op == 4:
            v = D.not_(w[x])
        elif op == 6:
            v = D.or_(w[x], w[y])
        elif op == 7:
            v = D.ite(w[y], w[z], w[x])
        elif op == 12:
            continue
        elif op == 5:
            rv.append(w[x])
            continue
        elif op == 10:
            rv += [w[x], w[y], w[x]]
            continue
        w.append(v)
        pub.append(p)
    return w, pub, rv, ins


def decide(mc, res, P, rec):
    D = mc.D
    w, pub, rv, ins = meaning(mc, P)
    one = lambda v: v & 1 if v.__class__ is int else v.b[0]
    got = {(t, i): v for t, i, v in mc.outs}
    for i, v in enumerate(w):
        res.obl += 1
        g = one(got[("val", i)])
        if g != v:
            res.failure("value of a wire", "wire %d of the program %s: carries %s, must be %s" % (i, P[:12], D.show(g), D.show(v)), witness=run.short_witness(D.witness(D.xor(g, v))))
            return
        if pub[i] is True and one(got[("pub", i)]) != 1:
            res.failure("public constant", "the constant %d became private" % i)
            return
        if pub[i] is False and one(got[("pub", i)]) != 0:
            res.failure("private input", "the input %d became public" % i)
            return
    for i, v in enumerate(rv):
        res.obl += 1
        if one(got[("rv", i)]) != v:
            res.failure("revealed value", "reveal %d gives %s, must be %s" % (i, D.show(one(got[("rv", i)])), D.show(v)))
            return
    J = mc.params.get("jump", 0)
    if ("nojump", 0) in got:
        return
    if not rec:
        res.obl += 1
        n = sum(1 for q in P if q[0] == 2) if J else None      # a program with plain AND gates on private wires only
        if J and got[("ands", 0)] != J + n:
            res.failure("AND counter", "counter says %s after %d more AND gates than %d" % (got[("ands", 0)], n, J))
        return
    t = bytes(iomodel.fs(mc).get("rec", b"")).decode()
    tok = t.split()
    res.obl += 1
    try:
        ng, nw, n1, n2, n3 = map(int, tok[:5])
        p = 5
        wires = {}
        for i, v in enumerate(ins[1] + ins[2]):
            wires[i] = v
        if (n1, n2) != (len(ins[1]), len(ins[2])) or n3 != len(rv):
            res.failure("header", "header says %d+%d inputs and %d outputs, fed %d+%d, revealed %d" % (n1, n2, n3, len(ins[1]), len(ins[2]), len(rv)))
            return
        cnt = ands = 0
        while p < len(tok):
            if tok[p] == "2":
                ar, q, a, b, o, k = tok[p:p + 6]
                p += 6
            elif tok[p] == "1":
                ar, q, a, o, k = tok[p:p + 5]
                b = a
                p += 5
            else:
                raise ValueError("line starting with %s" % tok[p])
            if q != "1" or (k == "INV") != (ar == "1"):
                raise ValueError("gate line announces %s inputs and %s outputs for %s" % (ar, q, k))
            a, b, o = int(a), int(b), int(o)
            cnt += 1
            if o in wires:
                raise ValueError("wire %d is written twice" % o)
            x, y = wires[a], wires[b]
            ands += k == "AND"
            wires[o] = {"AND": D.and_(x, y), "XOR": D.xor(x, y), "INV": D.not_(x)}[k]
        if cnt + J != ng:
            raise ValueError("header announces %d gates, file has %d" % (ng, cnt))
        ni = len(ins[1] + ins[2])
        if sorted(wires) != list(range(ni)) + list(range(ni + J, nw)):
            raise ValueError("header announces %d wires, file defines %d" % (nw, len(wires)))
        for j in range(n3):
            res.obl += 1
            g = wires[nw - n3 + j]
            if g != rv[j]:
                res.failure("recorded circuit", "output %d of the file is %s, revealed was %s" % (j, D.show(g), D.show(rv[j])), witness=run.short_witness(D.witness(D.xor(g, rv[j]))))
                return
        na = got[("ands", 0)]
        if na.__class__ is not int or na != ands + J:
            res.failure("AND counter", "counter says %s, file has %d AND gates" % (na, ands))
    except (ValueError, KeyError, IndexError) as e:
        res.failure("recorded file", "the file is not a circuit: %r, starts %r" % (e, t.replace("  ", "")[:80]))


def check(tier):
    th = tier == "thorough"
    bc = build.compile_tu(build.VERIF + "/harness/circfile.cpp")
    M = net.models()
    M.update(iomodel.stdio())
    M.update(iomodel.iostreams())
    C = []

    def add(name, P, rec, jump=0):
        enc = [op | x << 8 | y << 20 | z << 32 for op, x, y, z in P]

        def prog(mc, a):
            return enc[a[0]]

        def drv(mc, res):
            mc.call("h_plain")
            decide(mc, res, P, rec)
        C.append(run.Ctx(name, bc, "h_plain", dict(rec=rec, len=len(P), jump=jump), dom="BDD", models=dict(M, vx_prog=prog), driver=drv, min_obl=3))
    # every gate on every pair of operand kinds (public 0/1, private)
    base = [(0, 1, 0, 0), (0, 2, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0)]
    for rec in (0, 1):
        for op in (2, 3, 4, 6, 7, 11):
            for x in range(4):
                for y in range(4):
                    for p in (0, 1, 2):
                        add("gate %d on %d,%d reveal %d rec=%d" % (op, x, y, p, rec), base + [(op, x, y, (x + y) % 4), (5, 4, p, 0), (2, 4, 0, 0), (5, 5, p, 0), (3, 4, x, 0), (5, 6, 0, 0)], rec)
    for J in (1 << 20, (1 << 31) - 4, (1 << 32) - 4, (1 << 40) - 3):
        for rec in (0, 1):
            add("%d gates later rec=%d" % (J, rec), [(0, 1, 0, 0), (0, 2, 0, 0), (12, 0, 0, 0), (2, 0, 1, 0), (3, 0, 1, 0), (4, 0, 0, 0), (2, 2, 3, 0), (2, 4, 5, 0), (2, 0, 1, 0), (3, 6, 7, 0), (4, 8, 0, 0), (5, 5, 0, 0), (5, 9, 1, 0)], rec, jump=J)
    for s in range(60 if th else 24):
        rng = random.Random(s)
        for rec in (0, 1):
            add("program %d rec=%d" % (s, rec), program(rng, rng.choice((12, 20, 40, 60)), rng.randrange(1, 9), s % 3), rec)
    r = run.Report("All input values (decision-diagram domain), for every gate on every combination of public and private operands and for generated programs; the text written by the recorder is parsed and evaluated in the same domain "
                   "and compared with the values the program revealed.",
                   "wire values, revealed values and recorded outputs are the Boolean functions of the program; header counts match", ["generated programs of up to 60 operations", "all inputs before gates, first party first"])
    r.add(run.run_ctxs(C))
    return r.need("PlainCircExec::and_gate", "PlainCircExec::xor_gate", "PlainCircExec::not_gate", "PlainProt::reveal", "PlainProt::feed", "finalize_plain_prot")
