"""Comparisons, selection, swap, sorting: extracted gate lists against their meaning."""
import random
from vsa import run, build, net
from vsa.dom import BDD, Sym, mk, bits, ult, eqbit, iteword
from vsa.tt import TT, signed

CM = "GE LT LE GT EQ NE SEL IF SWAP BSEL BIF BOPS SWAPB".split()


def cmpctx(mc, res, op, w):
    D = BDD()
    Sym.D = D
    n = mc.net
    A, B, Cc = (net.inwires(mc, x) for x in "abc")
    asg = {}
    if Cc:
        asg[Cc[0]] = D.var("c")
    for i in range(max(len(A), len(B))):
        asg[A[i]] = D.var("a%d" % i)
        asg[B[i]] = D.var("b%d" % i)
    a, b = tuple(asg[x] for x in A), tuple(asg[x] for x in B)
    c = D.var("c")
    out = net.outwires(mc, "r")
    out2 = net.outwires(mc, "s")
    v = n.evalcone(D, asg, out + out2)
    got = [v[x] for x in out] + [v[x] for x in out2]
    sa, sb = a[:-1] + (D.not_(a[-1]),), b[:-1] + (D.not_(b[-1]),)
    lt = ult(mk(sa), mk(sb), w) if w else 0
    gt = ult(mk(sb), mk(sa), w) if w else 0
    eq = eqbit(mk(a), mk(b), w)
    ite = lambda k, x, y: [D.ite(k, p, q) for p, q in zip(x, y)]
    x, y = a[0], b[0]
    want = {"GE": lambda: [D.not_(lt)], "LT": lambda: [lt], "LE": lambda: [D.not_(gt)], "GT": lambda: [gt], "EQ": lambda: [eq], "NE": lambda: [D.not_(eq)],
            "SEL": lambda: ite(c, b, a), "IF": lambda: ite(c, a, b), "SWAP": lambda: ite(c, b, a) + ite(c, a, b), "SWAPB": lambda: ite(c, b, a) + ite(c, a, b),
            "BSEL": lambda: ite(c, b, a), "BIF": lambda: ite(c, a, b),
            "BOPS": lambda: [D.and_(x, y), D.or_(x, y), D.xor(x, y), D.not_(x), D.not_(D.xor(x, y)), D.xor(x, y), D.xor(x, y), D.xor(x, y), 1, 0, 0, 1]}[op]()
    res.obl += 1
    if len(got) != len(want):
        res.failure(op, "%d result bits, must be %d" % (len(got), len(want)))
        return
    for i, (p, q) in enumerate(zip(got, want)):
        if p != q:
            res.failure("%s at width %d" % (op, w), "result bit %d differs from its meaning" % i, witness=run.short_witness(D.witness(D.xor(p, q))))
            return
    if op in CM[:8]:
        res.obl += 1
        if net.outwires(mc, "a") != A or net.outwires(mc, "b") != B:
            res.failure("operand", "an operand is changed")


def sorted01(mc, res, n, dr):
    """one-bit keys: outputs are the threshold functions of the keys"""
    D = BDD(3000000)
    ks = [net.inwires(mc, "k%02d" % i)[0] for i in range(n)]
    asg = {w: D.var("k%d" % i) for i, w in enumerate(ks)}
    outs = [net.outwires(mc, "o%02d" % i)[0] for i in range(n)]
    v = mc.net.evalcone(D, asg, outs)
    # T[j] = at least j+1 keys have the bit set; the set bit is the value -1, which sorts first
    T = [0] * n
    for i in range(n):
        x = asg[ks[i]]
        T = [D.or_(T[j], D.and_(x, T[j - 1] if j else 1)) for j in range(n)]
    want = T if dr else T[::-1]
    for i in range(n):
        res.obl += 1
        if v[outs[i]] != want[i]:
            wit = D.witness(D.xor(v[outs[i]], want[i]))
            res.failure("sort of %d keys" % n, "output %d is not the key of that rank" % i, witness=run.short_witness(wit))
            return


def sortctx(mc, res, n, w, dr, data, rng, th, seed):
    ks = [net.inwires(mc, "k%02d" % i) for i in range(n)]
    es = [net.inwires(mc, "e%02d" % i) for i in range(n)] if data == 2 else []
    acc = net.inwires(mc, "acc")
    outs = [net.outwires(mc, "o%02d" % i) for i in range(n)]
    xs = [net.outwires(mc, "x%02d" % i) for i in range(n)] if data == 1 else []
    ys = [net.outwires(mc, "y%02d" % i) for i in range(n)] if data == 2 else []
    res.obl += 1
    if any(len(o) != w for o in outs):
        res.failure("sort", "width of a key changed")
        return
    allin = [x for k in ks for x in k] + [x for e in es for x in e]
    for rep in range(1 if len(allin) <= 14 else 6):
        if len(allin) <= 14:
            free = list(allin)
        else:
            free = rng.sample(allin, 12)
            if rep % 2 == 0:
                # whole keys free, so that equal keys and all orders occur
                free = [x for k in rng.sample(ks, max(1, min(n, 12 // w))) for x in k] if w <= 12 else free
        tt = TT(len(free) + len(acc))
        asg = {}
        for x in allin:
            asg[x] = tt.vars[free.index(x)] if x in free else tt.const(rng.random() < .5)
        for x in acc:
            asg[x] = tt.vars[-1]
        flat = [x for o in outs for x in o] + [x for o in xs for x in o] + [x for o in ys for x in o]
        sim = dict(zip(flat, mc.net.simulate(asg, flat, tt.mask)))
        K = [tt.ints([asg[x] for x in k]) for k in ks]
        O = [tt.ints([sim[x] for x in o]) for o in outs]
        X = [tt.ints([sim[x] for x in o]) for o in xs] or [tt.ints([sim[x] for x in o]) for o in ys]
        E = [tt.ints([asg[x] for x in e]) for e in es]
        A = tt.ints([asg[acc[0]]]) if acc else None
        res.obl += 1
        for t in range(tt.n):
            k = [signed(z[t], w) for z in K]
            o = [signed(z[t], w) for z in O]
            up = A[t] if A else dr
            bad = None
            if o != sorted(k, reverse=not up):
                bad = "keys %s come out as %s" % (k, o)
            elif data == 1:
                ix = [z[t] for z in X]
                if sorted(ix) != list(range(n)) or any(k[j] != q for j, q in zip(ix, o)):
                    bad = "keys %s come out as %s but data comes from positions %s" % (k, o, ix)
            elif data == 2:
                if sorted(zip(k, [z[t] for z in E])) != sorted(zip(o, [z[t] for z in X])):
                    bad = "data is not moved with its keys %s" % k
            if bad:
                res.failure("sort of %d keys" % n, bad + (" (ascending)" if up else " (descending)"))
                return


def check(tier):
    th = tier == "thorough"
    bc = build.compile_tu(build.VERIF + "/harness/intops.cpp")
    M = net.models()
    C = []
    for op, nm in enumerate(CM):
        ws = [1] if nm in ("BSEL", "BIF", "BOPS", "SWAPB") else (list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 500] if th else list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 256])
        for w in ws:
            C.append(run.Ctx("%s w=%d" % (nm, w), bc, "h_cmp", dict(w=w, op=op), dom="NET", models=M, min_obl=1, post=lambda mc, res, nm=nm, w=w: cmpctx(mc, res, nm, w)))
    for n in list(range(1, 18)) + ([18, 19, 20, 21, 22, 23, 24] if th else [19]):
        for dr in (0, 1):
            C.append(run.Ctx("sort n=%d one-bit keys dir=%d" % (n, dr), bc, "h_sort", dict(n=n, w=1, dir=dr, data=0), dom="NET", models=M, min_obl=1, weight=1 << max(0, n - 10),
                             post=lambda mc, res, n=n, dr=dr: sorted01(mc, res, n, dr)))
    for n in list(range(1, 10)) + [11, 13, 16] + ([12, 14, 15, 20, 33] if th else []):
        for w in (1, 2, 3, 32):
            for dr in (0, 1, 2, 3):
                for data in (0, 1, 2):
                    if w == 32 and (n > 9 or data == 2) and not th or dr == 3 and w > 2:
                        continue
                    s = n * 100 + w * 10 + dr * 3 + data
                    C.append(run.Ctx("sort n=%d w=%d dir=%d data=%d" % (n, w, dr, data), bc, "h_sort", dict(n=n, w=w, dir=dr, data=data), dom="NET", models=M, min_obl=1, weight=n * w // 4,
                                     post=lambda mc, res, n=n, w=w, dr=dr, data=data, s=s: sortctx(mc, res, n, w, 1 if dr == 2 else dr, data, random.Random(s), th, s)))
    r = run.Report("Gate lists extracted with opaque labels. Comparisons, selection and swap: canonical decision diagrams over all operand values at each listed width. Sorting: all inputs for one-bit keys (every output is the "
                   "threshold function of its rank) for every listed number of keys, all inputs for up to 14 key and data bits, sub-cubes beyond; both directions, secret direction, with and without data.",
                   "gate list computes the ordering / selection / sorted permutation", ["listed widths and numbers of keys"])
    r.add(run.run_ctxs(C))
    return r.need("Integer::geq", "Integer::equal", "Integer::select", "emp::sort", "Bit::select", "Comparable")
