"""Circuit files: the loader and the evaluator are analysed on generated descriptions; the gates issued are compared with the lines of the file."""
import random, re
from vsa import run, build, net, iomodel
from vsa.net import Net


def circuit(rng, ninp, ngate, nout, shape):
    """list of (kind, a, b, out) in file order; wires 0..ninp+ngate-1, outputs last"""
    g = []
    ids = list(range(ninp, ninp + ngate))
    inner = ids[:ngate - nout]
    if shape == 1:
        rng.shuffle(inner)                 # wire numbers not in gate order
    outs = ids[ngate - nout:]
    if shape == 2:
        order = []                         # outputs produced early
        q = inner + outs
        rng.shuffle(q)
        order = q
    else:
        order = inner + outs
    avail = list(range(ninp))
    for w in order:
        k = rng.choice("AAXXI")
        a = rng.choice(avail[-8:] if rng.random() < .5 else avail)
        b = rng.choice(avail)
        g.append((k, a, b, w))
        avail.append(w)
    return g


NAMES = {"A": "AND", "X": "XOR", "I": "INV"}


def text(rng, g, ninp, split, nout, fashion, style, outsplit=None):
    nw = ninp + len(g)
    sep = (lambda: " ") if style != 1 else (lambda: rng.choice([" ", "  ", "\t", " "]))
    nl = "\n" if style != 2 else "\r\n"
    L = ["%d%s%d" % (len(g), sep(), nw)]
    if fashion:
        L.append("%d%s%s" % (len(split), sep(), sep().join(map(str, split))))
        os_ = outsplit or [nout]
        L.append("%d%s%s" % (len(os_), sep(), sep().join(map(str, os_))))
    else:
        L.append(sep().join(map(str, (split[0], split[1], nout))))
    L.append("")
    if style == 1:
        L.append("")
    for k, a, b, w in g:
        if k == "I":
            L.append(sep().join(("1", "1", str(a), str(w), NAMES[k])))
        else:
            L.append(sep().join(("2", "1", str(a), str(b), str(w), NAMES[k])))
        if style == 1 and rng.random() < .1:
            L.append("")
    t = nl.join(L)
    return (t + (nl if style != 3 else "")).encode()


def reference(mc, rounds, g, names):
    """the same circuit as a gate list over the same inputs"""
    R = Net()
    for key in mc.net.inputs:
        R.inputs[key] = R.new('i')
    res = []
    for r in range(rounds):
        w = {}
        i = 0
        for nm, cnt in names:
            for j in range(cnt):
                w[i] = R.inputs[("%s%d" % (nm, r), j)]
                i += 1
        for k, a, b, o in g:
            w[o] = R.new({"A": "&", "X": "^", "I": "!"}[k], w[a], w[b] if k != "I" else w[a])
        res.append(w)
    return R, res


def compare(mc, res, g, names, nw, nout, rounds, label):
    R, ws = reference(mc, rounds, g, names)
    for r in range(rounds):
        got = net.outwires(mc, "o%d" % r)
        want = [ws[r][nw - nout + j] for j in range(nout)]
        h1, h2 = mc.net.merkle(got), R.merkle(want)
        res.obl += nout
        for j in range(nout):
            if h1[j] != h2[j]:
                # different structure: look for an input on which the value differs
                rng = random.Random(1)
                keys = list(R.inputs)
                m = (1 << 4096) - 1
                vec = {k: rng.getrandbits(4096) for k in keys}
                a = mc.net.simulate({mc.net.inputs[k]: vec[k] for k in keys}, [got[j]], m)[0]
                b = R.simulate({R.inputs[k]: vec[k] for k in keys}, [want[j]], m)[0]
                if a != b:
                    t = ((a ^ b) & -(a ^ b)).bit_length() - 1
                    res.failure(label, "run %d: output %d is not the function of its lines" % (r, j), witness={"%s[%d]" % k: v >> t & 1 for k, v in list(vec.items())[:24]})
                    return
                from vsa.ir import AnalysisError
                raise AnalysisError("output %d has a different structure than the file, no differing input found" % j)


def check(tier):
    th = tier == "thorough"
    bc = build.compile_tu(build.VERIF + "/harness/circfile.cpp")
    M = net.models()
    M.update(iomodel.stdio())
    M.update(iomodel.iostreams())
    C = []
    cases = [(1, 0, 1, 1), (2, 0, 3, 1), (1, 1, 1, 1), (2, 2, 5, 2), (3, 1, 8, 8), (4, 4, 20, 3), (8, 8, 60, 16), (1, 5, 40, 40), (16, 0, 100, 9), (7, 3, 50, 1)]
    if th:
        cases += [(32, 32, 400, 33), (5, 6, 200, 200), (64, 1, 300, 64), (9, 9, 150, 2)]
    s = 0
    for n1, n2, ng, nout in cases:
        for how in (0, 1, 2, 3):
            for shape in (0, 1, 2):
                for style in (0, 1, 2, 3):
                    if not th and (how + shape + style + s) % 3 and style:
                        s += 1
                        continue
                    s += 1
                    rng = random.Random(s)
                    g = circuit(rng, n1 + n2, ng, nout, shape)
                    o = circuit(rng, 6, 30, 5, 1)
                    rounds = 1 + s % 3
                    for fashion in (0, 1):
                        if fashion and how == 3:
                            continue
                        t = text(rng, g, n1 + n2, [n1, n2] if not fashion else rng.choice([[n1 + n2], [n1, n2], [n1, n2, 0], [1] * (n1 + n2)]), nout, fashion, style,
                                 rng.choice([None, [1] * nout, [nout, 0]]))
                        big = s % 2
                        o2 = circuit(rng, 6, ng + 40 if big else 12, 5, 1)
                        t2 = text(rng, o2, 6, [4, 2], 5, fashion, 0)

                        def drv(mc, res, t=t, t2=t2, g=g, fashion=fashion, n1=n1, n2=n2, ng=ng, nout=nout, rounds=rounds, how=how, s=s):
                            F = iomodel.fs(mc)
                            F["circ"], F["other"] = bytearray(t), bytearray(t2)
                            mc.call("h_fashion" if fashion else "h_format")
                            names = [("p", n1 + n2)] if fashion else [("p", n1), ("q", n2)]
                            compare(mc, res, g, names, n1 + n2 + ng, nout, rounds, "loaded circuit")
                            live = [st for st in iomodel.streams(mc).values() if st is not None and st.open]
                            if how == 3 and not res.fail:
                                tx = bytes(F.get("table", b"")).decode()
                                m = re.findall(r"pre_(\w+)\s*(?:\[\s*(\d+)\s*\])?\s*=\s*(?:\{([^}]*)\}|(-?\d+))\s*;", tx)
                                d = {a: (v if v else arr) for a, sz, arr, v in m}
                                res.obl += 1
                                try:
                                    arr = [int(x) for x in re.findall(r"-?\d+", d["gate_arr"])]
                                    hd = tuple(int(d[k]) for k in ("num_gate", "num_wire", "n1", "n2", "n3"))
                                    size = int([sz for a, sz, _, _ in m if a == "gate_arr"][0] or len(arr))
                                except (KeyError, ValueError) as e:
                                    res.failure("exported table", "the exported text lacks %s" % e)
                                    return
                                if hd != (ng, n1 + n2 + ng, n1, n2, nout) or len(arr) != 4 * ng or size != 4 * ng:
                                    res.failure("exported table", "header %s with %d numbers (declared %d), must be %s with %d" % (hd, len(arr), size, (ng, n1 + n2 + ng, n1, n2, nout), 4 * ng))
                                    return
                                mc.exported = arr
                                mc.outs[:] = []
                                del mc.net
                                mc.params.update(ng=ng, nw=n1 + n2 + ng)
                                mc.call("h_table")
                                compare(mc, res, g, names, n1 + n2 + ng, nout, 1, "circuit rebuilt from the exported table")
                        prm = dict(how=how, n1=n1 + n2 if fashion else n1, n2=n2, n3=nout, rounds=rounds, bits=s % 2, use=s // 2 % 2)
                        C.append(run.Ctx("%s %d+%d inputs %d gates %d outputs how=%d shape=%d style=%d" % ("fashion" if fashion else "format", n1, n2, ng, nout, how, shape, style),
                                         bc, "h_fashion" if fashion else "h_format", prm, dom="NET", models=dict(M, vx_table=table), driver=drv, min_obl=1, weight=ng))
    # names longer than the loader's buffer must not be written beyond it
    for fashion in (0, 1):
        for ln in (1, 3, 9, 10, 11, 40, 300):
            for k in ("2 1 0 1 3 %s\n", "1 1 0 3 %s\n"):
                t = ("1 4\n" + ("2 2 1\n1 1\n" if fashion else "2 1 1\n") + "\n" + k % ("AXI"[ln % 3] + "N" * (ln - 1))).encode()

                def drv(mc, res, t=t, fashion=fashion):
                    iomodel.fs(mc)["circ"] = bytearray(t)
                    mc.call("h_fashion" if fashion else "h_format")
                    res.obl += 1
                C.append(run.Ctx("%s gate name of %d characters" % ("fashion" if fashion else "format", ln), bc, "h_format", dict(how=0, n1=3 if fashion else 2, n2=1, n3=1, rounds=0, bits=0, use=0),
                                 dom="NET", models=M, driver=drv, min_obl=1))
    r = run.Report("Loader, evaluator and exporter analysed on generated descriptions (gate kinds, wire orders, layouts, headers); input labels are opaque, so the extracted gates hold for all inputs. "
                   "Each output is compared structurally with the function its lines define (up to numbering, operand order and inverter placement).",
                   "extracted output function == function of the file's lines; header counts; no access outside the loader's storage", ["listed circuit shapes, AND/XOR/INV lines", "scanf family per C11"])
    r.add(run.run_ctxs(C))
    return r.need("BristolFormat::from_file", "BristolFormat::compute", "BristolFashion::from_file", "BristolFashion::compute", "BristolFormat::to_file")


def table(mc, a):
    for i, v in enumerate(mc.exported):
        mc.store(a[0] + 4 * i, v & 0xffffffff, 4)
    return len(mc.exported)
