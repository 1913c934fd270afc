"""MITCCRH: every call sequence of the tables, against the key-index specification."""
import itertools
from vsa import run, build


def code(seq):
    r = 0
    for s in reversed(seq):
        r = r * 16 + s
    return r


def check(tier):
    bc = build.compile_tu(build.VERIF + "/harness/crypto.cpp")
    th = tier == "thorough"
    C = run.Ctx
    cx = []
    M64 = (1 << 64) - 1
    gids = [0, 1, 1024, (1 << 32) - 3, (1 << 48) + 5, M64 - 9]
    B = lambda b, seq, g, sg=1: cx.append(C("batch %d, gid %#x%s, calls %s" % (b, g, "" if sg else " (default)", "-".join(map(str, seq))), bc, "h_mit",
                                            dict(B=b, gid=g, setgid=sg, prog=code(seq)), weight=sum(3 if s in (3, 6, 7) else 1 for s in seq)))
    # unmixed shapes through several batches
    for s in (1, 2, 3, 4, 5):
        for g in gids if th else gids[:1] + gids[3:]:
            B(8, [s] * (11 if s in (1, 4) else 9), g)
    for s in (6, 7):
        B(8, [s] * 3, gids[3])
    # every mixture of two and three shapes, at batch size 8, 4 and 2
    shapes = (1, 2, 3, 5, 6, 7)
    for n, seq in enumerate(itertools.product(shapes, repeat=3)):
        if th or n % 3 == 0 or 6 in seq[:2]:
            B(4, list(seq), gids[n % 6])
    for n, seq in enumerate(itertools.product((1, 2, 4, 5), repeat=4)):
        if th or n % 4 == 1:
            B(2, list(seq), gids[n % 6])
    for n, seq in enumerate(itertools.product((1, 2, 6, 7), repeat=2)):
        B(8, [1] * (n % 8) + list(seq) + [2], gids[n % 6])
    for p in range(8):
        B(8, [1] * p + [3, 2], gids[2], 0)
    # explicit renewals in between
    for seq in ([1, 8, 1, 2], [2, 2, 8, 3], [1, 1, 1, 10, 1], [9, 2, 5], [1, 9, 1], [8, 8, 1], [10, 10, 2, 1, 10, 2]):
        B(8, seq, gids[3])
        B(2, seq, gids[1])
    r = run.Report("All block values and start points, for every listed call sequence (shapes K x H, plain and circular, explicit renewals) and start index; "
                   "results are tracked as GF(2) forms over inputs and S-box atoms and compared with AES under start point XOR index.",
                   "block of group k -> x ^ AES(start ^ (index<<64), x), indices strictly increasing; a batch whose rest is too small for a call is skipped; no access outside the key batch",
                   ["call sequences of length at most 12"])
    r.add(run.run_ctxs(cx))
    return r.need("MITCCRH", "ParaEnc", "AES_opt_key_schedule")
