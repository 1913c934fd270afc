#!/usr/bin/env python3
"""tools/automut.py OUT [per-file] [seed] [file...]: token-level mutants of the library headers, each run against the checks of its file until one reports it.
Survivors are written to OUT for review (equivalent change, or a gap in a check)."""
import os, random, re, shutil, subprocess, sys, tempfile
MAP = {
 "circuits/aes_128_ctr.h": "C25 C08", "circuits/bit.hpp": "C09 C07 C06 C27", "circuits/bit.h": "C09 C07", "circuits/circuit_file.h": "C12 C11 C25",
 "circuits/comparable.h": "C07 C10", "circuits/swappable.h": "C07 C10", "circuits/float32.hpp": "C10 C09 C11", "circuits/integer.hpp": "C09 C06 C07 C26", "circuits/integer.h": "C06 C07 C09",
 "circuits/number.h": "C07 C06", "execution/plain_circ.h": "C05", "execution/plain_prot.h": "C05 C09", "gc/halfgate_eva.h": "C01 C02", "gc/halfgate_gen.h": "C01 C02 C15",
 "gc/privacy_free_eva.h": "C04 C02", "gc/privacy_free_gen.h": "C04 C02 C15", "io/file_io_channel.h": "C20 C26 C19", "io/highspeed_net_io_channel.h": "C20 C21 C26 C30 C19",
 "io/io_channel.h": "C19 C24", "io/mem_io_channel.h": "C20 C26 C19", "io/net_io_channel.h": "C20 C21 C26 C30", "utils/ThreadPool.h": "C23", "utils/aes.h": "C13", "utils/aes_opt.h": "C13 C03",
 "utils/block.h": "C18 C16 C31", "utils/ccrh.h": "C16", "utils/crh.h": "C16", "utils/tccrh.h": "C16", "utils/prp.h": "C16", "utils/f2k.h": "C17", "utils/group_openssl.h": "C24 C19", "utils/group.h": "C24 C19",
 "circuits/sha3_256.h": "C28", "utils/hash.h": "C22 C24 C26", "utils/mitccrh.h": "C03", "utils/prg.h": "C14 C15", "utils/utils.hpp": "C09 C31 C26",
}
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<\-=])<(?![<=])", ["<="]), (r"(?<![>\-=])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<!\+)\+(?![+=])", ["-"]), (r"(?<!-)-(?![->=])", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"(?<![\^])\^(?!=)", ["&", "|"]), (r"\bfalse\b", ["true"]), (r"\btrue\b", ["false"]),
       (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<![\w.])(\d+)(?![\w.])", ["#inc", "#dec"]), (r"%", ["/"]), (r"(?<![/*])/(?![/*])", ["%"]), (r"(?<=[\w\])])\s*\*\s*(?=[\w(])", ["+"]), (r"!(?==)?(?=[\w(])", [""]), (r"\bmin\b", ["max"]),
       (r"size_t", ["int"]), (r"uint64_t", ["uint32_t"]), (r"int64_t", ["int32_t"])]
NARROW = [(r"\b(size_t|uint64_t|int64_t)\b(?=\s+\w)", ["uint32_t", "uint16_t", "uint8_t"]), (r"\b(unsigned int|int|unsigned|uint32_t)\b(?=\s+\w)", ["uint16_t", "uint8_t"])]
if os.environ.get("NARROW"):                                         # only: integer types made narrower
    OPS = NARROW
out = sys.argv[1]
per = int(sys.argv[2]) if len(sys.argv) > 2 else 15
rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
files = sys.argv[4:] or list(MAP)


def strip(line):
    return line.split("//")[0]


def sites(text):
    res = []
    skip = False
    arm = False
    off = 0
    for line in text.splitlines(True):
        s = strip(line)
        if "/*" in s:
            skip = True
        if s.strip().startswith("#elif __aarch64__"):
            arm = True
        if arm and s.strip().startswith("#endif"):
            arm = False
        if not skip and not arm and not s.lstrip().startswith("#") and "include" not in s and "template" not in s and "operator" not in s and "std::cerr" not in s and "std::cout" not in s:
            for rx, reps in OPS:
                for m in re.finditer(rx, s):
                    if s[:m.start()].count('"') % 2:
                        continue
                    for r in reps:
                        t = m.group(0)
                        if r == "#inc":
                            r = str(int(t) + 1)
                        elif r == "#dec":
                            if int(t) == 0:
                                continue
                            r = str(int(t) - 1)
                        res.append((off + m.start(), off + m.end(), r))
            if not os.environ.get("NARROW") and re.match(r"^\s*[\w\->.\[\]*&]+(\s*[\-+^|]?=[^=]|\(|\+\+|--).*;\s*$", s) and not re.match(r"^\s*(return|else|if|for|while|using|typedef|delete)\b", s):
                res.append((off, off + len(s.rstrip()), ";"))          # delete the statement
        if "*/" in s:
            skip = False
        off += len(line)
    return res


log = open(out, "a")
tot = dead = built = 0
for f in files:
    src = open("/repo/emp-tool/" + f).read()
    ss = sites(src)
    rnd.shuffle(ss)
    n = 0
    for a, b, r in ss:
        if n >= per:
            break
        d = tempfile.mkdtemp(prefix="automut-")
        try:
            subprocess.run(["cp", "-a", "/repo/emp-tool", d + "/emp-tool"], check=True)
            open(d + "/emp-tool/" + f, "w").write(src[:a] + r + src[b:])
            line = src.count("\n", 0, a) + 1
            ok = False
            bad = None
            for c in MAP[f].split():
                p = subprocess.run(["timeout", "600", "python3", "check.py", c], cwd="/verif", env=dict(os.environ, VSA_REPO=d, VSA_EVIDENCE=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode == 1:
                    ok = True
                    break
                if p.returncode != 0:
                    bad = (c, p.returncode, p.stdout[-300:])
                    break
            if bad and "does not build" in p.stdout:
                continue
            n += 1
            tot += 1
            if ok:
                dead += 1
            else:
                nl = "\n"
                log.write("%s %s:%d [%s -> %s] %s\n    %s\n" % ("NOANSWER" if bad else "SURVIVED", f, line, src[a:b].strip(), r, bad or "", src[src.rfind(nl, 0, a) + 1:src.find(nl, a)].strip()))
                log.flush()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    log.write("-- %s: %d mutants so far, %d reported\n" % (f, tot, dead))
    log.flush()
