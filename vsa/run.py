"""Check runner: analyses all contexts of a property and reports the verdict."""
import importlib, json, multiprocessing as mp, os, sys, time, traceback
from . import build, machine as mx
from .ir import AnalysisError
from .dom import ANF, BDD, Blowup
from .net import NetDom, NetBDD

VERIF = build.VERIF
EVID = os.environ.get("VSA_EVIDENCE") or os.path.join(VERIF, "evidence")


class Ctx:
    """One analysis context: an entry point of a bitcode module with constant parameters."""
    def __init__(self, name, bc, entry, params=None, dom="ANF", post=None, expect_abort=False,
                 allow_abort=False, models=None, limit=None, min_obl=1, driver=None, weight=1, no_events=True, oblivious=None):
        self.name, self.bc, self.entry, self.params, self.dom = name, bc, entry, params or {}, dom
        self.post, self.expect_abort, self.allow_abort = post, expect_abort, allow_abort
        self.models, self.limit, self.min_obl, self.driver = models, limit, min_obl, driver
        self.weight = weight
        self.no_events = no_events
        self.oblivious = oblivious


class Result:
    def __init__(self, name):
        self.name = name
        self.obl = 0
        self.fail = []        # dict(label, msg, where, witness)
        self.err = None
        self.fns = set()
        self.insts = 0
        self.extra = {}
        self.wall = 0

    def failure(self, label, msg, where=None, witness=None):
        self.fail.append(dict(context=self.name, label=label, message=msg, where=where or [], witness=witness))


_mods = {}


def module(bc):
    m = _mods.get(bc)
    if m is None:
        m = _mods[bc] = mx.Module(bc)
    return m


def fmt_stack(st):
    out = []
    for f, file, line in st:
        if file.startswith("/usr/"):
            continue
        out.append("%s:%d (%s)" % (file.replace(build.REPO + "/", ""), line, demangle(f)))
    return out[:8]


_dm = {}


def demangle(n):
    if n in _dm:
        return _dm[n]
    r = n
    if n.startswith("_Z"):
        try:
            import ctypes
            lib = ctypes.CDLL("libstdc++.so.6")
            f = lib.__cxa_demangle
            f.restype = ctypes.c_void_p
            st = ctypes.c_int()
            p = f(n.encode(), None, None, ctypes.byref(st))
            if p:
                r = ctypes.string_at(p).decode()
        except Exception:
            pass
    _dm[n] = r
    return r


def analyse(ctx):
    t0 = time.time()
    res = Result(ctx.name)
    mc = None
    try:
        mod = module(ctx.bc)
        dom = {"ANF": ANF, "BDD": BDD, "NET": NetDom, "NETB": NetBDD}[ctx.dom]
        mc = mx.Machine(mod, dom(ctx.limit) if ctx.limit else dom(), params=ctx.params, models=ctx.models)
        mc.track_events = not ctx.no_events
        mc.ctx = ctx
        mc.oblivious = ctx.dom in ("NET", "NETB") if ctx.oblivious is None else ctx.oblivious
        mc.frames = [[]]
        aborted = None
        try:
            mc.run_ctors()
            if ctx.driver is not None:
                ctx.driver(mc, res)
            else:
                mc.call(ctx.entry)
        except mx.Dead as e:
            aborted = (str(e), mc.stack(sys.exc_info()[2])[:10])
        except mx.Bug as e:
            res.failure(e.kind, e.msg, fmt_stack(mc.stack(sys.exc_info()[2])[:12]))
        if aborted and not ctx.expect_abort and not res.fail:
            res.failure("unexpected stop", "the program stops: %s" % aborted[0], fmt_stack(aborted[1]))
        if ctx.expect_abort:
            res.obl += 1
            if not aborted and not res.fail:
                res.failure("missing stop", "the program must stop here, but continues")
        if not ctx.allow_abort and not ctx.expect_abort:
            for c, msg, st in mc.aborts:
                res.failure("conditional stop", "the program stops on some inputs: %s (when %s)" % (msg, mc.D.show(c)), fmt_stack(st))
                break
        for lab, ok, detail, st in mc.obl:
            res.obl += 1
            if not ok:
                d, w = detail
                res.failure(lab, str(d), fmt_stack(st or []), short_witness(w))
        if ctx.post is not None and not res.fail:
            ctx.post(mc, res)
        if not res.fail and not res.err and res.obl < ctx.min_obl and not ctx.expect_abort:
            res.err = "context decided %d obligations, expected at least %d" % (res.obl, ctx.min_obl)
    except (AnalysisError, Blowup) as e:
        st = mc.stack(sys.exc_info()[2])[:10] if mc else []
        if getattr(e, "undef", None):
            # a computation the domain can follow for every input is fed with memory nobody wrote
            res.failure("uninitialised", "the computation uses memory that was never written (%s)" % e.undef, fmt_stack(st))
        else:
            res.err = "%s: %s [%s]" % (type(e).__name__, e, "; ".join(fmt_stack(st)[:4]))
    except RecursionError as e:
        res.err = "recursion"
    except MemoryError:
        res.err = "memory"
    except Exception as e:
        res.err = "internal: " + traceback.format_exc()[-1500:]
    if mc:
        res.fns = set(f.name for f in mc.reached)
        res.insts = sum(f.ninst for f in mc.reached)
    res.wall = time.time() - t0
    return res


def short_witness(w):
    if not w:
        return None
    r = {}
    for k in list(w)[:64]:
        r[str(k)] = w[k]
    return r


_ctxs = None
DEADLINE = None


def _work(i):
    try:
        return i, analyse(_ctxs[i])
    except BaseException as e:
        r = Result(_ctxs[i].name)
        r.err = "worker: %r" % e
        return i, r


def run_ctxs(ctxs, jobs=8):
    global _ctxs
    _ctxs = ctxs
    order = sorted(range(len(ctxs)), key=lambda i: -ctxs[i].weight)
    out = [None] * len(ctxs)
    if jobs == 1 or len(ctxs) == 1:
        for i in order:
            out[i] = analyse(ctxs[i])
        return out
    with mp.get_context("fork").Pool(min(jobs, len(ctxs)), maxtasksperchild=6) as p:
        it = p.imap_unordered(_work, order, chunksize=1)
        try:
            end = DEADLINE
            for _ in order:
                i, r = it.next(max(1, end - time.time())) if end else it.next()
                out[i] = r
                if r.fail and DEADLINE:                # decided: the rest only adds detail
                    end = min(end, time.time() + 100)
        except mp.TimeoutError:
            p.terminate()
            for i in order:
                if out[i] is None:
                    out[i] = Result(ctxs[i].name)
                    out[i].err = "not finished in time"
    return out


def parallel_compile(jobs):
    """jobs: list of (key, src, kwargs) -> dict key->bc"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        fs = {k: ex.submit(build.compile_tu, s, **kw) for k, s, kw in jobs}
        return {k: f.result() for k, f in fs.items()}


def emp_functions(names):
    """demangled names of analysed functions of the library"""
    r = set()
    for n in names:
        if "3emp" in n or "10ThreadPool" in n:
            d = demangle(n)
            r.add(d)
    return r


def load_findings(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                out.append(l[len("known: property=%s " % pid):])
    return out


def main(pid, tier):
    t0 = time.time()
    global DEADLINE
    DEADLINE = t0 + (800 if tier == "quick" else 36000)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    mod = importlib.import_module("checks." + pid)
    try:
        rep = mod.check(tier)
    except build.BuildError as e:
        print("ERROR property=%s the analysed program does not build:\n%s" % (pid, e))
        return 2
    except (AnalysisError, Blowup) as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    wall = time.time() - t0
    findings = load_findings(pid)
    viol, known = [], []
    for f in rep.failures:
        key = "%s %s" % (f["context"], f["label"])
        for k in findings:
            if k.split(" :: ")[0].strip() == key:
                known.append((k, f))
                break
        else:
            viol.append(f)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "other"), wall_s=round(wall, 2),
              violations=len(viol), coverage=rep.coverage(), assumptions=rep.assumptions)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=str)
    for k, f in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: %d contexts, %d obligations, %d discharged, %d library functions analysed, %.1f s" % (
        pid, tier, rep.ncontexts, rep.obligations, rep.obligations - len(rep.failures), len(rep.functions), wall))
    if viol:
        rp = os.path.join(EVID, pid + ".violation.txt")
        with open(rp, "w") as fh:
            for f in viol[:200]:
                fh.write(json.dumps(f, indent=1, default=str) + "\n")
        for f in viol[:8]:
            print("  [%s] %s: %s" % (f["context"], f["label"], f["message"]))
            for w in f["where"][:4]:
                print("      at %s" % w)
            if f.get("witness"):
                print("      e.g. %s" % ", ".join("%s=%s" % kv for kv in list(f["witness"].items())[:12]))
        for e in rep.errors[:3]:
            print("  note: also no answer in %s" % e)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if rep.errors:
        for e in rep.errors[:8]:
            print("ERROR property=%s %s" % (pid, e))
        return 2
    return 0


class Report:
    def __init__(self, explanation, rule, assumptions=()):
        self.explanation, self.rule = explanation, rule
        self.assumptions = list(assumptions)
        self.failures, self.errors = [], []
        self.obligations = 0
        self.ncontexts = 0
        self.functions = set()
        self.insts = 0
        self.samples = []
        self.extra = {}

    def add(self, results):
        for r in results:
            self.ncontexts += 1
            self.obligations += r.obl + (1 if r.fail and not r.obl else 0)
            self.failures += r.fail
            if r.err:
                self.errors.append("[%s] %s" % (r.name, r.err))
            self.functions |= emp_functions(r.fns)
            self.insts += r.insts
            if len(self.samples) < 12:
                self.samples.append("%s: %d obligations, %d functions, %.1f s" % (r.name, r.obl, len(r.fns), r.wall))
        return self

    def need(self, *subs):
        """anchors: each must be among the analysed functions"""
        for s in subs:
            if not any(s in f for f in self.functions):
                self.errors.append("anchor %s was not analysed" % s)
        return self

    def coverage(self):
        d = dict(explanation=self.explanation, rule=self.rule, contexts=self.ncontexts, obligations=self.obligations,
                 discharged=self.obligations - len(self.failures), functions_analysed=len(self.functions),
                 ir_instructions=self.insts, functions=sorted(self.functions)[:60], samples=self.samples,
                 no_answer=len(self.errors))
        d.update(self.extra)
        return d
