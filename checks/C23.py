"""Thread pool: thread-modular effect analysis.

Each thread function is analysed on its own; the other threads appear as environment
actions at its synchronisation points (lock acquisition, wake-up, and the window between
testing the condition and sleeping).  The actions are effects of the analysed code itself:
E submit a task, S begin destruction, W another worker takes its turn."""
import itertools
from vsa import run, build
from vsa.machine import Bug, Dead, Throw, BASE
from vsa.ir import AnalysisError
from vsa.dom import Blowup


class Pause(Exception):
    """an environment thread cannot go on for now"""


class Blocked(Exception):
    pass


class Undecided(Exception):
    pass


class Sync:
    def __init__(self, mc):
        self.mc = mc
        self.owner = {}
        self.cur = "main"
        self.threads = {}          # tid -> state pointer
        self.started = {}          # tid -> "new" | "sleeping" | "ended"
        self.joined = []
        self.ntid = 0
        self.waiting = []          # (cv, tid)
        self.awake = 0             # sleeping workers that were notified
        self.subject = None        # thread under analysis
        self.script = []
        self.inject = None
        self.accepted, self.ran = [], []
        self.stop = False
        self.nested = 0
        self.pool = None
        self.psize = 0
        self.acc = {}
        self.track = False
        self.joinmode = "pause"
        self.wrote = False
        self.deleted = False

    def held(self):
        return frozenset(m for m, o in self.owner.items() if o == self.cur)

    def pending(self):
        return len(set(self.accepted) - set(self.ran))

    # -- environment
    def env(self, act):
        cur, sub, inj = self.cur, self.subject, self.inject
        self.inject = None
        self.nested += 1
        try:
            if act == "E":
                self.cur = "submitter"
                self.submit()
            elif act == "S":
                if self.stop:
                    return
                self.cur = "destroyer"
                self.wrote = False
                w0 = None
                try:
                    self.stop_begun = True
                    self.mc.call("t_delete")
                    if self.started:
                        raise Bug("early return", "destruction returns before the workers were joined")
                except Pause as p:
                    if p.args[0] == "join":
                        self.stop = True
                        if self.held():
                            raise Bug("join under lock", "the workers are joined with the pool's lock held")
                    elif self.wrote:
                        raise Undecided()
            elif act == "W":
                new = [t for t, s in self.started.items() if s == "new" and t != sub]
                if not new:
                    return
                t = new[-1]
                self.run_thread(t)
        finally:
            self.cur, self.subject, self.inject = cur, sub, inj
            self.nested -= 1

    def submit(self, fn="t_enqueue"):
        id = len(self.accepted)
        try:
            r = self.mc.call(fn, id)
        except Pause:
            return
        if self.held():
            raise Bug("lock not released", "submitting leaves the pool's lock held")
        if r:
            self.accepted.append(id)    # nothing else moves between acceptance and return
        if r == 0:
            if not self.stop:
                raise Bug("task refused", "a task is refused although the pool is not shut down")
        elif self.stop:
            raise Bug("accepted after shutdown", "a task is accepted after shutdown began")

    def run_thread(self, t):
        """a worker from its start; returns True if it ended"""
        cur = self.cur
        self.cur = t
        self.started[t] = "running"
        st = self.threads[t]
        try:
            vt = self.mc.load(st, 8)
            self.mc.do_icall(self.mc.load(vt + 16, 8), (st,))
            self.started[t] = "ended"
            if self.held():
                raise Bug("lock not released", "a worker ends with the pool's lock held")
            if not self.stop:
                raise Bug("worker ends", "a worker ends although the pool is not shut down")
            if self.pending():
                raise Bug("task dropped", "a worker ends with %d accepted tasks not run" % self.pending())
            return True
        except Blocked:
            self.started[t] = "sleeping"
            return False
        except Pause:
            raise
        except Throw as e:
            raise Bug("worker dies", "an exception leaves a worker: %s" % e)
        finally:
            self.cur = cur

    # -- synchronisation
    def point(self):
        if self.cur == self.subject:
            if not self.script:
                raise Blocked()
            for act in self.script.pop(0):
                self.env(act)

    def lock(self, m):
        if self.owner.get(m) == self.cur:
            raise Bug("self-deadlock", "a thread takes the pool's lock twice")
        if self.owner.get(m) is not None:
            raise Pause("lock")
        self.point()
        if self.owner.get(m) is not None:
            raise Pause("lock")
        self.owner[m] = self.cur

    def unlock(self, m):
        if self.owner.get(m) != self.cur:
            raise Bug("unlock", "a lock is released that is not held")
        self.owner[m] = None

    def idle_ok(self, when):
        if self.stop or self.pending():
            raise Bug("sleeps", "a worker goes to sleep although %s (%s)" % ("shutdown began" if self.stop else "%d tasks wait" % self.pending(), when))

    def wait(self, cv, m):
        if self.owner.get(m) != self.cur:
            raise Bug("wait without lock", "condition wait without holding the lock")
        self.idle_ok("seen under the lock")
        if self.cur == self.subject and self.inject:
            act, self.inject = self.inject, None
            self.env(act)
            if self.stop or self.pending():
                raise Bug("lost wake-up", "%s between the test of the condition and the sleep; the notification is lost" % ("shutdown can begin" if self.stop else "a task can arrive"))
        self.owner[m] = None
        self.waiting.append((cv, self.cur))
        if self.cur != self.subject:
            raise Blocked()
        if not self.script:
            raise Blocked()
        for act in self.script.pop(0):
            self.env(act)
        if (cv, self.cur) in self.waiting:
            if self.stop:
                raise Bug("lost wake-up", "a sleeping worker is not notified of the shutdown")
            if self.pending() > 0 and not self.awake:
                raise Bug("lost wake-up", "a task was accepted, a worker sleeps and no worker is notified")
            self.waiting.remove((cv, self.cur))       # spurious wake-up
        if self.owner.get(m) is not None:
            raise Pause("lock")
        self.owner[m] = self.cur

    def notify(self, cv, every):
        w = [x for x in self.waiting if x[0] == cv]
        # the analysed thread is the last to be chosen
        w.sort(key=lambda x: x[1] == self.subject)
        for x in (w if every else w[:1]):
            self.waiting.remove(x)
            if x[1] != self.subject:
                self.awake += 1

    # -- accesses
    def access(self, a, n, w):
        if not self.track or a.__class__ is not int:
            return
        o = a >> 32
        if o != self.pool >> 32 and o not in self.owned():
            return
        if self.mc.atomic:
            if w:
                self.wrote = True
            return
        if w:
            self.wrote = True
        h = self.held()
        for k in range(a, a + n):
            e = self.acc.get(k)
            st = None
            if e is None:
                self.acc[k] = [{self.cur}, w, h, None]
                e = self.acc[k]
            else:
                e[0].add(self.cur)
                e[1] = e[1] or w
                e[2] = e[2] & h
            if len(e[0]) > 1 and e[1] and not e[2] and any(t.__class__ is int for t in e[0]):
                raise Bug("unlocked access", "%s of shared pool state (offset %s) without the lock other threads use" % (
                    "write" if w else "read", k - self.pool if k >> 32 == self.pool >> 32 else "in the queue"))

    def owned(self):
        """blocks directly reachable from the pool object"""
        s = set()
        o = self.mc.objs[self.pool >> 32]
        for off, v in o.mem.items():
            if v.__class__ is tuple and v[0].__class__ is int and v[1] == 8 and v[0] >> 32 and self.mc.objs.get(v[0] >> 32) is not None:
                ob = self.mc.objs[v[0] >> 32]
                if ob.kind == "heap" or ob.kind == "new" or "heap" in ob.kind:
                    s.add(v[0] >> 32)
        return s


def S(mc):
    return mc.sync


def models():
    M = {}
    M["pthread_mutex_lock"] = lambda mc, a: (S(mc).lock(a[0]), 0)[1]
    M["pthread_mutex_unlock"] = lambda mc, a: (S(mc).unlock(a[0]), 0)[1]

    def trylock(mc, a):
        if S(mc).owner.get(a[0]) is not None:
            return 16
        S(mc).owner[a[0]] = S(mc).cur
        return 0
    M["pthread_mutex_trylock"] = trylock
    M["_ZNSt18condition_variableC1Ev"] = M["_ZNSt18condition_variableD1Ev"] = lambda mc, a: None

    def mutex_of(mc, ul):
        m = mc.load(ul, 8)
        if mc.load(ul + 8, 1) == 0:
            raise Bug("wait without lock", "condition wait with an unlocked lock object")
        return m
    M["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = lambda mc, a: S(mc).wait(a[0], mutex_of(mc, a[1]))

    def timedwait(mc, a):
        S(mc).wait(a[0], a[1])
        return 0
    M["pthread_cond_wait"] = M["pthread_cond_timedwait"] = M["pthread_cond_clockwait"] = timedwait
    M["_ZNSt18condition_variable10notify_oneEv"] = lambda mc, a: S(mc).notify(a[0], False)
    M["_ZNSt18condition_variable10notify_allEv"] = lambda mc, a: S(mc).notify(a[0], True)
    M["_ZNSt6chrono3_V212steady_clock3nowEv"] = M["_ZNSt6chrono3_V212system_clock3nowEv"] = lambda mc, a: 1000

    def start(mc, a):
        s = S(mc)
        s.ntid += 1
        st = mc.load(a[1], 8)
        mc.store(a[1], 0, 8)
        s.threads[s.ntid] = st
        s.started[s.ntid] = "new"
        mc.store(a[0], s.ntid, 8)
        if not s.track:
            s.track = True
    M["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = start
    M["_ZNSt6thread6_StateD2Ev"] = M["_ZNSt6thread6_StateD1Ev"] = lambda mc, a: None

    def join(mc, a):
        s = S(mc)
        t = mc.load(a[0], 8)
        if t == 0 or t not in s.threads:
            raise Bug("join", "join of something that is not a running thread")
        if s.joinmode == "pause":
            raise Pause("join")
        if t in s.joined:
            raise Bug("join", "a thread is joined twice")
        if s.held():
            raise Bug("join under lock", "the workers are joined with the pool's lock held")
        s.stop = True
        if s.started[t] == "new":
            if not s.run_thread(t):
                raise Bug("waits for ever", "a worker sleeps for ever, the destructor waits for it")
        s.joined.append(t)
        mc.store(a[0], 0, 8)
        if len(s.joined) == len(s.threads):
            s.track = False
    M["_ZNSt6thread4joinEv"] = join

    def detach(mc, a):
        raise Bug("detached", "a worker is detached, nobody waits for it")
    M["_ZNSt6thread6detachEv"] = detach
    M["_ZNSt6thread20hardware_concurrencyEv"] = lambda mc, a: 4

    def once(mc, a):
        if mc.load(a[0], 4) == 0:
            mc.store(a[0], 1, 4)
            mc.do_icall(a[1], ())
            mc.store(a[0], 2, 4)
        return 0
    M["pthread_once"] = once

    def proxy(mc, a):
        g = mc.mod.gvname.get("_ZSt11__once_call")
        if g is None:
            raise AnalysisError("__once_proxy without __once_call")
        return mc.do_icall(mc.load((g << 32) + BASE if g < 1 << 32 else g, 8), ())
    M["__once_proxy"] = proxy
    M["_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj"] = lambda mc, a: None

    def futexwait(mc, a):
        raise Bug("waits for ever", "waits for the result of a task that has not run")
    M["_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE"] = futexwait
    for x in ("C2", "C1", "D2", "D1"):
        M["_ZNSt13__future_base12_Result_base%sEv" % x] = (lambda mc, a: mc.store(a[0] + 8, 0, 8)) if x[0] == "C" else (lambda mc, a: None)
        M["_ZNSt13__future_base19_Async_state_common%sEv" % x] = lambda mc, a: None
    M["_ZNSt13__future_base13_State_baseV211_Make_readyD1Ev"] = lambda mc, a: None
    M["_ZSt15future_categoryv"] = lambda mc, a: mc.new_obj(16, "category", "heap", default=0)
    M["_ZSt20__throw_system_errori"] = M["_ZSt20__throw_future_errori"] = lambda mc, a: _dead()
    M["__pthread_key_create"] = lambda mc, a: 0

    def task(mc, a):
        s = S(mc)
        if s.held():
            raise Bug("task under lock", "a task runs with the pool's lock held")
        if s.cur not in s.threads:
            raise Bug("wrong thread", "a task runs in the %s's thread" % s.cur)
        if a[0] in s.ran:
            raise Bug("task run twice", "task %d runs twice" % a[0])
        s.ran.append(a[0])
    M["vx_task"] = task
    return M


def _dead():
    raise Dead("exception")


def fresh(mc, n):
    s = mc.sync = Sync(mc)
    s.track = False
    mc.frames = [[]]
    raw = type(mc)
    mc.load = lambda a, k: (s.access(a, k, False), raw.load(mc, a, k))[1]
    mc.store = lambda a, v, k: (s.access(a, k, True), raw.store(mc, a, v, k))[1]
    # the pool object is known before the constructor starts threads: allocated inside t_new
    s.psize = mc.call("t_size")
    s.pool = (mc.next_oid << 32)
    p = mc.call("t_new", n)
    s.pool = p
    if len(s.threads) != n or mc.call("t_count") != n:
        raise Bug("worker count", "%d threads are started, %d reported, %d asked for" % (len(s.threads), mc.call("t_count"), n))
    s.track = True
    return s


ACTS = ["", "E", "EE", "EW", "W", "S", "ES", "EEW", "SE", "EWS"]


def worker_scripts(th):
    o = []
    A = ACTS
    for a in A:
        for b in A:
            for c in (A if th else ["", "E", "S", "ES", "W"]):
                for d in (["", "S", "E"] if th else ["", "S"]):
                    o.append([a, b, c, d, "", "S", "", ""])
    return o


def drive(scripts, kind):
    def f(mc, res):
        mc.unwind = True
        for sc in scripts:
            res.obl += 1
            try:
                kind(mc, sc, res)
            except Undecided:
                pass
            except Pause as e:
                raise Bug("blocked", "a thread waits for a lock that is never released (%s)" % e)
            except Blowup:
                # nothing in these contexts is an unknown input: the only unknown values are those of memory nobody wrote
                raise Bug("indeterminate value", "a decision depends on memory that was never written [%s]" % (sc,))
            except Bug as e:
                e.msg += " [%s]" % (sc,)
                raise
    return f


def worker(mc, sc, res):
    n, inj, script = sc
    s = fresh(mc, n)
    s.subject = 1
    s.inject = inj
    s.script = [list(x) for x in script]
    s.run_thread(1)
    if s.started[1] == "ended":
        res.obl += 1


def whole(mc, sc, res):
    """submissions, then destruction; the workers run when they are joined"""
    n, k = sc
    s = fresh(mc, n)
    for i in range(k):
        s.cur = "submitter"
        s.submit()
    s.cur = "main"
    s.joinmode = "run"
    if k % 2:
        # some worker has already drained the queue
        s.run_thread(1)
        if s.pending():
            raise Bug("task not run", "%d tasks left when a worker sleeps" % s.pending())
        w = [x for x in s.waiting]
        s.cur = "main"
        s.joinmode = "pause"
        s.env("S")
        if s.waiting:
            raise Bug("lost wake-up", "a sleeping worker is not notified of the shutdown")
    else:
        s.mc.call("t_delete")
        if sorted(s.joined) != sorted(s.threads):
            raise Bug("join", "%d of %d workers are joined" % (len(s.joined), len(s.threads)))
    if n and s.pending():
        raise Bug("task not run", "%d accepted tasks never run" % s.pending())
    for i in s.accepted:
        if n:
            r = mc.call("t_get", i)
            res.obl += 1
            if r != 1000 + i:
                raise Bug("result", "the future of task %d holds %d" % (i, r))


def throwing(mc, sc, res):
    """a task throws: its worker goes on, the exception reaches the future"""
    n, ks = sc
    s = fresh(mc, n)
    s.cur = "submitter"
    for k in ks:
        s.submit("t_enqueue_bad" if k == "B" else "t_enqueue")
    s.cur = "main"
    s.joinmode = "run"
    s.mc.call("t_delete")
    if s.pending():
        raise Bug("task not run", "%d accepted tasks never run" % s.pending())
    for i, k in enumerate(ks):
        res.obl += 1
        if k == "B":
            if mc.call("t_get_bad", i) != 1:
                raise Bug("exception lost", "the exception of task %d does not reach its future" % i)
        elif mc.call("t_get", i) != 1000 + i:
            raise Bug("result", "wrong result of task %d" % i)


def sleepers(mc, sc, res):
    """all workers asleep, then one event: every sleeper learns of the shutdown, some sleeper of a task"""
    n, act = sc
    s = fresh(mc, n)
    for t in list(s.threads):
        s.run_thread(t)
        if s.started[t] != "sleeping":
            raise Bug("worker ends", "an idle worker does not wait")
    for k, a in enumerate(act):
        before = len(s.waiting)
        s.env(a)
        if a == "E" and s.waiting and n - len(s.waiting) < s.pending():
            raise Bug("lost wake-up", "%d accepted tasks wait, %d workers sleep and only %d were notified" % (s.pending(), len(s.waiting), n - len(s.waiting)))
        if a == "S" and s.waiting:
            raise Bug("lost wake-up", "%d sleeping workers are not notified of the shutdown" % len(s.waiting))


def submitter(mc, sc, res):
    """a submission, preempted at its lock acquisition"""
    n, act = sc
    s = fresh(mc, n)
    s.subject = "submitter"
    s.cur = "submitter"
    s.script = [list(act)] + [[] for i in range(4)]
    s.submit()
    if s.stop and s.pending() and all(x == "ended" for x in s.started.values()):
        raise Bug("task dropped", "a task is accepted although all workers have ended")


def check(tier):
    th = tier == "thorough"
    bc = build.compile_tu(build.VERIF + "/harness/pool.cpp")
    M = models()
    cx = []
    ws = [(n, inj, sc) for n in (1, 3) for inj in (None, "S", "E") for sc in worker_scripts(th)]
    step = 60
    for i in range(0, len(ws), step):
        cx.append(run.Ctx("worker under environments %d-%d" % (i, i + step - 1), bc, "t_new", {}, models=M, driver=drive(ws[i:i + step], worker)))
    wh = [(n, k) for n in (1, 2, 3, 8) for k in (0, 1, 2, 3, 5, 9)] + [(0, 0)]
    cx.append(run.Ctx("submission, destruction and results", bc, "t_new", {}, models=M, driver=drive(wh, whole)))
    sl = [(n, a) for n in (1, 2, 3) for a in ("E", "S", "EE", "ES", "EES", "EEE", "SE")]
    cx.append(run.Ctx("all workers asleep", bc, "t_new", {}, models=M, driver=drive(sl, sleepers)))
    tr = [(n, k) for n in (1, 2) for k in ("B", "BE", "EB", "EBE", "BB")]
    cx.append(run.Ctx("tasks that throw", bc, "t_new", {}, models=M, driver=drive(tr, throwing)))
    su = [(n, a) for n in (1, 2) for a in ("", "S", "SW", "SWW", "E", "W", "WW", "ES", "EWS")]
    cx.append(run.Ctx("submission preempted", bc, "t_new", {}, models=M, driver=drive(su, submitter)))
    r = run.Report("Thread-modular effect analysis: the worker loop is analysed alone, with the effects of the other threads' own code (submission, destruction, other workers) applied at each of its synchronisation points, including the window between testing the condition and sleeping; a lock-set analysis covers every access to the pool object and its queue blocks.",
                   "no wait while work or shutdown is visible; worker ends only when shut down and drained; each task once, outside the lock; every sleeper notified of shutdown and one of each task; refusal after shutdown; all workers joined; every shared access under one common lock",
                   ["environment sequences listed in this file", "std::mutex, std::condition_variable, std::thread and std::future as specified", "data-race freedom of the queue makes critical sections atomic"])
    r.add(run.run_ctxs(cx))
    return r.need("ThreadPool::ThreadPool", "ThreadPool::enqueue", "ThreadPool::~ThreadPool")
