"""The simulation kernel: executes a plan on the code under test.

A plan is a dictionary:
  threads: list of lists of operations (see workload.py; plus harness operations, see lib.py)
  triggers: list of {t, o, loc: [file, qualname, firstline, offset], n, act, ...}
     when thread t, in its operation number o, arrives the n-th time at the location: do the action
       switch {to}: let thread `to` go on          stall: never run this thread again until all others are done
       abort {exc}: raise the exception            nest {op}: execute another operation inside
       clock {dt, wall}: time passes, the wall clock is set
       fork {ops}: the process forks; in the child, without the other threads, the operation goes on, then `ops` are done
       collect: the garbage collector runs
  a nest may have triggers of its own in `subs` (without t and o), which hold for the nested operation
  count: count and sample every line (or bytecode, if gran is 'op') instead of only the trigger locations
  cap: maximal number of counted steps
"""
import gc
import os
import pickle
import sys
import zlib

from . import seams

mon = sys.monitoring
EV = mon.events
TOOL = 4
REPO = "/repo/"


class Abort(BaseException):
    pass


class AbortE(Exception):
    pass


class StepCap(BaseException):
    """Raised by the kernel if a run exceeds its step budget."""


EXCS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RecursionError": RecursionError,
    "TimeoutError": TimeoutError,
    "SystemExit": SystemExit,
    "OSError": OSError,
    "Cancelled": Abort,
    "Error": AbortE,
}


class Thread:
    __slots__ = ("i", "gate", "ops", "o", "state", "cond", "counts", "steps", "opsteps", "body", "rec", "sampler", "inj", "injend", "harness", "cur", "quiet")

    def __init__(self, i):
        self.i = i
        self.gate = seams.real_allocate()
        self.gate.acquire()
        self.o = -1
        self.state = "ready"  # ready, blocked, stalled, done
        self.cond = None
        self.counts = {}
        self.steps = 0
        self.opsteps = 0
        self.rec = []
        self.sampler = None
        self.inj = None
        self.injend = None
        self.harness = 1
        self.cur = None  # the trigger of the nested operation that runs
        self.quiet = False  # a nested operation without triggers runs


def loc_of(code):
    return (code.co_filename[len(REPO):], code.co_qualname, code.co_firstlineno)


class Kernel:
    def __init__(self, plan, run_op):
        self.plan = plan
        self.run_op = run_op  # run_op(kernel, thread, index, op) -> record
        self.threads = []
        self.byident = {}
        self.clock = 0.0
        self.wall = 0.0
        self.forked = None  # in a forked child: where to write the records
        self.steps = 0
        self.cap = plan.get("cap") or 0
        self.events = []  # notable problems of the run as a whole
        self.trace = 0  # rolling hash of the schedule
        self.switches = 0
        self.fired = {}
        self.ids = {}  # id(code) -> {offset: [triggers]} or None
        self.keep = []
        self.done = seams.real_allocate()
        self.done.acquire()
        self.parked = seams.real_allocate()
        self.parked.acquire()
        self.current = None
        self.capped = False
        self.deadlock = False
        self.trig = {}
        self.register(plan.get("triggers", ()), None)
        self.sites = set()
        self.linefn = None  # called as linefn(code, line) in count mode
        self.unwind = False

    def register(self, triggers, up):
        for tr in triggers:
            f, q, l, off = tr["loc"]
            self.trig.setdefault((f, q, l), {}).setdefault(off, []).append((tr, up))
            self.register(tr.get("subs", ()), tr)

    def unraisable(self, u):
        """An exception that arrived where no program can be told, as when a generator is disposed of."""
        for t in self.threads:
            if t.inj is not None and t.inj is u.exc_value:
                t.inj = None
                self.fired["abort lost by the interpreter"] = self.fired.get("abort lost by the interpreter", 0) + 1
                return

    # ---- identity -------------------------------------------------------
    def me(self):
        return self.byident.get(seams.real_ident())

    # ---- callbacks of sys.monitoring --------------------------------------
    def on_instr(self, code, off):
        d = self.ids.get(id(code), 0)
        if d == 0:
            if code.co_filename.startswith(REPO):
                d = self.trig.get(loc_of(code))
            else:
                d = None
            self.ids[id(code)] = d
            self.keep.append(code)
        if d is None:
            return mon.DISABLE
        ts = d.get(off)
        if ts is None:
            return mon.DISABLE
        t = self.byident.get(seams.real_ident())
        if t is None or t.harness:
            return None
        key = (id(code), off)
        c = t.counts.get(key, 0) + 1
        t.counts[key] = c
        for tr, up in ts:
            if up is t.cur and tr["n"] == c and (up is not None or tr["t"] == t.i and tr["o"] == t.o):
                self.act(t, tr)
        return None

    def on_line(self, code, line):
        if not code.co_filename.startswith(REPO):
            return mon.DISABLE
        t = self.byident.get(seams.real_ident())
        if t is None or t.harness:
            return None
        self.steps += 1
        t.steps += 1
        if self.cap and self.steps > self.cap:
            self.capped = True
            raise StepCap()
        if self.linefn is not None:
            self.linefn(code, line)
        if t.sampler is not None:
            t.sampler(t, code, line)
        return None

    def on_both(self, code, off):
        """Count mode at bytecode granularity: sample, then triggers."""
        if not code.co_filename.startswith(REPO):
            return mon.DISABLE
        self.on_line(code, off)
        self.on_instr(code, off)
        return None

    def act(self, t, tr):
        a = tr["act"]
        self.fired[a] = self.fired.get(a, 0) + 1
        self.trace = zlib.crc32(repr((t.i, t.o, tr["loc"], tr["n"], a)).encode(), self.trace)
        self.sites.add(tuple(tr["loc"]))
        if a == "switch":
            self.switch(t, tr.get("to"))
        elif a == "stall":
            if any(x is not t and x.state in ("ready", "blocked") for x in self.threads):
                t.state = "stalled"
                self.switch(t, tr.get("to"))
        elif a == "abort":
            e = EXCS[tr["exc"]]("simulated " + tr["exc"])
            t.inj = e
            t.injend = tr.get("end")
            raise e
        elif a == "nest":
            saved = t.counts, t.inj, t.injend, t.sampler, t.cur, t.quiet
            t.counts, t.inj, t.injend, t.sampler, t.cur, t.quiet = {}, None, None, None, tr, not tr.get("subs")
            t.harness += 1
            try:
                rec = self.run_op(self, t, None, tr["op"])
                rec["nested"] = True
                t.rec.append(rec)
            finally:
                t.harness -= 1
                t.counts, t.inj, t.injend, t.sampler, t.cur, t.quiet = saved
        elif a == "clock":
            self.clock += tr.get("dt", 0.0)
            self.wall += tr.get("wall", 0.0)
        elif a == "fork":
            self.fork(t, tr)
        elif a == "collect":
            gc.collect()

    def fork(self, t, tr):
        if self.forked is not None:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            seams.PID += 1
            os.close(r)
            self.forked = w
            for x in self.threads:  # they do not exist in this process
                if x is not t:
                    x.state = "done"
            n = len(t.rec)
            t.ops = t.ops[: t.o + 1] + tr["ops"]
            self.forkrec = n
            return
        os.close(w)
        data = b""
        while True:
            d = os.read(r, 1 << 16)
            if not d:
                break
            data += d
        os.close(r)
        os.waitpid(pid, 0)
        if not data:
            self.events.append(("fork-died", {"op": t.o}))
            return
        recs, events = pickle.loads(data)
        for rec in recs:
            rec["forked"] = True
        t.rec += recs
        self.events += [(k if k == "harness" else "fork-" + k, d) for k, d in events]

    def leave(self, t):
        """End of the forked child."""
        data = pickle.dumps((t.rec[self.forkrec:], self.events))
        n = 0
        while n < len(data):
            n += os.write(self.forked, data[n:])
        os._exit(0)

    # ---- scheduling --------------------------------------------------------
    def runnable(self, t):
        if t.state == "ready":
            return True
        return t.state == "blocked" and t.cond()

    def pick(self, t, to=None):
        n = len(self.threads)
        if to is not None and to < n and self.threads[to] is not t and self.runnable(self.threads[to]):
            return self.threads[to]
        start = t.i if t else 0
        for d in range(1, n):
            x = self.threads[(start + d) % n]
            if self.runnable(x):
                return x
        return None

    def handover(self, t, x):
        """Lets x run instead of t; returns when t is scheduled again."""
        self.switches += 1
        self.trace = zlib.crc32(b"%d>%d" % (t.i, x.i), self.trace)
        self.current = x
        x.gate.release()
        t.gate.acquire()
        if self.unwind:
            raise seams.Deadlock()

    def switch(self, t, to=None):
        x = self.pick(t, to)
        if x is None:
            if t.state == "stalled":
                t.state = "ready"
            return
        self.handover(t, x)

    def block(self, t, cond):
        """Thread t waits for cond; called from simulated locks."""
        if self.unwind:
            raise seams.Deadlock()
        t.state, t.cond = "blocked", cond
        self.fired["wait"] = w = self.fired.get("wait", 0) + 1
        if w > 20000:
            self.events.append(("no-progress", {"waiting": [t.i]}))
            self.unwind = True
            raise seams.Deadlock()
        x = self.pick(t)
        if x is None:
            if cond():
                t.state = "ready"
                return
            x = self.wake_stalled(t)
        if x is None:
            self.dead()
            raise seams.Deadlock()
        self.handover(t, x)
        t.state, t.cond = "ready", None

    def wake_stalled(self, t):
        """Nobody else can run: if threads are stalled, others wait for them."""
        st = [x for x in self.threads if x.state == "stalled" and x is not t]
        waiting = [x.i for x in self.threads if x.state == "blocked"]
        if not st:
            return None
        if waiting:
            self.events.append(("blocked-by-stalled", {"waiting": waiting, "stalled": [x.i for x in st]}))
        st[0].state = "ready"
        return st[0]

    def dead(self):
        self.deadlock = True
        self.events.append(("deadlock", {"waiting": [x.i for x in self.threads if x.state == "blocked"]}))
        self.unwind = True

    def finish(self, t):
        t.state = "done"
        x = None
        if not self.unwind:
            x = self.pick(t)
            if x is None:
                x = self.wake_stalled(t)
            if x is None and any(y.state == "blocked" for y in self.threads):
                self.dead()
        if self.unwind:
            x = next((y for y in self.threads if y.state != "done"), None)
        if x is None:
            self.done.release()
        else:
            if x.state == "blocked" and not self.unwind:
                pass
            self.current = x
            x.gate.release()

    # ---- threads -----------------------------------------------------------
    def body(self, t):
        self.byident[seams.real_ident()] = t
        self.parked.release()
        t.gate.acquire()
        try:
            if not self.unwind:
                t.body()
        except (seams.Deadlock, StepCap):
            pass
        except BaseException as e:  # harness error
            import traceback

            self.events.append(("harness", {"error": "".join(traceback.format_exception(e))}))
        finally:
            if self.forked is not None:
                self.leave(t)
            self.finish(t)

    def spawn(self, fn):
        self.events.append(("thread-started", {}))
        t = Thread(len(self.threads))
        t.ops = []
        t.harness = 0
        t.body = fn
        self.threads.append(t)
        self.start(t)
        return t

    def start(self, t):
        """One thread starts after another, so that they always get the same memory."""
        seams.real_start(self.body, (t,))
        self.parked.acquire()

    def thread_main(self, t):
        i = -1
        while i + 1 < len(t.ops):
            i += 1
            op = t.ops[i]
            t.o = i
            t.counts.clear()
            s = t.steps
            rec = self.run_op(self, t, i, op)
            rec["o"] = i
            rec["steps"] = t.steps - s
            t.rec.append(rec)
            if self.capped:
                break

    def run(self):
        plan = self.plan
        for i, ops in enumerate(plan["threads"]):
            t = Thread(i)
            t.ops = ops
            t.body = (lambda t: lambda: self.thread_main(t))(t)
            self.threads.append(t)
        seams.KERNEL = self
        mon.use_tool_id(TOOL, "sim")
        ev = 0
        if plan.get("count"):
            if plan.get("gran") == "op":
                mon.register_callback(TOOL, EV.INSTRUCTION, self.on_both)
                ev = EV.INSTRUCTION
            else:
                mon.register_callback(TOOL, EV.LINE, self.on_line)
                ev = EV.LINE
                if self.trig:
                    mon.register_callback(TOOL, EV.INSTRUCTION, self.on_instr)
                    ev |= EV.INSTRUCTION
        elif self.trig:
            mon.register_callback(TOOL, EV.INSTRUCTION, self.on_instr)
            ev = EV.INSTRUCTION
        mon.set_events(TOOL, ev)
        try:
            for t in list(self.threads):
                self.start(t)
            self.current = self.threads[plan.get("first", 0) % len(self.threads)]
            self.current.gate.release()
            self.done.acquire()
        finally:
            mon.set_events(TOOL, 0)
            mon.free_tool_id(TOOL)
            seams.KERNEL = None
