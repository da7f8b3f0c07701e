"""Operations of simulated threads on the library, with the invariants that are checked on them."""
import atexit
import builtins
import collections
import decimal
import gc
import importlib
import io
import locale
import logging
import operator
import os
import random
import signal
import sys
import threading
import types
import warnings
import zlib

import _testcapi
import mathutils

from . import seams
from . import workload as W
from .kernel import EXCS, StepCap

MISSING = object()
INITIAL = [lambda: ["initial"], lambda: None, lambda: 0, lambda: [], lambda: "", lambda: True, lambda: {}, dict, object, lambda: float("nan")]


class HookList(list):
    """An output list which records how it is changed and can fail while it is extended."""

    armed = False
    log = None
    torn = None  # {"m": number of the call, "mode": before/partial/after, "exc": name}
    owner = None
    calls = 0
    touched = 0  # entries delivered by operations on the list as a whole

    def __iter__(self):
        for x in list.__iter__(self):
            self.touched += 1
            yield x

    def __reversed__(self):
        for x in list.__reversed__(self):
            self.touched += 1
            yield x

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        if isinstance(i, slice):
            self.touched += len(r)
        return r

    def __contains__(self, x):
        self.touched += len(self)
        return list.__contains__(self, x)

    def index(self, x, *a):
        r = list.index(self, x, *a)
        self.touched += r - (a[0] if a else 0) + 1
        return r

    def count(self, x):
        self.touched += len(self)
        return list.count(self, x)

    def copy(self):
        self.touched += len(self)
        return list.copy(self)

    def __add__(self, x):
        self.touched += len(self)
        return list.__add__(self, x)

    def __mul__(self, n):
        self.touched += len(self)
        return list.__mul__(self, n)

    def __eq__(self, x):
        self.touched += len(self)
        return list.__eq__(self, x)

    __hash__ = None

    def sort(self, **k):
        self.touched += len(self)
        return self._hook("sort", lambda _: list.sort(self, **k))

    def reverse(self):
        self.touched += len(self)
        return self._hook("reverse", lambda _: list.reverse(self))

    def _hook(self, name, do, items=None):
        if not self.armed:
            return do(None)
        self.calls += 1
        n = len(self)
        t = self.torn
        if t and t["m"] == self.calls:
            e = EXCS[t["exc"]]("simulated failure of the list")
            self.owner.inj = e
            self.owner.fired = True
            if t["mode"] == "partial" and items is not None:
                items = list(items)
                do(items[: len(items) // 2])
            elif t["mode"] == "after":
                do(None)
            raise e
        r = do(None)
        if self.log is not None and len(self) != n:
            self.log.append((name, n, len(self)))
        return r

    def append(self, x):
        self._hook("append", lambda _: list.append(self, x))

    def extend(self, it):
        it = list(it)
        self._hook("extend", lambda part: list.extend(self, it if part is None else part), it)

    def __iadd__(self, it):
        it = list(it)
        self._hook("+=", lambda part: list.extend(self, it if part is None else part), it)
        return self

    def insert(self, i, x):
        self._hook("insert", lambda _: list.insert(self, i, x))

    def pop(self, *a):
        return self._hook("pop", lambda _: list.pop(self, *a))

    def __setitem__(self, i, x):
        self._hook("set", lambda _: list.__setitem__(self, i, x))

    def __delitem__(self, i):
        self._hook("del", lambda _: list.__delitem__(self, i))


def flat(vs):
    return [v[:] for v in vs]


class Watch:
    """Snapshot of everything an operation may touch, and the rules about it."""

    def __init__(self, I, alone=False):
        """alone: no other operation has these vectors."""
        self.I = I
        self.bad = []
        self.alone = alone
        self.fz = self.frozen() if alone else None
        self.vlens = []
        self.flens = []
        self.published = None
        if I.edges is not None:
            self.edges = [list(c) for c in I.edges]
            self.top = list(I.edges)
            self.evals = self.edge_values()
            return
        self.v = list(I.verts)
        self.vv = flat(self.v)
        self.uv = list(I.uv) if I.uv is not None else None
        self.uvv = flat(self.uv) if self.uv is not None else None
        self.h = list(I.holes) if I.holes is not None else None
        self.hv = [tuple(x) for x in self.h] if self.h is not None else None
        self.f = list(I.faces) if I.faces is not None else None
        self.fv = [list(f) for f in self.f] if self.f is not None else None
        self.lastv = len(self.v)
        self.lastf = len(self.f) if self.f is not None else 0

    def edge_values(self):
        return [
            [(id(e), e.p1[:], e.p2[:], e.norm[:], getattr(e, "i1", None), getattr(e, "i2", None)) for e in c] for c in self.edges
        ]

    def frozen(self):
        I = self.I
        if I.edges is not None:
            return [x.is_frozen for c in I.edges for e in c for x in (e.p1, e.p2, e.norm)]
        return [v.is_frozen for v in list(I.verts)[: I.n0]], [v.is_frozen for v in I.uv or ()]

    def fail(self, kind, **kw):
        if len(self.bad) < 4 and not any(k == kind for k, _ in self.bad):
            self.bad.append((kind, kw))

    def check(self, where=None, final=False):
        I = self.I
        if I.edges is not None:
            if len(I.edges) != len(self.top) or not all(map(operator.is_, I.edges, self.top)):
                self.fail("input-edges", at=where)
            elif [len(c) for c in I.edges] != [len(c) for c in self.edges] or not all(
                all(map(operator.is_, a, b)) for a, b in zip(I.edges, self.edges)
            ):
                self.fail("input-edges", at=where)
            elif self.edge_values() != self.evals:
                self.fail("input-edges", at=where)
            return
        V = I.verts
        n = len(V)
        if n < I.n0 or not all(map(operator.is_, V, self.v)):
            self.fail("verts-prefix", at=where)
        if flat(self.v) != self.vv:
            self.fail("input-verts", at=where)
        if self.uv is not None and (len(I.uv) != len(self.uv) or not all(map(operator.is_, I.uv, self.uv)) or flat(self.uv) != self.uvv):
            self.fail("input-uv", at=where)
        if self.h is not None and (len(I.holes) != len(self.h) or not all(map(operator.is_, I.holes, self.h)) or [tuple(x) for x in self.h] != self.hv):
            self.fail("input-holes", at=where)
        if n != self.lastv:
            self.vlens.append(n)
            self.lastv = n
        F = I.faces
        if F is not None:
            m = len(F)
            if m < I.nf0 or not all(map(operator.is_, F, self.f)) or (
                self.f and [list(f) for f in self.f] != self.fv
            ):
                self.fail("faces-prefix", at=where)
            if m != self.lastf:
                self.flens.append(m)
                self.lastf = m
                if m > I.nf0:
                    if any(i >= n for f in F[I.nf0:] for i in f):
                        self.fail("faces-ahead", at=where)
                    if self.published is None:
                        self.published = [list(f) for f in F[I.nf0:]]
            elif final is False and self.published is not None and [list(f) for f in F[I.nf0:]] != self.published:
                self.fail("faces-not-final", at=where)

    def end(self, ok, late=None):
        """ok: the call returned normally; late: reference, if the call was interrupted in its last lines."""
        self.check("end", final=True)
        I = self.I
        if self.alone and not self.bad and self.frozen() != self.fz:
            self.fail("input-edges" if I.edges is not None else "input-frozen", at="end", what="frozen by the call")
        if I.edges is not None:
            return
        if not ok and len(self.vlens) == 2 and self.vlens[1] == I.n0:
            self.vlens.pop()  # a call that fails may take its vertices back
        if len(self.vlens) > 1:
            self.fail("verts-steps", lens=self.vlens[:5], n0=I.n0)
        if I.faces is not None:
            if len(self.flens) > 1:
                self.fail("faces-steps", lens=self.flens[:5], n0=I.nf0)
            if not ok and len(I.faces) != I.nf0 and not complete(I, late):
                self.fail("faces-on-failure", n=len(I.faces) - I.nf0)
            if self.published is not None and [list(f) for f in list(I.faces)[I.nf0:]] != self.published:
                self.fail("faces-not-final", at="end")


def complete(I, ref):
    """The faces of the operation are there, all of them and in their final form."""
    if ref is None or ref[0] != "poly":
        return False
    new = [list(f) for f in list(I.faces)[I.nf0:]]
    return W.same(ref, ("poly", ref[1], W.canon_faces_at(I, new, I.n0), W.order(I, new, I.n0)))


def process_state():
    """What belongs to the whole process and not to a call."""
    return {
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "tracing": (sys.gettrace(), sys.getprofile()),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "timer": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "hooks": [id(sys.excepthook), id(sys.unraisablehook), id(sys.displayhook), id(threading.excepthook)],
        "builtins": [id(builtins.print), id(builtins.set), id(builtins.sorted), id(builtins.__import__)],
        "folder": os.getcwd(),
        "environment": dict(os.environ),
        "decimal": repr(decimal.getcontext()),
        "warnings": len(warnings.filters),
        "path": list(sys.path),
    }


PINNED = []


def pin_code():
    """CPython 3.12 gives up references it does not own when the memory for a function object is missing
    (PyFunction_New): without further references to them, code objects in use would be freed."""
    if PINNED:
        return
    todo = [f.__code__ for f in gc.get_objects() if type(f) is types.FunctionType]
    seen = set()
    while todo:
        c = todo.pop()
        if id(c) not in seen:
            seen.add(id(c))
            PINNED.extend((c, c.co_name, c.co_qualname, c.co_consts) * 3)
            PINNED.extend(c.co_consts * 3)
            todo.extend(k for k in c.co_consts if type(k) is types.CodeType)


def call_nomem(I, b, n):
    """The call with its n-th allocation of memory failing."""
    call = W.call
    pin_code()
    gc.collect()  # empties the free lists
    _testcapi.set_nomemory(n, n + 1)
    try:
        return call(I, b)
    finally:
        _testcapi.remove_mem_hooks()


def retained(modules):
    """Number of entries in all containers that belong to the modules: their variables, the attributes of their
    functions, classes and instances, defaults, closures and caches."""
    seen = set()
    total = 0
    todo = []
    mine = {id(vars(m)) for m in modules}
    for m in modules:
        for k, v in vars(m).items():
            if not k.startswith("__"):
                todo.append(v)
    while todo:
        o = todo.pop()
        if id(o) in seen or o is None or isinstance(o, (int, float, str, bytes, types.ModuleType, types.BuiltinFunctionType)):
            continue
        seen.add(id(o))
        if isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            total += len(o)
            todo.extend(o)
        elif isinstance(o, dict):
            if id(o) in mine:
                continue
            total += len(o)
            todo.extend(o.keys())
            todo.extend(o.values())
        elif isinstance(o, types.FunctionType):
            if o.__globals__ is not None and id(o.__globals__) not in mine:
                continue
            todo.extend((o.__dict__, o.__defaults__, o.__kwdefaults__))
            todo.extend(c.cell_contents for c in o.__closure__ or () if c != types.CellType())
        elif isinstance(o, (classmethod, staticmethod)):
            todo.append(o.__func__)
        elif isinstance(o, property):
            todo.extend((o.fget, o.fset))
        elif isinstance(o, type):
            if o.__module__.startswith("bpypolyskel"):
                todo.append(dict(vars(o)))
        elif hasattr(o, "cache_info"):
            total += 1000 * o.cache_info().currsize
            todo.append(getattr(o, "__wrapped__", None))
        elif isinstance(o, types.GeneratorType):
            total += 1
        elif type(o).__module__.startswith("bpypolyskel") or type(o).__name__ in ("local", "WeakKeyDictionary", "WeakValueDictionary", "array"):
            if hasattr(o, "__dict__"):
                todo.append(o.__dict__)
            for c in type(o).__mro__:
                for s in vars(c).get("__slots__", ()):
                    if hasattr(o, s):
                        todo.append(getattr(o, s))
            if hasattr(o, "__len__"):
                total += len(o)
    return total


def chain(e):
    seen = []
    while e is not None and not any(e is x for x in seen):
        seen.append(e)
        if e.__cause__ is not None:
            yield e.__cause__
        yield e
        e = e.__context__


class Inj:
    inj = None
    fired = False


def cheap_state():
    """The part of process_state() that is looked at while calls run, and what else they could change."""
    return (
        gc.isenabled(), gc.get_threshold(), sys.getrecursionlimit(), sys.getswitchinterval(), sys.gettrace(), sys.getprofile(),
        id(sys.stdout), id(sys.stderr), id(sys.excepthook), id(sys.unraisablehook), signal.getsignal(signal.SIGINT),
        signal.getsignal(signal.SIGALRM), len(warnings.filters), len(sys.path), len(sys.meta_path),
    )


CHEAP = (
    "garbage collection", "thresholds of the garbage collection", "recursion limit", "switch interval", "tracing", "profiling",
    "standard output", "error output", "exception hook", "hook for unraisable exceptions", "handler of SIGINT",
    "handler of SIGALRM", "warning filters", "path of modules", "finders of modules",
)

WRITES = {
    "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime",
    "os.putenv", "os.unsetenv", "os.chdir", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.kill",
    "os.killpg", "os.lockf", "os.setxattr", "subprocess.Popen", "shutil.rmtree", "shutil.move", "shutil.copyfile", "tempfile.mkstemp",
    "tempfile.mkdtemp", "webbrowser.open", "sys.settrace", "sys.setprofile", "sys.addaudithook", "signal.pthread_kill", "socket.connect",
    "socket.bind", "socket.getaddrinfo", "socket.sendto", "urllib.Request", "sqlite3.connect", "mmap.__new__", "resource.setrlimit",
    "resource.prlimit", "syslog.syslog", "smtplib.connect", "ftplib.connect", "builtins.input", "builtins.breakpoint", "pdb.Pdb",
}


def outer_state():
    """Everything else that is not the library's: compared before and after calls."""
    st = process_state()
    st["random numbers"] = zlib.crc32(repr(random.getstate()).encode())
    st["locale"] = locale.setlocale(locale.LC_ALL)
    st["file mask"] = umask()
    st["threads"] = threading.active_count()
    st["exit handlers"] = atexit._ncallbacks()
    st["callbacks of the garbage collection"] = len(gc.callbacks)
    st["loggers"] = [(n, l.level, len(l.handlers), l.disabled) for n, l in ((n, logging.getLogger(n)) for n in ("", "root"))] + [logging.root.manager.disable]
    st["float formatting of mathutils"] = repr(mathutils.Vector((0.1, 1.0 / 3)))
    for n in OTHERS:
        m = sys.modules.get(n)
        st["module " + n] = [] if m is None else sorted((k, id(v)) for k, v in vars(m).items() if not k.startswith("__") or k == "__import__")
    return st


OTHERS = ("math", "mathutils", "heapq", "itertools", "functools", "operator", "collections", "random", "builtins", "copy", "re", "os", "time", "json", "bisect")


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


class Recorder(io.StringIO):
    """A standard stream."""

    env = name = None

    def write(self, s):
        if s:
            self.env.effect("writes to " + self.name)
        return len(s)


class ImportWatch:
    """Side effects of the first import of the library."""

    def __enter__(self):
        self.out = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.rec = io.StringIO(), io.StringIO()
        self.before = outer_state()
        return self

    def __exit__(self, *exc):
        now = outer_state()
        self.effects = ["import changes %s" % k for k, v in self.before.items() if now[k] != v]
        for n, r in zip(("sys.stdout", "sys.stderr"), self.rec):
            if r.getvalue():
                self.effects.append("import writes to " + n)
        if sys.stdout is self.rec[0]:
            sys.stdout = self.out[0]
        if sys.stderr is self.rec[1]:
            sys.stderr = self.out[1]


class Env:
    """State of one run."""

    def __init__(self, lab, plan):
        self.lab = lab
        self.b = lab.b
        self.plan = plan
        self.shared = W.Shared() if plan.get("share") else None
        self.lists = {}
        self.blocks = []
        self.kept = {}
        self.dbg = None  # DbgWatch
        self.sample = plan.get("sample")  # sample every n-th event
        self.refs = {}
        self.dbgrefs = {}
        self.problems = []
        self.instances = {}  # (thread, list, geometry): arguments of an earlier call with this footprint in this list
        self.process0 = process_state()
        self.copies = [(self.b, lab.euclid)]
        self.effects = []
        self.effects_on = plan.get("effects")
        self.busy = 0  # number of calls that are running
        if self.effects_on:
            self.watch_effects()

    # ---- side effects --------------------------------------------------
    def watch_effects(self):
        for n in ("stdout", "stderr"):
            r = Recorder()
            r.env, r.name = self, "sys." + n
            setattr(sys, n, r)
        self.process0 = process_state()
        self.outer0 = outer_state()
        self.cheap0 = cheap_state()

        def audit(event, args):
            if not self.busy:
                return
            if event in WRITES:
                self.effect("%s %s" % (event, str(args)[:80]))
            elif event == "open" and (isinstance(args[1], str) and set(args[1]) & set("wax+") or isinstance(args[2], int) and args[2] & 3):
                self.effect("opens %s for writing" % (args[0],))

        sys.addaudithook(audit)

    def effect(self, what):
        if self.busy and len(self.effects) < 5:
            self.effects.append(what)

    def look(self, where):
        now = cheap_state()
        if now != self.cheap0:
            for n, a, b in zip(CHEAP, self.cheap0, now):
                if a != b:
                    self.effects.append("changes the process at %s: %s is %s instead of %s" % (where, n, b, a))
            self.cheap0 = now

    # ------------------------------------------------------------------
    def run_op(self, K, t, i, op):
        k = op["k"]
        if k in ("poly", "skel"):
            return self.lib_op(K, t, i, op)
        rec = {"k": k}
        if k == "census":
            others = [x for x in K.threads if x is not t]
            if op.get("wait") and not all(x.state == "done" for x in others):
                K.block(t, lambda: all(x.state == "done" for x in others))
            rec["census"] = self.census()
        elif k == "gc":
            gc.collect()
        elif k == "clock":
            K.clock += op["dt"]
        elif k == "scribble":
            self.scribble(t)
        elif k == "drop":
            self.kept.pop(t.i, None)
        elif k == "dbg":
            d = self.b.debugOutputs
            v = op["v"]
            if v == "on":
                x = INITIAL[op.get("iv", 0)]()
                if self.dbg:
                    self.dbg.initial.append(x)
                    self.dbg.want = True
                d["skeleton"] = x
            elif v == "off":
                if self.dbg:
                    self.dbg.want = False
                d.pop("skeleton", None)
            elif v == "other":
                d["other%d" % i] = [i]
        else:
            raise ValueError(k)
        return rec

    def scribble(self, t):
        """What callers may do with results: change everything they got, and lists they own."""
        for I, ret in self.kept.get(t.i, ()):
            if I.edges is not None:
                for a in ret:
                    a.sinks.append(a.source * 3)
                    a.source[0] = 1.0e4
                ret.append(None)
                continue
            new = ret[I.nf0:] if I.faces is not None else ret
            for f in new:
                f.reverse()
                f.append(-1)
            for v in list(I.verts)[I.n0:]:
                v *= -3.0
            del ret[I.nf0 if I.faces is not None else 0:]
        self.kept.pop(t.i, None)

    # ------------------------------------------------------------------
    def lib_op(self, K, t, i, op):
        b, euclid = self.copy(op.get("copy", 0))
        rec = {"k": op["k"], "op": i}
        lid = op.get("list")
        inj = Inj()
        lc = HookList if op.get("hook") or op.get("torn") else list
        if lid is not None:
            key = (t.i, lid)
            if key not in self.lists:
                self.lists[key] = (lc(), lc())
            V, F = self.lists[key]
            for L in (V, F):
                if isinstance(L, HookList):
                    L.armed = False
            gkey = (t.i, lid, op["f"], op.get("z")) + tuple(op.get(x) for x in W.GEOM if x != "f")
            if op.get("re") and not op.get("bad") and gkey in self.instances:
                I = W.again(self.instances[gkey], op)
            else:
                I = W.materialise(op, self.shared, V, F, b, euclid)
                self.instances[gkey] = I
        else:
            I = W.materialise(op, self.shared, None, None, b, euclid, lc, lc)
        torn = op.get("torn")
        logs = []
        if I.edges is None:
            for L, nm in ((I.verts, "verts"), (I.faces, "faces")):
                if isinstance(L, HookList):
                    L.armed = True
                    L.calls = 0
                    L.owner = inj
                    L.log = []
                    logs.append((nm, L))
                    L.torn = torn if torn and torn["which"] == nm else None
        w = Watch(I, self.shared is None and lid is None)
        refkey = W.ref_key(op)
        ref = self.refs.get(refkey)
        for nm, L in logs:
            L.touched = 0
        t.inj = t.injend = None
        sample = self.sample
        if i is not None and (sample or self.dbg or self.effects_on):
            cnt = [0]

            def sampler(t, code, line):
                cnt[0] += 1
                if self.effects_on:
                    if cnt[0] % self.effects_on == 0:
                        self.look((code.co_qualname, line))
                    return
                if self.dbg:
                    self.dbg.check((code.co_qualname, line))
                if sample and cnt[0] % sample == 0:
                    w.check((code.co_qualname, line))

            t.sampler = sampler
        exc = None
        ret = None
        old = t.harness
        t.harness = 1 if t.quiet or op.get("stack") else 0
        lim = None
        if op.get("stack"):
            depth = 1
            f = sys._getframe()
            while f.f_back is not None:
                f = f.f_back
                depth += 1
            lim = sys.getrecursionlimit()
        self.busy += 1
        try:
            if lim is not None:
                sys.setrecursionlimit(depth + op["stack"])
            if op.get("nomem"):
                ret = call_nomem(I, b, op["nomem"])
            else:
                ret = W.call(I, b)
        except (StepCap, seams.Deadlock):
            raise
        except BaseException as e:
            exc = e
        finally:
            if lim is not None:
                sys.setrecursionlimit(lim)
            t.harness = old
            t.sampler = None
            self.busy -= 1
        injected = inj.inj if inj.inj is not None else t.inj
        for nm, L in logs:
            L.armed = False
            L.torn = None
            if injected is None and len(L.log) > 1:
                w.fail("%s-steps" % nm, calls=L.log[:4])
        if logs:
            rec["touched"] = sum(L.touched for _, L in logs)
        rec["n0"] = I.n0 + I.nf0
        rec["status"] = "ok" if exc is None else "exc"
        if exc is not None:
            rec["exc"] = type(exc).__name__
        if op.get("stack") and exc is not None and any(isinstance(x, RecursionError) for x in chain(exc)):
            rec["inj"] = "stack"
            rec["surfaced"] = isinstance(exc, RecursionError)
        elif op.get("nomem") and exc is not None:
            rec["inj"] = "failed allocation"
            rec["surfaced"] = True
        elif injected is not None:
            rec["inj"] = type(injected).__name__
            rec["surfaced"] = exc is injected
        if inj.inj is not None and torn["mode"] == "partial":
            # the list itself broke its promise; only the old entries are judged
            w.vlens, w.flens = w.vlens[:1], w.flens[:1]
            w.check("end", final=True)
            if torn["which"] == "verts" and I.faces is not None and len(I.faces) != I.nf0:
                w.fail("faces-on-failure", n=len(I.faces) - I.nf0)
        elif inj.inj is not None and torn["which"] == "faces":
            w.check("end", final=True)
        else:
            w.end(exc is None, ref if t.injend and injected is not None else None)
        if w.bad:
            rec["bad"] = w.bad
        if exc is None:
            res = W.result(I, ret)
            if I.edges is None:
                rec["addr"] = zlib.crc32(repr([id(v) for v in list(I.verts)[I.n0:]]).encode())
            if ref is None:
                rec["match"] = None
            else:
                rec["match"] = W.same(ref, res)
                if not rec["match"]:
                    rec["diff"] = describe(ref, res)
            if self.dbg and i is not None and I.edges is None:
                self.dbg.after(op, I)
            if lid is not None:
                self.blocks.append((t.i, lid, i, I, I.nf0, [list(f) for f in list(I.faces)[I.nf0:]], I.n0, flat(list(I.verts)[I.n0:]), refkey))
            if op.get("keep"):
                self.kept.setdefault(t.i, []).append((I, ret))
        else:
            rec["match"] = None if ref is None else ref == ("exc", type(exc).__name__)
            if ref is not None and not rec["match"]:
                rec["diff"] = describe(ref, ("exc", type(exc).__name__ + ": " + str(exc)[:80]))
            if lid is not None:
                late = t.injend and rec.get("inj") and complete(I, ref)
                self.blocks.append((t.i, lid, i, I, I.nf0, [list(f) for f in list(I.faces)[I.nf0:]] if late else [], None, None, refkey))
        # the caller drops the exception, and with it the frames in its traceback
        exc = injected = inj.inj = None
        t.inj = None
        return rec

    def copy(self, n):
        """The n-th copy of the library in this process, as add-ons bring their own."""
        while len(self.copies) <= n:
            self.busy += 1
            try:
                self.copies.append(load_copy("addon%d" % len(self.copies)))
            finally:
                self.busy -= 1
            if self.effects_on:
                self.look("import")
        return self.copies[n]

    def census(self):
        """What the library still holds: objects of its classes and vectors alive, entries in its containers."""
        gc.collect()
        held = {}
        classes = {mathutils.Vector}
        for m in self.lab.modules:
            for c in vars(m).values():
                if isinstance(c, type) and c.__module__.startswith("bpypolyskel"):
                    classes.add(c)
        for o in gc.get_objects():
            if type(o) in classes:
                nm = type(o).__name__
                held[nm] = held.get(nm, 0) + 1
        return {"alive": held, "kept": retained(self.lab.modules)}

    # ------------------------------------------------------------------
    def finalize(self):
        """Checks at the end of the run: accumulated lists are the union of their blocks."""
        out = []
        for (ti, lid), (V, F) in sorted(self.lists.items()):
            pos = 0
            flist = [list(f) for f in F]
            for bt, bl, o, I, nf0, block, n0, vals, refkey in self.blocks:
                if (bt, bl) != (ti, lid):
                    continue
                if pos != nf0 or flist[pos: pos + len(block)] != block:
                    out.append(("mesh-faces", {"op": o}))
                pos += len(block)
                if n0 is None:
                    continue
                if flat(list(V)[n0: n0 + len(vals)]) != vals:
                    out.append(("mesh-verts", {"op": o}))
                own = set(range(I.first, I.first + I.num))
                for a, n in I.holes or ():
                    own.update(range(a, a + n))
                own.update(range(n0, n0 + len(vals)))
                if any(x not in own for f in block for x in f):
                    out.append(("mesh-foreign", {"op": o}))
                ref = self.refs.get(refkey)
                if ref is not None and ref[0] == "poly":
                    got = ("poly", W.canon_verts(list(V)[n0: n0 + len(vals)]), W.canon_faces_at(I, flist[nf0: nf0 + len(block)], n0), W.order(I, flist[nf0: nf0 + len(block)], n0))
                    if not W.same(ref, got):
                        out.append(("mesh-roof", {"op": o, "diff": describe(ref, got)}))
            if pos != len(flist):
                out.append(("mesh-extra-faces", {"extra": len(flist) - pos}))
        if self.dbg:
            out += self.dbg.end()
        if self.effects_on:
            now = outer_state()
            for k, v in self.outer0.items():
                if now[k] != v:
                    self.effects.append("leaves a change: %s" % k)
            out += [("side-effect", {"what": e}) for e in self.lab.import_watch.effects + self.effects]
        now = process_state()
        for k, v in self.process0.items():
            if now[k] != v:
                out.append(("process-state-left", {"what": k, "before": str(v)[:100], "after": str(now[k])[:100]}))
        return out


def describe(ref, got):
    if ref[0] != got[0]:
        return "expected %s, got %s" % (short(ref), short(got))
    if ref[0] == "poly":
        if ref[1] != got[1]:
            d = [(a, b) for a, b in zip(ref[1], got[1]) if a != b][:2]
            return "new vertices differ: %d expected, %d got, first differences %s" % (len(ref[1]), len(got[1]), d)
        if ref[2] == got[2]:
            d = [(x, y) for x, y in zip(ref[3], got[3]) if x != y]
            return "the faces are the same in another order: %s instead of %s" % (d[0][1], d[0][0])
        a = [f for f in ref[2] if f not in got[2]]
        c = [f for f in got[2] if f not in ref[2]]
        return "faces differ: %d expected, %d got; missing %s; unexpected %s" % (len(ref[2]), len(got[2]), str(a[:2])[:200], str(c[:2])[:200])
    return "results differ: expected %s, got %s" % (str(ref)[:200], str(got)[:200])


def short(r):
    if r[0] == "poly":
        return "%d vertices and %d faces" % (len(r[1]), len(r[2]))
    if r[0] == "skel":
        return "%d skeleton nodes" % len(r[1])
    return str(r)[:120]


def load_copy(name):
    folder = os.path.dirname(sys.modules["bpypolyskel.bpypolyskel"].__file__)
    pkg = types.ModuleType(name)
    pkg.__path__ = [folder]
    sys.modules[name] = pkg
    b = importlib.import_module(name + ".bpypolyskel")
    return b, sys.modules[name + ".bpyeuclid"]


class DbgWatch:
    """Debug output: every value ever seen in it is an initial value or the complete skeleton of a call."""

    def __init__(self, env):
        self.env = env
        self.d = env.b.debugOutputs
        self.seen = []  # (object, canonical)
        self.last = self.d.get("skeleton", MISSING)
        self.initial = []
        self.want = "skeleton" in self.d  # the caller has put the key there
        self.bad = []

    def canon(self, obj):
        if obj is MISSING or any(obj is x for x in self.initial):
            return ("init", repr(obj) if type(obj) is not object else "object")
        try:
            return ("skel", W.canon_skel(obj))
        except Exception as e:
            return ("broken", type(e).__name__)

    def check(self, where=None):
        obj = self.d.get("skeleton", MISSING)
        if obj is self.last:
            return
        self.last = obj
        if obj is MISSING:
            if self.want:
                self.fail("debug-lost", at=where)
            return
        c = self.canon(obj)
        self.seen.append((obj, c))
        if not self.want:
            self.fail("debug-unwanted", at=where)
        if c[0] != "init" and not any(c == r for r in self.env.dbgrefs.values()):
            self.fail("debug-partial", at=where, got=str(c)[:120])

    def fail(self, kind, **kw):
        if not any(k == kind for k, _ in self.bad):
            self.bad.append((kind, kw))

    def after(self, op, I):
        """After a successful call."""
        self.check("end")
        if len(self.env.plan["threads"]) > 1:
            return
        d = self.d
        if "skeleton" not in d:
            if self.want:
                self.fail("debug-lost", at=op["f"])
            return
        v = d["skeleton"]
        if any(v is x for x in self.initial):
            self.fail("debug-missing", op=op["f"], initial=repr(v)[:20])
            return
        new = list(I.verts)[I.n0:]
        try:
            if len(new) != len(v):
                self.fail("debug-nodes", nodes=len(v), vertices=len(new))
            elif v:
                hs = [a.height for a in v]
                hmax = max(hs)
                tan = I.h / hmax if I.h else I.tan
                z0 = I.verts[I.first][2]
                pairs = [((p.x - a.source.x), (p.y - a.source.y), p.z - z0 - a.height * tan) for a, p in zip(v, new)]
                dx = [p[0] for p in pairs]
                dy = [p[1] for p in pairs]
                scale = 1e-3 + 1e-5 * max(abs(c) for p in new for c in p)
                if max(dx) - min(dx) > scale or max(dy) - min(dy) > scale or max(abs(p[2]) for p in pairs) > scale:
                    self.fail("debug-nodes", at=op["f"])
        except (AttributeError, TypeError) as e:
            self.fail("debug-broken", error=repr(e))
        r = self.env.dbgrefs.get(("direct",) + W.ref_key(op))
        if r is not None:
            c = self.canon(v)
            if not near_skel(c, r):
                self.fail("debug-not-skeleton", op=op["f"])

    def end(self):
        self.check("end of run")
        for obj, c in self.seen:
            if self.canon(obj) != c:
                self.fail("debug-changed-later")
        for k in self.d:
            if k != "skeleton" and not k.startswith("other"):
                self.fail("debug-foreign-key", key=str(k))
        for k, v in self.d.items():
            if k.startswith("other") and v != [int(k[5:])]:
                self.fail("debug-other-key", key=k)
        return self.bad


def near_skel(a, b, eps=2e-3):
    """Two canonical skeletons are equal up to rounding."""
    if a[0] != b[0]:
        return False
    A = [(eval(s), float(h), [eval(x) for x in k]) for s, h, k in a[1]]
    B = [(eval(s), float(h), [eval(x) for x in k]) for s, h, k in b[1]]
    if len(A) != len(B):
        return False
    used = set()
    for s, h, k in A:
        for j, (s2, h2, k2) in enumerate(B):
            if j in used or abs(s[0] - s2[0]) + abs(s[1] - s2[1]) > eps or abs(h - h2) > eps or len(k) != len(k2):
                continue
            if all(any(abs(p[0] - q[0]) + abs(p[1] - q[1]) <= eps for q in k2) for p in k):
                used.add(j)
                break
        else:
            return False
    return True
