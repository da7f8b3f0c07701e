"""The laboratory: imports the code under test once, and runs everything in forked children of that state."""
import ast
import dis
import io
import os
import pickle
import random
import re
import select
import signal
import sys
import traceback
import types

from . import seams
from .zygote import ChildFailure, ChildTimeout, Zygote

REPO = "/repo"


class Skip(Exception):
    """The plan cannot be executed, for a reason that is not the subject of the property."""


def with_step_cap(fn, cap):
    """fn(), or None if it needs more than cap line steps of code under test."""
    mon = sys.monitoring
    n = 0

    class Cap(BaseException):
        pass

    def line(code, l):
        nonlocal n
        if not code.co_filename.startswith(REPO + "/"):
            return mon.DISABLE
        n += 1
        if n > cap:
            raise Cap()

    mon.use_tool_id(3, "cap")
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    try:
        return fn()
    except Cap:
        return None
    finally:
        mon.set_events(3, 0)
        mon.free_tool_id(3)


def ballast(seed):
    """Another layout of the memory: blocks of all sizes, some of them free again."""
    r = random.Random(seed)
    kinds = [lambda: bytearray(r.randrange(1, 600)), lambda: [None] * r.randrange(40), object, lambda: {1: 2}, lambda: (1.5 * r.random(),)]
    b = [r.choice(kinds)() for _ in range(r.randrange(3000))]
    for i in range(len(b) // 2):
        b[r.randrange(len(b))] = None
    return b


class Lab:
    def __init__(self, lib=True):
        from . import orders

        seams.install()
        orders.install()
        sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        self.known = []
        self.pid = None
        self.zygote = None
        if not lib:
            return
        from . import lib

        with lib.ImportWatch() as self.import_watch:
            from bpypolyskel import bpyeuclid, bpypolyskel

        assert bpypolyskel.__file__.startswith(REPO + "/"), bpypolyskel.__file__
        self.b = bpypolyskel
        self.modules = [m for n, m in sorted(sys.modules.items()) if n.startswith("bpypolyskel.")]
        self.euclid = bpyeuclid
        self._ref = {}
        self._dbg = {}
        self._prof = {}
        self._steps = {}
        self._code = {}
        self._excl = {}
        self._hot = set()
        self._guarded = set()
        self.stats = {"refs": 0}

    def remote(self, obj, method, args, extra=None, timeout=60.0):
        """lab.method(*args) or prop.method(lab, *args) in a new child of a pristine process."""
        if self.zygote is None or self.zygote.owner != seams.real_getpid():
            self.zygote = Zygote(self.pid)
        return self.zygote.ask(obj, method, args, extra, timeout)

    # ---- reference results -------------------------------------------------
    def ref(self, op):
        """Result of the operation alone in a pristine process; None if it has none."""
        from . import workload as W

        key = W.ref_key(op)
        if key not in self._ref:
            self.stats["refs"] += 1
            try:
                self._ref[key] = self.remote("lab", "ref_child", [W.ref_op(op)], timeout=30)
            except ChildTimeout:
                self._ref[key] = None
        return self._ref[key]

    def ref_child(self, op):
        from . import workload as W

        I = W.materialise(op, None, None, None, self.b, self.euclid)
        try:
            ret = W.call(I, self.b)
        except Exception as e:
            return ("exc", type(e).__name__)
        return W.result(I, ret)

    def dbgref(self, op):
        """Canonical debug output of the operation alone, and the skeleton of the same contours."""
        from . import workload as W

        key = W.ref_key(op)
        if key not in self._dbg:
            self._dbg[key] = tuple(self.remote("lab", m, [W.ref_op(op)], timeout=30) for m in ("debug_child", "skeleton_child"))
        return self._dbg[key]

    def debug_child(self, op):
        from . import workload as W

        I = W.materialise(op, None, None, None, self.b, self.euclid)
        self.b.debugOutputs["skeleton"] = 1
        try:
            W.call(I, self.b)
            v = self.b.debugOutputs["skeleton"]
            return ("skel", W.canon_skel(v)) if v != 1 else ("init", "1")
        except Exception as e:
            return ("exc", type(e).__name__)

    def skeleton_child(self, op):
        from mathutils import Vector

        from . import workload as W

        try:
            I = W.materialise(op, None, None, None, self.b, self.euclid)
            c = Vector((0.0, 0.0, 0.0))
            for v in I.verts[I.first: I.first + I.num]:
                c += v
            c /= I.num
            c[2] = 0.0
            blocks = [(I.first, I.num)] + list(I.holes or ())
            cont = []
            u = 0
            for a, n in blocks:
                cs = [I.verts[a + i] - c for i in range(n)]
                cont.append([self.euclid.Edge2(cs[i], cs[(i + 1) % n], I.uv[u + i] if I.uv else None) for i in range(n)])
                u += n
            return ("skel", W.canon_skel(self.b.skeletonize(cont)))
        except Exception as e:
            return ("exc", type(e).__name__)

    # ---- profiles ------------------------------------------------------------
    def profile(self, op, faces=False, debug=False):
        """Executed lines of the operation alone: {(file, qualname, firstline, line): count}, the steps, and the lines
        at which a lock is held. With or without a list of faces given, with or without debug output."""
        from . import workload as W

        key = (W.ref_key(op), faces, debug)
        if key not in self._prof:
            op = W.ref_op(op)
            if faces:
                op["fl"] = 0
            self._prof[key] = self.remote("lab", "profile_child", [op, debug])
        return self._prof[key]

    def profile_child(self, op, debug):
        from .kernel import loc_of

        lines = {}
        memo = {}
        held = {}
        free = seams.HELD

        def linefn(code, line):
            k = memo.get(id(code))
            if k is None:
                k = memo[id(code)] = loc_of(code)
            k = k + (line,)
            lines[k] = lines.get(k, 0) + 1
            if seams.HELD > free:
                held[k] = lines[k]

        ops = [{"k": "dbg", "v": "on"}, op] if debug else [op]
        out = self.execute({"threads": [ops], "count": 1}, None, linefn)
        return lines, out["steps"], list(held)

    def instrs(self, loc):
        """Instructions of a code object: list of (offset, line, after_call, excluded)."""
        f, q, l = loc
        if f not in self._code:
            path = os.path.join(REPO, f)
            with open(path, "rb") as fh:
                src = fh.read()
            top = compile(src, path, "exec", dont_inherit=True)
            table = {}
            todo = [top]
            while todo:
                c = todo.pop()
                ins = []
                prev = None
                line = None
                for x in dis.get_instructions(c):
                    if x.positions is not None and x.positions.lineno is not None:
                        line = x.positions.lineno
                    if c is not top and self.is_shared(f, x):
                        self._hot.add((f, c.co_qualname, c.co_firstlineno, line))
                    if x.opname not in ("EXTENDED_ARG", "CACHE", "RESUME", "RETURN_GENERATOR", "COPY_FREE_VARS", "MAKE_CELL", "SEND", "END_SEND"):
                        ins.append((x.offset, line, prev in ("CALL", "CALL_KW", "CALL_FUNCTION_EX") and x.positions is not None and x.positions.lineno is not None))
                    prev = x.opname
                table.setdefault((c.co_qualname, c.co_firstlineno), ins)
                self._guarded |= {(f, c.co_qualname, c.co_firstlineno, l) for l in guarded(c)}
                todo.extend(k for k in c.co_consts if hasattr(k, "co_code"))
            self._code[f] = table
            self._excl[f] = excluded_lines(ast.parse(src))
        return self._code[f].get((q, l), [])

    def is_shared(self, f, x):
        """Does the instruction touch state of the module, as far as can be seen?"""
        if x.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
            return True
        if x.opname != "LOAD_GLOBAL":
            return False
        m = sys.modules.get(f[:-3].replace("/", "."))
        v = getattr(m, x.argval, None)
        if isinstance(v, (type, types.ModuleType, str, bytes, tuple, int, float, types.BuiltinFunctionType, frozenset, re.Pattern)):
            return False
        if isinstance(v, types.FunctionType):
            return any(isinstance(d, (list, dict, set, bytearray)) for d in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values())) or bool(v.__dict__)
        return v is not None

    def hot(self, lines):
        """The lines among these that touch shared state."""
        for f in {l[0] for l in lines}:
            self.instrs((f, "", 0))
        return [l for l in lines if l in self._hot]

    def guarded(self, lines):
        """The lines among these that an exception handler watches."""
        for f in {l[0] for l in lines}:
            self.instrs((f, "", 0))
        return [l for l in lines if l in self._guarded]

    def excluded(self, f):
        return self._excl[f]

    # ---- execution of plans ----------------------------------------------------
    def prepare(self, plan):
        """References for all operations of a plan; called in the worker before the run."""
        from . import workload as W
        from .gen import trigger_ops

        refs = {}
        dbg = {}
        todo = [op for ops in plan["threads"] for op in ops]
        todo += list(trigger_ops(plan.get("triggers", ())))
        for op in todo:
            if op["k"] in ("poly", "skel"):
                refs[W.ref_key(op)] = self.ref(op)
                if plan.get("debug") and op["k"] == "poly":
                    a, d = self.dbgref(op)
                    dbg[W.ref_key(op)] = a
                    dbg[("direct",) + W.ref_key(op)] = d
        return refs, dbg

    def execute(self, plan, refs=None, linefn=None):
        """Executes a plan in this process (a forked child)."""
        from .kernel import Kernel
        from .lib import DbgWatch, Env

        heap = ballast(plan["heap"]) if plan.get("heap") else None
        sys.unraisablehook = lambda u: K.unraisable(u)
        env = Env(self, plan)
        env.refs, env.dbgrefs = refs or ({}, {})
        if plan.get("debug"):
            env.dbg = DbgWatch(env)
        K = Kernel(plan, env.run_op)
        K.linefn = linefn
        K.run()
        end = env.finalize()
        return {
            "threads": [t.rec for t in K.threads],
            "events": K.events,
            "end": end,
            "steps": K.steps,
            "trace": K.trace,
            "switches": K.switches,
            "fired": K.fired,
            "sites": sorted(K.sites),
            "capped": K.capped,
            "clock": K.clock,
        }

    def run(self, plan, timeout=120.0):
        refs = self.prepare(plan)
        try:
            return self.remote("lab", "execute", [plan], refs, timeout)
        except ChildFailure as e:
            if str(e) == "child ended with status 11" and any(op.get("nomem") for ops in plan["threads"] for op in ops):
                raise Skip()  # mathutils (C) does not survive this failure, nobody is left to observe anything
            raise


def guarded(code):
    """Lines within `try` of a code object, except the ones that are watched only by a `with`."""
    ins = {x.offset: x for x in dis.get_instructions(code)}
    order = sorted(ins)
    res = set()
    for e in dis.Bytecode(code).exception_entries:
        t = [o for o in order if o >= e.target][:2]
        if len(t) < 2 or ins[t[0]].opname != "PUSH_EXC_INFO" or ins[t[1]].opname == "WITH_EXCEPT_START":
            continue
        res.update(ins[o].positions.lineno for o in order if e.start <= o < e.end and ins[o].positions is not None and ins[o].positions.lineno is not None)
    return res


def excluded_lines(tree):
    """Lines at which no abort is injected: headers of with and try, the statement before a try, handlers and
    finally blocks. An exception that arrives exactly there cannot be handled by any program."""
    out = set()

    def span(n):
        return range(n.lineno, (n.end_lineno or n.lineno) + 1)

    for node in ast.walk(tree):
        for fld in ("body", "orelse", "finalbody", "handlers"):
            body = getattr(node, fld, None)
            if not isinstance(body, list):
                continue
            for a, b in zip(body, body[1:]):
                if isinstance(b, ast.Try):
                    out.update(span(a))
        if isinstance(node, (ast.With, ast.AsyncWith)):
            out.update(range(node.lineno, node.body[0].lineno))
        elif isinstance(node, ast.Try):
            out.add(node.lineno)
            for h in node.handlers:
                out.update(span(h))
            for st in node.finalbody:
                out.update(span(st))
            if node.finalbody:
                out.add(node.finalbody[0].lineno - 1)
    return out
