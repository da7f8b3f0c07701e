"""Common parts of the simulated hosts (demo window, Blender, network): step plans and injected interrupts."""
import ast
import copy
import json
import os
import sys

from .base import Prop
from .kernel import EXCS
from .lab import REPO, excluded_lines

mon = sys.monitoring
TOOL = 2
_excl = {}


def excluded(path):
    if path not in _excl:
        with open(path, "rb") as f:
            _excl[path] = excluded_lines(ast.parse(f.read()))
    return _excl[path]


class Steps:
    """Counts executed lines of the code under test; raises an exception at a planned one."""

    def __init__(self):
        self.n = 0
        self.at = None
        self.exc = None
        self.fired = None
        self.where = None
        self.cap = None
        self.capped = False

    def line(self, code, line):
        if not code.co_filename.startswith(REPO + "/"):
            return mon.DISABLE
        self.n += 1
        if self.cap and self.n > self.cap:
            self.capped = True
            raise EXCS["Cancelled"]("step cap")
        if self.at is not None and self.n >= self.at and line not in excluded(code.co_filename):
            self.at = None
            self.fired = EXCS[self.exc]("simulated " + self.exc)
            self.where = (code.co_filename[len(REPO) + 1:], code.co_qualname, line)
            raise self.fired

    def __enter__(self):
        mon.use_tool_id(TOOL, "steps")
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)

    def arm(self, n, exc):
        self.at, self.exc, self.fired, self.where = self.n + n, exc, None, None

    def disarm(self):
        self.at = None
        f, self.fired = self.fired, None
        return f


class StepProp(Prop):
    """A plan is a list of steps executed by one simulated host."""

    block_size = 12
    limit = 120

    def execute(self, lab, plan):
        return lab.remote("prop", "child", [plan], timeout=self.limit)

    def child(self, lab, plan):
        raise NotImplementedError

    def judge(self, plan, out):
        return [tuple(v) for v in out["bad"]]

    def fingerprint(self, out):
        return [out["bad"], out["log"]]

    def measure(self, plan, out, st):
        for k, n in out["fired"].items():
            st["fired"][k] += n
        for k, n in out.get("kinds", {}).items():
            st["opkinds"][k] += n
        st["ops"] += len(plan["steps"])
        st["steps"] += out.get("n", 0)
        st["clock"] += out.get("clock", 0)
        if out["fired"] or len(plan["steps"]) > 1:
            st["nontrivial"] += 1
            st["distinct"].add(hash(json.dumps([plan, out["log"]], sort_keys=True)))
        if not st["samples"] and out["fired"]:
            st["samples"].append({"plan": plan, "log": out["log"][:40], "fired": out["fired"]})

    def shrink(self, plan):
        n = len(plan["steps"])
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                if n - min(size, n - a) >= 1:
                    p = copy.deepcopy(plan)
                    del p["steps"][a: a + size]
                    yield p
            size //= 2
        for i, s in enumerate(plan["steps"]):
            if s.get("fault"):
                p = copy.deepcopy(plan)
                del p["steps"][i]["fault"]
                yield p
        yield from self.shrink_more(plan)

    def shrink_more(self, plan):
        return ()
