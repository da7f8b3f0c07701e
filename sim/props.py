"""The properties decided on the library: plan generator and judge for each."""
import hashlib
import json

from . import workload as W
from .base import Prop, shrink_threads
from .gen import Gen, trigger_ops
from .kernel import EXCS
from .lab import ChildTimeout, Skip

RUNBAD = ("deadlock", "no-progress")


def libops(out, nested=None):
    for t, recs in enumerate(out["threads"]):
        for r in recs:
            if "match" in r and (nested is None or bool(r.get("nested")) == nested):
                yield t, r


def mismatches(out, what):
    v = []
    for t, r in libops(out):
        if r.get("inj"):
            continue
        if r["match"] is False:
            v.append((what, "thread %d operation %s%s: %s" % (t, r.get("op"), " (nested)" if r.get("nested") else "", r.get("diff"))))
    return v


def runbad(out, kinds=RUNBAD):
    return [(k, "%s %s" % (k, d)) for k, d in out["events"] if k in kinds]


class LibProp(Prop):
    """Runs of simulated threads on the library."""

    real = ["bpypolyskel/bpypolyskel.py", "bpypolyskel/poly2FacesGraph.py", "bpypolyskel/bpyeuclid.py", "mathutils", "heapq", "CPython 3.12"]
    stubs = [
        "thread scheduler: one simulated thread runs at a time, switched only by the plan (sys.monitoring, every bytecode of the library is a possible point)",
        "threading.Lock, RLock, Thread, queue, time.time, monotonic, perf_counter, sleep, os.getpid: simulated, virtual clock",
        "the caller's output lists, in a part of the runs: list subclass that records and fails as planned",
    ]
    state_measure = "distinct = different (operations, sequence of executed switch, stall, abort and nest events with code location and visit number)"
    assumptions = [
        "Threads are interleaved at bytecode boundaries of library code; within one C function (mathutils, heapq, list.extend) an operation is atomic, as it is under the GIL.",
        "The reference is the same code in a pristine process running the single call alone; what it does alone is judged by C06 and C16.",
    ]

    def gen(self, g):
        raise NotImplementedError

    def make(self, lab, rng, block_rng, tier, block, run):
        g = Gen(lab, rng, block_rng, self.npool, self.scale)
        plan = self.gen(g)
        if rng.random() < 0.25:
            plan["heap"] = rng.randrange(1, 10**6)
        if rng.random() < 0.15 and not plan.get("stepcheck"):
            g.collects(plan, rng.choice([1, 1, 3]))
        return plan

    def execute(self, lab, plan):
        if self.hanging(lab, plan):
            raise Skip()
        return lab.run(plan)

    def ops(self, plan):
        for ops in plan["threads"]:
            for op in ops:
                if op["k"] in ("poly", "skel"):
                    yield op
        yield from trigger_ops(plan.get("triggers", ()))

    def preload(self, lab):
        W.footprints()

    def hanging(self, lab, plan):
        """Operations that do not even end alone are no use in a run."""
        return any(lab.ref(op) is None for op in self.ops(plan))

    def timeout(self, lab, plan):
        """A run hangs although all operations end alone: count steps to make it a fact."""
        total = 0
        for op in self.ops(plan):
            total += lab.profile(op)[1]
        p = dict(plan, count=1, cap=20 * total + 200000)
        p.pop("gran", None)
        try:
            out = lab.run(p, 400)
        except ChildTimeout:
            raise RuntimeError("run hangs without executing code of the library")
        if out["capped"]:
            out["events"].append(("no-progress", {"steps": out["steps"], "alone": total}))
        return out

    def fingerprint(self, out):
        return [out["trace"], out["switches"], sorted(out["fired"].items()), out["steps"], out["events"], out["end"], [
            [[r.get("k"), r.get("status"), r.get("exc"), r.get("match"), r.get("inj"), r.get("bad"), r.get("addr")] for r in recs] for recs in out["threads"]
        ]]

    def measure(self, plan, out, st):
        for k, n in out["fired"].items():
            st["fired"][k] += n
        for tr in plan.get("triggers", ()):
            if tr["act"] == "abort":
                st["extra"]["planned abort " + tr["exc"]] += 1
        nlib = 0
        for t, r in libops(out):
            nlib += 1
            st["opkinds"][r["k"] + (" nested" if r.get("nested") else "")] += 1
            if r.get("inj"):
                st["extra"]["call hit by " + r["inj"]] += 1
            elif r["status"] == "exc":
                st["extra"]["call failed on bad input"] += 1
        for op in self.ops(plan):
            if op.get("torn"):
                st["fired"]["output list fails: %s %s" % (op["torn"]["which"], op["torn"]["mode"])] += 1
        st["ops"] += nlib
        st["steps"] += out["steps"]
        st["clock"] += out["clock"]
        st["switches"] += out["switches"]
        st["sites"].update(map(tuple, out["sites"]))
        events = sum(out["fired"].values()) + sum(1 for op in self.ops(plan) if op.get("torn"))
        if self.nontrivial(plan, out, events, nlib):
            st["nontrivial"] += 1
            st["distinct"].add(hash_plan(plan, out))
        if not st["samples"] and events:
            st["samples"].append({"plan": plan, "trace": out["trace"], "fired": out["fired"], "outcome": [
                [[r.get("k"), r.get("status"), r.get("exc"), r.get("match")] for r in recs] for recs in out["threads"]]})

    def nontrivial(self, plan, out, events, nlib):
        return events > 0

    def shrink(self, plan):
        return shrink_threads(plan)


def hash_plan(plan, out):
    d = {"threads": plan["threads"], "trace": out["trace"]}
    return hashlib.sha256(json.dumps(d, sort_keys=True).encode()).digest()[:8]


class C01(LibProp):
    """Concurrent calls."""

    rule = "one evaluation = a run of 2 to 4 simulated threads with 1 to 3 calls each; every call's appended vertices and faces are compared with the same call alone; non-trivial: at least one pre-emption, abort or list fault took place"
    quick = (192, 400)

    def gen(self, g):
        rng = g.rng
        T = rng.choice([2, 2, 2, 3, 3, 4])
        plan = {"threads": [], "share": rng.random() < 0.4}
        same = rng.random() < 0.25
        f = rng.choice(g.base)
        kin = g.variant() if rng.random() < 0.3 else None
        for t in range(T):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                if kin and rng.random() < 0.8:
                    ops.append(g.placed(g.kin(kin)))
                elif same and rng.random() < 0.8:
                    ops.append(g.placed(g.variant(f)))
                else:
                    ops.append(g.op(0.08))
            plan["threads"].append(ops)
        g.switches(plan, rng.choice([1, 2, 3, 4, 6, 10]))
        if rng.random() < 0.25:
            g.aborts(plan, 1)
        if rng.random() < 0.15:
            t = rng.randrange(T)
            o = rng.randrange(len(plan["threads"][t]))
            if plan["threads"][t][o]["k"] == "poly":
                g.torn(plan["threads"][t][o])
        plan["first"] = rng.randrange(T)
        return plan

    def judge(self, plan, out):
        return mismatches(out, "result-differs-from-run-alone") + runbad(out)


class C02(LibProp):
    """Histories in one thread."""

    rule = "one evaluation = a history of calls, failures, aborts and caller actions in one process; every call is compared with the same call in a pristine process; non-trivial: more than one call"
    quick = (192, 400)
    npool = 6

    def gen(self, g):
        rng = g.rng
        ops = []
        style = rng.random()
        n = rng.choice([2, 3, 4, 6, 8, 12, 20])
        fs = None
        if style < 0.1:
            n = rng.choice([60, 140, 300])
            fs = rng.sample(g.pool.tiny, 3)
            if style < 0.005:  # counters and caches with large limits
                n = 1300
                some = [g.variant(f) for f in fs * 3]
        elif style < 0.5:
            fs = [rng.choice(g.base)]
        elif style < 0.7:
            fs = rng.sample(g.base, min(2, len(g.base)))
        shared_list = rng.random() < 0.4
        bad = rng.choice([0.0, 0.1, 0.4])
        scrib = rng.random() < 0.5
        plan = {"threads": [ops], "share": rng.random() < 0.4}
        first = None
        for i in range(n):
            x = rng.random()
            if x < 0.05:
                ops.append({"k": "gc"})
                continue
            if x < 0.08:
                ops.append({"k": "dbg", "v": rng.choice(["on", "off", "other"])})
                continue
            if x < 0.1:
                ops.append({"k": "clock", "dt": rng.choice([1.0, 3600.0, -3600.0])})
                continue
            if x < 0.1 + bad:
                op = g.op(1.0)
            elif n == 1300:
                op = g.placed(rng.choice(some))
                if op.get("off", 0) > 50:
                    op["off"] = 3
            elif first is not None and rng.random() < 0.25:
                op = g.placed(first)
            else:
                op = g.placed(g.variant(rng.choice(fs) if fs else None))
            if first is None and not op.get("bad"):
                first = {k: v for k, v in op.items() if k not in ("off", "gap", "hf", "hr", "twin", "fl")}
            if shared_list and op["k"] == "poly" and rng.random() < 0.7:
                op["list"] = rng.choice([0, 0, 1])
                op.pop("fl", None)
                if rng.random() < 0.4:
                    op["re"] = 1
            elif scrib and rng.random() < 0.6:
                op["keep"] = 1
            if op["k"] == "poly" and op.get("off") and "list" not in op and n < 20 and rng.random() < 0.03:
                op["off"] = 66000
            ops.append(op)
            if scrib and rng.random() < 0.4:
                ops.append({"k": rng.choice(["scribble", "scribble", "drop"])})
        if rng.random() < 0.5:
            g.aborts(plan, rng.choice([1, 2, 3]))
        for op in ops:
            if op["k"] == "poly" and not op.get("bad") and rng.random() < 0.04:
                g.torn(op)
        return plan

    def nontrivial(self, plan, out, events, nlib):
        return nlib > 1

    def judge(self, plan, out):
        return mismatches(out, "result-depends-on-history") + runbad(out)


class C03(LibProp):
    """Aborts."""

    rule = "one evaluation = calls with aborts (exceptions at seeded bytecodes, failing allocations, stack limits, failing lists), each followed by a retry; non-trivial: at least one fault took place"
    quick = (192, 400)

    def gen(self, g):
        rng = g.rng
        T = rng.choice([1, 1, 1, 1, 2, 3])
        plan = {"threads": [], "share": rng.random() < 0.3}
        memory = rng.random() < 0.15
        if memory:
            T = 1
        for t in range(T):
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                op = g.op(0.05)
                op.pop("bad", None)
                if op["k"] == "poly" and rng.random() < 0.3:
                    op["list"] = 0
                    op.pop("fl", None)
                ops.append(op)
                ops.append(dict(op))
                if "list" in op and rng.random() < 0.7:
                    ops[-1]["re"] = 1
                if rng.random() < 0.4:
                    ops.append(g.op(0.1))
            plan["threads"].append(ops)
        if memory:  # the n-th allocation of memory fails, wherever it is
            for op in plan["threads"][0][:-1]:
                if rng.random() < 0.6:
                    op["nomem"] = int(10 ** rng.uniform(0.0, 4.7))
            return plan
        for t in range(T):
            ops = plan["threads"][t]
            for o in range(0, len(ops) - 1):
                x = rng.random()
                if o == 0 or x < 0.25:
                    y = rng.random()
                    if y < 0.8:
                        g.trigger(plan, t, o, "abort", exc=rng.choice(sorted(EXCS)))
                    elif y < 0.9 and ops[o]["k"] == "poly":
                        g.torn(ops[o])
                    elif "torn" not in ops[o]:
                        ops[o]["stack"] = rng.randint(2, 14)
        g.switches(plan, rng.choice([0, 1, 3]))
        return plan

    def judge(self, plan, out):
        v = []
        for t, r in libops(out):
            if r.get("inj"):
                if r["status"] == "ok":
                    v.append(("abort-swallowed", "thread %d operation %s returned normally although %s was raised in it" % (t, r["op"], r["inj"])))
                elif not r["surfaced"]:
                    v.append(("abort-replaced", "thread %d operation %s ended with %s although %s was raised in it" % (t, r["op"], r["exc"], r["inj"])))
        v += [(k, "%s: %s" % (k, d)) for k, d in out["end"] if k == "process-state-left"]
        return v + mismatches(out, "result-differs-after-abort") + runbad(out)


class C04(LibProp):
    """Output lists."""

    rule = "one evaluation = calls with the output lists compared with a snapshot at every executed line (in a part of the runs: at sampled bytecodes, or at the end only) and recorded list operations; non-trivial: a fault or pre-emption took place or the lists were sampled during the run"
    npool = 6
    scale = 0
    kinds = ("verts-prefix", "input-verts", "faces-prefix", "verts-steps", "faces-steps", "faces-ahead", "faces-not-final", "faces-on-failure")
    force_faces = True

    def gen(self, g):
        rng = g.rng
        plan = {"threads": [[]], "share": rng.random() < 0.3}
        T = rng.choice([1, 1, 1, 2])
        plan["threads"] = [[] for _ in range(T)]
        deep = rng.random()
        for t in range(T):
            for _ in range(rng.choice([1, 1, 2])):
                op = g.op(0.1, k="poly" if self.force_faces or rng.random() < 0.6 else None)
                if self.force_faces and op.get("fl") is None and rng.random() < 0.9:
                    op["fl"] = rng.choice([0, 1, 4])
                if rng.random() < 0.3 and op["k"] == "poly":
                    op["hook"] = 1
                if rng.random() < 0.2 and op["k"] == "poly":
                    op["list"] = 0
                    op.pop("fl", None)
                plan["threads"][t].append(op)
        if deep < 0.35:
            plan["count"] = 1
            plan["sample"] = 1
            if deep < 0.06:
                plan["gran"] = "op"
                plan["sample"] = rng.choice([1, 3])
                for ops in plan["threads"]:
                    del ops[1:]
                    if ops[0]["f"] not in g.pool.tiny:
                        ops[0]["f"] = rng.choice(g.pool.tiny)
        x = rng.random()
        if x < 0.6:
            for t in range(T):
                for o in range(len(plan["threads"][t])):
                    if rng.random() < 0.7:
                        g.trigger(plan, t, o, "abort", exc=rng.choice(sorted(EXCS)))
        elif x < 0.75:
            for ops in plan["threads"]:
                for op in ops:
                    if op["k"] == "poly":
                        g.torn(op)
        elif x < 0.85 and deep > 0.06:
            for ops in plan["threads"]:
                for op in ops:
                    if rng.random() < 0.4:
                        op["stack"] = rng.randint(2, 14)
                    elif T == 1:
                        op["nomem"] = int(10 ** rng.uniform(0.0, 4.7))
        g.switches(plan, rng.choice([0, 1, 3]))
        return plan

    def nontrivial(self, plan, out, events, nlib):
        return events > 0 or plan.get("sample")

    def judge(self, plan, out):
        v = []
        for t, r in libops(out):
            for k, d in r.get("bad", ()):
                if k in self.kinds:
                    v.append((k, "thread %d operation %s: %s %s" % (t, r["op"], k, d)))
        return v


class C05(LibProp):
    """Nested calls."""

    rule = "one evaluation = calls with 1 to 3 further calls started inside them; outer and nested calls are compared with the calls alone; non-trivial: at least one nested call, abort or pre-emption took place"
    quick = (320, 400)
    npool = 8
    scale = 0

    def gen(self, g):
        rng = g.rng
        T = rng.choice([1, 1, 1, 2])
        plan = {"threads": [[g.op(0.05) for _ in range(rng.choice([1, 1, 2]))] for _ in range(T)], "share": rng.random() < 0.3}
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = rng.randrange(T)
            o = rng.randrange(len(plan["threads"][t]))
            x = rng.random()
            if x < 0.25 and not plan["threads"][t][o].get("bad"):
                op = g.placed(g.kin(plan["threads"][t][o]))
            elif x < 0.45:
                op = g.placed({k: v for k, v in plan["threads"][t][o].items() if k not in ("off", "gap", "hf", "hr", "twin", "fl")})
            else:
                op = g.op(0.15)
            g.nest(plan, t, o, op)
        g.switches(plan, rng.choice([0, 0, 2]))
        if rng.random() < 0.15:
            g.aborts(plan, 1)
        return plan

    def judge(self, plan, out):
        return mismatches(out, "nested-result-differs") + runbad(out)


class C07(LibProp):
    """Progress."""

    rule = "one evaluation = calls of which all but one hang for ever at seeded points, or a history of the same call with counted steps; non-trivial: at least one stall took place, or steps were compared"
    npool = 8
    scale = 0

    def gen(self, g):
        rng = g.rng
        if rng.random() < 0.35:
            return self.gen_steps(g)
        T = rng.choice([2, 2, 3, 4])
        if rng.random() < 0.2:
            return self.gen_crowd(g)
        plan = {"threads": [[g.op(0.05) for _ in range(rng.choice([1, 1, 2]))] for _ in range(T)], "share": rng.random() < 0.3}
        plan["first"] = rng.randrange(T)
        live = rng.randrange(T)
        for t in range(T):
            if t == live:
                continue
            for _ in range(rng.choice([1, 1, 2])):
                o = rng.randrange(len(plan["threads"][t]))
                g.trigger(plan, t, o, "stall", to=rng.randrange(T))
        g.switches(plan, rng.choice([0, 1, 3]))
        if rng.random() < 0.3:
            g.aborts(plan, 1)
        return plan

    def gen_crowd(self, g):
        """Many calls hang at the same time."""
        rng = g.rng
        T = rng.choice([6, 8, 10, 13, 18])
        plan = {"threads": [], "share": rng.random() < 0.3}
        same = g.variant(rng.choice(g.pool.tiny)) if rng.random() < 0.7 else None
        for t in range(T):
            plan["threads"].append([dict(same) if same else g.placed(g.variant(rng.choice(g.pool.tiny)))])
        live = rng.randrange(T)
        where = g.where(same) if same and rng.random() < 0.6 else None
        for t in range(T):
            if t == live:
                continue
            if where:
                plan.setdefault("triggers", []).append(dict(t=t, o=0, loc=where[0], n=where[1], act="stall", to=(t + 1) % T))
            else:
                g.trigger(plan, t, 0, "stall", to=(t + 1) % T)
        plan["first"] = (live + 1) % T
        return plan

    def execute(self, lab, plan):
        for op in self.ops(plan):
            if lab.ref(op) is None:
                return self.alone_forever(lab, op)
        out = lab.run(plan)
        if plan.get("stepcheck"):
            out["alone"] = [[lab.profile(op)[1] if op["k"] in ("poly", "skel") else None for op in ops] for ops in plan["threads"]]
        return out

    def alone_forever(self, lab, op):
        """An operation without answer, alone: count its steps."""
        p = {"threads": [[W.ref_op(op)]], "count": 1, "cap": 5000000}
        out = lab.remote("lab", "execute", [p], timeout=500)
        out["alone"] = [[None]]
        out["forever"] = (op, p["cap"])
        return out

    def gen_steps(self, g):
        rng = g.rng
        ops = []
        f = rng.choice(g.pool.tiny + ["syn_apse", "syn_dormer", "syn_court"] + g.base[:2])
        base = g.variant(f)
        n = rng.choice([2, 4, 10, 30])
        if rng.random() < 0.2:
            n = rng.choice([70, 130])
            base["f"] = f = rng.choice(g.pool.tiny[:6] + ["syn_apse", "syn_dormer", "syn_demo"])
        x = rng.random()
        between = rng.choice(["", "", "others", "moved"])
        for i in range(n):
            op = dict(base)
            if between and n >= 30 and 0 < i < n - 1 and i % 10:
                if between == "others":
                    op = g.variant(rng.choice(g.pool.tiny[:6]))
                else:
                    op.update(k="poly", f=f, dx=float(i))
            if op["k"] == "poly":
                if x < 0.4:
                    op["list"] = 0
                    if rng.random() < 0.3:
                        op["off"] = rng.choice([0, 100, 500])
                else:
                    op["off"] = rng.choice([0, 1, 50, 1000, 3000])
                    op["fl"] = rng.choice([None, 0, 50, 1000])
                op["hook"] = 1
            ops.append(op)
        plan = {"threads": [ops], "share": rng.random() < 0.3, "count": 1, "stepcheck": 1}
        plan["cap"] = 400000 * n
        if rng.random() < 0.3:
            g.aborts(plan, rng.choice([1, 1, 3]))
        return plan

    def growth(self, plan, out):
        """The same call, early and late in a history, with few and with much data in its lists."""
        same = {}
        for t, r in libops(out):
            if r["status"] == "ok" and not r.get("inj"):
                op = plan["threads"][t][r["o"]]
                same.setdefault((t, "list" in op) + W.ref_key(op), []).append(r)
        for rs in same.values():
            a, m, z = rs[0], rs[len(rs) // 2], rs[-1]
            d1, d2 = m["o"] - a["o"], z["o"] - m["o"]
            if d1 >= 15 and d2 >= 15 and m["steps"] - a["steps"] >= 0.4 * d1 and z["steps"] - m["steps"] >= 0.4 * d2:
                yield "steps-grow-with-calls", "the same call needs %d steps as number %d, %d as number %d, %d as number %d" % (
                    a["steps"], a["o"], m["steps"], m["o"], z["steps"], z["o"])
            lo = min(rs, key=lambda r: r["n0"])
            hi = max(rs, key=lambda r: r["n0"])
            for k in ("steps", "touched"):
                if k in hi and hi["n0"] - lo["n0"] >= 200 and hi[k] - lo[k] >= 0.3 * (hi["n0"] - lo["n0"]):
                    yield "steps-grow-with-data", "the same call: %s %d with %d entries in its lists, %d with %d" % (k, lo[k], lo["n0"], hi[k], hi["n0"])

    def nontrivial(self, plan, out, events, nlib):
        return events > 0 or plan.get("stepcheck")

    def judge(self, plan, out):
        v = runbad(out, ("deadlock", "no-progress", "blocked-by-stalled"))
        if out["capped"]:
            if out.get("forever"):
                v.append(("does-not-finish", "%s alone needs more than %d steps" % out["forever"]))
                return v
            v.append(("step-budget-exceeded", "more than %s steps" % plan.get("cap")))
        if plan.get("stepcheck"):
            for t, r in libops(out):
                alone = out["alone"][t][r["o"]]
                if alone is not None and r["steps"] > 1.5 * alone + 300:
                    v.append(("more-steps-than-alone", "thread %d operation %s needs %d steps, alone %d" % (t, r["op"], r["steps"], alone)))
            v += list(self.growth(plan, out))[:3]
        return v + mismatches(out, "result-differs")


class C08(LibProp):
    """Debug output."""

    rule = "one evaluation = calls with debug output switched on and off; the value is looked at on every executed line and after every call; non-trivial: at least one call"
    npool = 6
    scale = 0

    def gen(self, g):
        rng = g.rng
        T = rng.choice([1, 1, 1, 2, 3])
        plan = {"threads": [], "debug": 1, "share": rng.random() < 0.2}
        g.debug = rng.random() < 0.7
        for t in range(T):
            ops = []
            if t == 0:
                ops.append({"k": "dbg", "v": rng.choice(["on", "on", "on", "other"]), "iv": rng.randrange(10)})
            for _ in range(rng.choice([1, 1, 2, 4])):
                op = g.op(0.05, k="poly" if rng.random() < 0.9 else None)
                ops.append(op)
                if T == 1 and rng.random() < 0.3:
                    ops.append({"k": "dbg", "v": rng.choice(["on", "off", "other"]), "iv": rng.randrange(10)})
            plan["threads"].append(ops)
        if rng.random() < 0.5:
            plan["count"] = 1
        g.switches(plan, rng.choice([0, 2, 4]))
        if rng.random() < 0.4:
            g.aborts(plan, rng.choice([1, 2]))
        return plan

    def nontrivial(self, plan, out, events, nlib):
        return nlib > 0

    def judge(self, plan, out):
        return [(k, "%s %s" % (k, d)) for k, d in out["end"] if k.startswith("debug")]


class C09(C04):
    """Inputs."""

    rule = "one evaluation = as C04, for all input objects; non-trivial: a fault or pre-emption took place or the inputs were sampled during the run"
    kinds = ("input-verts", "input-frozen", "input-uv", "input-holes", "input-edges", "verts-prefix")
    force_faces = False

    def gen(self, g):
        plan = C04.gen(self, g)
        for ops in plan["threads"]:
            for op in ops:
                if op["k"] == "poly" and g.rng.random() < 0.5:
                    op["uv"] = g.rng.choice([1, 2])
                if g.rng.random() < 0.25:
                    op["frz"] = 1
        return plan

    def judge(self, plan, out):
        v = C04.judge(self, plan, out)
        for t, r in libops(out):
            if r["match"] is False and not r.get("inj") and "frozen" in str(r.get("diff")):
                v.append(("input-write-refused", "thread %d operation %s tried to change an input that cannot be changed: %s" % (t, r["op"], r["diff"])))
        return v


class C15(LibProp):
    """Many buildings in one mesh."""

    rule = "one evaluation = a sequence of buildings on one pair of lists with failures, aborts and retries; the final lists are compared with the union of the roofs alone; non-trivial: more than one call"
    quick = (192, 400)
    npool = 8

    def gen(self, g):
        rng = g.rng
        T = rng.choice([1, 1, 1, 1, 2])
        plan = {"threads": [], "share": rng.random() < 0.3}
        bad = rng.choice([0.0, 0.1, 0.3])
        hook = rng.random() < 0.3
        for t in range(T):
            ops = []
            n = rng.choice([2, 3, 5, 8, 14])
            for _ in range(n):
                op = g.op(bad, k="poly")
                op["list"] = 0
                op.pop("fl", None)
                if rng.random() < 0.7:
                    op.pop("off", None)
                if hook:
                    op["hook"] = 1
                ops.append(op)
                if rng.random() < 0.3:
                    ops.append(dict(op))
                    if rng.random() < 0.7:
                        ops[-1]["re"] = 1
                    if rng.random() < 0.7:
                        plan.setdefault("_abort", []).append((t, len(ops) - 2))
            plan["threads"].append(ops)
        for t, o in plan.pop("_abort", ()):
            op = plan["threads"][t][o]
            if hook and rng.random() < 0.3:
                g.torn(op)
                if op["torn"]["which"] == "faces":  # else the broken list, not the call, added faces
                    op["torn"]["mode"] = "before"
            else:
                g.trigger(plan, t, o, "abort", exc=rng.choice(sorted(EXCS)))
        g.switches(plan, rng.choice([0, 2]))
        return plan

    def nontrivial(self, plan, out, events, nlib):
        return nlib > 1

    def judge(self, plan, out):
        v = []
        for k, d in out["end"]:
            if k.startswith("mesh"):
                v.append((k, "%s %s" % (k, d)))
        for t, r in libops(out):
            for k, d in r.get("bad", ()):
                if k in ("faces-on-failure", "faces-prefix", "verts-prefix", "input-verts"):
                    v.append((k, "thread %d operation %s: %s %s" % (t, r["op"], k, d)))
            if r.get("inj") and r["status"] == "ok":
                v.append(("abort-swallowed", "thread %d operation %s" % (t, r["op"])))
        return v + mismatches(out, "roof-differs-from-roof-alone") + runbad(out)


class C17(LibProp):
    """Finished calls are forgotten."""

    rule = "one evaluation = a history of calls, failures, aborts and nested calls with censuses of live objects and retained containers in between; non-trivial: more than one call"
    npool = 6
    scale = 0

    def gen(self, g):
        rng = g.rng
        ops = [dict(k="poly", f="syn_tri"), {"k": "census"}]
        plan = {"threads": [ops], "share": 0}
        for t in range(1, rng.choice([1, 1, 1, 2, 3])):
            plan["threads"].append([g.op(0.1) for _ in range(rng.choice([1, 2, 3]))])
            if rng.random() < 0.5:
                g.trigger(plan, t, rng.randrange(len(plan["threads"][t])), "abort", exc=rng.choice(sorted(EXCS)))
            if rng.random() < 0.5:
                g.trigger(plan, t, rng.randrange(len(plan["threads"][t])), "switch", to=0)
        n = rng.choice([1, 2, 3, 5, 8])
        moved = rng.random() < 0.5
        for i in range(n):
            for _ in range(rng.choice([1, 1, 2, 4])):
                op = g.op(0.15)
                if moved and op["k"] == "poly":
                    op["dx"] = float(rng.randrange(-400, 400))
                if op["k"] == "poly" and not op.get("bad") and rng.random() < 0.1:
                    g.torn(op)
                elif op["k"] == "poly" and rng.random() < 0.06 and not op.get("bad"):
                    op["stack"] = rng.randint(2, 14)
                ops.append(op)
                x = rng.random()
                if x < 0.35:
                    g.trigger(plan, 0, len(ops) - 1, "abort", exc=rng.choice(sorted(EXCS)))
                elif x < 0.45:
                    g.nest(plan, 0, len(ops) - 1, g.op(0.15))
                elif x < 0.55 and len(plan["threads"]) > 1:
                    g.trigger(plan, 0, len(ops) - 1, "switch", to=rng.randrange(1, len(plan["threads"])))
            ops.append({"k": "census", "wait": 1})
        return plan

    def nontrivial(self, plan, out, events, nlib):
        return nlib > 1

    def judge(self, plan, out):
        v = []
        cs = [(r["o"], r["census"]) for r in out["threads"][0] if "census" in r]
        if cs:
            base = cs[0][1]
            for o, c in cs[1:]:
                more = {k: n - base["alive"].get(k, 0) for k, n in c["alive"].items() if n > base["alive"].get(k, 0)}
                if more:
                    v.append(("objects-kept", "before operation %d: still alive although everything is dropped: %s" % (o, more)))
                    break
            for o, c in cs[1:]:
                if c["kept"] > base["kept"]:
                    v.append(("state-kept", "before operation %d: the containers of the library hold %d entries, after the first call %d" % (o, c["kept"], base["kept"])))
                    break
        return v + mismatches(out, "result-differs") + runbad(out)


class C18(LibProp):
    """Fork."""

    rule = "one evaluation = threads in the middle of calls, and 1 or 2 forks at seeded points; calls in the parent and in the children are compared with the calls alone; non-trivial: a fork, pre-emption or abort took place"
    quick = (192, 400)
    npool = 8
    scale = 0

    def gen(self, g):
        rng = g.rng
        T = rng.choice([1, 2, 2, 3, 4])
        plan = {"threads": [[g.op(0.05) for _ in range(rng.choice([1, 1, 2]))] for _ in range(T)], "share": rng.random() < 0.3}
        plan["first"] = rng.randrange(T)
        forker = rng.randrange(T)
        for t in range(T):
            if t != forker and rng.random() < 0.8:
                g.trigger(plan, t, rng.randrange(len(plan["threads"][t])), "switch", to=forker)
        for _ in range(rng.choice([1, 1, 2])):
            o = rng.randrange(len(plan["threads"][forker]))
            ops = [g.op(0.1) for _ in range(rng.choice([1, 2]))]
            if rng.random() < 0.3:
                ops[-1] = dict(plan["threads"][forker][o])
            g.trigger(plan, forker, o, "fork", ops=ops)
        if T > 1 and rng.random() < 0.8:  # the others hang in the middle of a call when the process forks
            plan["first"] = (forker + 1) % T
        g.switches(plan, rng.choice([0, 1, 2]))
        if rng.random() < 0.2:
            g.aborts(plan, 1)
        return plan

    def judge(self, plan, out):
        v = [(k, "%s %s" % (k, d)) for k, d in out["events"] if k.startswith("fork-")]
        for k, d in mismatches(out, "result-differs-after-fork"):
            v.append((k, d))
        return v + runbad(out)


class C19(LibProp):
    """Time."""

    rule = "one evaluation = calls with 1 to 6 jumps of the clocks at seeded points, pre-emptions and aborts; non-trivial: at least one of them took place"
    quick = (192, 400)
    npool = 8

    def gen(self, g):
        rng = g.rng
        T = rng.choice([1, 1, 2, 3])
        plan = {"threads": [[g.op(0.05) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(T)], "share": rng.random() < 0.3}
        for ops in plan["threads"]:
            if rng.random() < 0.3:
                ops.insert(rng.randint(0, len(ops) - 1), {"k": "clock", "dt": rng.choice([1.0, 3600.0, 1e7])})
        g.clocks(plan, rng.choice([1, 2, 3, 6]))
        g.switches(plan, rng.choice([0, 1, 3]))
        if rng.random() < 0.2:
            g.aborts(plan, 1)
        return plan

    def judge(self, plan, out):
        return mismatches(out, "result-depends-on-time") + runbad(out)


class C20(LibProp):
    """Side effects."""

    rule = "one evaluation = calls of one or more copies of the library with the settings of the process looked at while they run, system calls and output recorded, and all else compared before and after; non-trivial: at least one call"
    npool = 6
    scale = 0
    assumptions = LibProp.assumptions + [
        "System calls are seen through the audit events of the interpreter; reading files (as an import does) is allowed.",
        "The settings are compared after every executed line, or every third or seventh one.",
    ]

    def gen(self, g):
        rng = g.rng
        T = rng.choice([1, 1, 2, 2, 3])
        plan = {"threads": [], "share": rng.random() < 0.2, "count": 1, "effects": rng.choice([1, 1, 3, 7])}
        copies = rng.choice([1, 2, 2, 3])
        for t in range(T):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 4])):
                op = g.op(0.15)
                op["copy"] = rng.randrange(copies)
                ops.append(op)
                if rng.random() < 0.2:
                    ops.append(dict(op, copy=rng.randrange(copies)))
            plan["threads"].append(ops)
        if rng.random() < 0.2:
            plan["threads"][0].insert(0, {"k": "dbg", "v": "on", "iv": 0})
        g.switches(plan, rng.choice([0, 2, 4]))
        if rng.random() < 0.4:
            g.aborts(plan, rng.choice([1, 2]))
        if rng.random() < 0.2:
            t = rng.randrange(T)
            g.nest(plan, t, len(plan["threads"][t]) - 1, g.op(0.1))
        return plan

    def nontrivial(self, plan, out, events, nlib):
        return nlib > 0

    def judge(self, plan, out):
        v = [(k, d["what"]) for k, d in out["end"] if k == "side-effect"]
        v += [("side-effect", "starts a thread") for k, d in out["events"] if k == "thread-started"]
        return v[:3] + mismatches(out, "copies-influence-each-other") + runbad(out)


LIB = (C01, C02, C03, C04, C05, C07, C08, C09, C15, C17, C18, C19, C20)
for _c in LIB:
    _c.pid = _c.__name__
