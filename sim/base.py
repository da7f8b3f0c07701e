"""What every property gives the driver."""
import copy
import json

from .workload import DEFAULTS


class Prop:
    pid = None
    level = "exploration"
    needs_lib = True
    block_size = 20
    quick = (96, 400)  # blocks, wall limit in seconds
    thorough = (1200, 780)
    min_budget = (150, 60)
    npool = 10
    scale = 1
    rule = ""
    state_measure = ""
    real = []
    stubs = []
    assumptions = []

    def budget(self, tier):
        return self.thorough if tier == "thorough" else self.quick

    def preload(self, lab):
        """What a zygote has to know before it serves."""

    def before(self, lab, tier, seed):
        """The known findings, with the specific input of each."""
        res = {}
        for d in lab.known:
            if "plan" in d:
                out = self.execute(lab, d["plan"])
                kinds = [v[0] for v in self.judge(d["plan"], out)]
                res["known finding " + d["id"]] = "still fails: %s" % kinds if kinds else "does not fail any more"
        return res

    def make(self, lab, rng, block_rng, tier, block, run):
        raise NotImplementedError

    def execute(self, lab, plan):
        raise NotImplementedError

    def judge(self, plan, out):
        raise NotImplementedError

    def timeout(self, lab, plan):
        """The child gave no answer in (real) time; decide it by simulated steps, or raise."""
        raise RuntimeError("no answer from a run: %s" % json.dumps(plan)[:2000])

    def fingerprint(self, out):
        return None

    def finding_key(self, plan, v):
        return json.dumps(plan, sort_keys=True)

    def measure(self, plan, out, st):
        raise NotImplementedError

    def shrink(self, plan):
        return ()


# ---- shrinking of thread plans ---------------------------------------------------
def drop_thread(plan, t):
    p = copy.deepcopy(plan)
    del p["threads"][t]
    trs = []
    for tr in p.get("triggers", ()):
        if tr["t"] == t:
            continue
        tr = dict(tr)
        if tr["t"] > t:
            tr["t"] -= 1
        if tr.get("to") is not None and tr["to"] > t:
            tr["to"] -= 1
        trs.append(tr)
    if "triggers" in p:
        p["triggers"] = trs
    f = p.get("first", 0)
    if f > t:
        p["first"] = f - 1
    return p


def drop_ops(plan, t, a, b):
    p = copy.deepcopy(plan)
    del p["threads"][t][a:b]
    trs = []
    for tr in p.get("triggers", ()):
        if tr["t"] == t:
            if a <= tr["o"] < b:
                continue
            if tr["o"] >= b:
                tr = dict(tr, o=tr["o"] - (b - a))
        trs.append(tr)
    if "triggers" in p:
        p["triggers"] = trs
    return p


def shrink_threads(plan):
    T = len(plan["threads"])
    if T > 1:
        for t in range(T):
            yield drop_thread(plan, t)
    for t in range(T):
        n = len(plan["threads"][t])
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                if n - min(size, n - a) >= 1:
                    yield drop_ops(plan, t, a, min(a + size, n))
            size //= 2
    trs = plan.get("triggers") or []
    n = len(trs)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            p = copy.deepcopy(plan)
            del p["triggers"][a: a + size]
            yield p
        size //= 2
    for k in ("share", "first", "count", "gran", "heap"):
        if plan.get(k) and not (k == "count" and plan.get("stepcheck")):
            p = copy.deepcopy(plan)
            del p[k]
            yield p
    for t in range(T):
        for o, op in enumerate(plan["threads"][t]):
            for k in sorted(op):
                if k in ("k", "f") or k not in DEFAULTS and k not in ("keep", "hook", "list", "torn", "stack", "copy"):
                    continue
                if k == "hook" and "torn" in op:
                    continue
                p = copy.deepcopy(plan)
                del p["threads"][t][o][k]
                yield p
            if op["k"] in ("poly", "skel") and op["f"] not in ("syn_rect", "syn_L") and not op.get("bad"):
                for f in ("syn_rect", "syn_L"):
                    p = copy.deepcopy(plan)
                    p["threads"][t][o]["f"] = f
                    yield p
    for i, tr in enumerate(trs):
        if tr["n"] > 1:
            for n in {1, tr["n"] // 2, tr["n"] - 1}:
                if n != tr["n"]:
                    p = copy.deepcopy(plan)
                    p["triggers"][i]["n"] = n
                    yield p
        for j in range(len(tr.get("subs", ()))):
            p = copy.deepcopy(plan)
            del p["triggers"][i]["subs"][j]
            if not p["triggers"][i]["subs"]:
                del p["triggers"][i]["subs"]
            yield p
        if tr["act"] == "nest":
            for k in sorted(tr["op"]):
                if k in ("k", "f"):
                    continue
                p = copy.deepcopy(plan)
                del p["triggers"][i]["op"][k]
                yield p
