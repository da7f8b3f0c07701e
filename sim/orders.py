"""Order of simultaneous events: the queue of the library belongs to the simulator, which takes any of the events of
equal time as planned. C06 (completeness of the roof) and C16 (heights)."""
import copy
import heapq
import json
import math
import os
from collections import Counter

from . import workload as W
from .base import Prop
from .lab import with_step_cap


class Ties:
    """Decisions among equal events. `plan` is the list of decisions; after its end the first one is taken."""

    active = None

    def __init__(self, plan, eps=0.0):
        self.plan = plan
        self.k = 0
        self.ties = 0
        self.taken = []

    def choose(self, n):
        self.ties += 1
        c = self.plan[self.k] % n if self.k < len(self.plan) else 0
        self.k += 1
        self.taken.append(c)
        return c


real = {n: getattr(heapq, n) for n in ("heappush", "heappop", "heapify", "heappushpop", "heapreplace")}


def front(d):
    """Moves the event to be taken next to the front."""
    if len(d) < 2:
        return
    m = 0
    for i in range(1, len(d)):
        if d[i] < d[m]:
            m = i
    c = [i for i in range(len(d)) if not (d[m] < d[i])]
    if len(c) > 1:
        m = c[Ties.active.choose(len(c))]
    if m:
        d.insert(0, d.pop(m))


def heappush(d, x):
    if Ties.active is None:
        return real["heappush"](d, x)
    d.append(x)
    # the decision is taken when the event is looked at: only the order has to be right here
    front(d)


def heappop(d):
    if Ties.active is None:
        return real["heappop"](d)
    x = d.pop(0)
    front(d)
    return x


def heapify(d):
    if Ties.active is None:
        return real["heapify"](d)
    front(d)


def heappushpop(d, x):
    if Ties.active is None:
        return real["heappushpop"](d, x)
    heappush(d, x)
    return heappop(d)


def heapreplace(d, x):
    if Ties.active is None:
        return real["heapreplace"](d, x)
    r = heappop(d)
    heappush(d, x)
    return r


def install():
    for n in real:
        setattr(heapq, n, globals()[n])


# ---- the roof ----------------------------------------------------------------------
def area(p):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1])) / 2


def roof(lab, op, ties):
    """Executes the operation; the result in plain values."""
    I = W.materialise(op, None, None, None, lab.b, lab.euclid)
    T = Ties.active = Ties(ties)
    try:
        ret = W.call(I, lab.b)
    except Exception as e:
        return {"exc": type(e).__name__ + ": " + str(e)[:60], "ties": T.ties, "taken": T.taken}
    finally:
        Ties.active = None
    new = ret if I.faces is None else list(ret)[I.nf0:]
    conts = [list(range(I.first, I.first + I.num))] + [list(range(a, a + n)) for a, n in I.holes or ()]
    return {
        "exc": None, "ties": T.ties, "taken": T.taken, "verts": [tuple(v) for v in I.verts], "n0": I.n0,
        "faces": [list(f) for f in new], "conts": conts, "z": I.verts[I.first][2],
    }


def complete(r):
    """What is wrong with the roof, as a list of (kind, text)."""
    if r["exc"]:
        return [("roof-fails", r["exc"])]
    V, F, n0 = r["verts"], r["faces"], r["n0"]
    bad = {}

    def fail(k, t):
        bad.setdefault(k, t)

    own = set(i for c in r["conts"] for i in c) | set(range(n0, len(V)))
    ce = [e for c in r["conts"] for e in zip(c, c[1:] + c[:1])]
    ces = set(ce)
    for f in F:
        if any(i not in own for i in f):
            fail("index-invalid", "face %s uses foreign vertices" % f)
            return sorted(bad.items())
    cnt = Counter(e for f in F for e in zip(f, f[1:] + f[:1]))
    for e in ce:
        if cnt[e] != 1:
            fail("contour-edge-not-covered", "contour edge %s is in %d faces" % (e, cnt[e]))
    for e, n in cnt.items():
        if e not in ces:
            if n != 1 or cnt[(e[1], e[0])] != 1:
                fail("edge-not-matched", "edge %s occurs %d times, in the other direction %d times" % (e, n, cnt[(e[1], e[0])]))
    for f in F:
        if len(f) < 3 or len(set(f)) != len(f):
            fail("vertex-repeated", "face %s" % f)
        elif (f[0], f[1]) not in ces:
            fail("no-contour-edge-first", "face %s" % f)
    A = sum(area([V[i] for i in c]) for c in r["conts"])
    fa = [area([V[i] for i in f]) for f in F]
    if abs(sum(fa) - A) > 1e-3 * A + 1e-3:
        fail("area-differs", "faces %.6g, footprint %.6g" % (sum(fa), A))
    for f, a in zip(F, fa):
        if a < -1e-3 * A:
            fail("face-clockwise", "face %s has area %.4g of %.6g" % (f, a, A))
    return sorted(bad.items())


def corpus():
    with open(os.path.join(W.HERE, "..", "data", "corpus.json")) as f:
        d = json.load(f)
    return list(d["real"]), d["extra"], set(d["plane"])


LAST = 27719  # selects the last of up to 12 candidates


def tie_plan(rng):
    x = rng.random()
    n = rng.choice([20, 100, 400])
    if x < 0.08:
        return []
    if x < 0.2:
        return [LAST] * n
    if x < 0.3:  # one late decision
        return [0] * rng.randrange(60) + [rng.randrange(1, 12)]
    if x < 0.45:
        p = rng.choice([0.05, 0.2])
        return [rng.randrange(12) if rng.random() < p else 0 for _ in range(n)]
    return [rng.randrange(12) for _ in range(n)]


class OrderProp(Prop):
    block_size = 24
    quick = (320, 400)
    thorough = (2600, 780)
    real = ["bpypolyskel/bpypolyskel.py", "bpypolyskel/poly2FacesGraph.py", "bpypolyskel/bpyeuclid.py", "mathutils", "CPython 3.12"]
    stubs = ["heapq.heappush, heappop, heapify, heappushpop, heapreplace: simulator-owned queue, which returns any minimal element as planned"]
    state_measure = "distinct = different (footprint, start vertex, sequence of decisions actually taken among equal events)"
    assumptions = [
        "The corpus (data/corpus.json) is fixed: footprints of the tests and generated ones for which the unchanged code passed a search of 250 to 500 orders; what other footprints do is a property of the pure function (N01 to N10).",
        "Only events that compare as equal are exchanged, exactly as far as the queue leaves their order open.",
    ]
    corp = None

    def names(self):
        if self.corp is None:
            real, extra, self.plane = corpus()
            for n, f in extra.items():
                W.footprints()[n] = {"outer": f["outer"], "holes": f["holes"], "z": 3.0, "uv": None}
            self.small = [n for n in real if len(W.footprints()[n]["outer"]) <= 60]
            self.large = [n for n in real if len(W.footprints()[n]["outer"]) > 60]
            self.extra = sorted(extra)
            self.corp = True
        return self.small, self.large, self.extra

    def pick(self, rng):
        small, large, extra = self.names()
        x = rng.random()
        return rng.choice(extra if x < 0.5 else small if x < 0.97 or not large else large)

    def make(self, lab, rng, block_rng, tier, block, run):
        f = self.pick(rng)
        n = len(W.footprints()[f]["outer"])
        op = {"k": "poly", "f": f}
        if rng.random() < 0.8:
            op["st"] = rng.randrange(n)
        if rng.random() < 0.3:
            op["uv"] = 1
        if rng.random() < 0.3:
            op["off"] = rng.choice([1, 7, 30, 200])
        if rng.random() < 0.3:
            op["fl"] = rng.choice([0, 2])
        if rng.random() < 0.3:
            op["hf"] = 1
        return self.more(rng, {"op": op, "orders": [tie_plan(rng) for _ in range(6 if n <= 60 else 2)]})

    def more(self, rng, plan):
        return plan

    def execute(self, lab, plan):
        self.names()
        return lab.remote("prop", "child", [plan])

    def preload(self, lab):
        self.names()

    def child(self, lab, plan):
        return {"roofs": [self.one(lab, plan, o) for o in plan["orders"]]}

    def capped(self, lab, plan, cap):
        return with_step_cap(lambda: self.child(lab, plan), cap)

    def timeout(self, lab, plan):
        cap = 6000000 * len(plan["orders"])
        out = lab.remote("prop", "capped", [plan, cap], timeout=600)
        if out is None:
            return {"roofs": [], "forever": cap}
        return out

    def fingerprint(self, out):
        return [out.get("forever"), [[r["ties"], r["taken"], r["bad"]] for r in out["roofs"]]]

    def judge(self, plan, out):
        if out.get("forever"):
            return [("does-not-finish", "more than %d steps for %s" % (out["forever"], plan["op"]))]
        seen = {}
        for r in out["roofs"]:
            for k, t in r["bad"]:
                seen.setdefault(k, "%s: %s" % (plan["op"]["f"], t))
        return sorted(seen.items())

    def measure(self, plan, out, st):
        key = json.dumps([plan["op"]["f"], plan["op"].get("st", 0)])
        st["evals"] += len(out["roofs"])
        for r in out["roofs"]:
            st["ops"] += r.get("calls", 1)
            st["fired"]["decision among simultaneous events"] += r["ties"]
            st["extra"]["decisions other than the first candidate"] += sum(1 for c in r["taken"] if c)
            if r["ties"]:
                st["distinct"].add(hash((key, tuple(r["taken"]))))
        if any(r["ties"] for r in out["roofs"]):
            st["nontrivial"] += 1
        st["opkinds"]["real footprint" if not plan["op"]["f"].startswith("tie_") else "generated footprint"] += len(out["roofs"])
        if not st["samples"] and out["roofs"] and out["roofs"][0]["ties"]:
            st["samples"].append({"plan": plan, "decisions_taken": out["roofs"][0]["taken"][:60], "violations": out["roofs"][0]["bad"]})

    def shrink(self, plan):
        n = len(plan["orders"])
        if n > 1:
            for i in range(n):
                yield dict(plan, orders=[plan["orders"][i]])
        for i in range(len(plan["orders"])):
            o = plan["orders"][i]
            cands = []
            if o:
                cands.append([])
                cands.append(o[: len(o) // 2])
                cands.append(o[:-1])
                size = len(o) // 2
                while size >= 1 and len(cands) < 60:
                    for a in range(0, len(o), size):
                        if any(o[a: a + size]):
                            cands.append(o[:a] + [0] * min(size, len(o) - a) + o[a + size:])
                    size //= 2
            for c in cands:
                p = copy.deepcopy(plan)
                p["orders"][i] = c
                yield p
        for k in sorted(plan["op"]):
            if k not in ("k", "f"):
                p = copy.deepcopy(plan)
                del p["op"][k]
                yield p


class C06(OrderProp):
    pid = "C06"
    rule = "one evaluation = one order of simultaneous events of one footprint, start vertex and placement, taken by the simulated queue (a run has up to 6); non-trivial: at least one decision among equal events; the roof is checked for completeness"

    def one(self, lab, plan, o):
        op = dict(plan["op"], h=plan.get("h", 0.0), tan=plan.get("tan", 0.5))
        r = roof(lab, op, o)
        return {"ties": r["ties"], "taken": r["taken"], "bad": complete(r)}

    def more(self, rng, plan):
        x = rng.random()
        if x < 0.3:
            plan["h"] = rng.choice([2.0, 6.5])
        elif x < 0.5:
            plan["tan"] = rng.choice([0.0, 0.2, 1.5])
        return plan


class C16(OrderProp):
    pid = "C16"
    rule = "one evaluation = one order of simultaneous events of one footprint (a run has up to 4), each with five combinations of height and tangent (same order of events); non-trivial: at least one decision among equal events"

    def more(self, rng, plan):
        plan["z"] = rng.choice([None, 0.0, 7.5, -2.0, 2.1234567, 120.0])
        plan["h"] = rng.choice([1.0, 4.0, 7.25, 0.3, 0.02, 60.0, 1000.0])
        plan["tans"] = [rng.choice([0.5, 0.7, 1.0]), rng.choice([0.1, 0.25, 2.0, 3.5, 0.01, 12.0, 57.0])]
        del plan["orders"][4:]
        return plan

    def one(self, lab, plan, o):
        base = dict(plan["op"])
        if plan["z"] is not None:
            base["z"] = plan["z"]
        t1, t2 = plan["tans"]
        rs = [roof(lab, dict(base, h=h, tan=t), o) for h, t in ((0.0, t1), (0.0, t2), (0.0, 0.0), (plan["h"], 0.0), (plan["h"], t1))]
        bad = {}

        def fail(k, t):
            bad.setdefault(k, t)

        res = {"ties": rs[0]["ties"], "taken": rs[0]["taken"], "calls": len(rs)}
        excs = {r["exc"] for r in rs}
        if excs != {None}:
            # that it fails at all is for C06; here only if it depends on the heights
            if len(excs) > 1:
                fail("failure-depends-on-height", str(sorted(map(str, excs))))
            res["bad"] = sorted(bad.items())
            return res
        z = rs[0]["z"]
        n0 = rs[0]["n0"]
        nodes = [[v for v in r["verts"][n0:]] for r in rs]
        for r, n in zip(rs[1:], nodes[1:]):
            if [v[:2] for v in n] != [v[:2] for v in nodes[0]]:
                fail("layout-depends-on-height", "new vertices of %s" % base["f"])
            if r["faces"] != rs[0]["faces"]:
                fail("faces-depend-on-height", base["f"])
            if r["verts"][:n0] != rs[0]["verts"][:n0]:
                fail("footprint-changed", base["f"])
        if bad or not nodes[0]:
            res["bad"] = sorted(bad.items())
            return res
        Z = [[v[2] - z for v in n] for n in nodes]
        eps = 2e-6 * (abs(z) + 1)

        def tol(a):
            return eps + 2e-6 * abs(a)

        for k, zs in enumerate(Z):
            if min(zs) < -eps:
                fail("below-footprint", "new vertex %g below the footprint" % -min(zs))
        for a, b in zip(Z[0], Z[1]):
            if abs(a * t2 - b * t1) > tol(a) * t2 + tol(b) * t1:
                fail("not-proportional", "%g for tangent %g, %g for tangent %g" % (a, t1, b, t2))
        if any(abs(a) > eps for a in Z[2]):
            fail("not-flat", "%g" % max(map(abs, Z[2])))
        h = plan["h"]
        if abs(max(Z[3]) - h) > tol(h):
            fail("height-differs", "height %g wanted, %g got" % (h, max(Z[3])))
        if rs[3]["verts"] != rs[4]["verts"]:
            fail("height-has-no-precedence", "tangent %g changes the roof of height %g" % (t1, h))
        m = max(Z[0])
        for a, b in zip(Z[0], Z[3]):
            if abs(a * h - b * m) > tol(a) * h + tol(b) * m + tol(m) * b:
                fail("height-not-proportional", "%g of %g, %g of %g" % (a, m, b, h))
        if Z[0] and max(Z[0]) <= 0:
            fail("no-slope", "all new vertices in the plane of the footprint for tangent %g" % t1)
        if base["f"] in self.plane:
            # on the unchanged code, all of these stay below 0.015 in 300 orders each
            V = rs[0]["verts"]
            for f in rs[0]["faces"]:
                a, b = V[f[0]], V[f[1]]
                dx, dy = b[0] - a[0], b[1] - a[1]
                l = (dx * dx + dy * dy) ** 0.5
                for v in (V[k] for k in f[2:]) if l else ():
                    d = ((v[1] - a[1]) * dx - (v[0] - a[0]) * dy) / l
                    if abs(d * t1 - (v[2] - z)) > 0.1 * t1 + eps:
                        fail("face-not-in-slope", "vertex of face %s is %g above the footprint, but %g from its contour edge" % (f, v[2] - z, d))
        res["bad"] = sorted(bad.items())
        return res


# ---- the skeleton -------------------------------------------------------------------
def distance(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l = dx * dx + dy * dy
    t = max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l)) if l else 0.0
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def side(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def cross(s, t, eps):
    """The segments cross in their interior, each end at least eps away from the other line."""
    for (a, b), (c, d) in ((s, t), (t, s)):
        l = math.hypot(b[0] - a[0], b[1] - a[1])
        u, v = side(a, b, c), side(a, b, d)
        if l == 0 or min(abs(u), abs(v)) < eps * l or (u > 0) == (v > 0):
            return False
    return True


def skeleton(lab, op, ties):
    I = W.materialise(op, None, None, None, lab.b, lab.euclid)
    T = Ties.active = Ties(ties)
    try:
        ret = W.call(I, lab.b)
    except Exception as e:
        return {"exc": type(e).__name__ + ": " + str(e)[:60], "ties": T.ties, "taken": T.taken}
    finally:
        Ties.active = None
    return {
        "exc": None, "ties": T.ties, "taken": T.taken,
        "nodes": [(tuple(a.source)[:2], float(a.height), [tuple(s)[:2] for s in a.sinks]) for a in ret],
        "conts": [[(tuple(e.p1)[:2], tuple(e.p2)[:2]) for e in c] for c in I.edges],
    }


def sound(r):
    """What is wrong with the skeleton, as a list of (kind, text)."""
    if r["exc"]:
        return [("skeleton-fails", r["exc"])]
    bad = {}

    def fail(k, t):
        bad.setdefault(k, t)

    edges = [e for c in r["conts"] for e in c]
    corners = {e[0] for e in edges}
    nodes = {}
    for s, h, k in r["nodes"]:
        if s in nodes:
            fail("node-twice", "two nodes at (%.7g, %.7g)" % s)
        nodes[s] = h
    reached = Counter()
    adj = {s: set() for s in list(nodes) + sorted(corners)}
    for s, h, k in r["nodes"]:
        if len(set(k)) != len(k):
            fail("sink-twice", "node (%.7g, %.7g) has a sink twice" % s)
        for q in k:
            if q == s:
                fail("sink-of-itself", "node (%.7g, %.7g) is its own sink" % s)
            if q in corners:
                reached[q] += 1
            elif q not in nodes:
                fail("sink-unknown", "(%.7g, %.7g) is a sink, but neither a node nor a corner" % q)
            adj[s].add(q)
            adj.setdefault(q, set()).add(s)
    for c in sorted(corners):
        if reached[c] != 1:
            fail("corner-not-reached-once", "corner (%.7g, %.7g) is the sink of %d nodes" % (c + (reached[c],)))
    seen = set()
    todo = [next(iter(adj))]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(adj[x])
    if len(seen) != len(adj):
        fail("not-connected", "%d of %d nodes and corners are connected" % (len(seen), len(adj)))
    n = sum(map(len, adj.values())) // 2
    if n != len(adj) + len(r["conts"]) - 2:
        fail("wrong-number-of-arcs", "%d arcs between %d nodes and corners with %d contours" % (n, len(adj), len(r["conts"])))
    for s, h, k in r["nodes"]:
        d = min(distance(s, *e) for e in edges)
        if abs(d - h) > 0.2 + 0.03 * h:
            fail("height-differs", "node (%.7g, %.7g) has height %g, but its distance to the contour is %g" % (s + (h, d)))
    arcs = sorted({(min(a, b), max(a, b)) for a in adj for b in adj[a]})
    for i, s in enumerate(arcs):
        for t in arcs[:i]:
            if not (t[0] in s or t[1] in s) and cross(s, t, 0.2):
                fail("arcs-cross", "%s and %s" % (s, t))
                return sorted(bad.items())
    return sorted(bad.items())


class C21(OrderProp):
    pid = "C21"
    rule = "one evaluation = one order of simultaneous events of one footprint and start vertex, taken by the simulated queue (a run has up to 6); non-trivial: at least one decision among equal events; the skeleton is checked as a graph and against the contour"

    def names(self):
        if self.corp is None:
            OrderProp.names(self)
            with open(os.path.join(W.HERE, "..", "data", "skeletons.json")) as f:
                ok = set(json.load(f))
            self.small, self.large, self.extra = ([f for f in fs if f in ok] for fs in (self.small, self.large, self.extra))
        return self.small, self.large, self.extra

    def more(self, rng, plan):
        op = plan["op"] = {k: v for k, v in plan["op"].items() if k in ("f", "st", "uv")}
        op["k"] = "skel"
        return plan

    def one(self, lab, plan, o):
        r = skeleton(lab, plan["op"], o)
        return {"ties": r["ties"], "taken": r["taken"], "bad": sound(r)}
