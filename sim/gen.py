"""Plan generators: every choice comes from the given random generator."""
from . import workload as W
from .kernel import EXCS
from .zygote import ChildFailure, ChildTimeout

TINY = [
    "syn_square", "syn_rect", "syn_tri", "syn_quad", "syn_pent", "syn_L", "syn_L2", "sp_rectangle", "sp_l_shape_a",
    "syn_hex", "l_shape",
]


def trigger_ops(triggers):
    """The operations in triggers, nested ones too."""
    for tr in triggers:
        if tr["act"] == "nest":
            yield tr["op"]
        elif tr["act"] == "fork":
            yield from tr["ops"]
        yield from trigger_ops(tr.get("subs", ()))


END = 5  # an interruption in the last lines of a call may come when its work is done


class Pool:
    """Footprints by size; the costs are measured in vertices, nothing else is assumed about them."""

    def __init__(self):
        self.size = {}
        for n, f in W.footprints().items():
            self.size[n] = len(f["outer"]) + 2 * sum(len(h) for h in f["holes"])
        names = sorted(self.size)
        # several holes: the order of their descriptions and that of their vertices may differ
        self.holes = sorted(n for n, f in W.footprints().items() if len(f["holes"]) > 1 and self.size[n] <= 70)
        self.tiny = [n for n in TINY if n in self.size]
        self.small = [n for n in names if self.size[n] <= 14]
        self.mid = [n for n in names if 14 < self.size[n] <= 32]
        self.large = [n for n in names if 32 < self.size[n] <= 80]
        self.huge = [n for n in names if self.size[n] > 80]

    def pick(self, rng, scale=1):
        x = rng.random()
        if rng.random() < 0.08:
            return rng.choice(self.holes)
        if scale == 0:
            return rng.choice(self.tiny) if x < 0.4 else rng.choice(self.small)
        if x < 0.25:
            return rng.choice(self.tiny)
        if x < 0.6:
            return rng.choice(self.small)
        if x < 0.93 or scale == 1:
            return rng.choice(self.mid)
        if x < 0.995:
            return rng.choice(self.large)
        return rng.choice(self.huge)


class Gen:
    debug = False  # the profiles are taken with debug output

    def __init__(self, lab, rng, block_rng, npool=10, scale=1):
        self.lab = lab
        self.pool = Pool()
        self.rng = rng
        self.base = [self.pool.pick(block_rng, scale) for _ in range(npool)]
        self.scale = scale

    # ---- operations ------------------------------------------------------
    def variant(self, f=None, k=None, bad=None):
        """An operation on a footprint of the pool, with variations that get their own reference."""
        rng = self.rng
        op = {"k": k or ("skel" if rng.random() < 0.15 else "poly"), "f": f or rng.choice(self.base)}
        if rng.random() < 0.5:
            x = rng.random()
            if x < 0.2:
                op["z"] = rng.choice([0.0, 7.5, -2.0, 2.1234567])
            elif x < 0.4:
                op["h"] = rng.choice([1.0, 4.0, 7.25, 0.05, 300.0])
            elif x < 0.55:
                op["tan"] = rng.choice([0.0, 0.25, 1.0, 0.01, 12.0])
            elif x < 0.7:
                op["dx"] = rng.choice([16.0, -128.0])
                op["dy"] = rng.choice([0.0, 64.0])
            elif x < 0.8:
                op["st"] = rng.randint(1, 3)
            elif x < 0.88:
                op["ph"] = rng.choice([0.25, 0.5])
            elif x < 0.94:
                op["nh"] = 1
            else:
                op["sc"] = 2.0
        if rng.random() < 0.3 and op["k"] == "poly":
            op["uv"] = rng.choice([1, 1, 1, 2])
        if rng.random() < 0.1 and op["k"] == "poly":
            op["zj"] = rng.choice([1e-6, 1e-4, 0.7])  # the footprint is not exactly horizontal
        if bad:
            op["bad"] = bad
        return op

    def kin(self, op):
        """Another operation which takes the same branches: same kind of arguments, other values."""
        rng = self.rng
        r = {k: v for k, v in op.items() if k in ("k", "f", "h", "tan", "uv", "nh", "z")}
        if rng.random() < 0.7:
            r["f"] = rng.choice(self.base)
        for k, vals in (("h", [1.0, 4.0, 7.25, 0.05, 300.0]), ("tan", [0.25, 1.0, 2.0]), ("z", [0.0, 7.5, -2.0, 2.1234567])):
            if r.get(k) and rng.random() < 0.8:
                r[k] = rng.choice(vals)
        return r

    def placed(self, op):
        """Placement in the lists: does not change the reference."""
        rng = self.rng
        op = dict(op)
        if rng.random() < 0.1:
            op["frz"] = 1
        if op["k"] != "poly":
            return op
        if rng.random() < 0.5:
            op["off"] = rng.choice([1, 2, 5, 8, 17, 40, 99, 256, 256, 300, 1030, 1030])
            if rng.random() < 0.3:
                op["twin"] = 1
        if rng.random() < 0.2:
            op["gap"] = rng.randint(1, 3)
        if rng.random() < 0.2:
            op["hf"] = 1
        if rng.random() < (0.5 if op["f"] in self.pool.holes else 0.2):
            op["hr"] = 1
        if rng.random() < 0.2:
            op["hl"] = 1
        if rng.random() < 0.6:
            op["fl"] = rng.choice([0, 0, 1, 3, 9])
            if rng.random() < 0.15:
                op["tup"] = 1
        if rng.random() < 0.35:
            op["cv"] = rng.choice([1, 2])
        return op

    def op(self, bad_rate=0.0, k=None):
        rng = self.rng
        bad = rng.choice(W.BADS) if rng.random() < bad_rate else None
        if bad:
            f = rng.choice(self.pool.tiny)
            o = {"k": k or ("skel" if bad in W.BADGEOM and rng.random() < 0.25 else "poly"), "f": f, "bad": bad}
            return self.placed(o)
        return self.placed(self.variant(k=k))

    # ---- locations ---------------------------------------------------------
    def lines(self, op):
        base = {"k": op["k"], "f": op["f"]}
        if op.get("bad"):
            base["bad"] = op["bad"]
        if op.get("h"):
            base["h"] = 4.0
        if op.get("uv"):
            base["uv"] = op["uv"]
        try:
            p = self.lab.profile(base, op["k"] == "poly" and (op.get("fl") is not None or "list" in op), self.debug)
            self.held = p[2]
            self.shared = self.lab.hot(p[0])
            self.guarded = self.lab.guarded(p[0])
            return p[0]
        except (ChildTimeout, ChildFailure):
            self.held = self.shared = self.guarded = []
            return {}

    def where(self, op, abort=False):
        """A code location that the operation passes, and the number of the visit."""
        rng = self.rng
        lines = self.lines(op)
        if not lines:
            return None
        keys = list(lines)  # in the order of their first execution
        late = keys[len(keys) * 7 // 10:]
        for _ in range(20):
            x = rng.random()
            if abort and self.guarded and rng.random() < min(0.4, 0.1 * len(self.guarded)):
                l = rng.choice(self.guarded)
            elif self.held and rng.random() < 0.25:
                l = rng.choice(self.held)
            elif self.shared and rng.random() < min(0.2, 0.04 * len(self.shared)):
                l = rng.choice(self.shared)
            elif x < 0.5:
                l = rng.choice(keys)
            elif x < 0.7:
                l = rng.choice(late)
            else:
                tot = sum(lines.values())
                x = rng.randrange(tot)
                for l in keys:
                    x -= lines[l]
                    if x < 0:
                        break
            w = self.at(lines, l, abort)
            if w:
                return w
        return None

    def at(self, lines, l, abort=False):
        """An instruction of the line, and the number of the visit."""
        rng = self.rng
        ins = [x for x in self.lab.instrs(l[:3]) if x[1] == l[3]]
        if abort:
            if l[3] in self.lab.excluded(l[0]):
                return None
            ins = [x for j, x in enumerate(ins) if j == 0 or x[2]]
        if not ins:
            return None
        off = rng.choice(ins)[0]
        c = lines[l]
        y = rng.random()
        n = 1 if y < 0.3 else c if y < 0.5 else rng.randint(1, c)
        return list(l[:3]) + [off], n, abort and l in list(lines)[-END:]

    def meeting(self, plan):
        """Several threads come to the same line, one of them is stopped there: a line that touches shared state or
        runs with a lock held, or any line."""
        rng = self.rng
        T = len(plan["threads"])
        ops = [(t, o) for t in range(T) for o, op in enumerate(plan["threads"][t]) if op["k"] in ("poly", "skel")]
        if T < 2 or not ops:
            return
        t, o = rng.choice(ops)
        lines = self.lines(plan["threads"][t][o])
        hot = self.held + self.shared
        if not hot or rng.random() < 0.15:
            hot = list(lines)
        if not hot:
            return
        l = rng.choice(hot)
        others = []
        for u, q in ops:
            if u != t:
                their = self.lines(plan["threads"][u][q])
                if l in their:
                    others.append((u, q, their))
        if not others:
            return
        plan.setdefault("triggers", [])
        u, q, their = rng.choice(others)
        stops = [(t, o, lines, u)] + ([(u, q, their, t)] if rng.random() < 0.5 else [])
        for t, o, lines, to in stops:
            w = self.at(lines, l)
            if w:
                plan["triggers"].append(dict(t=t, o=o, loc=w[0], n=w[1], act="switch", to=to))

    def trigger(self, plan, t, o, act, **kw):
        op = plan["threads"][t][o]
        if op["k"] not in ("poly", "skel"):
            return None
        w = self.where(op, act == "abort")
        if w is None:
            return None
        tr = dict(t=t, o=o, loc=w[0], n=w[1], act=act, **kw)
        if w[2]:
            tr["end"] = 1
        plan.setdefault("triggers", []).append(tr)
        return tr

    def nest(self, plan, t, o, op):
        """A nested operation, in a part of the cases with events of its own."""
        tr = self.trigger(plan, t, o, "nest", op=op)
        if tr is None or self.rng.random() < 0.65:
            return tr
        rng = self.rng
        for _ in range(rng.choice([1, 1, 2])):
            act = rng.choice(["abort", "abort", "nest", "switch", "collect"])
            w = self.where(op, act == "abort")
            if w is None:
                continue
            s = dict(loc=w[0], n=w[1], act=act)
            if act == "abort":
                s["exc"] = rng.choice(sorted(EXCS))
                if w[2]:
                    s["end"] = 1
            elif act == "nest":
                s["op"] = self.op(0.1)
            elif act == "switch":
                s["to"] = rng.randrange(len(plan["threads"]))
            tr.setdefault("subs", []).append(s)
        return tr

    def collects(self, plan, n):
        rng = self.rng
        for _ in range(n):
            t = rng.randrange(len(plan["threads"]))
            self.trigger(plan, t, rng.randrange(len(plan["threads"][t])), "collect")

    def switches(self, plan, n):
        rng = self.rng
        T = len(plan["threads"])
        if T < 2:
            return
        if n and rng.random() < 0.25:
            self.meeting(plan)
        for _ in range(n):
            t = rng.randrange(T)
            o = rng.randrange(len(plan["threads"][t]))
            self.trigger(plan, t, o, "switch", to=rng.randrange(T))

    def aborts(self, plan, n):
        rng = self.rng
        for _ in range(n):
            t = rng.randrange(len(plan["threads"]))
            o = rng.randrange(len(plan["threads"][t]))
            self.trigger(plan, t, o, "abort", exc=rng.choice(sorted(EXCS)))

    def clocks(self, plan, n):
        rng = self.rng
        for _ in range(n):
            t = rng.randrange(len(plan["threads"]))
            o = rng.randrange(len(plan["threads"][t]))
            dt = rng.choice([0.0, 0.01, 1.0, 30.0, 3600.0, 1.0e7])
            wall = rng.choice([0.0, 0.0, -1.0, -3600.0, 3600.0, -1.0e9, 1.0e9])
            self.trigger(plan, t, o, "clock", dt=dt, wall=wall)

    def torn(self, op):
        rng = self.rng
        op["hook"] = 1
        if op.get("fl") is None and "list" not in op:
            op["fl"] = rng.choice([0, 2])
        op["torn"] = dict(which=rng.choice(["verts", "faces", "faces"]), m=1, mode=rng.choice(["before", "partial", "after"]), exc=rng.choice(["MemoryError", "OSError", "Error", "KeyboardInterrupt"]))
        return op
