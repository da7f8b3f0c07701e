"""C10: the demo, with real matplotlib on the Agg backend; the user and the event loop are simulated."""
import importlib.util
import math
import os
import sys
from collections import Counter

from .hosts import Steps, StepProp
from .kernel import EXCS
from .lab import REPO


class SimFault(Exception):
    pass


class C10(StepProp):
    pid = "C10"
    block_size = 8
    quick = (48, 500)
    thorough = (2400, 800)
    min_budget = (60, 90)
    rule = "one evaluation = a session of the demo: slider values (set or dragged with simulated mouse events), direct redraws of further axes, redraws that fail or are interrupted; after each undisturbed event the artists of the axes are compared with those of a fresh demo at this pitch; non-trivial: more than one event"
    state_measure = "distinct = different sessions with their outcome"
    real = ["demo.py", "bpypolyskel/*", "matplotlib (3D axes, Slider, event dispatch) on the Agg backend", "mathutils"]
    stubs = ["user and event loop: plt.show() runs the planned session", "rendering of pixels: left out, except in a part of the runs"]
    assumptions = ["After an event whose redraw failed nothing is required of the axes until the next redraw."]
    _ref = None

    # ---- setting up (in a child) ----------------------------------------------------
    def load(self, lab):
        os.environ["MPLBACKEND"] = "Agg"
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        import matplotlib.widgets as mw

        if not hasattr(mw, "_sim_sliders"):
            mw._sim_sliders = []
            base = mw.Slider

            class Slider(base):
                def __init__(self, *a, **k):
                    mw._sim_sliders.append(self)
                    base.__init__(self, *a, **k)

            mw.Slider = Slider
        spec = importlib.util.spec_from_file_location("demo", os.path.join(REPO, "demo.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules["demo"] = m
        spec.loader.exec_module(m)
        return m, plt, mw

    def preload(self, lab):
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot  # so that the children do not have to
        import mpl_toolkits.mplot3d

    def snapshot(self, ax):
        """What the axes show: segments with their style, limits, number of artists of each kind."""
        segs = set()

        def add(pts, style):
            for a, b in zip(pts, pts[1:]):
                a = tuple(round(float(c), 4) + 0.0 for c in a)
                b = tuple(round(float(c), 4) + 0.0 for c in b)
                if a != b:
                    segs.add((min(a, b), max(a, b), style))

        other = Counter()
        for art in ax.get_children():
            n = type(art).__name__
            if hasattr(art, "get_data_3d"):
                xs, ys, zs = art.get_data_3d()
                add(list(zip(xs, ys, zs)), "%s %s" % (art.get_color(), art.get_visible()))
            elif hasattr(art, "_segments3d"):
                for s in art._segments3d:
                    add([tuple(p) for p in s], "%s" % art.get_visible())
            else:
                other[n] += 1
        return {
            "segments": sorted(segs), "zlim": [round(float(x), 4) for x in ax.get_zlim()], "xlim": [round(float(x), 3) for x in ax.get_xlim()],
            "ylim": [round(float(x), 3) for x in ax.get_ylim()], "other": sorted(other.items()),
        }

    def reference(self, lab, pitches):
        """Fresh demos: axes and steps of a single redraw, and the roof from the library alone."""
        if self._ref is None:
            self._ref = {}
        todo = [p for p in pitches if p not in self._ref]

        for p in todo:
            self._ref[p] = lab.remote("prop", "single", [p])
        return {p: self._ref[p] for p in pitches}

    def single(self, lab, p):
        m, plt, mw = self.load(lab)
        fig = plt.figure("x")
        ax = fig.add_subplot(projection="3d")
        with Steps() as S:
            m.create_roof(p, ax)
        snap = self.snapshot(ax)
        m2, _, _ = self.load(lab)
        V = [v.copy() for v in m2.VERTS]
        F = lab.b.polygonize(V, m2.FIRST_VERTEX_INDEX, m2.NUM_VERTS, m2.HOLES_INFO, 0.0, math.tan(p * math.pi / 180), None, None)
        segs = set()
        for f in F:
            for i, j in zip(f, f[1:] + f[:1]):
                a = tuple(round(float(c), 4) + 0.0 for c in V[i])
                b = tuple(round(float(c), 4) + 0.0 for c in V[j])
                if a != b:
                    segs.add((min(a, b), max(a, b)))
        return snap, S.n, sorted(segs)

    # ---- plan -----------------------------------------------------------------------------
    def make(self, lab, rng, block_rng, tier, block, run):
        base = [float(block_rng.randint(0, 80)) for _ in range(6)] + [30.0, 0.0, 80.0]
        steps = []
        n = rng.choice([1, 2, 3, 4, 6, 10])
        if rng.random() < 0.04:
            n = 25
        extra = rng.random() < 0.3
        for i in range(n):
            s = {"k": "set", "pitch": rng.choice(base)}
            x = rng.random()
            if x < 0.25:
                s["k"] = "drag"
                s["pitch"] = min(max(s["pitch"], 2.0), 78.0)  # within the slider
            elif extra and x < 0.6:
                s = {"k": "direct", "pitch": rng.choice(base), "ax": rng.randint(1, 2)}
            elif steps and x < 0.7:
                s["pitch"] = steps[-1].get("pitch", 30.0)
            if rng.random() < 0.35:
                y = rng.random()
                if y < 0.6:
                    s["fault"] = {"kind": "interrupt", "n": rng.choice([1, 2, rng.randint(1, 40), rng.randint(1, 12000)]), "exc": rng.choice(sorted(EXCS))}
                else:
                    s["fault"] = {"kind": "axes", "call": rng.choice(["plot", "plot", "plot", "clear", "axis", "set_zlim"]), "n": rng.choice([1, 1, 2, 5, rng.randint(1, 40)]), "when": rng.choice(["before", "after"])}
            steps.append(s)
        return {"steps": steps, "draw": rng.random() < 0.03}

    # ---- execution ----------------------------------------------------------------------------
    def execute(self, lab, plan):
        refs = self.reference(lab, sorted({s["pitch"] for s in plan["steps"] if "pitch" in s} | {30.0}))
        return lab.remote("prop", "session", [plan], refs, self.limit)

    def session(self, lab, plan, refs):
        m, plt, mw = self.load(lab)
        from matplotlib.backend_bases import MouseEvent
        from mpl_toolkits.mplot3d import Axes3D

        bad = []
        log = []
        fired = Counter()
        kinds = Counter()
        S = Steps()
        S.cap = 40000 * (len(plan["steps"]) + 3)
        foot = [tuple(v) for v in m.VERTS]
        armed = {}
        shown = {}  # axes -> pitch it must show, None if unknown
        axes = []
        total = [0]

        for name in ("plot", "clear", "axis", "set_zlim"):
            def wrap(name, f):
                def g(self, *a, **k):
                    if armed.get("call") == name:
                        armed["n"] -= 1
                        if armed["n"] == 0:
                            armed["call"] = None
                            if armed["when"] == "after":
                                f(self, *a, **k)
                            armed["fired"] = SimFault("simulated failure of %s" % name)
                            raise armed["fired"]
                    return f(self, *a, **k)

                return g

            setattr(Axes3D, name, wrap(name, getattr(Axes3D, name)))

        def fail(k, t):
            if not any(x == k for x, _ in bad):
                bad.append((k, t))

        def verify(i):
            for ax, p in shown.items():
                if p is None:
                    continue
                snap = self.snapshot(ax)
                ref, _, segs = refs[p]
                if snap["segments"] != ref["segments"]:
                    a = [x for x in snap["segments"] if x not in ref["segments"]]
                    b = [x for x in ref["segments"] if x not in snap["segments"]]
                    fail("wrong-picture", "after event %d the axes must show pitch %g; %d lines too many, %d missing" % (i, p, len(a), len(b)))
                elif [(a, b) for a, b, _ in snap["segments"]] != segs:
                    fail("not-the-roof", "pitch %g" % p)
                if snap["other"] != ref["other"]:
                    fail("other-artists", "%s instead of %s" % (snap["other"], ref["other"]))
                for k in ("xlim", "ylim", "zlim"):
                    if snap[k] != ref[k]:
                        fail("wrong-limits", "after event %d %s is %s instead of %s" % (i, k, snap[k], ref[k]))
            if [tuple(v) for v in m.VERTS[: len(foot)]] != foot:
                fail("footprint-changed", "after event %d" % i)

        def event(i, s, do, ax, changes):
            f = s.get("fault")
            armed.clear()
            if f and f["kind"] == "axes":
                armed.update(call=f["call"], n=f["n"], when=f["when"])
            elif f:
                S.arm(f["n"], f["exc"])
            n0 = S.n
            exc = None
            try:
                do()
            except BaseException as e:
                exc = e
            inj = S.disarm() or armed.get("fired")
            armed.clear()
            if inj is not None:
                fired[f["kind"] + " " + (f.get("call") or f["exc"])] += 1
                shown[ax] = None
            elif exc is not None:
                fail("event-fails", "event %d (%s): %r" % (i, s, exc))
                shown[ax] = None
            elif changes:
                shown[ax] = s["pitch"]
                own = refs[s["pitch"]][1]
                if S.n - n0 > 1.3 * own + 200:
                    fail("redraw-slower", "event %d takes %d steps, in a fresh demo %d" % (i, S.n - n0, own))
            log.append([i, s["k"], type(exc).__name__ if exc else None, S.n - n0])
            kinds[s["k"]] += 1
            verify(i)

        def scenario(*a, **k):
            figs = [plt.figure(n) for n in plt.get_fignums()]
            fig = figs[0]
            ax = [x for x in fig.axes if hasattr(x, "get_zlim")][0]
            if not plan.get("draw"):
                fig.canvas.draw = fig.canvas.draw_idle = lambda *a, **k: None
            shown[ax] = 30.0
            verify(-1)
            sliders = mw._sim_sliders
            sl = sliders[-1] if sliders else None
            if sl is None:
                fail("no-slider", "the demo has no slider")
                return
            more = {}
            current = 30.0
            for i, s in enumerate(plan["steps"]):
                if s["k"] == "direct":
                    if s["ax"] not in more:
                        f2 = plt.figure("extra%d" % s["ax"])
                        more[s["ax"]] = f2.add_subplot(projection="3d")
                    x = more[s["ax"]]
                    event(i, s, lambda: m.create_roof(s["pitch"], x), x, True)
                elif s["k"] == "set":
                    event(i, s, lambda: sl.set_val(s["pitch"]), ax, True)
                    current = float(sl.val)
                else:
                    # a drag: press, move, release at the place of the value on the slider
                    x, y = sl.ax.transData.transform((0.5, s["pitch"]))
                    changed = float(sl.val) != s["pitch"]

                    def do():
                        cv = fig.canvas
                        for nm in ("button_press_event", "motion_notify_event", "button_release_event"):
                            cv.callbacks.process(nm, MouseEvent(nm, cv, x, y, 1))

                    event(i, s, do, ax, changed)
                    if float(sl.val) != s["pitch"]:
                        fail("slider-misses", "dragged to %g, it has the value %g" % (s["pitch"], sl.val))
                    if sl.drag_active:
                        sl.drag_active = False
                        fig.canvas.release_mouse(sl.ax)
                if bad:
                    break

        plt.show = scenario
        m.plt.show = scenario
        with S:
            try:
                m.run_demo()
            except BaseException as e:
                import traceback
                fail("demo-fails", "%r" % e + traceback.format_exc()[-600:])
        if S.capped:
            bad[:] = [("too-many-steps", "more than %d steps" % S.cap)]
        return {"bad": bad, "log": log, "fired": dict(fired), "kinds": dict(kinds), "n": S.n}
