"""C11: sessions of the Blender add-on in a simulated Blender."""
import copy
import importlib.util
import os
import sys
import types
from collections import Counter

from mathutils import Vector

from .hosts import Steps, StepProp
from .kernel import EXCS
from .lab import REPO

PKG = "bpypolyskel_addon"


class HostError(RuntimeError):
    pass


class Host:
    """A model of the parts of Blender that add-ons of this kind use."""

    def __init__(self):
        self.classes = []
        self.manuals = []
        self.menus = {}
        self.objects = []  # scene content: (name, mesh)
        self.meshes = []
        self.undo = []  # stack of scene contents before each operation
        self.redo = []
        self.fault = None  # {"call", "n", "when"}
        self.fired = None
        self.linked = 0
        self.calls = Counter()

    def call(self, name, do):
        self.calls[name] += 1
        f = self.fault
        if f and f["call"] == name:
            f["n"] -= 1
            if f["n"] == 0:
                self.fault = None
                if f["when"] == "after":
                    do()
                self.fired = HostError("simulated error of Blender in %s" % name)
                raise self.fired
        return do()

    def install(self):
        host = self

        class Mesh:
            def __init__(self, name):
                self.name = name
                self.vertices = self.edges = self.polygons = None

            def from_pydata(self, vertices, edges, faces, shade_flat=True):
                def do():
                    vs = [tuple(float(c) for c in v) for v in vertices]
                    if any(len(v) != 3 for v in vs):
                        raise ValueError("vertices need three coordinates")
                    fs = [tuple(int(i) for i in f) for f in faces]
                    self.vertices, self.edges, self.polygons = vs, [tuple(e) for e in edges], fs

                host.call("from_pydata", do)

            def update(self, *a, **k):
                host.call("mesh.update", lambda: None)

            def validate(self, *a, **k):
                return False

        class Meshes:
            def new(self, name="Mesh"):
                def do():
                    m = Mesh(name)
                    host.meshes.append(m)
                    return m

                return host.call("meshes.new", do)

            def remove(self, m, **k):
                host.meshes.remove(m)

        class Menu:
            def __init__(self, name):
                self.name = name
                host.menus[name] = []

            def append(self, f):
                host.call("menu.append", lambda: host.menus[self.name].append(f))

            def prepend(self, f):
                host.call("menu.append", lambda: host.menus[self.name].insert(0, f))

            def remove(self, f):
                if f in host.menus[self.name]:
                    host.menus[self.name].remove(f)

        class Operator:
            def report(self, *a):
                pass

        class Types(types.ModuleType):
            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                m = Menu(n) if n.isupper() or "_MT_" in n else type(n, (), {})
                setattr(self, n, m)
                return m

        class Utils(types.ModuleType):
            def register_class(self, c):
                if c in host.classes or any(x.bl_idname == c.bl_idname for x in host.classes):
                    raise ValueError("already registered as a subclass: %s" % c.__name__)
                host.call("register_class", lambda: host.classes.append(c))

            def unregister_class(self, c):
                if c not in host.classes:
                    raise RuntimeError("unregister_class(...): missing bl_rna attribute from %s (may not be registered)" % c.__name__)
                host.classes.remove(c)

            def register_manual_map(self, f):
                host.call("register_manual_map", lambda: host.manuals.append(f))

            def unregister_manual_map(self, f):
                host.manuals.remove(f)

        class Props(types.ModuleType):
            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                return lambda **k: ("prop", n, k)

        bpy = types.ModuleType("bpy")
        bpy.types = Types("bpy.types")
        bpy.types.Operator = Operator
        bpy.utils = Utils("bpy.utils")
        bpy.props = Props("bpy.props")
        bpy.data = types.SimpleNamespace(meshes=Meshes())
        bpy.context = types.SimpleNamespace(scene=types.SimpleNamespace())
        ex = types.ModuleType("bpy_extras")
        ou = types.ModuleType("bpy_extras.object_utils")

        class AddObjectHelper:
            pass

        def object_data_add(context, obdata, operator=None, name=None):
            def do():
                if obdata not in host.meshes:
                    raise HostError("no such mesh")
                host.objects = host.objects + [(obdata.name, obdata)]
                host.linked += 1

            host.call("object_data_add", do)

        ou.AddObjectHelper, ou.object_data_add = AddObjectHelper, object_data_add
        ex.object_utils = ou
        for n, m in (("bpy", bpy), ("bpy.types", bpy.types), ("bpy.props", bpy.props), ("bpy.utils", bpy.utils), ("bpy_extras", ex), ("bpy_extras.object_utils", ou)):
            sys.modules[n] = m
        self.bpy = bpy

    # ---- what the user does -----------------------------------------------------------
    def load(self):
        for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + ".")]:
            del sys.modules[n]
        spec = importlib.util.spec_from_file_location(PKG, os.path.join(REPO, "__init__.py"), submodule_search_locations=[REPO])
        m = importlib.util.module_from_spec(spec)
        sys.modules[PKG] = m
        spec.loader.exec_module(m)
        return m

    def execute(self, scale):
        """The operator, with the undo behaviour of Blender: a step is pushed only if it finishes."""
        cls = [c for c in self.classes if c.bl_idname == "mesh.add_object"][0]
        op = cls()
        for k, v in scale.items():
            setattr(op, k, Vector(v) if isinstance(v, list) else v)
        before = self.objects
        ctx = types.SimpleNamespace(scene=self.bpy.context.scene, view_layer=None, collection=None)
        r = op.execute(ctx)
        if r == {"FINISHED"}:
            self.undo.append((before, scale))
            self.redo = []
        return r


def mesh_value(m):
    return [m.vertices, m.edges, m.polygons]


class C11(StepProp):
    pid = "C11"
    block_size = 20
    quick = (96, 500)
    thorough = (3000, 800)
    rule = "one evaluation = a session in the simulated Blender (enable, disable, reload, add, adjust the last operation, undo, redo, draw the menu) with errors of Blender and interrupts at planned points; non-trivial: more than one step"
    state_measure = "distinct = different sessions with their outcome"
    real = ["__init__.py (operator, registration)", "bpypolyskel/*", "mathutils"]
    stubs = ["bpy, bpy_extras: model of registration, menus, meshes, scene, undo stack; errors as planned"]
    assumptions = ["Blender pushes an undo step only for operators that finish, and calls unregister() only after a complete register()."]
    _ref = None

    SCALES = [0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 4.0]

    def make(self, lab, rng, block_rng, tier, block, run):
        pool = [[round(block_rng.uniform(0.5, 3.0), 3)] * 3 for _ in range(2)]
        pool += [[s, s, rng.choice(self.SCALES)] for s in block_rng.sample(self.SCALES, 3)] + [[1.0, 1.0, 1.0]]
        pool += [[block_rng.choice([0.75, 1.0, 1.5]), block_rng.choice([0.75, 1.0, 1.5]), 1.0]]
        steps = [{"k": "enable"}]
        for _ in range(rng.choice([1, 2, 4, 7, 12])):
            x = rng.random()
            if x < 0.5:
                s = {"k": "add", "scale": rng.choice(pool)}
            elif x < 0.6:
                s = {"k": "undo"}
            elif x < 0.68:
                s = {"k": "redo"}
            elif x < 0.76:
                s = {"k": "adjust", "scale": rng.choice(pool)}
            elif x < 0.82:
                s = {"k": "menu"}
            elif x < 0.94:
                s = {"k": "disable"}
            else:
                s = {"k": "reload"}
            if s["k"] in ("add", "adjust") and rng.random() < 0.4:
                if rng.random() < 0.65:
                    s["fault"] = {"kind": "interrupt", "n": rng.choice([1, rng.randint(1, 60), rng.randint(1, 25000), rng.randint(1, 25000)]), "exc": rng.choice(sorted(EXCS))}
                else:
                    s["fault"] = {"kind": "host", "call": rng.choice(["from_pydata", "meshes.new", "object_data_add"]), "n": 1, "when": "before"}
                    if s["fault"]["call"] != "object_data_add" and rng.random() < 0.4:
                        s["fault"]["when"] = "after"
            steps.append(s)
            if s["k"] == "disable":
                steps.append({"k": "enable"})
        if rng.random() < 0.5:
            steps.append({"k": "disable"})
        return {"steps": steps}

    def reference(self, lab, scales):
        """Mesh of a fresh session, after the checks that need no reference."""
        if self._ref is None:
            self._ref = {}

        for s in scales:
            k = tuple(s)
            if k not in self._ref:
                self._ref[k] = lab.remote("prop", "single", [list(k)])
        return {tuple(s): self._ref[tuple(s)] for s in scales}

    def single(self, lab, s):
        h = Host()
        h.install()
        m = h.load()
        m.register()
        with Steps() as S:
            S.cap = 2000000
            h.execute({"scale": list(s)})
        if len(h.objects) != 1:
            return None, "adds %d objects" % len(h.objects), S.n
        mesh = h.objects[0][1]
        return mesh_value(mesh), self.closed(mesh, s), S.n

    def closed(self, mesh, s):
        """Walls and roof of the mesh fit together; None if all is well."""
        V, F = mesh.vertices, mesh.polygons
        if V is None:
            return "the mesh has no data"
        if any(not 0 <= i < len(V) for f in F for i in f):
            return "index out of range"
        if any(len(f) < 3 or len(set(f)) != len(f) for f in F):
            return "degenerate face"
        ztop = 5.0 * s[2]
        base = [i for i, v in enumerate(V) if v[2] == 0.0]
        n = len(base)
        if n != 26:
            return "%d vertices on the ground" % n
        top = {}
        for i in base:
            t = [j for j, v in enumerate(V) if v[:2] == V[i][:2] and abs(v[2] - ztop) < 1e-4 * ztop and j not in base]
            if len(t) < 1:
                return "no vertex above %d" % i
            top[i] = t[0]
        if any(v[2] < ztop - 1e-4 * ztop for i, v in enumerate(V) if i not in base):
            return "a roof vertex is below the top of the walls"
        if all(v[2] < ztop + 1e-3 * ztop for v in V):
            return "the roof is flat"
        tops = set(top.values())
        cnt = Counter(e for f in F for e in zip(f, f[1:] + f[:1]))
        for e, c in cnt.items():
            if c != 1:
                return "edge %s is in %d faces in the same direction" % (e, c)
            if e[0] in base and e[1] in base:
                continue
            if cnt[(e[1], e[0])] != 1:
                return "edge %s has no partner: the mesh is not closed there" % (e,)
        ground = [e for e in cnt if e[0] in base and e[1] in base]
        if len(ground) != n:
            return "%d wall edges on the ground" % len(ground)
        walls = [f for f in F if any(i in base for i in f)]
        edges = {(a, b) for f in walls for a, b in zip(f, f[1:] + f[:1]) if a in tops and b in tops}
        if len(edges) != n:
            return "%d top edges" % len(edges)
        return None

    def execute(self, lab, plan):
        refs = self.reference(lab, [s["scale"] for s in plan["steps"] if "scale" in s])
        return lab.remote("prop", "session", [plan], refs, self.limit)

    def session(self, lab, plan, refs):
        h = Host()
        h.install()
        bad = []
        log = []
        fired = Counter()
        kinds = Counter()

        def fail(k, t):
            if not any(x == k for x, _ in bad):
                bad.append((k, t))

        for k, (mesh, text, n) in refs.items():
            if text:
                fail("mesh-not-closed", "scale %s: %s" % (k, text))
        enabled = False
        module = None
        model = []  # scales of the objects in the scene
        undo, redo = [], []
        S = Steps()
        S.cap = 400000 * (len(plan["steps"]) + 2)

        def clean(i):
            if h.classes or h.manuals or any(h.menus.values()):
                fail("left-registered", "after step %d: %d classes, %d manual maps, %s menu entries" % (i, len(h.classes), len(h.manuals), {k: len(v) for k, v in h.menus.items() if v}))

        def check_scene(i):
            if len(h.objects) != len(model):
                fail("wrong-objects", "after step %d the scene has %d objects instead of %d" % (i, len(h.objects), len(model)))
                return
            for (name, mesh), s in zip(h.objects, model):
                if refs[tuple(s)][0] is not None and mesh_value(mesh) != refs[tuple(s)][0]:
                    fail("wrong-mesh", "after step %d the mesh for scale %s differs from the one of a fresh session" % (i, s))

        with S:
            for i, s in enumerate(plan["steps"]):
                k = s["k"]
                kinds[k] += 1
                exc = inj = None
                n0 = S.n
                try:
                    if k == "enable" and not enabled:
                        if module is None:
                            module = h.load()
                        module.register()
                        enabled = True
                        if len(h.classes) != 1 or len(h.manuals) != 1 or sum(map(len, h.menus.values())) != 1:
                            fail("not-registered", "step %d" % i)
                    elif k == "disable" and enabled:
                        module.unregister()
                        enabled = False
                        clean(i)
                    elif k == "reload" and enabled:
                        module.unregister()
                        clean(i)
                        module = h.load()
                        module.register()
                    elif k == "menu" and enabled:
                        got = []
                        for fs in h.menus.values():
                            for f in fs:
                                f(types.SimpleNamespace(layout=types.SimpleNamespace(operator=lambda *a, **kw: got.append(a[0]))), None)
                        if got != ["mesh.add_object"]:
                            fail("wrong-menu", "the menu offers %s" % got)
                        for f in h.manuals:
                            prefix, mp = f()
                            if not any("mesh.add_object" in x[0] for x in mp):
                                fail("wrong-manual", str(mp))
                    elif k == "undo" and undo:
                        redo.append((model, undo[-1][1]))
                        model = undo.pop()[0]
                        o, sc = h.undo.pop()
                        h.redo.append((h.objects, sc))
                        h.objects = o
                    elif k == "redo" and redo:
                        m2, sc = redo.pop()
                        undo.append((model, sc))
                        model = m2
                        o, sc2 = h.redo.pop()
                        h.undo.append((h.objects, sc2))
                        h.objects = o
                    elif k in ("add", "adjust") and enabled:
                        if k == "adjust":
                            if not undo:
                                continue
                            # adjusting the last operation: undo it and execute it again
                            model = undo.pop()[0]
                            h.objects = h.undo.pop()[0]
                        f = s.get("fault")
                        linked = h.linked
                        h.fired = None
                        if f and f["kind"] == "host":
                            h.fault = dict(f)
                        elif f:
                            S.arm(f["n"], f["exc"])
                        r = None
                        try:
                            r = h.execute({"scale": s["scale"]})
                        except BaseException as e:
                            exc = e
                        inj = S.disarm() or h.fired
                        h.fault = None
                        if inj is not None:
                            fired[f["kind"] + " " + (f.get("call") or f["exc"])] += 1
                            if exc is None and r == {"FINISHED"}:
                                fail("failure-reported-as-success", "step %d was hit by %r and reports FINISHED" % (i, inj))
                            if h.linked != linked and f["kind"] == "interrupt":
                                h.objects = h.objects[: len(model)]  # hit after the object was complete and linked
                        elif exc is None and r == {"FINISHED"}:
                            undo.append((model, s["scale"]))
                            redo = []
                            model = model + [s["scale"]]
                        elif exc is None:
                            fail("cancelled", "step %d: %s" % (i, r))
                        own = refs[tuple(s["scale"])][2]
                        if inj is None and S.n - n0 > 1.3 * own + 200:
                            fail("slower", "step %d takes %d steps, in a fresh session %d" % (i, S.n - n0, own))
                except BaseException as e:
                    exc = e
                    fail("step-fails", "step %d (%s): %r" % (i, s, e))
                    break
                if exc is not None and inj is None:
                    fail("step-fails", "step %d (%s): %r" % (i, s, exc))
                check_scene(i)
                log.append([i, k, type(exc).__name__ if exc else None, len(h.objects)])
                if bad:
                    break
        if S.capped:
            bad[:] = [("too-many-steps", "more than %d steps" % S.cap)]
        return {"bad": bad, "log": log, "fired": dict(fired), "kinds": dict(kinds), "n": S.n}
